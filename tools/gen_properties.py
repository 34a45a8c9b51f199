#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
C = "src/collection/"
U = "src/util/"
AVL = [C+"avl.go", C+"sorted_map.go", C+"sorted_set.go"]
HASH = [C+"hash.go", C+"hash_map.go", C+"hash_set.go"]

p("C01", "Sorted maps and sets behave as finite maps and sets",
  "After any history of puts, gets, existence tests and removals, a sorted map answers exactly as a mathematical map would: a get returns the value last put under an equal key and not removed since (nil otherwise), put and remove return the value they replace, and the size is the number of keys present. A sorted set answers likewise about membership.",
  ["histories", "inputs"], "every sequence of put/get/exist/remove/size calls, over every set of totally ordered keys, including overwrites and removal of absent keys and of nodes with two children",
  "avl_test.go inserts one random permutation and removes a few keys; it never checks returned old values, absent removals, or the tree shapes that need each rotation on removal.",
  AVL, [("AVL insertion and removal with rotations", C+"avl.go putR/removeR/putBalance/removeBalance"), ("map and set facades", C+"sorted_map.go, sorted_set.go")],
  [("tree", "keys, values and balance factors", C+"avl.go AVLNode"), ("size", "number of entries", C+"avl.go AVLTree.size")],
  ["SortedMap.Get/Put/Remove/Size", "SortedSet.Exist/Put/Remove/Size"])
p("C02", "Ordered iteration yields every entry exactly once, in key order",
  "Iterating a sorted map or set that is not modified meanwhile yields every entry exactly once in ascending key order with its current value. Asking whether there is a next entry, or peeking at it, never changes what is yielded; peeking shows exactly what the next step returns, and past the last entry the iterator reports no next entry and yields nil.",
  ["histories", "inputs"], "every map content and tree shape reachable by puts and removals, and every interleaving of HasNext, Peek and Next calls, also past the end and with several iterators open",
  "The tests iterate one tree with a plain HasNext/Next loop; no Peek, no repeated HasNext, no iteration after removals, nothing past the end.",
  AVL, [("in-order traversal with an explicit path", C+"avl.go AVLIterator")], None, ["Iterator().HasNext/Peek/Next"])
p("C03", "Range iteration yields exactly the keys of the half-open range",
  "Range iteration over a sorted map or set yields, in ascending order and exactly once each, precisely the entries whose keys are at least the start and below the end. A missing start or end leaves that side unbounded, and the bounds need not be present as keys.",
  ["histories", "inputs"], "every map content and tree shape, every pair start <= end (present, absent, equal, missing), every interleaving of HasNext/Peek/Next",
  "The only range test prints its result and asserts nothing about bounds.",
  AVL, [("seek to start, stop at end", C+"avl.go NewAVLIterator/advance")], None, ["RangeIterator(start, end)"])
p("C04", "Sorted lookups stay logarithmic under any history",
  "Whatever the order of insertions and removals, finding a key in a sorted map or set with n entries compares the searched key with no more different stored keys than the height of the tallest height-balanced binary tree with n entries (about 1.44 * log2 n).",
  ["histories"], "every history of puts and removals, notably ascending, descending, zigzag and delete-heavy ones",
  "The tests never look at the cost or shape; a tree that lost its balance answers every functional test correctly.",
  AVL, [("rebalancing", C+"avl.go putBalance/removeBalance/adjustBalance")], [("balance", "height difference of the two subtrees", C+"avl.go AVLNode.balance")],
  ["number of distinct stored keys compared during Get/Exist"])
p("C05", "Hash maps and sets behave as finite maps across resizes",
  "After any history of puts, gets, existence tests and removals, a hash map or set answers exactly as a mathematical map or set: values last put, previous values returned, exact size. This holds whatever the initial capacity, load factor and growth multiplier, however many keys collide, and across every growth and shrinkage of the table.",
  ["histories", "inputs", "configurations"], "every call sequence, colliding and non-colliding keys, capacities/load factors/multipliers inside and outside their valid ranges, table growth and shrinkage",
  "hash_test.go inserts and removes sequential keys with default parameters once; it uses no colliding keys, custom parameters or interleaved grow/shrink.",
  HASH, [("bucket chains", C+"hash.go Put/Get/Remove"), ("rehash", C+"hash.go resize")],
  [("array", "bucket chains", C+"hash.go Hash.array"), ("size", "number of entries", C+"hash.go Hash.size")], ["HashMap.Get/Put/Remove/Size", "HashSet.Exist/Put/Remove/Size"])
p("C06", "Hash iteration yields every entry exactly once",
  "Iterating a hash map or set that is not modified meanwhile yields every entry exactly once with its current value, in any order. Asking for or peeking at the next entry changes nothing, and past the last entry the iterator reports no next entry and yields nil.",
  ["histories", "inputs"], "every content and table layout reachable by puts, removals and resizes; every interleaving of HasNext/Peek/Next",
  "TestHash iterates the bare table, whose iterator reports no entries; no test iterates a map or set.",
  HASH, [("bucket walk", C+"hash.go hashNodeIterator")], [("pos, currNode", "position of the iterator", C+"hash.go hashNodeIterator")], ["Iterator().HasNext/Peek/Next"])
p("C07", "Slice comparison is a total order consistent with equality",
  "For every supported element type, comparing two slices is the lexicographic order of their elements with a proper prefix first: antisymmetric, transitive and total, never panicking, with comparison giving zero exactly when the slices are equal. A nil slice orders before any non-nil slice and equals only nil, and the comparable wrapper objects follow the same order and equality; they come after nil elements and are equal to neither nil nor an object of another type.",
  ["inputs"], "all pairs and triples of slices of bytes and of 8- to 64-bit signed and unsigned integers and ints, and of comparables, of any lengths including nil and empty, with extreme element values",
  "No test compares slices of different lengths, nil slices or extreme values of most element types.",
  [C+"util.go", C+"comparable.go"], [("element-wise comparison", C+"util.go Compare*Slice"), ("equality", C+"util.go Equal*Slice"), ("wrappers", C+"comparable.go Compare/Equal")], None, ["Compare*Slice, Equal*Slice, Comparable*Slice.Compare/Equal"])
p("C08", "Equal objects have equal hashes and hashing never fails",
  "Two hashable slices or keys that are equal hash to the same value under every hash function, in whatever form they are held (empty, constructed or decoded from bytes); they are equal when type and content are the same, and to nothing of another type or content. Hashing is deterministic, never panics and leaves its object unchanged. Byte slices, integer slices and keys feed their whole content, in order, to the hash function, so that two of them with different content are told apart by a collision-free hash function; so are composite slices, unless they hold the same elements up to their order and to pairs of equal ones.",
  ["inputs", "configurations"], "all byte, integer and composite slices, all keys in all three forms, and all hash seeds",
  "Only murmur3 reference vectors for single byte strings are tested; integer wrappers, composites and mixed key forms are not hashed at all.",
  [C+"hashable.go", C+"hash.go", U+"key_util.go"], [("wrapper hashing", C+"hashable.go HashUint32"), ("key hashing", U+"key_util.go HashUint32")], None, ["HashUint32(f), Equal"])
p("C09", "Keys are totally ordered lexicographically whatever their form",
  "Comparing two keys gives the lexicographic order of their sub key sequences, each sub key ordered bytewise and a proper prefix first. The result depends only on the sub keys, not on whether a key is empty, constructed or decoded from bytes; it is antisymmetric and transitive, and zero exactly when the keys are equal. A key comes after nil and equals nothing that is not a key.",
  ["inputs"], "all pairs and triples of keys with any number of sub keys, in every combination of the three key forms",
  "Tests compare no keys with differing numbers of sub keys and no mixed forms.",
  [U+"key_util.go"], [("comparison", U+"key_util.go Compare/Equal of EmptyKey, MappedKey, Key")], None, ["IKey.Compare, IKey.Equal"])
p("C10", "Keys survive encoding and decoding exactly",
  "Encoding any key of at most 4096 encoded bytes and decoding the result gives an equal key and consumes exactly the encoded bytes, whatever bytes follow them; the decoded key re-exposes exactly those bytes. A larger key is refused with an error instead of being encoded.",
  ["inputs"], "all lists of non-empty sub keys, with lengths around every length-field boundary and around the size limit, followed by arbitrary bytes",
  "Tests round-trip a few short keys with no trailing bytes and no boundary lengths.",
  [U+"key_util.go", U+"misc_util.go"], [("key codec", U+"key_util.go Key.Encode/MappedKey.Decode"), ("limit", U+"const_util.go MAX_KEY_LENGTH")], None, ["Key.Encode/Buf, NewMappedKey"])
p("C11", "Values survive encoding and decoding exactly",
  "Any value - a byte string, an array of values or a list of records, nested to any depth and with at most 65535 bytes of content and 65535 elements per level - decodes from its encoding to a value of the same kind, size and content, with each element readable by index in any order, consuming exactly the encoded bytes whatever follows. Oversized content is refused with an error; reading an element out of range, or of the wrong kind, is an error.",
  ["inputs"], "all value trees, with content sizes and element counts around 0, 255/256 and 65535/65536, and every order of element access",
  "value_util_test covers a few hand-made values and its main test does not even pass at the pinned commit.",
  [U+"value_util.go"], [("value codec", U+"value_util.go Primitive/ValueArray/RecordList.Encode, StandardMappedValue.Decode"), ("lazy element access", U+"value_util.go ValueAt/RecordAt")], None, ["Encode/Buf, NewStandardMappedValue, ValueAt, RecordAt, Value, Size"])
p("C12", "Records survive encoding and decoding exactly",
  "Any record, with any subset of key, value, scheme, timestamp and - given a timestamp - signature, decodes from its encoding to the same parts and consumes exactly the encoded bytes, whatever follows. Absent parts stay absent, and a record whose key, value or scheme exceeds its size limit is refused with an error.",
  ["inputs"], "all combinations of present and absent parts, part sizes around the limits (4096, 57344, 1024), timestamps over the whole nanosecond range, 256-bit signatures with leading zero bytes",
  "record_util_test.go contains no assertions; records are only exercised through a few value tests with all parts present.",
  [U+"record_util.go"], [("record codec", U+"record_util.go Record.Encode/MappedRecord.Decode")], None, ["Record.Encode/Buf, NewMappedRecord and accessors"])
p("C13", "Schemes survive decoding, copying and encoding exactly",
  "Decoding the bytes of a scheme gives its domain, tablet and buckets, in any combination of present and absent parts, and consumes exactly the scheme's bytes. A modifiable copy encodes to the very same bytes, so that decoding and encoding are inverse to each other; schemes of more than 1024 bytes are refused with an error.",
  ["inputs"], "all eight combinations of parts, empty and boundary-length names, any number of buckets, any trailing bytes",
  "There is no scheme test at all.",
  [U+"scheme_util.go"], [("scheme codec", U+"scheme_util.go MappedScheme.Decode/Scheme.Encode")], None, ["NewMappedSchemd, Decode, CopyConstruct, Encode, Buf"])
p("C14", "Consensus times are totally ordered and survive encoding",
  "For two consensus times of the same kind the six comparisons agree with one total order: ledger times by epoch, raft times by term, then milliseconds, then count; exactly one of less, equal and greater holds. Times of different kinds are refused with an error, and encoding a time and decoding it gives an equal time, while truncated or unknown encodings are errors.",
  ["inputs"], "all pairs of 32-bit field values (notably pairs that differ in one field while later fields disagree), all kinds, all truncations",
  "No test touches consensus times.",
  [U+"consensus_util.go"], [("comparisons", U+"consensus_util.go LedgerTime/RaftTime GT..LE"), ("codec", U+"consensus_util.go Buf/NewConsensusTime")], None, ["GT/GE/EQ/NE/LT/LE, Buf, NewConsensusTime"])
p("C15", "Consensus ids are accepted exactly when complete, and never over-read",
  "A consensus id is accepted exactly when its first byte is non-zero, has no reserved bit set, and all the 32-byte ids (two for a shard range) it announces follow. The accepted id keeps its magic byte and exposes exactly the announced bytes, whatever follows them, and a copy of it shares nothing with the original buffer.",
  ["inputs"], "all 256 first bytes and all buffer lengths from 0 to beyond the longest id",
  "No test touches consensus ids.",
  [U+"consensus_util.go"], [("parser", U+"consensus_util.go NewMappedConsensusID")], None, ["NewMappedConsensusID, ConsensusMagic, Buf, Copy"])
p("C16", "Perfect hash lookup finds every key at its index and nothing else",
  "Building a minimal perfect hash table from any list of distinct keys terminates, and looking up the i-th key finds index i, in whatever form the key is presented. With verification by key, any other key is reported absent; with verification by hash, an index reported for a present key is always right; lookup never panics, also in an empty table.",
  ["inputs", "configurations"], "all lists of distinct keys: none, one, many, with several sub keys, permutations of the same sub keys, the empty key; both verification modes",
  "mph_util_test uses single-sub-key string keys only; no empty table, no multi-part keys, no mixed key forms.",
  [U+"mph_util.go", U+"key_util.go"], [("hash-and-displace construction", U+"mph_util.go MPHBuild"), ("verification", U+"mph_util.go Lookup")], None, ["MPHBuild, MPHTable.Lookup"])
p("C17", "Perfect hash tables survive serialization",
  "A serialized perfect hash table parses back, consuming exactly its bytes whatever follows, to a table that answers every lookup as the original did and serializes to the same bytes.",
  ["inputs", "configurations"], "all key lists (none, one, many, multi-part keys) in both verification modes, followed by arbitrary bytes",
  "Tests serialize one table per mode with simple keys and no trailing bytes.",
  [U+"mph_util.go"], [("codec", U+"mph_util.go Encode/NewMPHTable")], None, ["MPHTable.Encode, NewMPHTable, Lookup"])
p("C18", "Malformed bytes give errors, never crashes or over-reads",
  "Decoding arbitrary bytes as a key, value, record, scheme, consensus time or id, perfect hash table, trie or variable-length item, and then reading everything the decoded object offers, always returns promptly with a result or an error: no panic, no endless loop, no allocation out of proportion to the input. A success never claims to have consumed more bytes than given, and a non-empty proper prefix of a valid encoding of a key, value, scheme, table, trie or record (whose signature is optional) is never accepted as complete.",
  ["inputs", "fault_sequences"], "all byte strings; in particular every truncation and every single- and multi-byte corruption of valid encodings, and huge length fields",
  "Tests decode only well-formed buffers.",
  [U+"key_util.go", U+"value_util.go", U+"record_util.go", U+"scheme_util.go", U+"consensus_util.go", U+"mph_util.go", U+"misc_util.go", U+"trie_util.go"],
  [("length checks before every read", "all Decode functions")], None, ["all decoders and the accessors of what they return"])
p("C19", "Changing an object after encoding it never leaves stale bytes",
  "After any interleaving of modifications and encodings of a key, byte string, value array, record list, record or trie, a successful encoding yields bytes that decode to the current content. An object modified through its own operations since it was last encoded never hands out its earlier bytes as if they were current, and bytes handed out by an encoding never change afterwards.",
  ["histories"], "every interleaving of add/append/delete/set and encode on objects and on the parts nested in them",
  "Tests encode each object once, after it is complete.",
  [U+"key_util.go", U+"value_util.go", U+"record_util.go", U+"trie_util.go"], [("invalidation of the encoded buffer", "Add, Append, DeleteAt, Set*, Trie.Set")], [("encoded, buf", "cached encoding", "Key, ValueArray, RecordList, Record, Trie")], ["IsEncoded, Encode, Buf"])
p("C20", "Copies are independent of their originals",
  "Copying a key, value, record, scheme, consensus id or trie, as a read-only or as a modifiable copy, gives an object with equal content. Afterwards no modification of the original, nor overwriting of the bytes it was built or decoded from, changes the copy, and no modification of the copy changes the original; neither changes when the caller overwrites bytes that the other shows.",
  ["histories", "inputs"], "every kind and nesting of objects, copied by either copy operation, followed by any modifications of either side or overwriting of the source bytes",
  "No test modifies anything after copying it.",
  [U+"key_util.go", U+"value_util.go", U+"record_util.go", U+"scheme_util.go", U+"consensus_util.go", U+"trie_util.go"], [("Copy and CopyConstruct", "all encodable types")], None, ["Copy, CopyConstruct, then accessors and Encode of both sides"])
p("C21", "The key store returns exactly the saved key, or an error",
  "For every key class and id, loading a saved pair with the right secret gives exactly the public and private key last saved completely; a wrong or unusable secret, a missing, truncated or corrupted file gives an error, never a panic or a different key. Saving under one class and id never affects another, and a save that is refused, or cannot write one of the files, leaves the stored pair as it was.",
  ["histories", "fault_sequences", "crash_points"], "every history of saves and loads over several classes, ids and secrets, with any stored file cut at any point (torn write) or altered at any position in between, and with anything else in the place of a file or of their folder",
  "lc_util_test saves and loads one pair per class at real system paths; no corruption, wrong secret, overwrite or refused save.",
  [U+"lc_util.go", U+"ecdsa_util.go"], [("CRC32 on every file, AES-GCM on private keys", U+"lc_util.go lc_save_key_pair/lc_load_key_data/lc_load_priv_key")], [("key files", "hex of data and CRC per class and id", U+"lc_util.go")], ["LCSaveKeyPair, LCLoadPubKey, LCLoadPrivKey, LCExist*"])
p("C22", "Signatures verify exactly for their message and reloaded key",
  "A signature made with a generated private key, also after that key was rebuilt from its stored bytes, verifies with the public key rebuilt from its stored X coordinate alone, for exactly the signed digest. It does not verify for another digest, another key or an altered signature, and verification with an invalid key or a missing signature is false rather than a panic.",
  ["histories", "inputs"], "every generated key (half of all keys have the other Y), digest, and alteration of digest, key or signature, in any order of generate/reload/sign/verify",
  "ecdsa_util_test verifies one or a few keys with fresh randomness and only the positive case.",
  [U+"ecdsa_util.go"], [("key normalisation and Y recovery", U+"ecdsa_util.go ECDSAGenerateKey/ECDSACalculateY"), ("verification", U+"ecdsa_util.go ECDSAVerify")], None, ["ECDSAGenerateKey, ECDSASign, ECDSAVerify, ECDSAGet*Key"])
p("C23", "Tries behave as finite maps from keys to values",
  "After any history of sets, removals (setting nil) and gets, a trie returns for every key, including the empty key, prefixes and extensions of stored keys, the value last set and not removed since, and nil otherwise; setting returns the previous value. Removing one key never affects another.",
  ["histories", "inputs"], "every history of set/get/remove over keys that share prefixes, extend one another, or are empty, in any key form",
  "There is no trie test at all.",
  [U+"trie_util.go"], [("node creation and pruning", U+"trie_util.go Trie.Get/Set")], [("root, children", "tree of sub keys", U+"trie_util.go TrieNode")], ["Trie.Get, Trie.Set"])
p("C24", "Trie iteration yields exactly the selected keys, in order",
  "Iterating a trie that is not modified meanwhile yields every stored entry exactly once in ascending key order; restricted to a key it yields exactly that key and its extensions, restricted to a range exactly the keys at least the start and below the end. Peeking or asking for a next entry changes nothing, peeking shows what the next step returns, and past the end nothing is yielded.",
  ["histories", "inputs"], "every trie content, every start key and range (present, absent, empty, missing bounds), constructed and decoded tries, every interleaving of HasNext/Peek/Next",
  "There is no trie test at all.",
  [U+"trie_util.go"], [("iterators", U+"trie_util.go TrieKeyIterator/TrieRangeIterator")], None, ["Iterator, KeyIterator, RangeIterator"])
p("C25", "Base58 decoding inverts encoding, and rejects foreign characters",
  "Encoding any byte string in base58 and decoding the result gives back exactly the same bytes, leading zeros included, using only the 58 characters of the alphabet. A text with any other character is rejected, and encoding what any accepted text decodes to gives that text again.",
  ["inputs"], "all byte strings of any length, with any number of leading zero bytes; all texts",
  "There is no base58 test at all.",
  [U+"base58_util.go"], [("big number radix conversion and zero prefix", U+"base58_util.go Base58Encode/Base58Decode")], None, ["Base58Encode, Base58Decode"])
p("C26", "Bounded random numbers stay within their bounds and cover them",
  "A random number drawn between two bounds of any supported integer type, the lower below the upper, is always at least the lower bound and less than the upper. Every number in between can occur. A random number drawn without bounds can be any of its type.",
  ["inputs"], "all eight integer types and all bounds lower < upper, notably ranges that span zero, exceed half of the type's range, or hold a single number",
  "rand_util_test prints numbers and asserts nothing.",
  [U+"rand_util.go"], [("modular reduction", U+"rand_util.go Rand*Range")], None, ["Rand*Range"])
p("C27", "Variable-length items are self-delimiting and survive encoding",
  "Encoding any signed or unsigned 64-bit integer or any byte string as a variable-length item and decoding it, whatever bytes follow, gives back the same item and consumes exactly the encoded bytes. A sequence of encoded items therefore decodes to the same sequence.",
  ["inputs"], "all 64-bit integers, notably the boundaries of each encoded length, byte strings of any length, and all sequences of items",
  "No test calls these functions directly.",
  [U+"misc_util.go"], [("varint codec", U+"misc_util.go Encode/Decode Varint64, Uvarint64, Varchar")], None, ["EncodeVarint64, EncodeUvarint64, EncodeVarchar and their decoders"])
p("C28", "Fixed-width integers, times and big numbers convert without loss",
  "Converting any 32- or 64-bit integer, any nanosecond timestamp or any non-negative number below 2^256 to its big-endian bytes and back gives the same number, and always uses the full fixed width (4, 8 or 32 bytes). The byte form is ordered as the unsigned number is, and too few bytes for a time are an error.",
  ["inputs"], "all 32/64-bit values, all nanosecond times, all numbers of 0 to 32 bytes including those with leading zero bytes",
  "Only one timestamp is tested.",
  [C+"util.go"], [("conversions", C+"util.go *ToByteArray, ByteArrayTo*, TimeToBytes, BytesToTime")], None, ["the conversion functions"])
p("C29", "Tries survive encoding and decoding exactly",
  "Encoding any trie and decoding the bytes, whatever follows them, gives a trie that returns the same value for every key, yields the same entries in the same order when iterated, and consumes exactly the encoded bytes. Only a trie that holds a key with an empty sub key, which the layout cannot express, is refused with an error.",
  ["inputs", "histories"], "every trie reachable by sets and removals, with primitive and nested values, any branching and depth, and arbitrary trailing bytes",
  "There is no trie test at all.",
  [U+"trie_util.go"], [("trie codec", U+"trie_util.go Trie.Encode/MappedTrie.Decode")], None, ["Trie.Encode/Buf, NewMappedTrie, Get, Iterator"])
p("C30", "Encoded bytes keep the documented layout",
  "Variable-length items, keys, records, schemes and consensus times are encoded to exactly the documented layout: varint-prefixed byte strings; a count and the sub keys for a key; a magic byte, then key, value, scheme, 8-byte big-endian nanoseconds and 64-byte signature for a record, each only if its magic bit is set; a kind byte and big-endian 32-bit fields for a time. Every byte string in that layout decodes to the item it denotes. The bytes of nodes, files and signatures made by different builds therefore stay compatible.",
  ["inputs"], "all items as in the round-trip properties, compared byte by byte with the layout of design.md and the interface comments",
  "Tests compare with no fixed byte layouts, so an encoder and decoder that change together pass.",
  [U+"key_util.go", U+"value_util.go", U+"record_util.go", U+"consensus_util.go", U+"misc_util.go", "design.md"], [("encoders", "Encode/Buf of all encodable types")], None, ["Buf after Encode; decoders on reference bytes"])
p("C31", "Stored key files keep their format",
  "A saved public key file is the hex text of the key's X coordinate and its CRC-32; a private key file is the hex text of a fresh random 12-byte nonce, the 32-byte key sealed with AES-GCM under the secret, and the CRC-32 of both, readable only by its owner. They stand under the documented path of the class and id. Every pair of files in this format, made by whatever program, loads as exactly the keys it denotes, and any other content is an error, so keys stored by one build stay usable in another.",
  ["inputs", "histories"], "all keys, ids, classes and secrets of 16, 24 or 32 bytes; all file contents, well-formed or not, computed independently of the code",
  "lc_util_test only loads what the same code saved, so a format changed on both sides passes; no file content is asserted.",
  [U+"lc_util.go", U+"const_util.go"], [("hex, CRC and AES-GCM framing", U+"lc_util.go lc_save_key_pair/lc_load_pub_key/lc_load_priv_key")], [("key files", "bytes, path and mode of each stored file", U+"lc_util.go")], ["the files after LCSaveKeyPair; LCLoadPubKey/LCLoadPrivKey on files built from the specification"])
p("C32", "Digests and padding follow their standards",
  "For every byte string, SumSHA256 is its SHA-256 digest, SumSHA256d the SHA-256 digest of that digest, SumMD5 its MD5 digest, and AESPad its last 16 bytes, filled with zeros to 16 when shorter. None of them changes its input. Ids, signatures and buckets derived from them therefore agree between nodes.",
  ["inputs"], "all byte strings, notably lengths around the 55/56/64-byte padding boundaries and 16-byte blocks",
  "The existing tests compare no digest with the standard's.",
  [U+"ecdsa_util.go"], [("digests", U+"ecdsa_util.go SumSHA256/SumSHA256d/SumMD5"), ("padding", U+"ecdsa_util.go AESPad")], None, ["SumSHA256, SumSHA256d, SumMD5, AESPad"])
p("C33", "Nil tests, minima, maxima and choices are right for every type",
  "IsNil is true for the nil interface and for every nil pointer, map, slice or channel held in an interface, false for everything else including empty non-nil collections and zero values, and never panics. The minimum and maximum functions of each integer type return the smaller and larger of any two values, and Ternary returns the first choice exactly when the condition holds. The collections depend on these for every key and value they store.",
  ["inputs"], "values of every kind of type, nil and not; all pairs of values of the eight integer types, notably extremes and equal ones",
  "The tests call them with a handful of values of few types.",
  [C+"util.go", U+"misc_util.go"], [("nil detection by reflection", C+"util.go IsNil"), ("Min*/Max*", C+"util.go"), ("Ternary", U+"misc_util.go")], None, ["IsNil, Min*, Max*, Ternary"])
p("C34", "Generating keys from the command line never loses one",
  "Each accepted run of the key generator adds exactly one new key pair, stored under the hex of its X coordinate and opened by exactly the secret made of the typed passphrase, and points the given alias to it. An existing alias is replaced only with permission or when forced; a key, another class or another alias is never changed or lost. A run with a short or mismatched passphrase, a refused question or an unknown class fails and changes nothing.",
  ["histories", "inputs"], "every history of runs over classes, aliases (absent, present, leading nowhere, names of keys or plain files), answers, passphrases of any length and removals of keys in between",
  "The program has no test; its prompts need a terminal session.",
  ["src/main/pkeygen.go", U+"lc_util.go"], [("permission and alias replacement", "src/main/pkeygen.go process_key"), ("passphrase rule", "src/main/pkeygen.go generate_key_pair, "+U+"lc_util.go")], [("class folder", "names: key folders, aliases, others", "src/main/pkeygen.go")], ["the pkeygen program's exit code, questions and the resulting folders; LCLoad*Prompt, LCSaveKeyPairPrompt"])
p("C35", "Serialised tables and tries keep their layout",
  "A serialised perfect hash table and an encoded trie have one fixed layout, with keys placed by their 32-bit Murmur3 hash under a seed. Every table in that layout, with whatever seeds and by whatever program made, answers each lookup as its contents determine, and every trie in it has exactly the entries its nodes hold; what the code writes is such a table or trie. Bytes stored by one build therefore stay usable in another.",
  ["inputs"], "all hashes of byte strings and keys under all 32-bit seeds; all tables in the layout (verified by key or by hash, any level sizes, seeds and indices); all tries over nested values",
  "The tests only read back what the same code wrote, and hash a handful of strings, so layouts or hashes changed on both sides pass.",
  [U+"mph_util.go", U+"trie_util.go", C+"hash.go", U+"key_util.go"], [("table codec and lookup", U+"mph_util.go NewMPHTable/Encode/Lookup"), ("hash", C+"hash.go MurmurSeed.Hash, "+U+"key_util.go HashUint32"), ("trie nodes", U+"trie_util.go Trie.Encode/MappedTrie.Decode")], None, ["NewMPHTable, MPHTable.Encode/Lookup, MurmurSeed.Hash, NewMappedTrie, Trie.Encode on bytes of the specification"])
p("C36", "Every form of an object answers and refuses alike",
  "Whatever its form (constructed, decoded, or a copy of either), a key or value answers the questions for its kind, size, elements and content from its content alone: a non-empty value is exactly one of byte string, array and list, and reading an element out of range or of another kind is an error. Every key, value, record, scheme and trie says it is decoded, and that it is encoded if it was decoded from bytes or successfully encoded since it was last modified, its magic then being its first byte. Encoding a decoded value, record or trie and decoding a constructed object are refused with an error, decoding a decoded object again gives the same object, and no question, refusal or printing changes anything.",
  ["histories", "inputs"], "all kinds and nestings of objects in all forms, asked at every point of any history of modifications, encodings, decodings and copies, with element indices inside and beyond the range",
  "Tests read back a few decoded objects; none asks a constructed one, an out of range element, or for the refusals the interfaces promise.",
  [U+"encodable.go", U+"key_util.go", U+"value_util.go", U+"record_util.go", U+"scheme_util.go", U+"trie_util.go"], [("the IEncodable protocol", U+"encodable.go, all encodable types"), ("accessors", U+"value_util.go IValue, "+U+"key_util.go IKey")], None, ["IsEncoded, IsDecoded, Encode, Decode, IsNil, IsPrimitive, IsValueArray, IsRecordList, Size, ValueAt, RecordAt, Value, Key, SubKeyAt, *Magic, Print, ToString"])
p("C37", "Any bytes are read as the layout says, whoever wrote them",
  "Decoding any bytes, not only what the encoders produce, is accepted or refused, consumes and gives exactly what the documented layout says. A value needs an allowed header (not both array and list, widths of 0 to 2 bytes, lookup and compression bits clear), all of its announced content, and no more elements than content bytes; keys and schemes need every announced part; a record needs every announced part but its signature, with a key, value and scheme of at most 4096, 57344 and 1024 bytes; a trie needs parent offsets and child counts that agree with its nodes; a table needs all it announces and matching masks. Numbers may be written longer than necessary, up to 64 bits in ten bytes, and sub keys may be empty. Elements are read from the content one after the other: in whatever order they are asked for, each is available exactly if all up to it are readable, else asking is an error. Copies read the same, and a modifiable copy of what is not readable in full is an error.",
  ["inputs"], "all byte strings: damaged and truncated encodings, encodings with over-long numbers, wide fields, leftover or missing content, sizes at every limit, and every order of reading",
  "Tests decode only what the encoders produced.",
  [U+"value_util.go", U+"record_util.go", U+"key_util.go", U+"scheme_util.go", U+"trie_util.go", U+"mph_util.go", U+"misc_util.go"],
  [("acceptance and lengths", "Decode of StandardMappedValue, MappedRecord, MappedKey, MappedScheme, MappedTrie(Node), NewMPHTable, DecodeUvarint64, DecodeVarchar"), ("lazy elements", U+"value_util.go ValueAt/RecordAt")], None, ["all decoders and the accessors of what they return"])
p("C38", "Users side by side each see what they would see alone",
  "Parts of a program that use the library at the same time, each with objects of its own (maps, sets, tries, tables, keys, values, records, signatures, key files of different identifiers, codecs, digests, random numbers), see exactly what each would see alone, in whatever order their calls interleave and also when they run in parallel; no call ends the program. The same holds for parts that only read the same built sorted or hashed maps and sets, MPH tables and tries of primitive values, each with iterators of its own. Decoded objects, which keep the elements they were asked for, can be read by several parts that take turns, each of which may also take modifiable copies and change those.",
  ["schedules", "histories"], "all interleavings of calls of several users, all parallel schedules of them, on separate objects and of readers of the same objects",
  "Tests run one user at a time.",
  [C+"hash.go", C+"avl.go", U+"trie_util.go", U+"mph_util.go", U+"value_util.go", U+"record_util.go", U+"key_util.go", U+"misc_util.go", U+"rand_util.go", U+"ecdsa_util.go", U+"lc_util.go"],
  [("no state in common", "package level variables of src/util and src/collection"), ("reading does not write", U+"mph_util.go Lookup; "+C+"hash.go and avl.go Get and iterators; "+U+"trie_util.go Get")], None, ["everything without files of one name"])
p("C39", "Log lines arrive once, in order, where they were last sent",
  "After standard output is chosen, every log line arrives there; after the log file of the process (/tmp/<pid>.log) is chosen, every log line is appended to that file - whichever was chosen before, and however often either is chosen. Each line arrives once, completely and in the order logged, also when several users log at the same time, after a beginning that tells the time (to the microsecond in the file) and the source line, and nothing that is there already is lost. If the file cannot be opened, that is an error, lines keep going where they went, and choosing the file later works once it can be opened.",
  ["histories", "schedules", "faults"], "all sequences of choosing destinations and logging, texts of any bytes, concurrent users, a log file that exists or cannot be opened",
  "No test chooses a log destination.",
  [U+"lc_util.go"], [("choice of the destination", U+"lc_util.go LCSetLoggerStdout, LCSetLoggerFileTmp")], [("log_file", "the opened file, kept for the next choice", U+"lc_util.go")], ["log.Print after LCSetLoggerStdout / LCSetLoggerFileTmp"])
p("C40", "A prompt takes one line of the input, and a passphrase is never shown",
  "However prompts for text and for passphrases follow each other, and whether the input is typed, piped or a file: a prompt for text takes the input up to the end of one line, or what is left, and answers with it without the white space around it; a passphrase prompt takes up to a line end or carriage return, applies deletions, and answers with the characters entered, or with an error if these are fewer than 8 bytes, more than 512 keys are struck, the input ends or is interrupted first, or the repetition differs. What follows is there for the next prompt. A prompt shows its text, and for a passphrase one asterisk for each character, so that only the length can be seen.",
  ["inputs", "histories"], "all inputs and all sequences of prompts, line ends of each kind, inputs that end early, deletions, all lengths around 8 and 512",
  "No test prompts for anything.",
  [U+"lc_util.go", "src/main/pkeygen.go"], [("reading a line", U+"lc_util.go PromptText"), ("reading a passphrase", U+"lc_util.go PromptPassphrase")], None, ["PromptText, PromptPassphrase; pkeygen with piped input"])
p("C41", "Nodes of tries hold and list what was put under them",
  "Nodes put together by hand: a node made for a parent knows it and its sub key, and is under it only once put there, in the place of one with the same sub key, until taken away or replaced. Its full key are the sub keys on the way from the root. An iterator from a node lists it and all under it, once each, in key order, and one with bounds exactly those whose keys are at least the start and less than the end, also when some nodes have no value; it is refused if the root is none, or the node cannot be reached from it. A node encodes to its mark, sub key, the offset of its parent, value and number of children; reading these bytes with the parent gives a node under it with the same sub key and value, and with another parent or offset is refused. Nodes that were read refuse changes. A copy of a made node has children of its own list, that of a read one neither parent nor children, and changing a copy leaves the other as it was.",
  ["histories", "inputs"], "all histories of making, putting, taking, replacing, copying, encoding and reading nodes, made and read ones mixed, and all starts and bounds of iterators",
  "There is no trie test at all, and tries made by Set and Decode never have most of these shapes.",
  [U+"trie_util.go"], [("nodes", U+"trie_util.go TrieNode, MappedTrieNode"), ("iterators", U+"trie_util.go NewTrieKeyIterator, NewTrieRangeIterator")], None, ["NewTrieNode, NewMappedTrieNode and the methods of ITrieNode; NewTrieKeyIterator, NewTrieRangeIterator"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")

------------------------------- MODULE Robust -------------------------------
(* Decoders as users of untrusted bytes see them: a decoding ends with an     *)
(* error or with an object made of at most the given bytes, in memory in      *)
(* proportion to them; a non-empty proper prefix of a valid encoding of a     *)
(* self-delimiting kind is an error.                                          *)
EXTENDS Integers, Sequences

SelfDelimiting == {"key", "val", "rec", "sch", "mph", "trie"}

VARIABLES kind,    \* kind of the valid encoding at hand, "" if none
          size,    \* its length
          cut      \* length from which a truncation may be accepted: a record's
                   \* signature is optional even if announced
rvars == <<kind, size, cut>>
RInit == kind = "" /\ size = 0 /\ cut = 0

Make(k, n, signed) == kind' = k /\ size' = n /\ cut' = IF signed THEN n - 64 ELSE n

(* memory in KiB: for decoding, and for reading everything decoded *)
DecodeBudget(len) == 64 + len \div 4
ReadBudget(len) == 512 + 2 * len
(* ok: <<consumed bytes, KiB for reading>> *)
Fails(len, kib) == kib <= DecodeBudget(len) + len
Gives(len, kib, n, rkib) == n <= len /\ kib <= DecodeBudget(len) /\ rkib <= ReadBudget(len)

(* decoding the first n bytes of the valid encoding *)
Cut(n, err, used) ==
  /\ n >= size => ~err /\ used = size
  /\ 0 < n /\ n < cut /\ kind \in SelfDelimiting => err
  /\ cut <= n /\ n < size => err \/ used = cut
=============================================================================

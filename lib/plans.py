"""What each property's check runs."""
from vf import MC
import gen_sorted, gen_hash, gen_slices, gen_codec, gen_misc, gen_layout, gen_mph, gen_crypt, gen_trie, gen_robust, gen_objects, gen_files, gen_reading, gen_sessions, gen_prompts

PLANS = {
    "C01": {"mc": [MC("MC_AVL")], "jobs": gen_sorted.jobs("map")},
    "C02": {"mc": [MC("MC_AVL")], "jobs": gen_sorted.jobs("iter")},
    "C03": {"mc": [MC("MC_AVL")], "jobs": gen_sorted.jobs("range")},
    "C04": {"mc": [MC("MC_AVL")], "jobs": gen_sorted.jobs("cost")},
    "C05": {"mc": [MC("MC_Hash")], "jobs": gen_hash.jobs("map")},
    "C06": {"mc": [MC("MC_Hash")], "jobs": gen_hash.jobs("iter")},
    "C07": {"mc": [MC("MC_Slices")], "jobs": gen_slices.slices},
    "C08": {"mc": [MC("MC_Hashing")], "jobs": gen_slices.hashes},
    "C09": {"mc": [MC("MC_Keys")], "jobs": gen_codec.keys_cmp},
    "C10": {"mc": [MC("MC_Codec")], "jobs": gen_codec.keys_codec},
    "C11": {"mc": [MC("MC_Codec")], "jobs": gen_codec.values_codec},
    "C12": {"mc": [MC("MC_Codec")], "jobs": gen_codec.records_codec},
    "C13": {"mc": [MC("MC_Codec")], "jobs": gen_codec.schemes},
    "C14": {"mc": [MC("MC_Times")], "jobs": gen_misc.times},
    "C15": {"mc": [MC("MC_Id")], "jobs": gen_misc.ids},
    "C25": {"mc": [MC("MC_B58")], "jobs": gen_misc.base58},
    "C26": {"mc": [MC("MC_Rand")], "jobs": gen_misc.rands},
    "C27": {"mc": [MC("MC_Varint")], "jobs": gen_misc.varints},
    "C28": {"mc": [MC("MC_Conv")], "jobs": gen_misc.convs},
    "C30": {"mc": [MC("MC_Codec"), MC("MC_Times")], "jobs": gen_layout.layouts},
    "C16": {"mc": [MC("MC_MPH"), MC("MC_MphTable")], "jobs": gen_mph.build},
    "C17": {"mc": [MC("MC_MphTable")], "jobs": gen_mph.serial},
    "C18": {"mc": [MC("MC_Robust")], "jobs": gen_robust.robust},
    "C19": {"mc": [MC("MC_Objects", workers=6)], "jobs": gen_objects.jobs("stale")},
    "C20": {"mc": [MC("MC_Objects", workers=6)], "jobs": gen_objects.jobs("copy")},
    "C36": {"mc": [MC("MC_Objects", workers=6)], "jobs": gen_objects.jobs("tell")},
    "C23": {"mc": [MC("MC_Trie")], "jobs": gen_trie.jobs("get")},
    "C24": {"mc": [MC("MC_Trie")], "jobs": gen_trie.jobs("iter")},
    "C29": {"mc": [MC("MC_Trie")], "jobs": gen_trie.jobs("codec")},
    "C21": {"mc": [MC("MC_KeyStore")], "jobs": gen_crypt.store},
    "C22": {"mc": [MC("MC_Signing")], "jobs": gen_crypt.signatures},
    "C31": {"mc": [MC("MC_KeyFiles", workers=4), MC("MC_Digests")], "jobs": gen_files.keyfiles},
    "C32": {"mc": [MC("MC_Digests")], "jobs": gen_files.digests},
    "C33": {"mc": [MC("MC_Small")], "jobs": gen_files.small},
    "C35": {"mc": [MC("MC_MphLayout", workers=8), MC("MC_TrieLayout", workers=4)],
            "jobs": lambda ck: gen_mph.tables(ck) + gen_trie.layouts(ck)},
    "C37": {"mc": [MC("MC_Reading", workers=6)], "jobs": gen_reading.reading},
    "C38": {"mc": [MC(m) for m in gen_sessions.MODELS], "jobs": gen_sessions.sessions},
    "C39": {"mc": [MC("MC_Logger")], "jobs": gen_prompts.logging},
    "C40": {"mc": [MC("MC_Prompts", workers=6)], "jobs": gen_prompts.prompts},
    "C41": {"mc": [MC("MC_Forest", workers=6)], "jobs": gen_trie.forest},
    "C34": {"mc": [MC("MC_KeyGen")], "jobs": gen_files.keygen, "main": "pkeygen.go"},
}

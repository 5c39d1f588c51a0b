CHECKS = {
 "T01": {"pkg": "trie_t", "scale_quick": 3, "level": "exploration"},
 "T02": {"pkg": "trie_t", "scale_quick": 2, "level": "exploration"},
 "T03": {"pkg": "trie_t", "scale_quick": 3, "level": "exploration"},
 "T04": {"pkg": "trie_t", "scale_quick": 2, "level": "exploration"},
 "T05": {"pkg": "trie_t", "level": "fault_enumeration"},
 "T08": {"pkg": "trie_t", "scale_quick": 2, "level": "exploration"},
 "T09": {"pkg": "trie_t", "scale_quick": 3, "level": "exploration"},
 "T06": {"pkg": "trie_t", "level": "exploration"},
 "T07": {"pkg": "trie_t", "level": "exploration"},
 "T10": {"pkg": "trie_t", "level": "exploration"},
 "T11": {"pkg": "trie_t", "scale_quick": 2, "level": "exploration"},
 "T12": {"pkg": "trie_t", "scale_quick": 4, "level": "exploration"},
 "T13": {"pkg": "trie_t", "scale_quick": 1.5, "level": "exploration"},
 "T14": {"pkg": "trie_t", "level": "exploration"},
 "T15": {"pkg": "trie_t", "level": "exploration", "race": True, "procs": 4},
 "M01": {"pkg": "merkle_t", "scale_quick": 8, "level": "exploration"},
 "M02": {"pkg": "merkle_t", "level": "exploration"},
 "M03": {"pkg": "merkle_t", "scale_quick": 4, "level": "exploration"},
 "D01": {"pkg": "db_t", "scale_quick": 8, "level": "exploration"},
 "D02": {"pkg": "db_t", "scale_quick": 10, "level": "exploration"},
 "D03": {"pkg": "db_t", "scale_quick": 8, "level": "exploration"},
 "D04": {"pkg": "db_t", "scale_quick": 10, "level": "exploration"},
 "D05": {"pkg": "db_t", "level": "fault_enumeration"},
 "D06": {"pkg": "db_t", "scale_quick": 6, "level": "exploration", "race": True, "procs": 4},
 "R01": {"pkg": "rlp_t", "scale_quick": 8, "level": "exploration"},
 "R02": {"pkg": "rlp_t", "scale_quick": 4, "level": "exploration"},
 "R03": {"pkg": "rlp_t", "scale_quick": 12, "level": "exploration", "oom_violation": True},
 "R04": {"pkg": "rlp_t", "scale_quick": 6, "level": "exploration"},
 "R05": {"pkg": "rlp_t", "scale_quick": 2, "level": "exploration"},
 "R06": {"pkg": "rlp_t", "level": "exploration"},
 "A01": {"pkg": "abi_t", "scale_quick": 8, "level": "exploration"},
 "A02": {"pkg": "abi_t", "scale_quick": 10, "level": "exploration", "oom_violation": True},
 "A03": {"pkg": "abi_t", "scale_quick": 8, "level": "exploration", "oom_violation": True},
 "A04": {"pkg": "abi_t", "scale_quick": 6, "level": "exploration", "fuzz": [("FuzzA04_selector", 120)]},
 "A05": {"pkg": "abi_t", "scale_quick": 6, "level": "exploration"},
 "A06": {"pkg": "abi_t", "scale_quick": 8, "level": "exploration"},
 "H01": {"pkg": "num_t", "scale_quick": 12, "level": "exploration"},
 "H02": {"pkg": "num_t", "scale_quick": 12, "level": "exploration"},
 "H03": {"pkg": "num_t", "scale_quick": 12, "level": "exploration"},
 "H04": {"pkg": "num_t", "scale_quick": 12, "level": "exploration"},
 "H05": {"pkg": "num_t", "scale_quick": 12, "level": "exploration"},
 "C01": {"pkg": "common_t", "scale_quick": 8, "level": "exploration"},
 "C02": {"pkg": "common_t", "scale_quick": 6, "level": "exploration"},
 "C03": {"pkg": "common_t", "level": "exploration", "race": True, "procs": 4},
 "C04": {"pkg": "common_t", "scale_quick": 2, "level": "exploration"},
 "C05": {"pkg": "common_t", "scale_quick": 10, "level": "exploration"},
 "C06": {"pkg": "common_t", "scale_quick": 8, "level": "exploration"},
 "C07": {"pkg": "common_t", "scale_quick": 8, "level": "exploration"},
 "C08": {"pkg": "common_t", "scale_quick": 6, "level": "exploration", "race": True, "procs": 4},
 "C09": {"pkg": "common_t", "scale_quick": 6, "level": "exploration", "race": True, "procs": 4},
 "C10": {"pkg": "common_t", "scale_quick": 4, "level": "exploration", "race": True, "procs": 4},
 "C11": {"pkg": "common_t", "scale_quick": 8, "level": "exploration"},
 "C12": {"pkg": "common_t", "scale_quick": 10, "level": "exploration"},
 "C13": {"pkg": "common_t", "scale_quick": 4, "level": "exploration", "race": True, "procs": 4},
 "R07": {"pkg": "rlp_t", "scale_quick": 2, "level": "exploration", "race": True, "procs": 4},
}

#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification of the real Go SSA (gocv: weakest preconditions per function, z3/cvc5)"
NOTE = {}
CLAIMED = {
 "C10": "all obligations of the envelope and AEAD contracts, for all keys, plaintexts and contexts",
 "C11": "all obligations of the AES256GCM contracts; the GCM primitive itself is a trusted function with its inverse law",
 "C12": "equality with the KWP transformation of SP 800-38F for every size, by closed forms of both nested loops; inverse and image lemmas; range and no-panic obligations",
 "C13": "all obligations of the KMAC, KDF and tagger contracts; cSHAKE itself is a trusted function",
 "C14": "all obligations of the PasswordHasher contracts; PBKDF2 and the random source are trusted functions",
 "C01": "gate obligations of the contracts of all seven object and access-list operations",
 "C02": "access obligations of the contracts of all operations on existing objects",
 "C03": "storage obligations of Encrypt's contract",
 "C04": "round-trip obligations of the Encrypt, Update and Decrypt contracts",
 "C05": "binding obligations: every operation's contract is stated for arbitrary stored bytes",
 "C06": "exact-set obligations of the three access-list operations",
 "C07": "obligations of Delete's contract, including one checked after every storage call",
 "C08": "storage-failure obligations of every operation",
 "C09": "an obligation checked at every storage call of every operation",
 "C15": "token contracts of the library and the sealing code; the clock is an input",
 "C18": "contracts of the built-in identity provider for arbitrary stored bytes",
 "C19": "contracts of login and password change for arbitrary stored bytes",
 "C20": "contracts of user and group management for arbitrary stored bytes",
 "C16": "loop invariants and postconditions over an arbitrary chain of nodes, for any number of nodes",
 "C17": "obligations of the contracts of the index for arbitrary stored bytes",
 "C21": "obligations of programs over Mem and Bolt, on arbitrary contents; sync.Map and bbolt are trusted",
 "C22": "obligations of programs over Bolt, on arbitrary file contents; bbolt itself is trusted",
 "C23": "key obligations of the constructors and of everything that seals",
 "C25": "frame obligations of every function under contract",
 "C26": "no-panic obligations of every function under contract",
 "C27": "each operation is one step under every interference by other goroutines; lock discipline; the memory model of sync is trusted",
 "C24": "all obligations of the scope and identity contracts",
}
NA = {
}
PENDING = "its contracts are not written yet"
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = [{"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
           "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "proof", "level_note": CLAIMED[i]}
          for i in ids if i in CLAIMED]
na = [{"property": i, "reason": NA.get(i, PENDING)} for i in ids if i not in CLAIMED]
json.dump({"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": na},
          open(V + "/MANIFEST.json", "w"), indent=1)

# Assumptions no obligation checks; every run copies those of a property into its evidence.
assumption [C10,C11,C04,C05,C09,C15,C16,C17,C18,C19,C20,C06,C03,C02] AES-GCM is ideal in one sense only: opening inverts sealing and every opened text is the sealing of what it opens to (a fact about GCM; that nobody forges tags without the key is outside the proofs)
assumption [C12,C10] the AES block cipher is a permutation of 16-byte blocks for every key
assumption [C13,C16,C17,C14] cSHAKE and PBKDF2 are functions of their arguments with outputs of the requested length; hash.Hash writes append to the message
assumption [C16] labels of different counters of one keyword differ (no collisions of KMAC256 over the counters in use)
assumption [C16] the counter of a keyword, one more for every addition, does not reach 2^64 - 1
assumption [C03,C04,C05,C06,C09,C10,C15,C16,C17,C18,C19,C20] JSON: decoding the encoding of a value yields the value, decoding yields at most one value per text, and equal encodings of one type come from equal values; strings are valid UTF-8 (see known_findings.txt for those that are not)
assumption [C15] instants are compared and encoded without regard to the time zone and the monotonic reading they carry
assumption [C01,C02,C03,C04,C05,C06,C07,C08,C09,C16,C17,C18,C19,C20] providers (storage, identities, keys, random source) may answer anything and fail at any call, but do not change memory of the library and do not call back into it
assumption [C21,C27] sync.Map and sync.Mutex behave as documented: a map from keys to values, and mutual exclusion with the ordering of the Go memory model
assumption [C22] bbolt behaves as documented: a transaction takes effect as a whole or not at all, and a bucket is a map from keys to values
assumption [C12] step counters of key wrapping are below 2^32 (6 * 1025 at most), so xoring the low four bytes is xoring the counter
assumption [C26] the Go runtime does not run out of memory or stack; zerolog neither panics nor writes to its arguments (the library's own package log is executed in place)
assumption [C25] external functions write to no memory but what their model names

#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the text of the properties lives here once).
import json,sys
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
D='d1.go';U='utility.go'
p('C01','Authentication and scope gate on every object operation',
 "Every object and access-list operation first has the identity provider authenticate the caller's token and requires the operation's documented scope among the caller's own scopes; otherwise it fails with the not-authenticated or the not-authorized error respectively. A call refused this way reads nothing from storage, changes nothing in storage, and returns no object data, groups or object ID.",
 ['inputs','histories'],"for all tokens, identities, scope sets (all 2^64), object IDs, storage contents and provider behaviours, for each of the eight operations",
 "Tests try one identity with one missing scope per operation; they do not cover all scope words, nor that nothing was read before the refusal, nor calls after other calls.",
 [D,U,'id/scope.go','id/id.go'],[('verifyAccess','utility.go'),('Scope.Contains','id/scope.go'),('scope constant passed by each operation','d1.go')],
 obs=['result and error of each D1 method','calls made on the IO Provider'])
p('C02','Only listed identities or groups with the scope reach an object',
 "An operation on an existing object reveals or changes anything only if the object's access list contains the caller's ID or the ID of one of the caller's groups, and that listed ID or group itself carries the scope the operation requires; otherwise it fails with the not-authorized error, returns nothing and leaves storage unchanged. Conversely, a caller for whom this holds is never refused as not authorized.",
 ['inputs','histories'],"for all identities with any number of groups and scopes, all access lists of any size, all operations",
 "Tests use one or two groups; membership and scope must be decided correctly for every combination of list, groups and scope words, in every map iteration order.",
 [D,U,'data/access.go','id/id.go'],[('authorizeAccess','utility.go'),('Access.ContainsGroups','data/access.go'),('Identity.GetIDs, GetIDScope','id/id.go')],
 obs=['result and error of Decrypt, Update, Delete, GetAccessGroups, AddGroupsToAccess, RemoveGroupsFromAccess, AuthorizeIdentity','storage'])
p('C03','Encrypt stores exactly one fresh object and its access list',
 "A successful encryption stores exactly one new object record and one new access-list record under a newly drawn random ID, which it returns, and leaves every other stored record as it was. The access list holds exactly the given groups plus the caller's ID, and no already stored record is ever overwritten by an encryption.",
 ['inputs','histories','fault_sequences'],"for all plaintexts, associated data, group lists, callers, storage contents and storage failures",
 "Tests look up the one object they stored; they never compare the rest of storage or the full list, and never collide IDs.",
 [D,U,'data/object.go','data/access.go'],[('Encrypt','d1.go'),('putSealedObject/putSealedAccess with update=false','utility.go'),('Access.AddGroups','data/access.go')],
 obs=['storage after Encrypt','returned ID'])
p('C04','Decrypt returns exactly what was last stored',
 "For an authorized caller and intact storage, decrypting an ID returns byte for byte the plaintext and the associated data given to the latest successful encryption or update of that ID, whatever their sizes and contents. An update replaces both, keeps the set of groups on the access list unchanged, and touches no other record.",
 ['inputs','histories'],"for all plaintexts and associated data including empty ones, all histories of encrypt and update, all object IDs",
 "Tests encrypt a few fixed strings; round trip must hold for every content, length and history.",
 [D,U,'data/object.go','data/access.go','crypto/cryptor.go'],[('Encrypt/Update/Decrypt','d1.go'),('Object.Seal, SealedObject.Unseal','data/object.go'),('Access.WrappedDEK replaced on Update','d1.go')],
 obs=['Decrypt result'])
p('C05','Untrusted storage cannot forge, alter or swap records',
 "Whatever bytes storage returns for an object or access list (modified, truncated, taken from another ID or of another kind), every operation either fails or works on an access list that was sealed for exactly the requested ID under the access key and an object whose plaintext and associated data were sealed together for exactly that ID with the data key held in that access list. Data that does not authenticate is never returned and never leads to a write or a deletion.",
 ['inputs','fault_sequences'],"for all byte strings an adversarial storage may return on each read, including different answers to repeated reads",
 "Tests flip single bytes of one record; the claim is over all byte strings, record swaps and combinations.",
 [D,U,'data/object.go','data/access.go','crypto/cryptor.go'],[('OID overwritten with the requested ID after decoding','utility.go getSealedObject/getSealedAccess'),('ID and associated data bound as AEAD associated data','data/object.go, data/access.go')],
 obs=['results and storage effects under arbitrary Get results'])
p('C06','Access-list edits are exact',
 "Adding groups makes the object's access list the union of the old list and the given groups, removing makes it the difference, and reading returns exactly the current list. Neither edit changes the object data, the ability to decrypt it with the listed groups, or any other stored record.",
 ['inputs','histories'],"for all lists, all argument lists including empty ones and duplicates",
 "Tests add and remove one or two groups; set semantics must hold for all lists and argument counts.",
 [D,'data/access.go'],[('AddGroupsToAccess, RemoveGroupsFromAccess, GetAccessGroups','d1.go'),('AddGroups, RemoveGroups, GetGroups','data/access.go')],
 obs=['stored access list','GetAccessGroups result'])
p('C07','Deletion is complete, idempotent and can always be retried',
 "After a successful deletion neither the object nor its access list is stored and no other record has changed; deleting an ID that has no access list succeeds without touching storage. At no moment during a deletion, whichever storage call fails or is the last one executed, is the object still stored while its access list is gone, so the same caller can repeat the deletion.",
 ['crash_points','fault_sequences','inputs'],"for all stored states, all failures of each storage call, all points at which the process may stop",
 "One test fails one delete call; crash points between every pair of storage calls and all failure combinations are not covered.",
 [D,U],[('Delete: object first, access list last','d1.go'),('ErrAccessNotFound treated as done','d1.go')],
 obs=['storage after every storage call'])
p('C08','Storage failures are never reported as success',
 "No object or access-list operation, search-index operation or user-management operation reports success unless every storage call it needed succeeded; a failed read, write or deletion makes the call fail. A missing object, access list, index node, user or group is reported with its own not-found error, and a collision on creation with the already-exists error.",
 ['fault_sequences','inputs'],"for every storage call of every operation failing with any error, also wrapped errors",
 "Tests inject a failure at one call site; there are dozens of call and error combinations.",
 [D,U,'index/index.go','id/standalone.go'],[('error mapping in put/get helpers','utility.go, index/index.go, id/standalone.go')],
 obs=['returned error for each injected storage error'])
p('C09','Only sealed data reaches storage',
 "Every byte string handed to storage for an object, access list, index node, user or group is the encoding of a record whose only contents are a ciphertext, a wrapped key, the record's own ID and, for objects, the caller's associated data. The ciphertext is the output of authenticated encryption under a fresh random key that is itself stored only wrapped under the key configured for that kind of record; plaintexts, group lists, keywords, identifiers, password hashes and raw keys never appear in storage or in storage keys.",
 ['inputs','histories'],"for all inputs of all operations that write to storage",
 "A test sees particular bytes; that no other flow to storage exists is a statement about all executions.",
 [D,U,'data/object.go','data/access.go','data/node.go','index/index.go','id/standalone.go','id/standalone_user.go','id/standalone_group.go'],[('Seal functions and sealed record types','data/, id/'),('put helpers','utility.go, index/index.go, id/standalone.go')],
 obs=['arguments of Put and Update'])
p('C10','Envelope encryption: fresh key, wrapped key, bound context',
 "Each sealing draws a fresh 32-byte key and a fresh nonce from the random source, encrypts the encoded plaintext with the encoded context as associated data under that key, and returns that key only in wrapped form together with the ciphertext; unsealing returns the original value exactly when the wrapped key, the ciphertext and the context are those of one sealing. If the random source, an encoding, the wrapping or the decryption fails, the call fails and returns neither key nor data, and unsealing never modifies its inputs.",
 ['inputs','fault_sequences'],"for all values, contexts, keys and random outputs, and failures of each step",
 "Tests use a deterministic mock random and single values; freshness and failure handling concern all runs.",
 ['crypto/cryptor.go','crypto/random.go','crypto/interfaces.go'],[('Cryptor.Encrypt/Decrypt','crypto/cryptor.go'),('NativeRandom.GetBytes','crypto/random.go')],
 obs=['results of Encrypt and Decrypt'])
p('C11','AES-256-GCM layout, inverse and input checks',
 "Encryption accepts only 32-byte keys and yields the GCM ciphertext of the plaintext, the 16-byte tag and the 12-byte nonce in this order, exactly 28 bytes longer than the plaintext, with a nonce drawn for that call. Decryption returns the plaintext exactly when ciphertext, tag, nonce, associated data and key belong together, and rejects wrong key lengths, inputs shorter than 28 bytes and any authentication failure with an error and no data.",
 ['inputs'],"for all plaintexts, associated data, keys and ciphertexts of any length, whatever spare capacity the buffers have",
 "Tests sample sizes and one flipped tag bit; layout must hold for every length and buffer capacity.",
 ['crypto/aes.go'],[('AES256GCM.Encrypt/Decrypt','crypto/aes.go')],obs=['returned bytes'])
p('C12','Key wrapping is KWP: invertible, integrity-checked, total',
 "Wrapping a key of 16 to 8192 bytes yields the AES-KWP ciphertext of NIST SP 800-38F for it and unwrapping that returns the same key; every other size is rejected. Unwrapping accepts an input only if its length is admissible and the recovered prefix, length field and zero padding are all correct, and no input makes either operation crash.",
 ['inputs'],"for all keys of all admissible lengths and all byte strings of any length",
 "Tests use a few vectors and sizes; padding, length and prefix checks must hold for all inputs.",
 ['crypto/kwp.go'],[('Wrap, Unwrap, computeW, invertW, wrappingSize','crypto/kwp.go')],obs=['results of Wrap and Unwrap'])
p('C13','KMAC and key derivation follow SP 800-185 and separate inputs',
 "The message authentication code equals KMAC of NIST SP 800-185 for every key, message, customization string and tag size the constructors accept, reading a tag does not disturb the running state, and reset returns to the initial state. Key derivation and tagging return KMAC256 values of the documented sizes computed over the given key, label, context and data, so equal inputs give equal outputs and different labels, contexts or data feed different MAC inputs.",
 ['inputs','histories'],"for all keys, messages, labels, contexts and sizes, and all sequences of write, sum and reset",
 "Known-answer tests cover a handful of lengths; the length encodings and padding depend on the size of every input.",
 ['crypto/kmac.go','crypto/kdf.go','crypto/tagger.go'],[('newKMAC, Sum, Reset, bytepad, leftEncode, rightEncode','crypto/kmac.go'),('KMACKDF','crypto/kdf.go'),('Tagger.Tag','crypto/tagger.go')],obs=['MAC bytes'])
p('C14','Password hashes accept exactly the right password',
 "Generating a password returns the text encoding of 32 fresh random bytes and a record of a fresh 8-byte salt followed by the salted slow hash of exactly that password; a failure of the random source is an error. Checking a password against a record succeeds exactly when the hash of that password under the record's salt equals the whole stored hash.",
 ['inputs'],"for all passwords, salts, stored records and random outputs",
 "Tests try one right and one wrong password or salt.",
 ['crypto/password.go','id/standalone_user.go'],[('GeneratePassword, Compare','crypto/password.go')],obs=['Compare result'])
p('C15','Tokens expire, cannot be altered and carry exactly their data',
 "A created token carries exactly the given data and an expiry one hour after its creation; reading it succeeds with exactly that data if and only if the expiry time has not passed and the token, including its expiry time, is unaltered and was created under the same token key. Encoding a token to a string and back yields an equivalent token, and any string that does not decode to a valid token is rejected with an error.",
 ['inputs','histories'],"for all contents, all times of use, all altered tokens and strings",
 "Tests use one expired and one altered token; expiry must hold for every instant and alteration.",
 ['data/token.go','d1.go'],[('NewToken, Seal, Unseal, String, TokenFromString','data/token.go'),('CreateToken, GetTokenContents','d1.go')],obs=['GetTokenContents'])
p('C16','Search returns exactly the live identifiers of a keyword',
 "After any sequence of successful additions and deletions, searching a keyword returns exactly the identifiers added for that keyword and not since deleted, in the order they were added and as often as they were added; deleting a pair removes all its occurrences and nothing else. Operations on one keyword never change what is found for another, nor any other record in storage.",
 ['inputs','histories'],"for all keywords, identifiers, chain lengths and sequences of operations without storage failures",
 "Tests replay a dozen short sequences; chain repair must be right for every position, duplicate pattern and length.",
 ['index/index.go','data/node.go'],[('Add, Search, Delete, deleteNode, getLastNode, getNextNode','index/index.go'),('Node.NextLabel','data/node.go')],
 [('chain of nodes per keyword','label(counter) -> sealed (identifier, next counter)','index/index.go')],obs=['Search result','storage'])
p('C17','The index is gated and reveals nothing without its key',
 "Index operations require an authenticated caller with the index scope and otherwise fail without touching storage. Every storage key used by the index is a keyed MAC of a counter under a key derived from the index key and the keyword, and every stored node is sealed under a second, separately derived key and bound to its storage key, so a node altered or moved to another place makes the operation fail instead of yielding an identifier.",
 ['inputs','histories'],"for all tokens, keywords, identifiers and storage contents",
 "Tests check that search works for the right keyword only; derivation and binding concern all inputs and hostile storage.",
 ['index/index.go','data/node.go','crypto/kdf.go','crypto/tagger.go'],[('verifyAccess, getTaggerAndCryptor','index/index.go'),('Node.Seal/Unseal with label','data/node.go')],obs=['arguments of storage calls','errors'])
p('C18','Identity lookup is faithful and bound to the stored user',
 "A token yields an identity only if it is a valid unexpired token and its user exists; the identity then has that user's ID, exactly that user's scopes and groups, and for each group exactly the scopes stored for that group. Whatever storage returns, a user or group record is accepted only if it was sealed for exactly the ID under which it was requested, so records cannot be altered, exchanged or copied between IDs.",
 ['inputs','histories','fault_sequences'],"for all tokens, users with any number of groups, and arbitrary bytes returned by storage",
 "Tests flip bytes of a record or use an unknown user; swapping records between IDs and many-group users are not covered.",
 ['id/standalone.go','id/standalone_user.go','id/standalone_group.go','data/token.go'],[('GetIdentity, getUser, getGroup','id/standalone.go'),('unseal with the ID as context','id/standalone_user.go, id/standalone_group.go')],obs=['GetIdentity result'])
p('C19','Login and password change need the current password',
 "Login yields a token only for an existing user and that user's current password, and the token then authenticates as exactly that user until the reported expiry; every failure is the not-authenticated error. Changing the password requires the current one, stores a newly generated one in its place so that only the returned password works afterwards, and alters nothing else of the user or of storage.",
 ['inputs','histories'],"for all users, passwords and histories of password changes, with any storage failures",
 "Tests try a few passwords; the claim is over all passwords, users and histories.",
 ['id/standalone.go','id/standalone_user.go','crypto/password.go'],[('LoginUser, ChangeUserPassword','id/standalone.go'),('authenticate, changePassword','id/standalone_user.go')],obs=['returned token','stored user'])
p('C20','User and group management changes exactly what was authorized',
 "New users start with exactly the given scopes and no groups under a fresh ID, and new groups with exactly the given scopes, their creator becoming a member. Adding or removing a user to or from groups succeeds only if the authenticated caller is a member of every named group, changes the target's group set by exactly those groups, and alters nothing else of the target or of storage; deleting a user requires an authenticated caller and removes only that user.",
 ['inputs','histories'],"for all callers, targets, group lists and scope lists",
 "Tests use two users and two groups; set semantics and the membership check must hold for all lists.",
 ['id/standalone.go','id/standalone_user.go','id/standalone_group.go','id/scope.go'],[('NewUser, NewGroup, AddUserToGroups, RemoveUserFromGroups, DeleteUser','id/standalone.go')],obs=['stored users and groups'])
p('C21','The in-memory storage is a faithful map',
 "Creating a record stores it and fails with already-exists, changing nothing, if the ID and kind are taken; reading returns exactly the last stored bytes or not-found; updating needs an existing record; deleting removes the record and is silent if there is none. Each call affects only the one record with exactly that ID and kind, for all IDs, kinds and data including empty ones.",
 ['inputs','histories'],"for all IDs, kinds, contents and sequences of calls by one caller at a time",
 "Tests use one or two fixed IDs; key collisions between different IDs or kinds need specific inputs.",
 ['io/mem.go','io/io.go'],[('newKey, Put, Get, Update, Delete','io/mem.go')],obs=['results of subsequent reads'])
p('C22','The file-backed storage is a faithful map',
 "Creating a record stores it and fails with already-exists, changing nothing, if the ID and kind are taken; reading returns exactly the last stored bytes or not-found; updating needs an existing record; deleting removes the record and is silent if there is none. Each call affects only the one record with exactly that ID and kind, for all IDs, kinds and data including empty ones, a failed call changes nothing, and data handed out stays valid and independent of the database.",
 ['inputs','histories','fault_sequences'],"for all IDs, kinds, contents and sequences of calls, and failing database transactions",
 "Tests use fixed IDs and data; empty data, key collisions and buffer sharing need specific inputs.",
 ['io/bolt.go','io/io.go'],[('key construction and transactions','io/bolt.go'),('DataType.Bytes','io/io.go')],obs=['results of subsequent reads'])
p('C23','Each kind of data is sealed under its own configured key',
 "Construction succeeds only if every key it needs has exactly 32 bytes and the key provider did not fail. Objects are then sealed only under the object key, access lists only under the access key, tokens only under the token key, index labels and nodes only under keys derived from the index key, and users, groups and login tokens only under the identity provider's three respective keys.",
 ['configurations','inputs'],"for all key sets and lengths",
 "Tests use one key set; mixing up two keys is invisible as long as one instance both seals and unseals.",
 ['d1.go','index/index.go','id/standalone.go','crypto/cryptor.go','key/key.go','key/static.go'],[('New, NewSecureIndex, NewStandalone','d1.go, index/index.go, id/standalone.go'),('NewAESCryptor, NewKMAC256Tagger length checks','crypto/')],obs=['constructor results','keys used by each sealing'])
p('C24','Scope and identity algebra',
 "Scopes behave as sets: a union contains a scope exactly if its members together do, containment is exact for every combination of the single scopes, all single scopes are distinct and the all-scope contains each of them and nothing else. The IDs of an identity are exactly its own ID and its group IDs, and the scope attributed to an ID is the identity's for its own ID, the group's for a group, and none for any other ID.",
 ['inputs'],"for all 2^64 scope words, all lists of scopes and all identities with any number of groups",
 "Tests sample random scope words and two groups.",
 ['id/scope.go','id/id.go'],[('ScopeUnion, Contains','id/scope.go'),('GetIDs, GetIDScope','id/id.go')],obs=['return values'])
p('C25',"Callers' buffers and arguments are never modified",
 "No operation of the library writes to memory belonging to its caller: plaintexts, associated data, group and scope lists, identifiers, keys, ciphertexts and tokens passed in keep their contents, including the unused capacity behind slices. The only exceptions are the two raw AEAD operations documented to reuse their input buffer.",
 ['inputs'],"for all arguments, including slices with spare capacity that share memory with other data",
 "Tests pass freshly allocated full slices, which hide writes into spare capacity.",
 ['d1.go','data/object.go','data/access.go','crypto/cryptor.go','io/bolt.go','io/mem.go','index/index.go','id/standalone.go'],[('append and copy on argument slices','all packages')],obs=['argument memory after the call'])
p('C26','No stored bytes, token or argument can crash the library',
 "No public operation panics, whatever bytes storage returns, whatever strings are passed as tokens, keywords, passwords, identifiers or group names, and whatever errors providers return; malformed input is answered with an error. The documented constructor panics for too short MAC keys or tags are the only exceptions.",
 ['inputs','fault_sequences'],"for all arguments and all storage contents",
 "Tests feed a few malformed values; out-of-range indexing, nil maps and type assertions need specific inputs.",
 ['d1.go','utility.go','data/','crypto/','index/index.go','id/','io/'],[('error returns before use of decoded data','all packages')],obs=['absence of panics'])
p('C27','In-memory storage operations are atomic under concurrency',
 "When several callers use the in-memory storage at the same time, each create, update and delete takes effect at one instant: of several concurrent creations of the same record exactly one succeeds, and an update never brings back a record deleted meanwhile.",
 ['schedules'],"for all interleavings of concurrent calls",
 "Tests are sequential; a lost check-then-act race needs a particular interleaving.",
 ['io/mem.go'],[('check then store on the shared map','io/mem.go')],obs=['results of concurrent Put/Update/Delete'])
open(sys.argv[1] if len(sys.argv)>1 else '/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))

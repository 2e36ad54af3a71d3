# Functions of the specification. Their facts are the assumptions on the cryptographic primitives.
func aesenc(key:B, block:B) B
func aesdec(key:B, block:B) B
fact aesenc(key, block): len(this) == 16 && (len(block) == 16 ==> aesdec(key, this) == block)
fact aesdec(key, block): len(this) == 16 && (len(block) == 16 ==> aesenc(key, this) == block)
# AES-GCM: sealing and opening are inverse; the sealed text is 16 bytes longer
func gcmseal(key:B, nonce:B, pt:B, aad:B) B
func gcmok(key:B, nonce:B, ct:B, aad:B) Bool
func gcmopen(key:B, nonce:B, ct:B, aad:B) B
fact gcmseal(key, nonce, pt, aad): len(this) == len(pt) + 16 && gcmok(key, nonce, this, aad) && gcmopen(key, nonce, this, aad) == pt
fact gcmok(key, nonce, ct, aad): this ==> len(ct) >= 16 && gcmseal(key, nonce, gcmopen(key, nonce, ct, aad), aad) == ct
fact gcmopen(key, nonce, ct, aad): len(ct) >= 16 ==> len(this) == len(ct) - 16
# cSHAKE (N, S, absorbed message, offset into the output, length)
func cshake128(n:B, s:B, msg:B, off:Int, len:Int) B
func cshake256(n:B, s:B, msg:B, off:Int, len:Int) B
fact cshake128(n, s, msg, off, ln): ln >= 0 ==> len(this) == ln
fact cshake256(n, s, msg, off, ln): ln >= 0 ==> len(this) == ln
func pbkdf2(pw:B, salt:B, iter:Int, len:Int, hash:B) B
fact pbkdf2(pw, salt, iter, ln, hash): ln >= 0 ==> len(this) == ln

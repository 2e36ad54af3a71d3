# SP 800-185: KMAC(K, X, L, S) = cSHAKE(bytepad(encode_string(K), rate) || X || right_encode(L), L, "KMAC", S)
def bytepad(x, w) = pad0(leftenc(w) ++ x, w)
def pad0(x, w) = x ++ zeros((w - len(x) % w) % w)
def kmacmsg(key, w) = bytepad(leftenc(8*len(key)) ++ key, w)
opaque kmac256(key:B, msg:B, tag:Int, s:B) B @crypto = cshake256("KMAC", s, kmacmsg(key, 136) ++ msg ++ rightenc(8*tag), 0, tag)
fact kmac256(key, msg, tag, s): tag >= 0 ==> len(this) == tag
def kmac128(key, msg, tag, s) = cshake128("KMAC", s, kmacmsg(key, 168) ++ msg ++ rightenc(8*tag), 0, tag)

# The length encodings, proved by themselves (if they exist) so that their callers need not look inside.
contract crypto.leftEncode (value) (r)
  use
  option optional
  ensures [C13] encoding: content(r) == leftenc(value)
  ensures [C13] fresh: freshmem(r)

contract crypto.rightEncode (value) (r)
  use
  option optional
  ensures [C13] encoding: content(r) == rightenc(value)
  ensures [C13] fresh: freshmem(r)

contract crypto.LemmaKMAC256 (key, tagSize, s, x1, x2, x3, pre) (empty, a, b, c, d, e, size, block)
  requires len(key) >= 32 && tagSize >= 8 && tagSize <= 1048576
  let K = content(key)
  let S = content(s)
  ensures [C13] empty: content(empty) == kmac256(K, "", tagSize, S)
  ensures [C13] appended: content(a) == old(content(pre)) ++ kmac256(K, content(x1), tagSize, S)
  ensures [C13] again: content(b) == kmac256(K, content(x1), tagSize, S)
  ensures [C13] continued: content(c) == kmac256(K, content(x1) ++ content(x2), tagSize, S)
  ensures [C13] reset: content(d) == kmac256(K, "", tagSize, S)
  ensures [C13] after_reset: content(e) == kmac256(K, content(x3), tagSize, S)
  ensures [C13] sizes: size == tagSize && block == 136
  modifies pre

contract crypto.LemmaKMAC128 (key, tagSize, s, x1, x2, x3, pre) (empty, a, b, c, d, e, size, block)
  requires len(key) >= 16 && tagSize >= 8 && tagSize <= 1048576
  let K = content(key)
  let S = content(s)
  ensures [C13] empty: content(empty) == kmac128(K, "", tagSize, S)
  ensures [C13] appended: content(a) == old(content(pre)) ++ kmac128(K, content(x1), tagSize, S)
  ensures [C13] again: content(b) == kmac128(K, content(x1), tagSize, S)
  ensures [C13] continued: content(c) == kmac128(K, content(x1) ++ content(x2), tagSize, S)
  ensures [C13] reset: content(d) == kmac128(K, "", tagSize, S)
  ensures [C13] after_reset: content(e) == kmac128(K, content(x3), tagSize, S)
  ensures [C13] sizes: size == tagSize && block == 168
  modifies pre

contract crypto.KMACKDF (size, kik, label, context) (r)
  use
  requires len(kik) >= 32
  requires size >= 8
  requires size <= 1048576
  ensures [C13,C16,C17] kmac: content(r) == kmac256(content(kik), catof(context), size, content(label))
  ensures [C13] size: len(r) == size
  ensures [C13,C25] fresh: freshmem(r)

contract crypto.NewKMAC256Tagger (key) (t, err)
  ensures [C13,C23] size: err == nil <==> len(key) == 32
  ensures [C13] error: err != nil ==> err == crypto.ErrInvalidKeyLength
  ensures [C13,C17] key: err == nil ==> content(t.Key) == content(key)

contract crypto.(*Tagger).Tag (t, data) (r, err)
  use
  requires len(t.Key) == 32
  ensures [C13,C17] kmac: err == nil ==> content(r) == kmac256(content(t.Key), "", 32, json(data))
  ensures [C13] ok: err == nil <==> jsonok(data)
  ensures [C13,C25] fresh: freshmem(r)

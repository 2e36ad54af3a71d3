# Envelope encryption. Above this level the sealing functions stay opaque.
abstract crypto.Cryptor kek
opaque cwrap(kek:B, key:B) B @crypto = kwpwrap(kek, key)
opaque cseal(key:B, nonce:B, pt:B, ad:B) B @crypto = gcmseal(key, nonce, pt, ad) ++ nonce
opaque cok(kek:B, wk:B, ct:B, ad:B) Bool @crypto = kwpok(kek, wk) && len(kwpun(kek, wk)) == 32 && len(ct) >= 28 && gcmok(kwpun(kek, wk), ct[len(ct)-12:], ct[:len(ct)-12], ad)
opaque copen(kek:B, wk:B, ct:B, ad:B) B @crypto = gcmopen(kwpun(kek, wk), ct[len(ct)-12:], ct[:len(ct)-12], ad)

contract crypto.NewAESCryptor (KEK) (r, err)
  use
  yields r crypto.Cryptor kek = content(KEK)
  ensures [C23,C10] size: err == nil <==> len(KEK) == 32
  ensures [C10] error: err != nil ==> err == crypto.ErrInvalidKeyLength

setup cryptor
  var kek0 []byte
  call c0, e0 = crypto.NewAESCryptor(kek0)
  assume e0 == nil
  recv c0
  attr kek = content(kek0)

contract crypto.(*Cryptor).Encrypt (c, plaintext, data) (wk, ct, err)
  use
  setup cryptor
  option inline crypto.NewAESCryptor
  draws key:32 nonce:12
  requires [C26] inv: inv(plaintext)
  ensures [C10,C09] sealed: err == nil ==> content(wk) == cwrap(c.kek, key) && content(ct) == cseal(key, nonce, json(plaintext), json(data))
  ensures [C10] opens: err == nil ==> cok(c.kek, content(wk), content(ct), json(data)) && copen(c.kek, content(wk), content(ct), json(data)) == json(plaintext)
  ensures [C10] fresh: err == nil ==> ndraws() == 2
  ensures [C10] accept: err == nil <==> jsonok(plaintext) && jsonok(data) && !rndfailed
  ensures [C10] nothing: err != nil ==> isnil(wk) && isnil(ct)

contract crypto.(*Cryptor).Decrypt (c, plaintext, data, wk, ct) (err)
  use
  setup cryptor
  option inline crypto.NewAESCryptor
  option frame C10
  decodes plaintext from copen(c.kek, content(wk), content(ct), json(data))
  ensures [C10,C05] exact: err == nil <==> jsonok(data) && cok(c.kek, content(wk), content(ct), json(data)) && decodable(plaintext, copen(c.kek, content(wk), content(ct), json(data)))

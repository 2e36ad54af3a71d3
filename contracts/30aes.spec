contract crypto.(*NativeRandom).GetBytes (r, n) (b, err)
  ensures [C10,C11,C26] length: err == nil ==> len(b) == nat(n)
  ensures [C10] drawn: err == nil ==> ndraws() == 1 && content(b) == draw(0)
  ensures [C10] none: err != nil ==> isnil(b)
  ensures [C10] failing: err == nil <==> !rndfailed

contract crypto.(*AES256GCM).Encrypt (a, plaintext, aad, key) (r, err)
  use
  draws nonce:12
  requires a.Random != nil
  modifies plaintext
  ensures [C11,C10] keylen: err == nil ==> len(key) == 32
  ensures [C11,C10] accept: len(key) == 32 && !rndfailed ==> err == nil
  ensures [C11,C10] layout: err == nil ==> content(r) == gcmseal(content(key), nonce, old(content(plaintext)), content(aad)) ++ nonce
  ensures [C11] longer: err == nil ==> len(r) == len(plaintext) + 28
  ensures [C11] nothing: err != nil ==> isnil(r)

contract crypto.(*AES256GCM).Decrypt (a, ciphertext, aad, key) (r, err)
  use
  modifies ciphertext
  let ct = old(content(ciphertext))
  ensures [C11,C10] exact: err == nil <==> len(key) == 32 && len(ct) >= 28 && gcmok(content(key), ct[len(ct)-12:], ct[:len(ct)-12], content(aad))
  ensures [C11,C10] plain: err == nil ==> content(r) == gcmopen(content(key), ct[len(ct)-12:], ct[:len(ct)-12], content(aad))
  ensures [C11] nothing: err != nil ==> isnil(r)

# Sealing and unsealing of the kinds of records.
def jb(x) = json(cast(bytes, x))
def rkek(c) = c.kek
setup sealer
  var kek0 []byte
  call c0, e0 = crypto.NewAESCryptor(kek0)
  assume e0 == nil
  ref cryptor = c0

# the ciphertext and wrapped key are those of one sealing of p in the context a under kek, with a fresh key
def sealedas(kek, wk, ct, p, a) = cok(kek, wk, ct, a) && copen(kek, wk, ct, a) == p && anydraw(k, 32, n, 12, wk == cwrap(kek, k) && ct == cseal(k, n, p, a))

contract data.(*Object).Seal (o, oid, cryptor) (wk, r, err)
  setup sealer
  ensures [C04,C05,C09] sealed: err == nil ==> sealedas(cryptor.kek, content(wk), content(r.Ciphertext), json(o.Plaintext), jb(oid ++ content(o.AssociatedData)))
  ensures [C04,C05] rest: err == nil ==> content(r.AssociatedData) == content(o.AssociatedData) && r.OID == oid
  ensures [C04,C08] accept: err == nil <==> !rndfailed
  ensures [C05] nothing: err != nil ==> isnil(wk) && isnil(r.Ciphertext)

contract data.(*SealedObject).Unseal (o, wrappedKey, cryptor) (r, err)
  setup sealer
  let a = jb(o.OID ++ content(o.AssociatedData))
  ensures [C04,C05] exact: err == nil <==> cok(cryptor.kek, content(wrappedKey), content(o.Ciphertext), a) && decodes(bytes, copen(cryptor.kek, content(wrappedKey), content(o.Ciphertext), a))
  ensures [C04,C05] value: err == nil ==> content(r.Plaintext) == content(decode(bytes, copen(cryptor.kek, content(wrappedKey), content(o.Ciphertext), a))) && content(r.AssociatedData) == content(o.AssociatedData)
  ensures [C05] nothing: err != nil ==> isnil(r.Plaintext) && isnil(r.AssociatedData)

contract data.(*Access).Seal (a, oid, cryptor) (r, err)
  setup sealer
  assume inv(a)
  ensures [C05,C09,C06] sealed: err == nil ==> sealedas(cryptor.kek, content(r.WrappedKey), content(r.Ciphertext), json(a), jb(oid)) && r.OID == oid
  ensures [C06,C08] accept: err == nil <==> !rndfailed
  ensures [C05] nothing: err != nil ==> isnil(r.WrappedKey) && isnil(r.Ciphertext)

contract data.(*SealedAccess).Unseal (a, cryptor) (r, err)
  setup sealer
  let p = copen(cryptor.kek, content(a.WrappedKey), content(a.Ciphertext), jb(a.OID))
  ensures [C05,C06] exact: err == nil <==> cok(cryptor.kek, content(a.WrappedKey), content(a.Ciphertext), jb(a.OID)) && decodes(data.Access, p)
  ensures [C05,C06] value: err == nil ==> keys(r.Groups) == keys(decode(data.Access, p).Groups) && content(r.WrappedDEK) == content(decode(data.Access, p).WrappedDEK)
  ensures [C05] nothing: err != nil ==> isnil(r.Groups) && isnil(r.WrappedDEK)

contract data.(*Node).Seal (n, label, cryptor) (r, err)
  setup sealer
  ensures [C17,C09,C16] sealed: err == nil ==> sealedas(cryptor.kek, content(r.WrappedKey), content(r.Ciphertext), json(n), json(label))
  ensures [C16,C08] accept: err == nil <==> !rndfailed
  ensures [C17] nothing: err != nil ==> isnil(r.WrappedKey) && isnil(r.Ciphertext)

contract data.(*SealedNode).Unseal (n, label, cryptor) (r, err)
  setup sealer
  let p = copen(cryptor.kek, content(n.WrappedKey), content(n.Ciphertext), json(label))
  ensures [C17,C16] exact: err == nil <==> cok(cryptor.kek, content(n.WrappedKey), content(n.Ciphertext), json(label)) && decodes(data.Node, p)
  ensures [C17,C16] value: err == nil ==> r.Identifier == decode(data.Node, p).Identifier && r.NextCounter == decode(data.Node, p).NextCounter
  ensures [C17] nothing: err != nil ==> r.Identifier == "" && r.NextCounter == 0

# ---- tokens
def hour = 3600000000000
def tokok(kek, t) = jsonok(t.ExpiryTime) && cok(kek, content(t.WrappedKey), content(t.Ciphertext), json(t.ExpiryTime)) && decodes(bytes, tokplain(kek, t))
def tokplain(kek, t) = copen(kek, content(t.WrappedKey), content(t.Ciphertext), json(t.ExpiryTime))

contract data.NewToken (plaintext, validityPeriod) (t)
  ensures [C15] token: content(t.Plaintext) == content(plaintext) && t.ExpiryTime == now(0) + nat(validityPeriod)

contract data.(*Token).Seal (t, cryptor) (r, err)
  setup sealer
  ensures [C15,C09] sealed: err == nil ==> sealedas(cryptor.kek, content(r.WrappedKey), content(r.Ciphertext), json(t.Plaintext), json(t.ExpiryTime)) && r.ExpiryTime == t.ExpiryTime
  ensures [C15] accept: err == nil <==> !rndfailed && jsonok(t.ExpiryTime)
  ensures [C15] nothing: err != nil ==> isnil(r.WrappedKey) && isnil(r.Ciphertext)

contract data.(*SealedToken).Unseal (t, cryptor) (r, err)
  setup sealer
  ensures [C15] exact: err == nil <==> now(0) <= t.ExpiryTime && tokok(cryptor.kek, t)
  ensures [C15] value: err == nil ==> content(r.Plaintext) == content(decode(bytes, tokplain(cryptor.kek, t))) && r.ExpiryTime == t.ExpiryTime
  ensures [C15] nothing: err != nil ==> isnil(r.Plaintext)

contract data.(*SealedToken).String (t) (r, err)
  ensures [C15] text: err == nil ==> r == b64(json(t))
  ensures [C15] ok: err == nil <==> jsonok(t)
  ensures [C15] back: err == nil ==> b64ok(r) && decodes(data.SealedToken, b64dec(r)) && decode(data.SealedToken, b64dec(r)).ExpiryTime == t.ExpiryTime && \
     content(decode(data.SealedToken, b64dec(r)).Ciphertext) == content(t.Ciphertext) && content(decode(data.SealedToken, b64dec(r)).WrappedKey) == content(t.WrappedKey)

contract data.TokenFromString (s) (r, err)
  let d = decode(data.SealedToken, b64dec(s))
  ensures [C15] exact: err == nil <==> b64ok(s) && decodes(data.SealedToken, b64dec(s))
  ensures [C15] value: err == nil ==> r.ExpiryTime == d.ExpiryTime && content(r.Ciphertext) == content(d.Ciphertext) && content(r.WrappedKey) == content(d.WrappedKey)
  ensures [C15] nothing: err != nil ==> isnil(r.Ciphertext) && isnil(r.WrappedKey)

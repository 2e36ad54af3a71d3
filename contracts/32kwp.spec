# AES-KWP (NIST SP 800-38F). At the level of callers wrapping is an injective function of key-encryption key and key.
abstract crypto.KWP kek
opaque kwpwrap(kek:B, key:B) B @kwp = kwpw(kek, kwpstring(key))
opaque kwpok(kek:B, w:B) Bool @kwp = 24 <= len(w) && len(w) <= 8200 && len(w) % 8 == 0 && kwpgood(kwpu(kek, w))
opaque kwpun(kek:B, w:B) B @kwp = kwpkey(kwpu(kek, w))
def kwpgood(s) = beint(s[:4]) == 2790873510 && kwpn(s) + 7 - (kwpn(s)+7)%8 + 8 == len(s) && (forall i Int :: 8 + kwpn(s) <= i && i < len(s) ==> s[i] == 0)
def kwpn(s) = beint(s[4:8])
def kwpkey(s) = s[8:8+kwpn(s)]
fact kwpwrap(kek, key): 16 <= len(key) && len(key) <= 8192 ==> len(this) == 8 + 8*((len(key)+7)/8) && kwpok(kek, this) && kwpun(kek, this) == key
fact kwpok(kek, w): this ==> len(w) >= 24 && len(w) % 8 == 0 && len(w) <= 8200 && (len(kwpun(kek, w)) >= 16 ==> kwpwrap(kek, kwpun(kek, w)) == w)
fact kwpun(kek, w): kwpok(kek, w) ==> 8 + 8*((len(this)+7)/8) == len(w)

contract crypto.NewKWP (wrappingKey) (r, err)
  use
  yields r crypto.KWP kek = content(wrappingKey)
  ensures [C12,C23] size: err == nil <==> len(wrappingKey) == 16 || len(wrappingKey) == 32

setup kwp
  var key []byte
  call k0, e0 = crypto.NewKWP(key)
  assume e0 == nil
  recv k0
  attr kek = content(key)

# W of SP 800-38F and its inverse: kw(kek, S, p, j) and ku(kek, S, p, d) are the states of the two
# transformations (gocv/specfn.go), for strings of any number of semiblocks.
def kwpstring(key) = be(bv(32, 2790873510)) ++ be(bv(32, len(key))) ++ key ++ zeros(7 - (len(key)+7)%8)
def kwpw(kek, s) = kw(kek, s, 5, kwpsteps(s))
def kwpu(kek, s) = ku(kek, s, 0, kwpsteps(s))

contract crypto.(*KWP).Wrap (k, data) (r, err)
  use
  setup kwp
  option inline crypto.NewKWP
  option expand kwp
  option panics C12
  let S = kwpstring(old(content(data)))
  loopform apart 0 5: S[:8] ++ kw(k.kek, S, P, iter)[8:]
  loopform whole 0 5: kw(k.kek, S, P, iter)
  loopform first 0 5: kw(k.kek, S, P, iter)[:8]
  ensures [C12] range: err == nil <==> 16 <= len(data) && len(data) <= 8192
  ensures [C12] size: err == nil ==> len(r) == 8 + 8*((len(data)+7)/8)
  ensures [C12] nothing: err != nil ==> isnil(r)
  ensures [C12,C10] value: err == nil ==> content(r) == kwpwrap(k.kek, content(data))

contract crypto.(*KWP).Unwrap (k, data) (r, err)
  use
  setup kwp
  option inline crypto.NewKWP
  option expand kwp
  option panics C12
  let S = old(content(data))
  loopform apart 0 5: S[:8] ++ ku(k.kek, S, P, iter)[8:]
  loopform whole 0 5: ku(k.kek, S, P, iter)
  loopform first 0 5: ku(k.kek, S, P, iter)[:8]
  ensures [C12] range: err == nil ==> 24 <= len(data) && len(data) <= 8200 && len(data) % 8 == 0 && 8 + 8*((len(r)+7)/8) == len(data)
  ensures [C12] nothing: err != nil ==> isnil(r)
  ensures [C12,C10] ok: err == nil <==> kwpok(k.kek, content(data))
  ensures [C12,C10] value: err == nil ==> content(r) == kwpun(k.kek, content(data))

# Unwrapping inverts wrapping, and only strings made by wrapping are unwrapped.
contract crypto.LemmaKWPWrap (k, key) (r, err1, err2)
  setup kwp
  option inline crypto.NewKWP, crypto.(*KWP).Wrap, crypto.(*KWP).Unwrap
  let S = kwpstring(old(content(key)))
  loopform apart 0 5: S[:8] ++ kw(k.kek, S, P, iter)[8:]
  loopform whole 0 5: kw(k.kek, S, P, iter)
  loopform first 0 5: kw(k.kek, S, P, iter)[:8]
  loopform undoapart 0 5 down kwpsteps(S): kw(k.kek, S, 5, kwpsteps(S))[:8] ++ kw(k.kek, S, P, left)[8:]
  loopform undowhole 0 5 down kwpsteps(S): kw(k.kek, S, P, left)
  loopform undofirst 0 5 down kwpsteps(S): kw(k.kek, S, P, left)[:8]
  ensures [C12,C10] inverse: err1 == nil ==> err2 == nil && content(r) == content(key)

contract crypto.LemmaKWPUnwrap (k, w) (r, n, err1, err2)
  setup kwp
  option inline crypto.NewKWP, crypto.(*KWP).Wrap, crypto.(*KWP).Unwrap
  let S = old(content(w))
  let F = ku(k.kek, S, 0, kwpsteps(S))
  loopform apart 0 5: S[:8] ++ ku(k.kek, S, P, iter)[8:]
  loopform whole 0 5: ku(k.kek, S, P, iter)
  loopform first 0 5: ku(k.kek, S, P, iter)[:8]
  loopform redoapart 0 5 down kwpsteps(S): F[:8] ++ ku(k.kek, S, P, left)[8:]
  loopform redowhole 0 5 down kwpsteps(S): ku(k.kek, S, P, left)
  loopform redofirst 0 5 down kwpsteps(S): ku(k.kek, S, P, left)[:8]
  ensures [C12,C10] image: err1 == nil && n >= 16 ==> err2 == nil && content(r) == content(w)

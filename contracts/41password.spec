# Password hashes: salt (8) || PBKDF2-SHA3-256(password, salt, 10000, 32)
def pwhash(pw, salt) = pbkdf2(pw, salt, 10000, 32, "golang.org/x/crypto/sha3.New256")
def pwok(pw, rec) = len(rec) >= 8 && rec[8:] == pwhash(pw, rec[:8])

setup hasher
  call p0 = crypto.NewPasswordHasher()
  recv p0

contract crypto.(*PasswordHasher).GeneratePassword (p) (pw, rec, err)
  setup hasher
  draws pwd:32 salt:8
  ensures [C14,C19] password: err == nil ==> pw == b64(pwd)
  ensures [C14,C19] record: err == nil ==> content(rec) == salt ++ pwhash(pw, salt)
  ensures [C14] accepted: err == nil ==> pwok(pw, content(rec))
  ensures [C14] fresh: err == nil ==> ndraws() == 2
  ensures [C14] failing: err == nil <==> !rndfailed
  ensures [C14] nothing: err != nil ==> pw == "" && isnil(rec)

contract crypto.(*PasswordHasher).Compare (p, password, saltAndHash) (r)
  setup hasher
  ensures [C14,C19] exact: r <==> pwok(password, content(saltAndHash))

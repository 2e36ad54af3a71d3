# Operations on objects and access lists.
setup d1
  var ctx0 context.Context
  var kp key.Provider
  var ip io.Provider
  var dp id.Provider
  assume kp != nil && ip != nil && dp != nil
  call d0, e0 = d1.New(ctx0, kp, ip, dp)
  assume e0 == nil
  recv d0

def sObj = io.DataTypeSealedObject
def sAcc = io.DataTypeSealedAccess
def KEK(kp) = content(keysof(kp).KEK)
def AEK(kp) = content(keysof(kp).AEK)
def TEK(kp) = content(keysof(kp).TEK)
# the caller's scopes contain s
def scoped(I, s) = (I.Scopes & s) == s
# the caller is listed in the group set G with scope s
def listed(I, G, s) = (I.ID in G && (I.Scopes & s) == s) || (exists g B :: g != I.ID && g in I.Groups && g in G && (I.Groups[g].Scopes & s) == s)
# the caller may call the operation at all
def gate(dp, token, s) = idok(dp, token) && scoped(identity(dp, token), s)
# the access list in the bytes b, sealed for oid
def accrec(b) = decode(data.SealedAccess, b)
def accok(kp, b, oid) = decodes(data.SealedAccess, b) && cok(AEK(kp), content(accrec(b).WrappedKey), content(accrec(b).Ciphertext), jb(oid)) && decodes(data.Access, accplain(kp, b, oid))
def accplain(kp, b, oid) = copen(AEK(kp), content(accrec(b).WrappedKey), content(accrec(b).Ciphertext), jb(oid))
def acc(kp, b, oid) = decode(data.Access, accplain(kp, b, oid))
# the access list read from storage is authentic and lists the caller with the scope
def authorized(kp, dp, token, oid, s) = hasgot(oid, sAcc) && accok(kp, got(oid, sAcc), oid) && listed(identity(dp, token), keys(acc(kp, got(oid, sAcc), oid).Groups), s)
# the object in the bytes b, sealed for oid with the data key wrapped in w
def objrec(b) = decode(data.SealedObject, b)
def objad(b, oid) = jb(oid ++ content(objrec(b).AssociatedData))
def objok(kp, w, b, oid) = decodes(data.SealedObject, b) && cok(KEK(kp), w, content(objrec(b).Ciphertext), objad(b, oid)) && decodes(bytes, objplain(kp, w, b, oid))
def objplain(kp, w, b, oid) = copen(KEK(kp), w, content(objrec(b).Ciphertext), objad(b, oid))
# the bytes b are nothing but a sealed object of plaintext p and associated data a for oid, whose key is wrapped in w
def objsealed(kp, w, b, oid, p, a) = b == json(objrec(b)) && onlyfields(objrec(b), OID, Ciphertext, AssociatedData) && content(objrec(b).AssociatedData) == content(a) && objrec(b).OID == oid && \
   anydraw(k, 32, n, 12, w == cwrap(KEK(kp), k) && content(objrec(b).Ciphertext) == cseal(k, n, json(p), jb(oid ++ content(a))))
# the bytes b are nothing but a sealed access list for oid
def accsealed(kp, b, oid) = b == json(accrec(b)) && onlyfields(accrec(b), OID, Ciphertext, WrappedKey) && accrec(b).OID == oid && accok(kp, b, oid) && accplain(kp, b, oid) == json(acc(kp, b, oid)) && \
   anydraw(k, 32, n, 12, content(accrec(b).WrappedKey) == cwrap(AEK(kp), k) && content(accrec(b).Ciphertext) == cseal(k, n, accplain(kp, b, oid), jb(oid)))

contract d1.New (ctx, kp, ip, dp) (r, err)
  requires [C26] providers: kp != nil
  ensures [C23] keys: err == nil <==> keysok(kp) && len(keysof(kp).KEK) == 32 && len(keysof(kp).AEK) == 32 && len(keysof(kp).TEK) == 32
  ensures [C23,C01] pure: nostorage()

contract d1.(*D1).Encrypt (d, ctx, token, object, groups) (oid, err)
  setup d1
  ensures [C01] unauthenticated: err == d1.ErrNotAuthenticated <==> !idok(dp, token)
  ensures [C01] unauthorized: err == d1.ErrNotAuthorized <==> idok(dp, token) && !scoped(identity(dp, token), id.ScopeEncrypt)
  ensures [C01] refused: !gate(dp, token, id.ScopeEncrypt) ==> nostorage() && zero(oid)
  ensures [C01,C03] noid: err != nil ==> zero(oid)
  ensures [C03] fresh: err == nil ==> nevk("UUID") == 1 && oid == evk("UUID", 0).id
  ensures [C03] only: err == nil ==> storesame(sk(oid, sObj), sk(oid, sAcc)) && dom(oid, sObj) && dom(oid, sAcc)
  ensures [C03] creates: nevk("Update") == 0 && nevk("Delete") == 0 && nwrites() <= 2
  ensures [C03] new: honest && err == nil ==> !old(dom(oid, sObj)) && !old(dom(oid, sAcc))
  ensures [C03,C05] access: err == nil ==> accok(kp, stored(oid, sAcc), oid)
  ensures [C03] groups: err == nil ==> keys(acc(kp, stored(oid, sAcc), oid).Groups) == add(setof(groups), identity(dp, token).ID)
  ensures [C04,C05] object: err == nil ==> objok(kp, content(acc(kp, stored(oid, sAcc), oid).WrappedDEK), stored(oid, sObj), oid) && \
     content(decode(bytes, objplain(kp, content(acc(kp, stored(oid, sAcc), oid).WrappedDEK), stored(oid, sObj), oid))) == old(content(object.Plaintext)) && \
     content(objrec(stored(oid, sObj)).AssociatedData) == old(content(object.AssociatedData))
  ensures [C08] stored: err == nil ==> allev("", e, e.err == nil)
  ensures [C08] exists: allev("Put", e, is(e.err, io.ErrAlreadyExists) ==> err == (e.dt == sObj ? d1.ErrObjectAlreadyExists : d1.ErrAccessAlreadyExists))
  ensures [C08] succeeds: gate(dp, token, id.ScopeEncrypt) && !rndfailed && nwrites() == 2 && allev("", e, e.err == nil) ==> err == nil
  each [C09,C23] sealed: this.kind == "Put" && this.id == evk("UUID", 0).id && (this.dt == sObj || this.dt == sAcc) && \
     (this.dt == sObj ==> anydraw(k0, 32, objsealed(kp, cwrap(KEK(kp), k0), this.data, this.id, old(object.Plaintext), old(object.AssociatedData)))) && \
     (this.dt == sAcc ==> accsealed(kp, this.data, this.id))
  ensures [C09,C23] key: err == nil ==> objsealed(kp, content(acc(kp, stored(oid, sAcc), oid).WrappedDEK), stored(oid, sObj), oid, old(object.Plaintext), old(object.AssociatedData))

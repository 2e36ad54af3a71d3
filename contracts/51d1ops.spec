# What every operation on an existing object has in common.
def got1(oid) = got(oid, sAcc)
# the access list read from storage, with the wrapped data key in it
def racc(kp, oid) = acc(kp, got(oid, sAcc), oid)
# storage errors: none is swallowed
def allok() = allev("", e, e.err == nil)

contract d1.(*D1).Update (d, ctx, token, oid, object) (err)
  setup d1
  let a = sk(oid, sAcc)
  ensures [C01] unauthenticated: err == d1.ErrNotAuthenticated <==> !idok(dp, token)
  ensures [C01,C02] unauthorized: err == d1.ErrNotAuthorized <==> idok(dp, token) && (!scoped(identity(dp, token), id.ScopeUpdate) || \
     hasgot(oid, sAcc) && accok(kp, got(oid, sAcc), oid) && !listed(identity(dp, token), keys(racc(kp, oid).Groups), id.ScopeUpdate))
  ensures [C01] refused: !gate(dp, token, id.ScopeUpdate) ==> nostorage()
  ensures [C01,C02,C05] allowed: err == nil ==> gate(dp, token, id.ScopeUpdate) && authorized(kp, dp, token, oid, id.ScopeUpdate)
  each [C02,C05,C01] write: this.kind != "Get" ==> gate(dp, token, id.ScopeUpdate) && authorized(kp, dp, token, oid, id.ScopeUpdate)
  ensures [C04,C06] only: storesame(sk(oid, sObj), sk(oid, sAcc))
  ensures [C04] kinds: nevk("Put") == 0 && nevk("Delete") == 0
  ensures [C04,C05] access: err == nil ==> accok(kp, stored(oid, sAcc), oid) && keys(acc(kp, stored(oid, sAcc), oid).Groups) == keys(racc(kp, oid).Groups)
  ensures [C04,C05] object: err == nil ==> objok(kp, content(acc(kp, stored(oid, sAcc), oid).WrappedDEK), stored(oid, sObj), oid) && \
     content(decode(bytes, objplain(kp, content(acc(kp, stored(oid, sAcc), oid).WrappedDEK), stored(oid, sObj), oid))) == old(content(object.Plaintext)) && \
     content(objrec(stored(oid, sObj)).AssociatedData) == old(content(object.AssociatedData))
  ensures [C04] there: err == nil ==> dom(oid, sObj) && dom(oid, sAcc)
  ensures [C08] stored: err == nil ==> allok()
  ensures [C08] notfound: allev("", e, is(e.err, io.ErrNotFound) ==> err == (e.dt == sObj ? d1.ErrObjectNotFound : d1.ErrAccessNotFound))
  ensures [C08,C04] succeeds: gate(dp, token, id.ScopeUpdate) && authorized(kp, dp, token, oid, id.ScopeUpdate) && !rndfailed && allok() ==> err == nil
  each [C09,C23] sealed: this.kind != "Get" ==> this.id == oid && (this.dt == sObj || this.dt == sAcc) && \
     (this.dt == sObj ==> anydraw(k0, 32, objsealed(kp, cwrap(KEK(kp), k0), this.data, this.id, old(object.Plaintext), old(object.AssociatedData)))) && \
     (this.dt == sAcc ==> accsealed(kp, this.data, this.id))
  ensures [C09,C23] key: err == nil ==> objsealed(kp, content(acc(kp, stored(oid, sAcc), oid).WrappedDEK), stored(oid, sObj), oid, old(object.Plaintext), old(object.AssociatedData))

contract d1.(*D1).Decrypt (d, ctx, token, oid) (r, err)
  setup d1
  ensures [C01] unauthenticated: err == d1.ErrNotAuthenticated <==> !idok(dp, token)
  ensures [C01,C02] unauthorized: err == d1.ErrNotAuthorized <==> idok(dp, token) && (!scoped(identity(dp, token), id.ScopeDecrypt) || \
     hasgot(oid, sAcc) && accok(kp, got(oid, sAcc), oid) && !listed(identity(dp, token), keys(racc(kp, oid).Groups), id.ScopeDecrypt))
  ensures [C01] refused: !gate(dp, token, id.ScopeDecrypt) ==> nostorage()
  ensures [C01,C02,C05] nothing: err != nil ==> isnil(r.Plaintext) && isnil(r.AssociatedData)
  ensures [C01,C02,C05] allowed: err == nil ==> gate(dp, token, id.ScopeDecrypt) && authorized(kp, dp, token, oid, id.ScopeDecrypt)
  ensures [C04,C05,C23] exact: err == nil ==> hasgot(oid, sObj) && objok(kp, content(racc(kp, oid).WrappedDEK), got(oid, sObj), oid) && \
     content(r.Plaintext) == content(decode(bytes, objplain(kp, content(racc(kp, oid).WrappedDEK), got(oid, sObj), oid))) && \
     content(r.AssociatedData) == content(objrec(got(oid, sObj)).AssociatedData)
  ensures [C04,C05,C09] readonly: nowrite() && storesame()
  ensures [C08,C04] succeeds: gate(dp, token, id.ScopeDecrypt) && authorized(kp, dp, token, oid, id.ScopeDecrypt) && allok() && hasgot(oid, sObj) && \
     objok(kp, content(racc(kp, oid).WrappedDEK), got(oid, sObj), oid) ==> err == nil
  ensures [C08] stored: err == nil ==> allok()
  ensures [C08] notfound: allev("Get", e, is(e.err, io.ErrNotFound) ==> err == (e.dt == sObj ? d1.ErrObjectNotFound : d1.ErrAccessNotFound))

contract d1.(*D1).Delete (d, ctx, token, oid) (err)
  setup d1
  ensures [C01] unauthenticated: err == d1.ErrNotAuthenticated <==> !idok(dp, token)
  ensures [C01,C02] unauthorized: err == d1.ErrNotAuthorized <==> idok(dp, token) && (!scoped(identity(dp, token), id.ScopeDelete) || \
     hasgot(oid, sAcc) && accok(kp, got(oid, sAcc), oid) && !listed(identity(dp, token), keys(racc(kp, oid).Groups), id.ScopeDelete))
  ensures [C01] refused: !gate(dp, token, id.ScopeDelete) ==> nostorage()
  each [C02,C05,C01,C09] write: this.kind != "Get" ==> this.kind == "Delete" && gate(dp, token, id.ScopeDelete) && authorized(kp, dp, token, oid, id.ScopeDelete)
  ensures [C01,C02,C05] allowed: err == nil ==> gate(dp, token, id.ScopeDelete) && (authorized(kp, dp, token, oid, id.ScopeDelete) || missing(oid, sAcc, io.ErrNotFound))
  ensures [C07] only: storesame(sk(oid, sObj), sk(oid, sAcc))
  ensures [C07] gone: err == nil && !missing(oid, sAcc, io.ErrNotFound) ==> !dom(oid, sObj) && !dom(oid, sAcc)
  ensures [C07,C08] idempotent: gate(dp, token, id.ScopeDelete) && missing(oid, sAcc, io.ErrNotFound) ==> err == nil && nowrite()
  stable [C07] retry: old(dom(oid, sObj) ==> dom(oid, sAcc)) ==> (dom(oid, sObj) ==> dom(oid, sAcc))
  ensures [C07] same_list: dom(oid, sAcc) ==> stored(oid, sAcc) == old(stored(oid, sAcc))
  ensures [C07,C08] succeeds: gate(dp, token, id.ScopeDelete) && authorized(kp, dp, token, oid, id.ScopeDelete) && allok() ==> err == nil
  ensures [C08,C07] stored: err == nil && !missing(oid, sAcc, io.ErrNotFound) ==> allok()

contract d1.(*D1).GetAccessGroups (d, ctx, token, oid) (r, err)
  setup d1
  ensures [C01] unauthenticated: err == d1.ErrNotAuthenticated <==> !idok(dp, token)
  ensures [C01,C02] unauthorized: err == d1.ErrNotAuthorized <==> idok(dp, token) && (!scoped(identity(dp, token), id.ScopeGetAccessGroups) || \
     hasgot(oid, sAcc) && accok(kp, got(oid, sAcc), oid) && !listed(identity(dp, token), keys(racc(kp, oid).Groups), id.ScopeGetAccessGroups))
  ensures [C01] refused: !gate(dp, token, id.ScopeGetAccessGroups) ==> nostorage()
  ensures [C01,C02,C05] nothing: err != nil ==> isnil(r)
  ensures [C01,C02,C05] allowed: err == nil ==> gate(dp, token, id.ScopeGetAccessGroups) && authorized(kp, dp, token, oid, id.ScopeGetAccessGroups)
  ensures [C06,C05] exact: err == nil ==> keys(r) == keys(racc(kp, oid).Groups)
  ensures [C06,C05,C09] readonly: nowrite() && storesame()
  ensures [C08,C06] succeeds: gate(dp, token, id.ScopeGetAccessGroups) && authorized(kp, dp, token, oid, id.ScopeGetAccessGroups) && allok() ==> err == nil
  ensures [C08] stored: err == nil ==> allok()
  ensures [C08] notfound: missing(oid, sAcc, io.ErrNotFound) ==> err == d1.ErrAccessNotFound

contract d1.(*D1).AuthorizeIdentity (d, ctx, token, oid) (err)
  setup d1
  ensures [C01] unauthenticated: err == d1.ErrNotAuthenticated <==> !idok(dp, token)
  ensures [C01,C02] unauthorized: err == d1.ErrNotAuthorized <==> idok(dp, token) && (!scoped(identity(dp, token), id.ScopeGetAccessGroups) || \
     hasgot(oid, sAcc) && accok(kp, got(oid, sAcc), oid) && !listed(identity(dp, token), keys(racc(kp, oid).Groups), id.ScopeGetAccessGroups))
  ensures [C01] refused: !gate(dp, token, id.ScopeGetAccessGroups) ==> nostorage()
  ensures [C01,C02,C05] allowed: err == nil ==> gate(dp, token, id.ScopeGetAccessGroups) && authorized(kp, dp, token, oid, id.ScopeGetAccessGroups)
  ensures [C06,C05,C02,C09] readonly: nowrite() && storesame()
  ensures [C08,C02] succeeds: gate(dp, token, id.ScopeGetAccessGroups) && authorized(kp, dp, token, oid, id.ScopeGetAccessGroups) && allok() ==> err == nil
  ensures [C08] stored: err == nil ==> allok()
  ensures [C08] notfound: missing(oid, sAcc, io.ErrNotFound) ==> err == d1.ErrAccessNotFound

contract d1.(*D1).AddGroupsToAccess (d, ctx, token, oid, groups) (err)
  setup d1
  ensures [C01] unauthenticated: err == d1.ErrNotAuthenticated <==> !idok(dp, token)
  ensures [C01,C02] unauthorized: err == d1.ErrNotAuthorized <==> idok(dp, token) && (!scoped(identity(dp, token), id.ScopeModifyAccessGroups) || \
     hasgot(oid, sAcc) && accok(kp, got(oid, sAcc), oid) && !listed(identity(dp, token), keys(racc(kp, oid).Groups), id.ScopeModifyAccessGroups))
  ensures [C01] refused: !gate(dp, token, id.ScopeModifyAccessGroups) ==> nostorage()
  ensures [C01,C02,C05] allowed: err == nil ==> gate(dp, token, id.ScopeModifyAccessGroups) && authorized(kp, dp, token, oid, id.ScopeModifyAccessGroups)
  each [C02,C05,C01] write: this.kind != "Get" ==> gate(dp, token, id.ScopeModifyAccessGroups) && authorized(kp, dp, token, oid, id.ScopeModifyAccessGroups)
  ensures [C06,C04] only: storesame(sk(oid, sAcc))
  ensures [C06] kinds: nevk("Put") == 0 && nevk("Delete") == 0
  ensures [C06,C05] union: err == nil ==> accok(kp, stored(oid, sAcc), oid) && \
     keys(acc(kp, stored(oid, sAcc), oid).Groups) == union(keys(racc(kp, oid).Groups), setof(groups))
  ensures [C06,C04] samekey: err == nil ==> content(acc(kp, stored(oid, sAcc), oid).WrappedDEK) == content(racc(kp, oid).WrappedDEK)
  ensures [C06] there: err == nil ==> dom(oid, sAcc)
  ensures [C08,C06] succeeds: gate(dp, token, id.ScopeModifyAccessGroups) && authorized(kp, dp, token, oid, id.ScopeModifyAccessGroups) && allok() && !rndfailed ==> err == nil
  ensures [C08] stored: err == nil ==> allok()
  ensures [C08] notfound: allev("", e, is(e.err, io.ErrNotFound) ==> err == d1.ErrAccessNotFound)
  each [C09,C23] sealed: this.kind != "Get" ==> this.id == oid && this.dt == sAcc && accsealed(kp, this.data, this.id)

contract d1.(*D1).RemoveGroupsFromAccess (d, ctx, token, oid, groups) (err)
  setup d1
  ensures [C01] unauthenticated: err == d1.ErrNotAuthenticated <==> !idok(dp, token)
  ensures [C01,C02] unauthorized: err == d1.ErrNotAuthorized <==> idok(dp, token) && (!scoped(identity(dp, token), id.ScopeModifyAccessGroups) || \
     hasgot(oid, sAcc) && accok(kp, got(oid, sAcc), oid) && !listed(identity(dp, token), keys(racc(kp, oid).Groups), id.ScopeModifyAccessGroups))
  ensures [C01] refused: !gate(dp, token, id.ScopeModifyAccessGroups) ==> nostorage()
  ensures [C01,C02,C05] allowed: err == nil ==> gate(dp, token, id.ScopeModifyAccessGroups) && authorized(kp, dp, token, oid, id.ScopeModifyAccessGroups)
  each [C02,C05,C01] write: this.kind != "Get" ==> gate(dp, token, id.ScopeModifyAccessGroups) && authorized(kp, dp, token, oid, id.ScopeModifyAccessGroups)
  ensures [C06,C04] only: storesame(sk(oid, sAcc))
  ensures [C06] kinds: nevk("Put") == 0 && nevk("Delete") == 0
  ensures [C06,C05] difference: err == nil ==> accok(kp, stored(oid, sAcc), oid) && \
     keys(acc(kp, stored(oid, sAcc), oid).Groups) == minus(keys(racc(kp, oid).Groups), setof(groups))
  ensures [C06,C04] samekey: err == nil ==> content(acc(kp, stored(oid, sAcc), oid).WrappedDEK) == content(racc(kp, oid).WrappedDEK)
  ensures [C06] there: err == nil ==> dom(oid, sAcc)
  ensures [C08,C06] succeeds: gate(dp, token, id.ScopeModifyAccessGroups) && authorized(kp, dp, token, oid, id.ScopeModifyAccessGroups) && allok() && !rndfailed ==> err == nil
  ensures [C08] stored: err == nil ==> allok()
  ensures [C08] notfound: allev("", e, is(e.err, io.ErrNotFound) ==> err == d1.ErrAccessNotFound)
  each [C09,C23] sealed: this.kind != "Get" ==> this.id == oid && this.dt == sAcc && accsealed(kp, this.data, this.id)

contract d1.(*D1).CreateToken (d, ctx, plaintext) (r, err)
  setup d1
  ensures [C15] expiry: err == nil ==> r.ExpiryTime == now(0) + hour
  ensures [C15] valid: err == nil ==> tokok(TEK(kp), r) && content(decode(bytes, tokplain(TEK(kp), r))) == content(plaintext)
  ensures [C15,C23] sealed: err == nil ==> sealedas(TEK(kp), content(r.WrappedKey), content(r.Ciphertext), json(plaintext), json(r.ExpiryTime))
  ensures [C15] accept: !rndfailed && timeok(now(0) + hour) ==> err == nil
  ensures [C15] nothing: err != nil ==> isnil(r.WrappedKey) && isnil(r.Ciphertext)
  ensures [C15,C09] pure: nostorage()

contract d1.(*D1).GetTokenContents (d, ctx, token) (r, err)
  setup d1
  ensures [C15,C23] exact: err == nil <==> now(0) <= token.ExpiryTime && tokok(TEK(kp), token)
  ensures [C15] value: err == nil ==> content(r) == content(decode(bytes, tokplain(TEK(kp), token)))
  ensures [C15] nothing: err != nil ==> isnil(r)
  ensures [C15,C09] pure: nostorage()

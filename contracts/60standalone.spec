# Users, groups and login tokens of the built-in identity provider.
setup sa
  var ctx0 context.Context
  var cfg id.StandaloneConfig
  var ip io.Provider
  assume ip != nil
  call s0, e0 = id.NewStandalone(cfg, ip)
  assume e0 == nil
  recv s0

invariant id.User: !isnil(self.Groups)
def sUser = id.DataTypeSealedUser
def sGrp = id.DataTypeSealedGroup
# the record b is a user sealed for uid
def urec(b) = decode(id.SealedUser, b)
def uplain(cfg, b, uid) = copen(content(cfg.UEK), content(urec(b).WrappedKey), content(urec(b).Ciphertext), json(uid))
def uok(cfg, b, uid) = decodes(id.SealedUser, b) && cok(content(cfg.UEK), content(urec(b).WrappedKey), content(urec(b).Ciphertext), json(uid)) && decodes(id.User, uplain(cfg, b, uid))
def user(cfg, b, uid) = decode(id.User, uplain(cfg, b, uid))
def grec(b) = decode(id.SealedGroup, b)
def gplain(cfg, b, gid) = copen(content(cfg.GEK), content(grec(b).WrappedKey), content(grec(b).Ciphertext), json(gid))
def gok(cfg, b, gid) = decodes(id.SealedGroup, b) && cok(content(cfg.GEK), content(grec(b).WrappedKey), content(grec(b).Ciphertext), json(gid)) && decodes(id.Group, gplain(cfg, b, gid))
def group(cfg, b, gid) = decode(id.Group, gplain(cfg, b, gid))
# the token string
def tok(token) = decode(data.SealedToken, b64dec(token))
def authentic(cfg, token) = b64ok(token) && decodes(data.SealedToken, b64dec(token)) && tokok(content(cfg.TEK), tok(token))
def tokuid(cfg, token) = content(decode(bytes, tokplain(content(cfg.TEK), tok(token))))
# what the caller sees of a user
def readuser(cfg, uid) = user(cfg, got(uid, sUser), uid)

contract id.NewStandalone (config, ioProvider) (r, err)
  ensures [C23] keys: err == nil <==> len(config.UEK) == 32 && len(config.GEK) == 32 && len(config.TEK) == 32
  ensures [C23] pure: nostorage()

# nothing but a sealed user / group, under a fresh key
def usersealed(cfg, b, uid) = b == json(urec(b)) && onlyfields(urec(b), UID, Ciphertext, WrappedKey) && urec(b).UID == uid && uok(cfg, b, uid) && uplain(cfg, b, uid) == json(user(cfg, b, uid)) && \
   anydraw(k, 32, n, 12, content(urec(b).WrappedKey) == cwrap(content(cfg.UEK), k) && content(urec(b).Ciphertext) == cseal(k, n, uplain(cfg, b, uid), json(uid)))
def groupsealed(cfg, b, gid) = b == json(grec(b)) && onlyfields(grec(b), GID, Ciphertext, WrappedKey) && grec(b).GID == gid && gok(cfg, b, gid) && gplain(cfg, b, gid) == json(group(cfg, b, gid)) && \
   anydraw(k, 32, n, 12, content(grec(b).WrappedKey) == cwrap(content(cfg.GEK), k) && content(grec(b).Ciphertext) == cseal(k, n, gplain(cfg, b, gid), json(gid)))
def sealedwrite(cfg, w) = (w.dt == sUser || w.dt == sGrp) && (w.dt == sUser ==> usersealed(cfg, w.data, w.id)) && (w.dt == sGrp ==> groupsealed(cfg, w.data, w.id))
def allok = allev("", e, e.err == nil)
# the caller, as the identity provider sees it
def valid(cfg, token) = authentic(cfg, token) && now(0) <= tok(token).ExpiryTime
def caller(cfg, token) = user(cfg, firstgot(tokuid(cfg, token), sUser), tokuid(cfg, token))
# two versions of a user differ in nothing but the groups / the password
def samebutgroups(a, b) = a.Scopes == b.Scopes && content(a.SaltAndHash) == content(b.SaltAndHash)
def now_user(cfg, uid) = user(cfg, stored(uid, sUser), uid)

contract id.(*Standalone).GetIdentity (s, ctx, token) (r, err)
  setup sa
  ensures [C18,C19] token: err == id.ErrNotAuthenticated <==> !(authentic(cfg, token) && now(0) <= tok(token).ExpiryTime)
  ensures [C18] valid: err == nil ==> authentic(cfg, token) && now(0) <= tok(token).ExpiryTime
  ensures [C18] refused: !authentic(cfg, token) ==> nostorage()
  ensures [C18,C19,C08] identity: err == nil ==> r.ID == tokuid(cfg, token) && hasgot(r.ID, sUser) && uok(cfg, got(r.ID, sUser), r.ID) && \
     r.Scopes == readuser(cfg, r.ID).Scopes && keys(r.Groups) == keys(readuser(cfg, r.ID).Groups)
  ensures [C18,C08] groups: err == nil ==> (forall g B :: g in r.Groups ==> r.Groups[g].ID == g && \
     (honest ==> gok(cfg, stored(g, sGrp), g) && r.Groups[g].Scopes == group(cfg, stored(g, sGrp), g).Scopes))
  ensures [C18] bound: err == nil ==> (forall g B :: g in r.Groups ==> (exists b B :: gok(cfg, b, g) && r.Groups[g].Scopes == group(cfg, b, g).Scopes))
  ensures [C18] nothing: err != nil ==> r.ID == "" && r.Scopes == 0 && isnil(r.Groups)
  ensures [C18,C20] readonly: nowrite() && storesame()
  ensures [C08] stored: err == nil ==> allok()
  ensures [C08,C18] notfound: allev("Get", e, is(e.err, io.ErrNotFound) ==> err == (e.dt == sUser ? id.ErrUserNotFound : id.ErrGroupNotFound))

contract id.(*Standalone).NewUser (s, ctx, scopes) (uid, pwd, err)
  setup sa
  ensures [C20] fresh: err == nil ==> nevk("UUID") == 1 && uid == uuidtext(evk("UUID", 0).id)
  ensures [C20] user: err == nil ==> dom(uid, sUser) && uok(cfg, stored(uid, sUser), uid) && now_user(cfg, uid).Scopes == orof(scopes) && keys(now_user(cfg, uid).Groups) == emptyset
  ensures [C20,C19] password: err == nil ==> pwok(pwd, content(now_user(cfg, uid).SaltAndHash)) && anydraw(p, 32, pwd == b64(p)) && anydraw(s, 8, content(now_user(cfg, uid).SaltAndHash) == s ++ pwhash(pwd, s))
  ensures [C20] only: err == nil ==> storesame(sk(uid, sUser))
  ensures [C20] creates: nevk("Update") == 0 && nevk("Delete") == 0 && nevk("Put") <= 1
  ensures [C20] new: honest && err == nil ==> !old(dom(uid, sUser))
  ensures [C20] nothing: err != nil ==> uid == "" && pwd == ""
  ensures [C08] stored: err == nil ==> allok()
  ensures [C08] exists: allev("Put", e, is(e.err, io.ErrAlreadyExists) ==> err == id.ErrUserAlreadyExists)
  ensures [C08,C20] succeeds: !rndfailed && allok() && nwrites() == 1 ==> err == nil
  each [C09,C23] sealed: sealedwrite(cfg, this)

contract id.(*Standalone).LoginUser (s, ctx, uid, password) (token, expiry, err)
  setup sa
  ensures [C19] failure: err != nil ==> err == id.ErrNotAuthenticated && token == "" && expiry == 0
  ensures [C19] password: err == nil ==> hasgot(uid, sUser) && uok(cfg, got(uid, sUser), uid) && pwok(password, content(readuser(cfg, uid).SaltAndHash))
  ensures [C19] accept: hasgot(uid, sUser) && uok(cfg, got(uid, sUser), uid) && pwok(password, content(readuser(cfg, uid).SaltAndHash)) && !rndfailed && timeok(now(0) + hour) ==> err == nil
  ensures [C19,C18,C23] token: err == nil ==> authentic(cfg, token) && tokuid(cfg, token) == uid
  ensures [C19,C15] expiry: err == nil ==> tok(token).ExpiryTime == now(0) + hour && expiry == unix(tok(token).ExpiryTime)
  ensures [C23,C09] tokenkey: err == nil ==> anydraw(k, 32, n, 12, content(tok(token).WrappedKey) == cwrap(content(cfg.TEK), k) && content(tok(token).Ciphertext) == cseal(k, n, tokplain(content(cfg.TEK), tok(token)), json(tok(token).ExpiryTime)))
  ensures [C19] readonly: nowrite() && storesame()
  ensures [C08] stored: err == nil ==> allok()

contract id.(*Standalone).ChangeUserPassword (s, ctx, uid, oldPassword) (pwd, err)
  setup sa
  ensures [C19] current: err == nil ==> hasgot(uid, sUser) && uok(cfg, got(uid, sUser), uid) && pwok(oldPassword, content(readuser(cfg, uid).SaltAndHash))
  each [C19] write: this.kind != "Get" ==> hasgot(uid, sUser) && uok(cfg, got(uid, sUser), uid) && pwok(oldPassword, content(readuser(cfg, uid).SaltAndHash))
  ensures [C19] wrong: hasgot(uid, sUser) && uok(cfg, got(uid, sUser), uid) && !pwok(oldPassword, content(readuser(cfg, uid).SaltAndHash)) ==> err == id.ErrNotAuthenticated
  ensures [C19] changed: err == nil ==> dom(uid, sUser) && uok(cfg, stored(uid, sUser), uid) && pwok(pwd, content(now_user(cfg, uid).SaltAndHash)) && \
     anydraw(p, 32, pwd == b64(p)) && anydraw(s, 8, content(now_user(cfg, uid).SaltAndHash) == s ++ pwhash(pwd, s))
  ensures [C19,C20] rest: err == nil ==> now_user(cfg, uid).Scopes == readuser(cfg, uid).Scopes && keys(now_user(cfg, uid).Groups) == keys(readuser(cfg, uid).Groups)
  ensures [C19] only: storesame(sk(uid, sUser))
  ensures [C19] kinds: nevk("Put") == 0 && nevk("Delete") == 0
  ensures [C19] nothing: err != nil ==> pwd == ""
  ensures [C08] stored: err == nil ==> allok()
  ensures [C08] notfound: allev("Update", e, is(e.err, io.ErrNotFound) ==> err == id.ErrUserNotFound)
  ensures [C19,C08] succeeds: hasgot(uid, sUser) && uok(cfg, got(uid, sUser), uid) && pwok(oldPassword, content(readuser(cfg, uid).SaltAndHash)) && !rndfailed && allok() ==> err == nil
  each [C09,C23] sealed: this.kind != "Get" ==> sealedwrite(cfg, this)

contract id.(*Standalone).DeleteUser (s, ctx, token, uid) (err)
  setup sa
  ensures [C20,C18] token: !valid(cfg, token) ==> err == id.ErrNotAuthenticated && nostorage()
  each [C20] write: this.kind != "Get" ==> this.kind == "Delete" && valid(cfg, token) && uok(cfg, firstgot(tokuid(cfg, token), sUser), tokuid(cfg, token))
  ensures [C20] deleted: err == nil ==> !dom(uid, sUser)
  ensures [C20] only: storesame(sk(uid, sUser))
  ensures [C08] stored: err == nil ==> allok()
  ensures [C08] notfound: allev("Get", e, is(e.err, io.ErrNotFound) ==> err == (e.dt == sUser ? id.ErrUserNotFound : id.ErrGroupNotFound))

contract id.(*Standalone).NewGroup (s, ctx, token, scopes) (gid, err)
  setup sa
  let c = tokuid(cfg, token)
  ensures [C20,C18] token: !valid(cfg, token) ==> err == id.ErrNotAuthenticated && nostorage()
  each [C20] write: this.kind != "Get" ==> valid(cfg, token) && uok(cfg, firstgot(c, sUser), c)
  ensures [C20] fresh: err == nil ==> nevk("UUID") == 1 && gid == uuidtext(evk("UUID", 0).id)
  ensures [C20] group: err == nil ==> dom(gid, sGrp) && gok(cfg, stored(gid, sGrp), gid) && group(cfg, stored(gid, sGrp), gid).Scopes == orof(scopes)
  ensures [C20] member: err == nil ==> dom(c, sUser) && uok(cfg, stored(c, sUser), c) && uok(cfg, got(c, sUser), c) && \
     keys(now_user(cfg, c).Groups) == add(keys(readuser(cfg, c).Groups), gid) && samebutgroups(now_user(cfg, c), readuser(cfg, c))
  ensures [C20] only: err == nil ==> storesame(sk(gid, sGrp), sk(c, sUser))
  ensures [C20] new: honest && err == nil ==> !old(dom(gid, sGrp))
  ensures [C20] kinds: nevk("Put") <= 1 && nevk("Delete") == 0 && allev("Put", e, e.dt == sGrp) && allev("Update", e, e.dt == sUser && e.id == c)
  ensures [C20] nothing: err != nil ==> gid == ""
  ensures [C08] stored: err == nil ==> allok()
  ensures [C08] notfound: allev("", e, e.kind != "Put" && is(e.err, io.ErrNotFound) ==> err == (e.dt == sUser ? id.ErrUserNotFound : id.ErrGroupNotFound))
  ensures [C08] exists: allev("Put", e, is(e.err, io.ErrAlreadyExists) ==> err == id.ErrGroupAlreadyExists)
  each [C09,C23] sealed: this.kind != "Get" ==> sealedwrite(cfg, this)

contract id.(*Standalone).AddUserToGroups (s, ctx, token, uid, gids) (err)
  setup sa
  let c = tokuid(cfg, token)
  ensures [C20,C18] token: !valid(cfg, token) ==> err == id.ErrNotAuthenticated && nostorage()
  ensures [C20] allowed: err == nil ==> valid(cfg, token) && uok(cfg, firstgot(c, sUser), c) && (forall i Int :: 0 <= i && i < len(gids) ==> gids[i] in caller(cfg, token).Groups)
  each [C20] write: this.kind != "Get" ==> valid(cfg, token) && uok(cfg, firstgot(c, sUser), c) && (forall i Int :: 0 <= i && i < len(gids) ==> gids[i] in caller(cfg, token).Groups)
  ensures [C20] groups: err == nil ==> dom(uid, sUser) && uok(cfg, stored(uid, sUser), uid) && uok(cfg, got(uid, sUser), uid) && \
     keys(now_user(cfg, uid).Groups) == union(keys(readuser(cfg, uid).Groups), setof(gids))
  ensures [C20] rest: err == nil ==> samebutgroups(now_user(cfg, uid), readuser(cfg, uid))
  ensures [C20] only: storesame(sk(uid, sUser))
  ensures [C20] kinds: nevk("Put") == 0 && nevk("Delete") == 0
  ensures [C20] notmember: err == id.ErrNotAuthorized ==> nowrite() && (exists i Int :: 0 <= i && i < len(gids) && !(gids[i] in caller(cfg, token).Groups))
  ensures [C08] stored: err == nil ==> allok()
  ensures [C08] notfound: allev("", e, is(e.err, io.ErrNotFound) ==> err == (e.dt == sUser ? id.ErrUserNotFound : id.ErrGroupNotFound))
  each [C09,C23] sealed: this.kind != "Get" ==> sealedwrite(cfg, this)

contract id.(*Standalone).RemoveUserFromGroups (s, ctx, token, uid, gids) (err)
  setup sa
  let c = tokuid(cfg, token)
  ensures [C20,C18] token: !valid(cfg, token) ==> err == id.ErrNotAuthenticated && nostorage()
  ensures [C20] allowed: err == nil ==> valid(cfg, token) && uok(cfg, firstgot(c, sUser), c) && (forall i Int :: 0 <= i && i < len(gids) ==> gids[i] in caller(cfg, token).Groups)
  each [C20] write: this.kind != "Get" ==> valid(cfg, token) && uok(cfg, firstgot(c, sUser), c) && (forall i Int :: 0 <= i && i < len(gids) ==> gids[i] in caller(cfg, token).Groups)
  ensures [C20] groups: err == nil ==> dom(uid, sUser) && uok(cfg, stored(uid, sUser), uid) && uok(cfg, got(uid, sUser), uid) && \
     keys(now_user(cfg, uid).Groups) == minus(keys(readuser(cfg, uid).Groups), setof(gids))
  ensures [C20] rest: err == nil ==> samebutgroups(now_user(cfg, uid), readuser(cfg, uid))
  ensures [C20] only: storesame(sk(uid, sUser))
  ensures [C20] kinds: nevk("Put") == 0 && nevk("Delete") == 0
  ensures [C20] notmember: err == id.ErrNotAuthorized ==> nowrite() && (exists i Int :: 0 <= i && i < len(gids) && !(gids[i] in caller(cfg, token).Groups))
  ensures [C08] stored: err == nil ==> allok()
  ensures [C08] notfound: allev("", e, is(e.err, io.ErrNotFound) ==> err == (e.dt == sUser ? id.ErrUserNotFound : id.ErrGroupNotFound))
  each [C09,C23] sealed: this.kind != "Get" ==> sealedwrite(cfg, this)

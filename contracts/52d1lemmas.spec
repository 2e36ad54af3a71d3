# Programs over several operations, on storage that answers what is stored.
contract d1.LemmaEncryptDecrypt (d, ctx, token, object, groups) (r, e1, e2)
  setup d1
  option only C04
  assume honest
  ensures [C04] exact: e1 == nil && e2 == nil ==> content(r.Plaintext) == old(content(object.Plaintext)) && content(r.AssociatedData) == old(content(object.AssociatedData))
  ensures [C04] succeeds: e1 == nil && gate(dp, token, id.ScopeDecrypt) && allev("", e, e.err == nil) ==> e2 == nil

contract d1.LemmaUpdateDecrypt (d, ctx, token, oid, object) (r, e1, e2)
  setup d1
  option only C04
  assume honest
  ensures [C04] exact: e1 == nil && e2 == nil ==> content(r.Plaintext) == old(content(object.Plaintext)) && content(r.AssociatedData) == old(content(object.AssociatedData))
  ensures [C04] succeeds: e1 == nil && gate(dp, token, id.ScopeDecrypt) && allev("", e, e.err == nil) && listed(identity(dp, token), keys(acc(kp, stored(oid, sAcc), oid).Groups), id.ScopeDecrypt) ==> e2 == nil

contract d1.LemmaAddRead (d, ctx, token, oid, groups) (a, b, e1, e2, e3)
  setup d1
  option tier thorough
  option only C06
  assume honest
  ensures [C06] exact: e1 == nil && e2 == nil && e3 == nil ==> (forall g B :: g in keys(b) <==> g in keys(a) || g in setof(groups))

contract d1.LemmaRemoveDecrypt (d, ctx, token, oid, groups) (a, b, e1, e2, e3)
  setup d1
  option tier thorough
  option only C06
  assume honest
  ensures [C06] same: e1 == nil && e2 == nil && e3 == nil ==> content(a.Plaintext) == content(b.Plaintext) && content(a.AssociatedData) == content(b.AssociatedData)

contract d1.LemmaDeleteAgain (d, ctx, token, oid) (e1, e2, e3)
  setup d1
  option tier thorough
  option only C07
  assume honest
  ensures [C07] gone: e2 == nil && old(dom(oid, sObj) ==> dom(oid, sAcc)) ==> !dom(oid, sObj) && !dom(oid, sAcc)
  ensures [C07] notfound: e2 == nil ==> e3 != nil

contract d1.LemmaTokenRead (d, ctx, plaintext) (r, e1, e2)
  setup d1
  option only C15
  ensures [C15] exact: e1 == nil && e2 == nil ==> content(r) == old(content(plaintext))

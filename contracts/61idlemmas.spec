# Programs over several operations, on storage that answers what is stored.
contract id.LemmaLogin (s, ctx, scopes) (uid, i, e1, e2, e3)
  setup sa
  option only C19
  assume honest
  ensures [C19] works: e1 == nil && allok() && !rndfailed && timeok(now(0) + hour) ==> e2 == nil
  ensures [C19] identity: e1 == nil && e2 == nil && e3 == nil ==> i.ID == uid && i.Scopes == orof(scopes) && keys(i.Groups) == emptyset
  ensures [C19] authenticates: e1 == nil && e2 == nil && allok() ==> e3 == nil || is(e3, id.ErrNotAuthenticated)

contract id.LemmaChange (s, ctx, uid, old) (e1, e2)
  setup sa
  option only C19
  assume honest
  ensures [C19] works: e1 == nil && allok() && !rndfailed && timeok(now(0) + hour) ==> e2 == nil

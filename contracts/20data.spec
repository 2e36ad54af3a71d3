contract data.NewAccess (wrappedDEK) (r)
  ensures [C03,C06] empty: forall g B :: !(g in r.Groups)
  ensures [C03] key: content(r.WrappedDEK) == content(wrappedDEK)
  ensures [C03] usable: !isnil(r.Groups)

contract data.(*Access).AddGroups (a, ids) ()
  assume inv(a)
  modifies a
  ensures [C06,C03] union: keys(a.Groups) == union(old(keys(a.Groups)), setof(ids))
  ensures [C06,C05] key: content(a.WrappedDEK) == old(content(a.WrappedDEK))

contract data.(*Access).RemoveGroups (a, ids) ()
  modifies a
  ensures [C06] difference: keys(a.Groups) == minus(old(keys(a.Groups)), setof(ids))
  ensures [C06,C05] key: content(a.WrappedDEK) == old(content(a.WrappedDEK))

contract data.(*Access).ContainsGroups (a, ids) (r)
  ensures [C02,C06] subset: r <==> (forall i Int :: 0 <= i && i < len(ids) ==> ids[i] in a.Groups)

contract data.(*Access).GetGroups (a) (r)
  ensures [C06] exact: keys(r) == keys(a.Groups)
invariant data.Access: !isnil(self.Groups)

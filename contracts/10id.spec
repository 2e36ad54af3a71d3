contract id.ScopeUnion (scopes) (r)
  ensures [C24] union: r == orof(scopes)
  ensures [C24] members: forall i Int :: 0 <= i && i < len(scopes) ==> (scopes[i] & r) == scopes[i]
  ensures [C24] distinct: bit(id.ScopeEncrypt) && bit(id.ScopeDecrypt) && bit(id.ScopeUpdate) && bit(id.ScopeDelete) && bit(id.ScopeCreateToken) && \
     bit(id.ScopeGetTokenContents) && bit(id.ScopeGetAccessGroups) && bit(id.ScopeModifyAccessGroups) && bit(id.ScopeIndex) && \
     id.ScopeEncrypt + id.ScopeDecrypt + id.ScopeUpdate + id.ScopeDelete + id.ScopeCreateToken + id.ScopeGetTokenContents + id.ScopeGetAccessGroups + \
     id.ScopeModifyAccessGroups + id.ScopeIndex == id.ScopeAll && \
     (id.ScopeEncrypt | id.ScopeDecrypt | id.ScopeUpdate | id.ScopeDelete | id.ScopeCreateToken | id.ScopeGetTokenContents | id.ScopeGetAccessGroups | \
     id.ScopeModifyAccessGroups | id.ScopeIndex) == id.ScopeAll && id.ScopeNone == 0
def bit(s) = s != 0 && (s & (s - 1)) == 0

contract id.(Scope).Contains (s, scope) (r)
  ensures [C24] subset: r <==> (s & scope) == scope
  ensures [C24] no_extra: r <==> (s | scope) == s

contract id.(Scope).String (s) (r)
  props C26

contract id.(*Identity).GetIDs (i) (r)
  ensures [C24,C02] exact: forall x B :: (x in r) <==> (x == i.ID || x in i.Groups)

contract id.(*Identity).GetIDScope (i, x) (r)
  ensures [C24,C02] own: x == i.ID ==> r == i.Scopes
  ensures [C24,C02] group: x != i.ID && x in i.Groups ==> r == i.Groups[x].Scopes
  ensures [C24,C02] other: x != i.ID && !(x in i.Groups) ==> r == 0

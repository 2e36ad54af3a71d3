# The built-in key provider hands out exactly the keys it was given, each in its place.
def samekeys(k, l) = content(k.KEK) == content(l.KEK) && content(k.AEK) == content(l.AEK) && content(k.TEK) == content(l.TEK) && content(k.IEK) == content(l.IEK)
contract key.LemmaStatic (ctx, keys) (a, b, ea, eb)
  ensures [C23] exact: ea == nil && samekeys(a, keys)
  ensures [C23] again: eb == nil && samekeys(b, keys)

# The secure index.
setup idx
  var ctx0 context.Context
  var kp key.Provider
  var ip io.Provider
  var dp id.Provider
  assume kp != nil && ip != nil && dp != nil
  call x0, e0 = index.NewSecureIndex(ctx0, kp, ip, dp)
  assume e0 == nil
  recv x0

def sNode = io.DataTypeSealedNode
def IEK(kp) = content(keysof(kp).IEK)
# the keys of a keyword, and the storage key of the node with counter c
def labelkey(kp, w) = kmac256(IEK(kp), w, 32, "label")
def nodekey(kp, w) = kmac256(IEK(kp), w, 32, "id")
def label(kp, w, c) = kmac256(labelkey(kp, w), "", 32, jb(uvarint(c)))
# the node in the bytes b, sealed for the label l
def nrec(b) = decode(data.SealedNode, b)
def nplain(kp, w, b, l) = copen(nodekey(kp, w), content(nrec(b).WrappedKey), content(nrec(b).Ciphertext), jb(l))
def nok(kp, w, b, l) = decodes(data.SealedNode, b) && cok(nodekey(kp, w), content(nrec(b).WrappedKey), content(nrec(b).Ciphertext), jb(l)) && decodes(data.Node, nplain(kp, w, b, l))
def node(kp, w, b, l) = decode(data.Node, nplain(kp, w, b, l))
# nothing but a sealed node for the label l, under a fresh key
def nsealed(kp, w, b, l) = b == json(nrec(b)) && onlyfields(nrec(b), Ciphertext, WrappedKey) && nok(kp, w, b, l) && nplain(kp, w, b, l) == json(node(kp, w, b, l)) && \
   anydraw(k, 32, n, 12, content(nrec(b).WrappedKey) == cwrap(nodekey(kp, w), k) && content(nrec(b).Ciphertext) == cseal(k, n, nplain(kp, w, b, l), jb(l)))
def gateI(dp, token) = idok(dp, token) && scoped(identity(dp, token), id.ScopeIndex)

contract index.NewSecureIndex (ctx, kp, ip, dp) (r, err)
  requires [C26] providers: kp != nil
  ensures [C23] keys: err == nil <==> keysok(kp) && len(keysof(kp).IEK) == 32
  ensures [C23,C17] pure: nostorage()

# a read that found a node found one sealed for its place; other failures are not swallowed
def readsok(kp, w) = allev("Get", e, e.err == nil ==> nok(kp, w, e.data, e.id))
def allokI() = allev("", e, e.err == nil || e.kind == "Get" && is(e.err, io.ErrNotFound))
def indexkey(kp, w, e) = e.dt == sNode && (exists c BV64 :: e.id == label(kp, w, c))

contract index.(*SecureIndex).Search (s, ctx, token, keyword) (r, err)
  setup idx
  option feas 60
  loopinv bound (v []string): len(v) == iter && (forall j Int :: 0 <= j && j < iter ==> (exists b B, c BV64 :: nok(kp, keyword, b, label(kp, keyword, c)) && node(kp, keyword, b, label(kp, keyword, c)).Identifier == v[j]))
  loopinv current (v string): (exists b B, c BV64 :: nok(kp, keyword, b, label(kp, keyword, c)) && node(kp, keyword, b, label(kp, keyword, c)).Identifier == v)
  ensures [C17] unauthenticated: err == index.ErrNotAuthenticated <==> !idok(dp, token)
  ensures [C17] unauthorized: err == index.ErrNotAuthorized <==> idok(dp, token) && !scoped(identity(dp, token), id.ScopeIndex)
  ensures [C17] refused: !gateI(dp, token) ==> nostorage()
  ensures [C17] nothing: err != nil ==> isnil(r)
  ensures [C17,C16,C09] readonly: nowrite() && storesame()
  ensures [C17] bound: err == nil ==> (forall j Int :: 0 <= j && j < len(r) ==> (exists b B, c BV64 :: nok(kp, keyword, b, label(kp, keyword, c)) && node(kp, keyword, b, label(kp, keyword, c)).Identifier == r[j]))
  ensures [C17] authentic: err == nil ==> readsok(kp, keyword)
  each [C17,C09,C23] key: this.kind == "Get" && indexkey(kp, keyword, this)
  ensures [C08,C16] stored: err == nil ==> allokI()

contract index.(*SecureIndex).Add (s, ctx, token, keyword, identifier) (err)
  setup idx
  option feas 60
  option coarse
  ensures [C17] unauthenticated: err == index.ErrNotAuthenticated <==> !idok(dp, token)
  ensures [C17] unauthorized: err == index.ErrNotAuthorized <==> idok(dp, token) && !scoped(identity(dp, token), id.ScopeIndex)
  ensures [C17] refused: !gateI(dp, token) ==> nostorage()
  ensures [C17] authentic: err == nil ==> readsok(kp, keyword)
  each [C17] afterreads: this.kind != "Get" ==> gateI(dp, token) && readsok(kp, keyword)
  each [C17,C09,C23] key: indexkey(kp, keyword, this)
  each [C09,C23,C17] sealed: this.kind != "Get" ==> this.kind == "Put" && nsealed(kp, keyword, this.data, this.id) && node(kp, keyword, this.data, this.id).Identifier == identifier
  ensures [C16] kinds: nevk("Update") == 0 && nevk("Delete") == 0
  ensures [C16] once: err == nil ==> nevk("Put") == 1
  ensures [C08,C16] stored: err == nil ==> allokI()
  ensures [C08] exists: allev("Put", e, is(e.err, io.ErrAlreadyExists) ==> err == index.ErrNodeAlreadyExists)

contract index.(*SecureIndex).Delete (s, ctx, token, keyword, identifier) (err)
  setup idx
  option feas 60
  option coarse
  ensures [C17] unauthenticated: err == index.ErrNotAuthenticated <==> !idok(dp, token)
  ensures [C17] unauthorized: err == index.ErrNotAuthorized <==> idok(dp, token) && !scoped(identity(dp, token), id.ScopeIndex)
  ensures [C17] refused: !gateI(dp, token) ==> nostorage()
  ensures [C17] authentic: err == nil ==> readsok(kp, keyword)
  each [C17] afterreads: this.kind != "Get" ==> gateI(dp, token) && readsok(kp, keyword)
  each [C17,C09,C23] key: indexkey(kp, keyword, this)
  each [C09,C23,C17] sealed: this.kind != "Get" ==> this.kind == "Delete" || this.kind == "Update" && nsealed(kp, keyword, this.data, this.id)
  ensures [C16] kinds: nevk("Put") == 0
  ensures [C08,C16] stored: err == nil ==> allokI()
  ensures [C08] notfound: allev("Update", e, is(e.err, io.ErrNotFound) ==> err == index.ErrNodeNotFound)

# The nodes of a keyword form a chain: the i-th of cN nodes is stored under the label of the counter cP(i)
# and holds the i-th identifier and the counter of its successor; no other counter is in use.
func cN() Int
func cP(i:Int) BV64
func cI(i:Int) B
func cX(c:BV64) Int
# the counter of a label of the keyword (labels of different counters differ: no collisions of KMAC256)
func lC(l:B) BV64
def inj(kp, w) = forall c BV64 :: lC(label(kp, w, c)) == c
def at(kp, w, b, c, x, p) = nok(kp, w, b, label(kp, w, c)) && node(kp, w, b, label(kp, w, c)).Identifier == x && node(kp, w, b, label(kp, w, c)).NextCounter == p
def lstored(kp, w, c) = stored(label(kp, w, c), sNode)
def ldom(kp, w, c) = dom(label(kp, w, c), sNode)
def counters() = cN() >= 0 && cP(0) == 0 && (forall i Int :: 0 <= i && i <= cN() ==> cX(cP(i)) == i)
def chain(kp, w) = (forall i Int :: 0 <= i && i < cN() ==> ldom(kp, w, cP(i)) && at(kp, w, lstored(kp, w, cP(i)), cP(i), cI(i), cP(i+1))) && \
   (forall c BV64 :: ldom(kp, w, c) ==> 0 <= cX(c) && cX(c) < cN() && cP(cX(c)) == c)

contract index.(*SecureIndex).Search#chain (s, ctx, token, keyword) (r, err)
  option of index.(*SecureIndex).Search
  setup idx
  option feas 60
  option only C16
  assume honest && inj(kp, keyword) && counters() && chain(kp, keyword)
  loopinv pos (v BV64): v == cP(iter)
  loopinv ahead (v BV64): iter < cN() && v == cP(iter+1)
  loopinv in: iter <= cN()
  loopinv found (v string): iter < cN() && v == cI(iter)
  loopinv list (v []string): len(v) == iter && (forall j Int :: 0 <= j && j < iter ==> v[j] == cI(j))
  ensures [C16] exact: err == nil ==> len(r) == cN() && (forall j Int :: 0 <= j && j < cN() ==> r[j] == cI(j))
  cover many: err == nil && cN() == 3 && r[0] != r[1]
  ensures [C16] succeeds: gateI(dp, token) && allokI() ==> err == nil

contract index.(*SecureIndex).Add#chain (s, ctx, token, keyword, identifier) (err)
  option of index.(*SecureIndex).Add
  setup idx
  option feas 60
  option only C16
  assume honest && inj(kp, keyword) && counters() && chain(kp, keyword)
  assume cP(cN()) < 0xffffffffffffffff
  let n = cP(cN())
  loopinv pos (v BV64): v == cP(iter)
  loopinv ahead (v BV64): iter < cN() && v == cP(iter+1)
  loopinv in: iter <= cN()
  ensures [C16] only: err == nil ==> storesame(sk(label(kp, keyword, n), sNode))
  ensures [C16] appended: err == nil ==> ldom(kp, keyword, n) && at(kp, keyword, lstored(kp, keyword, n), n, identifier, n+1)
  ensures [C16] rest: err == nil ==> (forall i Int :: 0 <= i && i < cN() ==> ldom(kp, keyword, cP(i)) && at(kp, keyword, lstored(kp, keyword, cP(i)), cP(i), cI(i), cP(i+1)))
  ensures [C16] dom: err == nil ==> (forall c BV64 :: ldom(kp, keyword, c) ==> c == n || 0 <= cX(c) && cX(c) < cN() && cP(cX(c)) == c)
  ensures [C16] mono: (forall i Int :: 0 <= i && i < cN() ==> cP(i) < cP(cN())) ==> (forall i Int :: 0 <= i && i <= cN() ==> cP(i) < n+1)
  ensures [C16] succeeds: gateI(dp, token) && !rndfailed && allokI() ==> err == nil
  cover many: err == nil && cN() == 3

# Deleting x keeps the nodes with other identifiers: kC(i) of the first i, kE(k) is the k-th of them. The new
# chain has its k-th node under the counter kP(k), which was the kQ(k)-th of the old ones. These functions
# are defined by recursion over the chain (kdef); keptdef is what follows from it, by the lemmas below.
func kC(i:Int) Int
func kE(k:Int) Int
func kQ(k:Int) Int
func kP(k:Int) BV64
def keptdef(x) = kC(0) == 0 && (forall i Int :: 0 <= i && i < cN() ==> kC(i+1) == kC(i) + (cI(i) != x ? 1 : 0)) && \
   (forall i Int :: 0 <= i && i <= cN() ==> 0 <= kC(i) && kC(i) <= i && kC(i) <= kC(cN())) && \
   (forall i Int :: 0 <= i && i < cN() && cI(i) != x ==> kE(kC(i)) == i) && \
   (forall k Int :: 0 <= k && k < kC(cN()) ==> 0 <= kE(k) && kE(k) < cN() && cI(kE(k)) != x && kC(kE(k)) == k) && \
   kQ(0) == 0 && (forall k Int :: 0 <= k && k < kC(cN()) ==> kQ(k+1) == kE(k)+1) && \
   (forall i Int, k Int :: 0 <= i && i <= cN() && 0 <= k && k <= kC(i) ==> kQ(k) <= i) && \
   (forall k Int :: 0 <= k && k <= kC(cN()) ==> 0 <= kQ(k) && kQ(k) <= cN() && kC(kQ(k)) == k && kP(k) == cP(kQ(k)))

def kdef(x) = cN() >= 0 && kC(0) == 0 && (forall i Int :: 0 <= i && i < cN() ==> kC(i+1) == kC(i) + (cI(i) != x ? 1 : 0)) && \
   (forall i Int :: 0 <= i && i < cN() && cI(i) != x ==> 0 <= kE(kC(i)) && kE(kC(i)) < cN() && cI(kE(kC(i))) != x && kC(kE(kC(i))) == kC(i)) && \
   kQ(0) == 0 && (forall k Int :: 0 < k && k <= kC(cN()) ==> kQ(k) == kE(k-1)+1) && \
   (forall k Int :: 0 <= k && k <= kC(cN()) ==> kP(k) == cP(kQ(k)))

contract index.(*SecureIndex).Delete#chain (s, ctx, token, keyword, identifier) (err)
  option of index.(*SecureIndex).Delete
  setup idx
  option feas 60
  option only C16
  assume honest && inj(kp, keyword) && counters() && chain(kp, keyword)
  define kept: kdef(identifier)
  induct [C16] bounds: n 0 cN(): 0 <= kC(n) && kC(n) <= n
  induct [C16] grows: n 0 cN(): (forall i Int :: 0 <= i && i <= n ==> kC(i) <= kC(n))
  induct [C16] reached: n 0 cN(): (forall k Int :: 0 <= k && k < kC(n) ==> 0 <= kE(k) && kE(k) < cN() && cI(kE(k)) != identifier && kC(kE(k)) == k)
  have [C16] strict: (forall i Int, j Int :: 0 <= i && i < j && j <= cN() && cI(i) != identifier ==> kC(i) + 1 == kC(i+1) && kC(i+1) <= kC(j))
  have [C16] once: (forall i Int :: 0 <= i && i < cN() && cI(i) != identifier ==> kC(i) < kC(cN()) && kC(kE(kC(i))) == kC(i) && kE(kC(i)) == i)
  have [C16] place: (forall k Int :: 0 <= k && k <= kC(cN()) ==> 0 <= kQ(k) && kQ(k) <= cN() && kC(kQ(k)) == k)
  have [C16] before: (forall i Int, k Int :: 0 <= i && i <= cN() && 0 <= k && k <= kC(i) ==> kQ(k) <= i)
  lemma [C16] kept: keptdef(identifier)
  loopinv in: iter <= cN()
  loopinv pos (v BV64): v == kP(kC(iter))
  loopinv order: kQ(kC(iter)) <= iter
  loopinv kept: (forall k Int :: 0 <= k && k < kC(iter) ==> ldom(kp, keyword, kP(k)) && at(kp, keyword, lstored(kp, keyword, kP(k)), kP(k), cI(kE(k)), kP(k+1)))
  loopinv current: iter < cN() ==> ldom(kp, keyword, kP(kC(iter))) && at(kp, keyword, lstored(kp, keyword, kP(kC(iter))), kP(kC(iter)), cI(iter), cP(iter+1))
  loopinv later: (forall j Int :: iter < j && j < cN() ==> ldom(kp, keyword, cP(j)) && at(kp, keyword, lstored(kp, keyword, cP(j)), cP(j), cI(j), cP(j+1)))
  loopinv dom: (forall c BV64 :: ldom(kp, keyword, c) ==> 0 <= cX(c) && cX(c) < cN() && cP(cX(c)) == c && \
     (cX(c) > iter || kQ(kC(cX(c))) == cX(c) && (kC(cX(c)) < kC(iter) || kC(cX(c)) == kC(iter) && iter < cN())))
  loopinv others: (forall l B, d BV16 :: !(d == sNode && label(kp, keyword, lC(l)) == l) ==> dom(l, d) == old(dom(l, d)) && stored(l, d) == old(stored(l, d)))
  ensures [C16] kept: err == nil ==> (forall k Int :: 0 <= k && k < kC(cN()) ==> ldom(kp, keyword, kP(k)) && at(kp, keyword, lstored(kp, keyword, kP(k)), kP(k), cI(kE(k)), kP(k+1)))
  ensures [C16] dom: err == nil ==> (forall c BV64 :: ldom(kp, keyword, c) ==> 0 <= kC(cX(c)) && kC(cX(c)) < kC(cN()) && kP(kC(cX(c))) == c)
  ensures [C16] others: err == nil ==> (forall l B, d BV16 :: !(d == sNode && label(kp, keyword, lC(l)) == l) ==> dom(l, d) == old(dom(l, d)) && stored(l, d) == old(stored(l, d)))
  ensures [C16] succeeds: gateI(dp, token) && !rndfailed && allokI() ==> err == nil
  cover many: err == nil && cN() == 3

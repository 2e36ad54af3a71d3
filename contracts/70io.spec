# The two storage providers as maps. A record is what reading it returns; the lemma programs
# (contracts/lemmas/io__store.go) read two records before and after one operation on the first.
def absent(e) = is(e, io.ErrNotFound)
# two readings of the same record agree
def sameread(a, ea, b, eb) = (ea == nil <==> eb == nil) && (ea == nil ==> content(a) == content(b))
def samerec(id, dt, id2, dt2) = content(id) == content(id2) && dt == dt2

contract io.LemmaMemPut (m, ctx, id, dt, data, id2, dt2) (b1, b2, eb1, eb2, err, a1, a2, ea1, ea2)
  modifies m
  ensures [C21] reads: (eb1 == nil || absent(eb1)) && (ea1 == nil || absent(ea1)) && (eb2 == nil || absent(eb2))
  ensures [C21] created: eb1 != nil ==> err == nil && ea1 == nil && content(a1) == content(data)
  ensures [C21] taken: eb1 == nil ==> is(err, io.ErrAlreadyExists) && sameread(a1, ea1, b1, eb1)
  ensures [C21] others: !samerec(id, dt, id2, dt2) ==> sameread(a2, ea2, b2, eb2)
  ensures [C21,C25] owned: freshmem(a1) && freshmem(b1)

contract io.LemmaMemUpdate (m, ctx, id, dt, data, id2, dt2) (b1, b2, eb1, eb2, err, a1, a2, ea1, ea2)
  modifies m
  ensures [C21] updated: eb1 == nil ==> err == nil && ea1 == nil && content(a1) == content(data)
  ensures [C21] missing: eb1 != nil ==> is(err, io.ErrNotFound) && sameread(a1, ea1, b1, eb1)
  ensures [C21] others: !samerec(id, dt, id2, dt2) ==> sameread(a2, ea2, b2, eb2)

contract io.LemmaMemDelete (m, ctx, id, dt, id2, dt2) (b1, b2, eb1, eb2, err, a1, a2, ea1, ea2)
  modifies m
  ensures [C21] deleted: err == nil && absent(ea1)
  ensures [C21] others: !samerec(id, dt, id2, dt2) ==> sameread(a2, ea2, b2, eb2)

contract io.LemmaMemGet (m, ctx, id, dt, id2, dt2) (a1, a2, a3, e1, e2, e3)
  ensures [C21] readonly: sameread(a1, e1, a3, e3)
  ensures [C21] nothing: e1 != nil ==> isnil(a1)

contract io.LemmaMemNew (ctx, id, dt) (r, err)
  ensures [C21] empty: absent(err)

setup bolt
  var path string
  call b0, e0 = io.NewBolt(path)
  assume e0 == nil
  ref pb = b0
  havoc pb
  recv pb

contract io.LemmaBoltPut (m, ctx, id, dt, data, id2, dt2) (b1, b2, eb1, eb2, err, a1, a2, ea1, ea2)
  setup bolt
  ensures [C22] reads: eb1 == nil || absent(eb1)
  ensures [C22] created: err == nil ==> absent(eb1) && ea1 == nil && content(a1) == content(data)
  ensures [C22] taken: eb1 == nil ==> is(err, io.ErrAlreadyExists)
  ensures [C22] failed: err != nil ==> sameread(a1, ea1, b1, eb1)
  ensures [C22] exists: is(err, io.ErrAlreadyExists) ==> eb1 == nil
  ensures [C22] others: !samerec(id, dt, id2, dt2) ==> sameread(a2, ea2, b2, eb2)
  ensures [C22,C25] owned: freshmem(a1) && freshmem(b1)

contract io.LemmaBoltUpdate (m, ctx, id, dt, data, id2, dt2) (b1, b2, eb1, eb2, err, a1, a2, ea1, ea2)
  setup bolt
  ensures [C22] updated: err == nil ==> eb1 == nil && ea1 == nil && content(a1) == content(data)
  ensures [C22] missing: absent(eb1) ==> is(err, io.ErrNotFound)
  ensures [C22] notfound: is(err, io.ErrNotFound) ==> absent(eb1)
  ensures [C22] failed: err != nil ==> sameread(a1, ea1, b1, eb1)
  ensures [C22] others: !samerec(id, dt, id2, dt2) ==> sameread(a2, ea2, b2, eb2)

contract io.LemmaBoltDelete (m, ctx, id, dt, id2, dt2) (b1, b2, eb1, eb2, err, a1, a2, ea1, ea2)
  setup bolt
  ensures [C22] deleted: err == nil ==> absent(ea1)
  ensures [C22] silent: absent(eb1) ==> !is(err, io.ErrNotFound)
  ensures [C22] failed: err != nil ==> sameread(a1, ea1, b1, eb1)
  ensures [C22] others: !samerec(id, dt, id2, dt2) ==> sameread(a2, ea2, b2, eb2)

contract io.LemmaBoltGet (m, ctx, id, dt, id2, dt2) (a1, a2, a3, e1, e2, e3)
  setup bolt
  ensures [C22] readonly: sameread(a1, e1, a3, e3)
  ensures [C22] nothing: e1 != nil ==> isnil(a1)

# One operation on Mem while other goroutines work on the same store. Each result has to be the result of the
# sequential operation at one single step of this one: for a change, the step that stores or removes.
# Two proofs are possible: with changes of others excluded while a lock is held (then every change has to be made
# under that lock), or without such an assumption, when each operation is one atomic step of the shared map.
contract io.LemmaMemConc#locked (m, ctx, op, id, dt, data) (err)
  option of io.LemmaMemConc
  option interference locked
  option orelse io.LemmaMemConc#free
  modifies m
  ensures [C27] guarded: allev("AWrite", e, e.guarded)
  ensures [C27] safe: allev("AWrite", e, e.safe) && allev("ARead", e, e.safe) && nolocks()
  ensures [C27] put: op == 1 && err == nil ==> nevk("AWrite") == 1 && allev("AWrite", e, !e.pre && e.post)
  ensures [C27] putfails: op == 1 && err != nil ==> is(err, io.ErrAlreadyExists) && nevk("AWrite") == 0 && !allev("ARead", e, !e.pre)
  ensures [C27] update: op == 2 && err == nil ==> nevk("AWrite") == 1 && allev("AWrite", e, e.pre && e.post)
  ensures [C27] updatefails: op == 2 && err != nil ==> is(err, io.ErrNotFound) && nevk("AWrite") == 0 && !allev("ARead", e, e.pre)
  ensures [C27] delete: op == 3 ==> err == nil && nevk("AWrite") <= 1 && allev("AWrite", e, !e.post) && (nevk("AWrite") == 1 || !allev("ARead", e, e.pre))
  ensures [C27] get: op != 1 && op != 2 && op != 3 ==> nevk("AWrite") == 0 && (err == nil ==> !allev("ARead", e, !e.pre)) && (err != nil ==> !allev("ARead", e, e.pre))

contract io.LemmaMemConc#free (m, ctx, op, id, dt, data) (err)
  option of io.LemmaMemConc
  option interference free
  option orelse io.LemmaMemConc#locked
  modifies m
  ensures [C27] safe: allev("AWrite", e, e.safe) && allev("ARead", e, e.safe) && nolocks()
  ensures [C27] put: op == 1 && err == nil ==> nevk("AWrite") == 1 && allev("AWrite", e, !e.pre && e.post)
  ensures [C27] putfails: op == 1 && err != nil ==> is(err, io.ErrAlreadyExists) && nevk("AWrite") == 0 && !allev("ARead", e, !e.pre)
  ensures [C27] update: op == 2 && err == nil ==> nevk("AWrite") == 1 && allev("AWrite", e, e.pre && e.post)
  ensures [C27] updatefails: op == 2 && err != nil ==> is(err, io.ErrNotFound) && nevk("AWrite") == 0 && !allev("ARead", e, e.pre)
  ensures [C27] delete: op == 3 ==> err == nil && nevk("AWrite") <= 1 && allev("AWrite", e, !e.post) && (nevk("AWrite") == 1 || !allev("ARead", e, e.pre))
  ensures [C27] get: op != 1 && op != 2 && op != 3 ==> nevk("AWrite") == 0 && (err == nil ==> !allev("ARead", e, !e.pre)) && (err != nil ==> !allev("ARead", e, e.pre))

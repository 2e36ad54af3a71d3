package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/cybercryptio/d1-lib/v2"

type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	ord    int
}

type Program struct {
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package // by short path: "d1", "crypto", ...
	fset      *token.FileSet
	loopMemo  map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	globals   map[*ssa.Global]int // object ids in the base heap
	base      *State
	mutable   map[*ssa.Global]bool
	spec      *Spec
	repoFns   []*ssa.Function
	baseSents []*Term
	ext       map[string]int
}

// short name of a package path: module-relative last element; the root package is d1.
func shortPkg(path string) string {
	if path == modPath {
		return "d1"
	}
	if strings.HasPrefix(path, modPath+"/") {
		return path[len(modPath)+1:]
	}
	return path
}
func isRepoPkg(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

// fnKey: "crypto.(*Cryptor).Encrypt", "id.ScopeUnion", "encoding/json.Marshal"
func fnKey(f *ssa.Function) string {
	if f.Origin() != nil {
		f = f.Origin()
	}
	var pk string
	if f.Pkg != nil {
		pk = shortPkg(f.Pkg.Pkg.Path())
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pk = shortPkg(f.Object().Pkg().Path())
	}
	if f.Signature.Recv() != nil {
		rt := f.Signature.Recv().Type()
		if p, ok := rt.(*types.Pointer); ok {
			return fmt.Sprintf("%s.(*%s).%s", pk, tname(p.Elem()), f.Name())
		}
		return fmt.Sprintf("%s.(%s).%s", pk, tname(rt), f.Name())
	}
	if f.Parent() != nil {
		return fnKey(f.Parent()) + "$" + f.Name()
	}
	return pk + "." + f.Name()
}
func tname(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}
func absName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return shortPkg(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
	}
	return ""
}

func loadProgram(repo string, overlay map[string][]byte) (*Program, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: repo, Env: env, Overlay: overlay}
	pk, err := packages.Load(cfg, "./...", "slices", "maps", "sort", "strings", "bytes")
	if err != nil {
		return nil, err
	}
	for _, p := range pk {
		if len(p.Errors) > 0 && isRepoPkg(p.Types) {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, ps := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, fset: prog.Fset, loopMemo: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{},
		globals: map[*ssa.Global]int{}, mutable: map[*ssa.Global]bool{}}
	for _, p := range ps {
		if p != nil {
			P.pkgs[shortPkg(p.Pkg.Path())] = p
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg != nil && isRepoPkg(f.Pkg.Pkg) {
			P.repoFns = append(P.repoFns, f)
		}
	}
	sort.Slice(P.repoFns, func(i, j int) bool { return P.repoFns[i].String() < P.repoFns[j].String() })
	P.findMutable()
	return P, nil
}

// rootGlobal: the global an address or loaded reference derives from.
func rootGlobal(v ssa.Value) *ssa.Global {
	for i := 0; i < 20; i++ {
		switch w := v.(type) {
		case *ssa.Global:
			return w
		case *ssa.FieldAddr:
			v = w.X
		case *ssa.IndexAddr:
			v = w.X
		case *ssa.UnOp:
			if w.Op != token.MUL {
				return nil
			}
			v = w.X
		case *ssa.Slice:
			v = w.X
		case *ssa.ChangeType:
			v = w.X
		default:
			return nil
		}
	}
	return nil
}

func (p *Program) findMutable() {
	for _, f := range p.repoFns {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch v := in.(type) {
				case *ssa.Store:
					if g := rootGlobal(v.Addr); g != nil {
						p.mutable[g] = true
					}
				case *ssa.MapUpdate:
					if g := rootGlobal(v.Map); g != nil {
						p.mutable[g] = true
					}
				case *ssa.Call:
					if bi, ok := v.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "copy" || bi.Name() == "append" || bi.Name() == "clear") {
						if g := rootGlobal(v.Call.Args[0]); g != nil {
							p.mutable[g] = true
						}
						continue
					}
					// the address of a global handed to a callee (e.g. a lock, a sync.Map, a pool)
					for _, a := range v.Call.Args {
						if g, ok := a.(*ssa.Global); ok {
							p.mutable[g] = true
						}
						if fa, ok := a.(*ssa.FieldAddr); ok {
							if g := rootGlobal(fa); g != nil {
								p.mutable[g] = true
							}
						}
					}
				}
			}
		}
	}
}

func (p *Program) loopsOf(f *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if m, ok := p.loopMemo[f]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*Loop{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				L := m[s]
				if L == nil {
					L = &Loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = L
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if L.body[n] {
						continue
					}
					L.body[n] = true
					stack = append(stack, n.Preds...)
				}
			}
		}
	}
	i := 0
	for _, b := range f.Blocks {
		if L := m[b]; L != nil {
			L.ord = i
			i++
		}
	}
	p.loopMemo[f] = m
	return m
}

// initGlobals runs the initialisers of the repository's packages on an empty heap.
func (p *Program) initGlobals(x *Exec) {
	p.base = &State{heap: map[int]Value{}, ghost: map[string]*Term{}, known: map[*Term]bool{}}
	var order []*ssa.Package
	seen := map[*types.Package]bool{}
	var visit func(t *types.Package)
	visit = func(t *types.Package) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, i := range t.Imports() {
			visit(i)
		}
		if isRepoPkg(t) {
			if sp := p.prog.Package(t); sp != nil {
				order = append(order, sp)
			}
		}
	}
	var names []string
	for n := range p.pkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		visit(p.pkgs[n].Pkg)
	}
	st := p.base
	for _, sp := range order {
		var gs []string
		for n := range sp.Members {
			gs = append(gs, n)
		}
		sort.Strings(gs)
		for _, n := range gs {
			if g, ok := sp.Members[n].(*ssa.Global); ok && g.Name() != "init$guard" {
				et := g.Type().(*types.Pointer).Elem()
				o := x.newObj(st, g.String(), et, nil)
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(Unsupported); !ok {
								panic(r)
							}
							st.heap[o] = OpaqueV{et}
						}
					}()
					st.heap[o] = x.zero(st, et)
				}()
				objMeta[o].global = g
				p.globals[g] = o
			}
		}
		p.runInit(x, st, sp)
	}
}

// runInit executes the package's initialiser instruction by instruction; a global whose initialiser
// cannot be executed stays opaque.
func (p *Program) runInit(x *Exec, st *State, sp *ssa.Package) {
	f := sp.Func("init")
	if f == nil {
		return
	}
	fr := &Frame{fn: f, env: map[ssa.Value]Value{}, unroll: map[*ssa.BasicBlock]int{}, undet: map[*ssa.BasicBlock]int{}}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(Unsupported); !ok {
							panic(r)
						}
						if v, ok := in.(ssa.Value); ok {
							fr.env[v] = OpaqueV{v.Type()}
						}
						if s, ok := in.(*ssa.Store); ok {
							if g := rootGlobal(s.Addr); g != nil {
								st.heap[p.globals[g]] = OpaqueV{g.Type().(*types.Pointer).Elem()}
							}
						}
					}
				}()
				switch v := in.(type) {
				case *ssa.If, *ssa.Jump, *ssa.Return:
				case *ssa.Store:
					if g, ok := v.Addr.(*ssa.Global); ok && g.Name() == "init$guard" {
						return
					}
					x.instr(st, fr, in)
				case *ssa.UnOp:
					if g, ok := v.X.(*ssa.Global); ok && g.Name() == "init$guard" {
						fr.env[v] = False
						return
					}
					x.instr(st, fr, in)
				case *ssa.Call:
					if fn, ok := v.Call.Value.(*ssa.Function); ok && fn.Name() == "init" {
						return // other packages
					}
					if fn, ok := v.Call.Value.(*ssa.Function); ok && strings.HasPrefix(fn.Name(), "init#") {
						unsupported("init function")
					}
					rs := x.call(st, fr, &v.Call, v, 0)
					if len(rs) != 1 || rs[0].st != st {
						unsupported("init call with several outcomes")
					}
					fr.env[v] = rs[0].ret
				default:
					x.instr(st, fr, in)
				}
			}()
		}
	}
}

func (p *Program) globalPtr(x *Exec, st *State, g *ssa.Global) Value {
	if o, ok := p.globals[g]; ok {
		if p.mutable[g] && st != p.base {
			k := fmt.Sprintf("mutglob:%d", o)
			if st.ghost[k] == nil {
				st.ghost[k] = True
				st.heap[o] = x.symValue(st, g.Type().(*types.Pointer).Elem(), "global."+g.Name(), false)
				x.note("package variable " + g.String() + " is written outside initialisation: arbitrary value assumed")
			}
		}
		if _, ok := st.heap[o]; !ok {
			st.heap[o] = p.base.heap[o]
		}
		return notNil(o)
	}
	// external global
	et := g.Type().(*types.Pointer).Elem()
	o := x.newObj(st, g.String(), et, nil)
	name := g.Pkg.Pkg.Path() + "." + g.Name()
	switch {
	case name == "github.com/gofrs/uuid.Nil":
		st.heap[o] = Zeros(IntC(16))
	case name == "encoding/binary.BigEndian" || name == "encoding/binary.LittleEndian":
		st.heap[o] = StructV{}
	case isPtrType(et):
		k := "extglob:" + name
		if p.ext == nil {
			p.ext = map[string]int{}
		}
		if _, ok := p.ext[k]; !ok {
			p.ext[k] = x.newObj(p.base, name, et.Underlying().(*types.Pointer).Elem(), OpaqueV{et.Underlying().(*types.Pointer).Elem()})
		}
		st.heap[p.ext[k]] = OpaqueV{et.Underlying().(*types.Pointer).Elem()}
		st.heap[o] = notNil(p.ext[k])
	case scalarSort(et) == SI:
		st.heap[o] = Sent("global." + name)
	default:
		st.heap[o] = OpaqueV{et}
	}
	return notNil(o)
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return ""
	}
	q := p.fset.Position(ps)
	f := q.Filename
	if r, err := filepath.Rel(repoDir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

var repoDir = "/repo"

// lookupFn finds a function by key "crypto.(*KWP).Wrap" / "id.ScopeUnion" / "id.(Scope).Contains".
func (p *Program) lookupFn(key string) *ssa.Function {
	i := strings.Index(key, ".(")
	if i < 0 {
		j := strings.LastIndex(key, ".")
		sp := p.pkgs[key[:j]]
		if sp == nil {
			return nil
		}
		return sp.Func(key[j+1:])
	}
	sp := p.pkgs[key[:i]]
	if sp == nil {
		return nil
	}
	rest := key[i+2:]
	j := strings.Index(rest, ").")
	tn, mn := rest[:j], rest[j+2:]
	ptr := strings.HasPrefix(tn, "*")
	tn = strings.TrimPrefix(tn, "*")
	to := sp.Type(tn)
	if to == nil {
		return nil
	}
	var t types.Type = to.Type()
	if ptr {
		t = types.NewPointer(t)
	}
	sel := p.prog.MethodSets.MethodSet(t).Lookup(sp.Pkg, mn)
	if sel == nil {
		return nil
	}
	f := p.prog.MethodValue(sel)
	return f
}

func isPtrType(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

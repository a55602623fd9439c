package main

// The engine: loads the repository from source, holds contracts, runs package initialization,
// and generates the obligations of each function under contract.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var zeroTimeNs = new(big.Int).Mul(big.NewInt(-62135596800), big.NewInt(1000000000))

type Eng struct {
	ordered    map[string]bool // events whose order matters to some contract
	repo       string
	prog       *ssa.Program
	pkgs       []*packages.Package
	contracts  map[string]*Contract
	macros     map[string]*Macro
	shapes     map[string]*loopShape
	leafSort   map[string]string
	refLeaf    map[string]bool // heap leaves that hold references
	repoPkg    map[string]bool
	byName     map[string]*types.Package // short name -> package
	funcs      map[string]*ssa.Function  // key -> repo function
	globals    map[string]int
	globN      int
	loops      map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	modPath    string
	initHeap   map[string]*Term
	initFuncs  map[*Term]*FuncVal
	initPtrs   map[string]*Ptr
	initNotes  []string
	solver     *Solver
	loadMs     int64
	axiomOrder []string
	axioms     map[string]*axiomDef
	fnNums     map[string]int
	fnMu       sync.Mutex
	implType   map[string]types.Type
}

// axiomDef is a closed formula assumed about declared (uninterpreted) specification functions.
type axiomDef struct {
	name, text string
	expr       ast.Expr
	t          *Term
}

// theEng is the engine in use (type tests register the interfaces they mention).
var theEng *Eng

// axiomTerm evaluates an axiom; axioms may not mention program state.
func (e *Eng) axiomTerm(n string) *Term {
	a := e.axioms[n]
	if a.t == nil {
		x := e.newX("axiom " + n)
		st := newState()
		a.t = (&SpecEnv{x: x, st: st, old: st, vars: map[string]TV{}}).boolTerm(a.expr)
	}
	return a.t
}

type TV struct {
	V Value
	T types.Type
}

func NewEng(repo string) (*Eng, error) {
	t0 := time.Now()
	e := &Eng{repo: repo, contracts: map[string]*Contract{}, macros: map[string]*Macro{}, shapes: map[string]*loopShape{}, leafSort: map[string]string{}, refLeaf: map[string]bool{},
		repoPkg: map[string]bool{}, byName: map[string]*types.Package{}, funcs: map[string]*ssa.Function{}, globals: map[string]int{},
		loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, axioms: map[string]*axiomDef{}, implType: map[string]types.Type{}, solver: newSolver()}
	theEng = e
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: repo, Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off")}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, er := range p.Errors {
			return nil, fmt.Errorf("load: %s", er)
		}
		if p.Module != nil {
			e.modPath = p.Module.Path
		}
		e.repoPkg[p.PkgPath] = true
	}
	e.pkgs = pkgs
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	e.prog = prog
	var all []*ssa.Package
	for _, p := range prog.AllPackages() {
		all = append(all, p)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].Pkg.Path() < all[j].Pkg.Path() })
	for _, p := range all {
		n := p.Pkg.Name()
		if e.repoPkg[p.Pkg.Path()] {
			p.Build()
			e.byName[n] = p.Pkg
		} else if _, ok := e.byName[n]; !ok {
			e.byName[n] = p.Pkg
		}
	}
	// packages the repository imports directly win over others of the same name
	for _, p := range pkgs {
		for _, im := range p.Imports {
			if cur := e.byName[im.Name]; cur == nil || (!e.repoPkg[cur.Path()] && !e.repoPkg[im.PkgPath]) {
				if im.Name != "errors" && im.Name != "jwk" {
					e.byName[im.Name] = im.Types
				}
			}
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != nil && e.repoPkg[fn.Pkg.Pkg.Path()] && fn.Parent() == nil && fn.Synthetic == "" {
			e.funcs[funcKey(fn)] = fn
		}
	}
	e.loadMs = time.Since(t0).Milliseconds()
	return e, nil
}

func (e *Eng) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := e.prog.Fset.Position(p)
	r, err := filepath.Rel(e.repo, ps.Filename)
	if err != nil {
		r = ps.Filename
	}
	return fmt.Sprintf("%s:%d", r, ps.Line)
}

func (e *Eng) globalRef(name string) int {
	if k, ok := e.globals[name]; ok {
		return k
	}
	e.globN++
	e.globals[name] = e.globN
	return e.globN
}

func (e *Eng) loopAt(b *ssa.BasicBlock) *Loop {
	f := b.Parent()
	m, ok := e.loops[f]
	if !ok {
		m = loopsOf(f)
		e.loops[f] = m
	}
	return m[b]
}

func (e *Eng) inRepo(t types.Type) bool {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return e.repoPkg[n.Obj().Pkg().Path()]
	}
	return false
}

var inlinePrefixes = []string{
	"jwt.(*StandardClaims).", "jwt.(StandardClaims).", "jwt.verify", "jwt.(*ValidationError).valid",
}

func (e *Eng) inlineOK(key string) bool {
	for _, p := range inlinePrefixes {
		if strings.HasPrefix(key, p) {
			return true
		}
	}
	return false
}

func (e *Eng) newX(name string) *X {
	x := &X{e: e, name: name, loopOrd: map[string]int{}, lazy: map[*Term]bool{}, ptrTab: map[string]*Ptr{}, funcTab: map[*Term]*FuncVal{}, notes: map[string]bool{}, used: map[string]bool{}, inlined: map[string]bool{},
		heapPrefix: "H0!", params: map[string]TV{}, modular: map[string]bool{}, modelled: map[string]bool{}}
	for k, v := range e.initFuncs {
		x.funcTab[k] = v
	}
	for k, v := range e.initPtrs {
		x.ptrTab[k] = v
	}
	return x
}

// runInit executes the package initializers of the repository; package variables assigned anywhere else are arbitrary.
func (e *Eng) runInit() {
	x := e.newX("init")
	x.initMode = true
	st := newState()
	done := map[string]bool{}
	var order []*ssa.Package
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if done[p.Path()] {
			return
		}
		done[p.Path()] = true
		for _, im := range p.Imports() {
			visit(im)
		}
		if e.repoPkg[p.Path()] {
			order = append(order, e.prog.Package(p))
		}
	}
	for _, p := range e.pkgs {
		visit(p.Types)
	}
	for _, p := range order {
		if p == nil {
			continue
		}
		for _, m := range sortedKeys(p.Members) {
			if g, ok := p.Members[m].(*ssa.Global); ok {
				t := g.Type().(*types.Pointer).Elem()
				func() {
					defer func() { recover() }()
					ptr := x.globalPtr(p.Pkg.Path()+"."+g.Name(), t)
					if strings.HasPrefix(ptr.Root, "[]") {
						return
					}
					x.store(st, ptr, x.zero(t), t)
				}()
			}
		}
		st = x.runInitPkg(st, p)
	}
	// jwt.TimeFunc is time.Now unless someone reassigns it
	if jp := e.byName["jwt"]; jp != nil {
		if sp := e.prog.Package(jp); sp != nil {
			if g, ok := sp.Members["TimeFunc"].(*ssa.Global); ok {
				tm := e.prog.ImportedPackage("time")
				if tm != nil {
					t := g.Type().(*types.Pointer).Elem()
					x.store(st, x.globalPtr(jp.Path()+".TimeFunc", t), x.funcRef(tm.Func("Now")), t)
				}
			}
		}
	}
	// variables assigned outside initializers
	for _, f := range e.funcs {
		e.scanGlobalStores(x, st, f)
	}
	e.initHeap = st.heap
	e.initFuncs = x.funcTab
	e.initPtrs = x.ptrTab
}

func (e *Eng) scanGlobalStores(x *X, st *State, f *ssa.Function) {
	if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
		return
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if g, ok := s.Addr.(*ssa.Global); ok && e.repoPkg[g.Pkg.Pkg.Path()] {
					t := g.Type().(*types.Pointer).Elem()
					p := x.globalPtr(g.Pkg.Pkg.Path()+"."+g.Name(), t)
					func() {
						defer func() { recover() }()
						for _, l := range leaves(t) {
							x.storeLeaf(st, p, l, Var("in!glob!"+g.Pkg.Pkg.Name()+"."+g.Name()+l.suf, l.sort))
						}
					}()
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		e.scanGlobalStores(x, st, a)
	}
}

func (x *X) runInitPkg(st *State, p *ssa.Package) (res *State) {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				panic(r)
			}
			x.e.initNotes = append(x.e.initNotes, p.Pkg.Path()+": "+u.msg)
			res = st
		}
	}()
	f := p.Func("init")
	// run instruction by instruction so that an unsupported initializer only loses its own value
	fr := &Frame{fn: f, env: map[ssa.Value]Value{}, unroll: map[*ssa.BasicBlock]int{}}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if v, ok := ins.(ssa.Value); ok {
							func() {
								defer func() { recover() }()
								fr.env[v] = x.freshVal(st, "init", v.Type())
							}()
						}
						x.e.initNotes = append(x.e.initNotes, fmt.Sprintf("%s: %s: %v", p.Pkg.Path(), ins, r))
					}
				}()
				switch in := ins.(type) {
				case *ssa.If, *ssa.Jump, *ssa.Return:
					return
				case *ssa.Call:
					if c, ok := in.Call.Value.(*ssa.Function); ok && c.Name() == "init" && len(in.Call.Args) == 0 {
						return
					}
					outs, handled := x.forking(fr, st, in)
					if !handled || len(outs) == 0 {
						unsup("call")
					}
					o := outs[0]
					if len(outs) > 1 {
						// keep only the successful outcome when the others return errors or panic
						unsup("initializer with several outcomes")
					}
					if o.kind != oRet {
						unsup("initializer panics")
					}
					st = o.st
					fr.env[in] = pack(o.res, in.Type())
				case *ssa.Store:
					if g, ok := in.Addr.(*ssa.Global); ok && strings.HasPrefix(g.Name(), "init$") {
						return
					}
					x.simple(fr, st, ins)
				default:
					x.simple(fr, st, ins)
				}
			}()
		}
	}
	return st
}

// --- verification of one function ---

type FuncResult struct {
	Key      string
	Ctr      *Contract
	Obls     []*Obl
	Err      string
	Notes    []string
	Used     []string
	Modular  []string
	Models   []string
	Inlined  []string
	Paths    int
	RetPaths int
	Steps    int
	Ms       int64
	Reach    string
	x        *X
	outs     []Outcome
}

func (e *Eng) verify(key string, prop string) (res *FuncResult) {
	ct := e.contracts[key]
	x := e.newX(key)
	x.ctr = ct
	x.prop = prop
	t0 := time.Now()
	res = &FuncResult{Key: key, Ctr: ct, x: x}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				res.Err = "out of reach: " + u.msg
			} else if s, ok := r.(specErr); ok {
				res.Err = "contract: " + s.msg
			} else if os.Getenv("GVC_PANIC") != "" {
				panic(r)
			} else {
				res.Err = fmt.Sprintf("engine: %v", r)
			}
		}
		res.Obls = x.obls
		res.Notes = sortedKeys(x.notes)
		res.Used = sortedKeys(x.used)
		res.Modular = sortedKeys(x.modular)
		res.Inlined = sortedKeys(x.inlined)
		res.Models = sortedKeys(x.modelled)
		res.Steps = x.steps
		res.Ms = time.Since(t0).Milliseconds()
	}()
	f := e.funcs[key]
	if f == nil {
		res.Err = "function not found in the repository"
		return
	}
	x.top = f
	outs := x.start(f, ct)
	res.outs = outs
	res.Paths = len(outs)
	for i, o := range outs {
		if o.kind != oRet || o.st.dead {
			continue
		}
		res.RetPaths++
		x.exit(ct, o, i)
	}
	x.determinesObls()
	return
}

// start sets up the entry state and runs the function.
func (x *X) start(f *ssa.Function, ct *Contract) []Outcome {
	st := newState()
	for k, v := range x.e.initHeap {
		st.heap[k] = v
	}
	var args []Value
	for i, p := range f.Params {
		name := p.Name()
		if ct != nil && i < len(ct.Params) {
			name = ct.Params[i]
		}
		var ts []*Term
		for _, l := range leaves(p.Type()) {
			ts = append(ts, Var("in!"+name+l.suf, l.sort))
		}
		v := x.unflatten(ts, p.Type())
		x.deepFacts(st, v, p.Type())
		args = append(args, v)
		x.params[name] = TV{v, p.Type()}
		if s, ok := v.(*Slice); ok {
			st.add(Eq(s.Off, tZero))
			ns := *s
			ns.Off = tZero
			args[i] = &ns
			x.params[name] = TV{&ns, p.Type()}
		}
	}
	x.entryVals = args
	x.entry = st.clone()
	if ct != nil {
		env := &SpecEnv{x: x, st: st, old: x.entry, vars: x.params}
		for _, r := range ct.Requires {
			st.add(env.boolTerm(r))
		}
		for _, a := range ct.Assumes {
			st.add(env.boolTerm(a))
		}
	}
	x.entry = st.clone()
	nf := &Frame{fn: f, env: map[ssa.Value]Value{}, unroll: map[*ssa.BasicBlock]int{}, args: args}
	for i, p := range f.Params {
		nf.env[p] = args[i]
	}
	return x.enter(nf, st, nil, f.Blocks[0], nil)
}

func (x *X) exit(ct *Contract, o Outcome, i int) {
	vars := map[string]TV{}
	for k, v := range x.params {
		vars[k] = v
	}
	rs := x.top.Signature.Results()
	for k := 0; k < rs.Len(); k++ {
		n := fmt.Sprintf("r%d", k)
		if k < len(ct.Results) {
			n = ct.Results[k]
		}
		vars[n] = TV{o.res[k], rs.At(k).Type()}
	}
	env := &SpecEnv{x: x, st: o.st, old: x.entry, vars: vars}
	for _, c := range ct.Ensures {
		if c.Skip {
			continue
		}
		if !wanted(c.Tags, x.prop) && x.prop != "" {
			continue
		}
		st := o.st.clone()
		e2 := *env
		e2.st = st
		g := e2.boolTerm(c.Expr)
		x.obl(st, "ensures", fmt.Sprintf("%s [path %d]", c.Label, i), c.Tags, x.top.Pos(), g)
	}
	if ct.HasFrame && !ct.NoFrame {
		x.frameObl(ct, o, env, i)
	}
	for _, c := range ct.Closures {
		if wanted(c.Tags, x.prop) {
			x.closureObls(c, o, env, i)
		}
	}
}

func wanted(tags []string, prop string) bool {
	if prop == "" {
		return true
	}
	for _, t := range tags {
		if t == prop || t == "*" {
			return true
		}
	}
	return false
}

// freeEvent: reads, waits and body handling that every function may do.
var freeEvent = map[string]bool{"now": true, "gache.Gache.Get": true, "atomic.LoadPointer": true, "time.Sleep": true, "io.Copy": true, "io.Closer.Close": true, "io.ReadAll": true}

// under: the leaf is the named location or a part of it.
func under(leaf, p string) bool {
	return strings.HasPrefix(leaf, p) && (len(leaf) == len(p) || strings.HasSuffix(p, ".") || leaf[len(p)] == '.')
}

// frameObl: nothing that existed on entry changed except what the contract names.
func (x *X) frameObl(ct *Contract, o Outcome, env *SpecEnv, i int) {
	allowed := map[string][]*Term{} // leaf prefix -> bases
	for _, m := range ct.Modifies {
		x.modTargets(env, m, allowed)
	}
	x.unchanged(x.entry, o.st, allowed, func(n string) bool { return !ct.Quiet && freeEvent[n] || ct.emits(n) }, "frame", "", fmt.Sprintf(" [path %d]", i), []string{"*"})
}

// unchanged: between two states nothing changed except the allowed locations and events.
func (x *X) unchanged(entry, st *State, allowed map[string][]*Term, emits func(string) bool, kind, pre, post string, tags []string) {
	o := struct{ st *State }{st}
	for _, leaf := range sortedKeys(o.st.heap) {
		if strings.HasPrefix(leaf, "$") {
			if strings.HasPrefix(leaf, "$ev.") {
				n := leaf[4:]
				if !emits(n) {
					h0 := x.get(entry, leaf, sInt)
					x.obl(o.st, kind, pre+"no call of "+n+post, tags, x.top.Pos(), Eq(o.st.heap[leaf], h0))
				}
			}
			continue
		}
		h := o.st.heap[leaf]
		h0 := entry.heap[leaf]
		if h0 == nil {
			h0 = Var(x.heapPrefix+leaf, h.Sort)
		}
		if h == h0 {
			continue
		}
		refs, ok := writtenRefs(h, h0)
		var goal *Term
		if ok {
			var cs []*Term
			for _, r := range refs {
				if r.Op == "ref" && r.I.Sign() > 0 || x.lazy[r] {
					continue
				}
				var alts []*Term
				for p, bs := range allowed {
					if under(leaf, p) {
						for _, b := range bs {
							alts = append(alts, Eq(r, b))
						}
					}
				}
				alts = append(alts, Eq(Select(h, r), Select(h0, r)))
				alts = append(alts, Le(Ref(1), r))
				cs = append(cs, Or(alts...))
			}
			goal = And(cs...)
		} else {
			r := FreshBV("r", sInt)
			var alts []*Term
			for p, bs := range allowed {
				if under(leaf, p) {
					for _, b := range bs {
						alts = append(alts, Eq(r, b))
					}
				}
			}
			alts = append(alts, Eq(Select(h, r), Select(h0, r)), Le(Ref(1), r), Lt(r, tZero))
			goal = Forall(r, Or(alts...))
		}
		if o.st.simp(goal) == tTrue {
			continue
		}
		x.obl(o.st, kind, pre+leaf+" unchanged"+post, tags, x.top.Pos(), goal)
	}
}

// closureObls runs a function value of the exit state on arbitrary arguments and checks what it does:
// on(guard, function, requires, ensures, modified locations...). A slice of known length stands for its functions, called
// in order on the same arguments, for as long as they return no error.
func (x *X) closureObls(c *Clause, o Outcome, env *SpecEnv, i int) {
	on := c.Expr.(*ast.CallExpr)
	st := o.st.clone()
	e2 := *env
	e2.st = st
	st.add(e2.boolTerm(on.Args[0]))
	if st.dead || !x.feasible(st) {
		return
	}
	fv := e2.eval(on.Args[1])
	label := fmt.Sprintf("%s [path %d]", c.Label, i)
	ft := fv.T
	var fs []*Term
	if s, ok := fv.V.(*Slice); ok {
		n := st.simp(s.Len)
		if n.Op != "int" {
			serr("closure over a slice of unknown length")
		}
		ft = s.Elem
		for k := int64(0); k < n.I.Int64(); k++ {
			fs = append(fs, st.simp(x.load(st, s.elemPtr(Int(k)), s.Elem).(*Term)))
		}
	} else if f, ok := fv.V.(*Term); ok {
		fs = []*Term{f}
	} else {
		fs = []*Term{x.enc(fv.V)}
	}
	sig := ft.Underlying().(*types.Signature)
	vars := map[string]TV{}
	for k, v := range env.vars {
		vars[k] = v
	}
	var args []Value
	for k := 0; k < sig.Params().Len(); k++ {
		t := sig.Params().At(k).Type()
		v := x.freshVal(st, fmt.Sprintf("a%d", k), t)
		args = append(args, v)
		vars[fmt.Sprintf("a%d", k)] = TV{v, t}
	}
	pre := &SpecEnv{x: x, st: st, old: x.entry, vars: vars}
	st.add(pre.boolTerm(on.Args[2]))
	if st.dead {
		return
	}
	var entry *State
	allowed, emits := map[string][]*Term{}, map[string]bool{}
	if len(on.Args) > 4 {
		for _, m := range on.Args[4:] {
			if ce, ok := m.(*ast.CallExpr); ok {
				if id, ok := ce.Fun.(*ast.Ident); ok && id.Name == "calls" {
					ev, err := strconv.Unquote(ce.Args[0].(*ast.BasicLit).Value)
					if err == nil {
						emits[ev] = true
					}
					continue
				}
			}
			x.modTargets(pre, m, allowed)
		}
	}
	entry = st.clone()
	var run func(st *State, f *Term, rest []*Term)
	run = func(st *State, f *Term, rest []*Term) {
		f = x.decide(st, f)
		if f.Op == "ite" {
			s2 := st.clone()
			st.add(f.Args[0])
			s2.add(Not(f.Args[0]))
			if !st.dead && x.feasible(st) {
				run(st, f.Args[1], rest)
			}
			if !s2.dead && x.feasible(s2) {
				run(s2, f.Args[2], rest)
			}
			return
		}
		fn, ok := x.funcTab[f]
		if !ok || fn.Call != nil {
			x.obl(st, "closure", label+": unknown function "+head3(f), c.Tags, x.top.Pos(), tFalse)
			return
		}
		for _, o := range x.callFunc(nil, st, fn.Fn, fn.Bind, args, x.top.Pos()) {
			if o.kind != oRet || o.st.dead {
				continue
			}
			s := o.st
			if len(rest) > 0 {
				s2 := s.clone()
				ok := Eq(o.res[len(o.res)-1].(*Term), tNil)
				s2.add(ok)
				if !s2.dead {
					run(s2, rest[0], rest[1:])
				}
				s.add(Not(ok))
				if s.dead {
					continue
				}
			}
			v2 := map[string]TV{}
			for k, v := range vars {
				v2[k] = v
			}
			for k, r := range o.res {
				v2[fmt.Sprintf("r%d", k)] = TV{r, sig.Results().At(k).Type()}
			}
			s = s.clone()
			pe := &SpecEnv{x: x, st: s, old: entry, vars: v2}
			g := pe.boolTerm(on.Args[3])
			x.obl(s, "closure", label, c.Tags, x.top.Pos(), g)
			if len(on.Args) > 4 {
				x.unchanged(entry, o.st, allowed, func(n string) bool { return freeEvent[n] || emits[n] }, "closure", c.Label+": ", fmt.Sprintf(" [path %d]", i), c.Tags)
			}
		}
	}
	if len(fs) > 0 {
		run(st, fs[0], fs[1:])
	}
}

// decide resolves the conditionals of t whose condition is known.
func (x *X) decide(st *State, t *Term) *Term {
	if len(t.Args) == 0 || t.Op == "forall" || t.Op == "exists" {
		return t
	}
	if t.Op == "ite" {
		switch c := st.simp(t.Args[0]); {
		case c == tTrue:
			return x.decide(st, t.Args[1])
		case c == tFalse:
			return x.decide(st, t.Args[2])
		}
	}
	as := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		as[i] = x.decide(st, a)
		ch = ch || as[i] != a
	}
	if ch {
		return rebuild(t, as)
	}
	return t
}

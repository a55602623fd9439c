package main

// Symbolic execution of go/ssa functions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	oRet = iota
	oPanic
	oEdge // leaves the region (or closes the loop) along from->to
)

type Outcome struct {
	kind     int
	st       *State
	res      []Value
	fr       *Frame
	from, to *ssa.BasicBlock
	tag      string
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	defers []deferred
	depth  int
	unroll map[*ssa.BasicBlock]int
	args   []Value
	caller *Frame
	cut    map[*ssa.BasicBlock]bool // loop headers being cut right now (running one generic iteration)
}

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
}

func (f *Frame) clone() *Frame {
	n := &Frame{fn: f.fn, env: make(map[ssa.Value]Value, len(f.env)+8), depth: f.depth, args: f.args, caller: f.caller, cut: f.cut}
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append(n.defers, f.defers...)
	n.unroll = make(map[*ssa.BasicBlock]int, len(f.unroll))
	for k, v := range f.unroll {
		n.unroll[k] = v
	}
	return n
}

// Obl is one proof obligation.
type Obl struct {
	Tags   []string
	Func   string
	Label  string
	Pos    string
	Pc     []*Term
	Goal   *Term
	Kind   string // ensures, requires, safety, lemma
	Status string
	Solver string
	Ms     int64
	Output string
	Query  string
	Model  map[string]string
	Native bool
	st     *State
	x      *X
}

// X is the verification of one function.
type X struct {
	e          *Eng
	lazy       map[*Term]bool // package variables assigned once, by whoever needs them first
	top        *ssa.Function
	ctr        *Contract
	name       string
	keyOccs    []keyOcc
	goIDs      []*Term
	ctxParent  map[*Term]*Term
	loopOrd    map[string]int
	goMarks    []int // reference counter at the start of the goroutine bodies being executed
	freshN     int
	refN       int
	ptrTab     map[string]*Ptr
	funcTab    map[*Term]*FuncVal
	obls       []*Obl
	notes      map[string]bool
	used       map[string]bool // contracts assumed at call sites
	inlined    map[string]bool // functions executed in place
	heapPrefix string
	noCand     int
	quiet      int // >0: obligations are not recorded
	steps      int
	entry      *State
	headStack  []*loopHead
	params     map[string]TV
	inits      map[string]*Term // package initial heap
	loopN      int
	candStat   []string
	prop       string
	modular    map[string]bool
	initMode   bool
	hintS      []string
	entryVals  []Value
	noMerge    bool
	modelled   map[string]bool
}

func (x *X) note(f string, a ...interface{}) { x.notes[fmt.Sprintf(f, a...)] = true }

func (x *X) obl(st *State, kind, label string, tags []string, pos token.Pos, goal *Term) {
	g := st.simp(goal)
	if x.quiet > 0 && kind != "safety" {
		return
	}
	if x.quiet > 0 {
		return
	}
	p := x.e.pos(pos)
	o := &Obl{Tags: tags, Func: x.name, Label: label, Pos: p, Pc: st.pc[:len(st.pc):len(st.pc)], Goal: g, Kind: kind, st: st.clone(), x: x}
	if g == tTrue {
		o.Status, o.Solver = "proved", "simplifier"
	}
	x.obls = append(x.obls, o)
}

// safe requires c (no panic) and assumes it afterwards.
func (x *X) safe(st *State, what string, pos token.Pos, c *Term) {
	c = st.simp(c)
	if c == tTrue {
		return
	}
	if x.ctr != nil && len(x.ctr.Safety) > 0 {
		x.obl(st, "safety", what, x.ctr.Safety, pos, c)
	}
	st.add(c)
}

const maxSteps = 4000000

func (x *X) constVal(c *ssa.Const) Value {
	t := types.Unalias(c.Type())
	if c.Value == nil {
		return x.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			return Str(constant.StringVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			n, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			return IntBig(n)
		case u.Info()&types.IsFloat != 0:
			return f64const(c.Value)
		}
	}
	unsup("constant %s", c)
	return nil
}

func f64const(v constant.Value) *Term { return App("f64:"+v.ExactString(), "F64") }

func (x *X) val(fr *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return x.funcRef(v)
	case *ssa.Global:
		t := v.Type().(*types.Pointer).Elem()
		return x.globalPtr(v.Pkg.Pkg.Path()+"."+v.Name(), t)
	case *ssa.Builtin:
		return v
	}
	r, ok := fr.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s (%s) in %s", v.Name(), v, fr.fn))
	}
	return r
}

func (x *X) globalPtr(name string, t types.Type) *Ptr {
	k := x.e.globalRef(name)
	root := rootKey(t)
	if a, ok := t.Underlying().(*types.Array); ok && !isByte(a.Elem()) {
		root = "[]" + typeKey(a.Elem())
	}
	return &Ptr{Base: cons("ref", "", sInt, big.NewInt(-globalBase-int64(k))), Root: root, T: t}
}

func (x *X) funcRef(f *ssa.Function) *Term {
	t := App("fnref:"+f.String(), sInt)
	if _, ok := x.funcTab[t]; !ok {
		x.funcTab[t] = &FuncVal{Fn: f}
	}
	return t
}

func (x *X) set(fr *Frame, v ssa.Value, val Value) { fr.env[v] = val }

// region: blocks a run may stay in; nil means the whole function.
type region struct {
	blocks map[*ssa.BasicBlock]bool
	header *ssa.BasicBlock
}

func (x *X) edge(fr *Frame, st *State, from, to *ssa.BasicBlock, rg *region) []Outcome {
	if rg != nil && (!rg.blocks[to] || to == rg.header) {
		return []Outcome{{kind: oEdge, st: st, fr: fr, from: from, to: to}}
	}
	return x.enter(fr, st, from, to, rg)
}

// enter moves control along from->to.
func (x *X) enter(fr *Frame, st *State, from, to *ssa.BasicBlock, rg *region) []Outcome {
	x.phis(fr, from, to)
	if lp := x.e.loopAt(to); lp != nil && !fr.cut[to] {
		return x.loopEntry(fr, st, from, lp, rg)
	}
	return x.run(fr, st, to, firstNonPhi(to), rg)
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func (x *X) phis(fr *Frame, from, to *ssa.BasicBlock) {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	var vals []Value
	var ps []*ssa.Phi
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vals = append(vals, x.val(fr, p.Edges[idx]))
	}
	for i, p := range ps {
		fr.env[p] = vals[i]
	}
}

func (x *X) run(fr *Frame, st *State, b *ssa.BasicBlock, i int, rg *region) []Outcome {
	for ; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > maxSteps {
			unsup("too many steps")
		}
		if st.dead {
			return nil
		}
		ins := b.Instrs[i]
		switch in := ins.(type) {
		case *ssa.If:
			c := st.simp(x.val(fr, in.Cond).(*Term))
			if c == tTrue {
				return x.edge(fr, st, b, b.Succs[0], rg)
			}
			if c == tFalse {
				return x.edge(fr, st, b, b.Succs[1], rg)
			}
			s2, f2 := st.clone(), fr.clone()
			st.add(c)
			s2.add(Not(c))
			var out []Outcome
			if !st.dead && x.feasible(st) {
				out = x.edge(fr, st, b, b.Succs[0], rg)
			}
			if !s2.dead && x.feasible(s2) {
				out = append(out, x.edge(f2, s2, b, b.Succs[1], rg)...)
			}
			return out
		case *ssa.Jump:
			return x.edge(fr, st, b, b.Succs[0], rg)
		case *ssa.Return:
			var res []Value
			for _, r := range in.Results {
				res = append(res, x.val(fr, r))
			}
			return []Outcome{{kind: oRet, st: st, res: res, fr: fr}}
		case *ssa.Panic:
			x.safe(st, "panic call unreachable", in.Pos(), tFalse)
			return []Outcome{{kind: oPanic, st: st, fr: fr}}
		case *ssa.Call, *ssa.Go, *ssa.RunDefers, *ssa.Select, *ssa.UnOp, *ssa.Next, *ssa.Send:
			outs, handled := x.forking(fr, st, ins)
			if !handled {
				x.simple(fr, st, ins)
				continue
			}
			if len(outs) == 1 && outs[0].kind == oRet {
				st = outs[0].st
				if v, ok := ins.(ssa.Value); ok {
					fr.env[v] = pack(outs[0].res, v.Type())
				}
				continue
			}
			var all []Outcome
			for k, o := range outs {
				if o.st.dead {
					continue
				}
				if o.kind == oPanic {
					all = append(all, Outcome{kind: oPanic, st: o.st, fr: fr})
					continue
				}
				f2 := fr
				if k < len(outs)-1 {
					f2 = fr.clone()
				}
				if v, ok := ins.(ssa.Value); ok {
					f2.env[v] = pack(o.res, v.Type())
				}
				if len(outs) > 1 && !x.feasible(o.st) {
					continue
				}
				all = append(all, x.run(f2, o.st, b, i+1, rg)...)
			}
			return all
		default:
			x.simple(fr, st, ins)
		}
	}
	panic("block without terminator")
}

func pack(res []Value, t types.Type) Value {
	if tp, ok := t.(*types.Tuple); ok {
		if tp.Len() == 0 {
			return &Tuple{}
		}
		return &Tuple{E: res}
	}
	if len(res) == 1 {
		return res[0]
	}
	return &Tuple{E: res}
}

// feasible: whether the path condition may hold (a cheap solver query; unknown counts as feasible).
func (x *X) feasible(st *State) bool {
	if st.dead {
		return false
	}
	return x.e.mayHold(x, st)
}

func (x *X) derefOK(st *State, p Value, pos token.Pos, what string) {
	pt, ok := p.(*Ptr)
	if !ok {
		unsup("dereference of %T", p)
	}
	if pt.Base.Op == "ref" {
		return
	}
	if isAddr(pt.Base) {
		return
	}
	x.safe(st, what+": nil dereference", pos, Not(Eq(pt.Base, tZero)))
}

// simple executes instructions with exactly one outcome.
func (x *X) simple(fr *Frame, st *State, ins ssa.Instruction) {
	switch in := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		p := x.alloc(st, t)
		x.set(fr, in, p)
	case *ssa.BinOp:
		x.set(fr, in, x.binop(st, in.Op, x.val(fr, in.X), x.val(fr, in.Y), in.X.Type(), in.Type(), in.Pos()))
	case *ssa.UnOp:
		v := x.val(fr, in.X)
		switch in.Op {
		case token.MUL:
			x.derefOK(st, v, in.Pos(), "load "+in.X.Name())
			t := in.Type()
			x.set(fr, in, x.load(st, v, t))
		case token.NOT:
			x.set(fr, in, Not(v.(*Term)))
		case token.SUB:
			if v.(*Term).Sort == "F64" {
				x.set(fr, in, App("fneg", "F64", v.(*Term)))
			} else {
				x.set(fr, in, x.wrap(st, Sub(tZero, v.(*Term)), in.Type()))
			}
		case token.XOR:
			x.set(fr, in, App("bitnot", sInt, v.(*Term)))
		default:
			unsup("unary %s", in)
		}
	case *ssa.ChangeInterface:
		x.set(fr, in, x.val(fr, in.X))
	case *ssa.ChangeType:
		v := x.val(fr, in.X)
		x.set(fr, in, x.retype(v, in.Type()))
	case *ssa.Convert:
		x.set(fr, in, x.convert(st, x.val(fr, in.X), in.X.Type(), in.Type()))
	case *ssa.MakeInterface:
		x.set(fr, in, x.makeIface(x.val(fr, in.X), in.X.Type()))
	case *ssa.Extract:
		x.set(fr, in, x.val(fr, in.Tuple).(*Tuple).E[in.Index])
	case *ssa.Field:
		x.set(fr, in, x.val(fr, in.X).(*Tuple).E[in.Field])
	case *ssa.FieldAddr:
		v := x.val(fr, in.X)
		x.derefOK(st, v, in.Pos(), "field of "+in.X.Name())
		x.set(fr, in, x.fieldAddr(v.(*Ptr), in.Field))
	case *ssa.IndexAddr:
		x.set(fr, in, x.indexAddr(st, x.val(fr, in.X), in.X.Type(), x.val(fr, in.Index).(*Term), in.Pos()))
	case *ssa.Index:
		v := x.val(fr, in.X)
		i := x.val(fr, in.Index).(*Term)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Basic:
			s := v.(*Term)
			x.safe(st, "index in range", in.Pos(), And(Le(tZero, i), Lt(i, Slen(s))))
			x.set(fr, in, App("sat", sInt, s, i))
		case *types.Array:
			_ = u
			if i.Op != "int" {
				unsup("symbolic index of array value")
			}
			x.set(fr, in, v.(*Tuple).E[i.I.Int64()])
		default:
			unsup("index %s", in)
		}
	case *ssa.Lookup:
		v := x.val(fr, in.X)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Map:
			k := x.keyTerm(x.val(fr, in.Index), u.Key())
			r, ok := x.mapLookup(st, v.(*Term), u, k)
			if in.CommaOk {
				x.set(fr, in, &Tuple{[]Value{r, ok}})
			} else {
				x.set(fr, in, r)
			}
		default:
			s, i := v.(*Term), x.val(fr, in.Index).(*Term)
			x.safe(st, "index in range", in.Pos(), And(Le(tZero, i), Lt(i, Slen(s))))
			x.set(fr, in, App("sat", sInt, s, i))
		}
	case *ssa.MakeChan:
		r := x.newRef()
		x.chanInit(st, r, in.Type().Underlying().(*types.Chan))
		x.set(fr, in, r)
	case *ssa.MakeClosure:
		r := x.newRef()
		fv := &FuncVal{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			fv.Bind = append(fv.Bind, x.val(fr, b))
		}
		x.funcTab[r] = fv
		x.set(fr, in, r)
	case *ssa.MakeMap:
		x.set(fr, in, x.makeMap(st, in.Type().Underlying().(*types.Map)))
	case *ssa.MakeSlice:
		elem := in.Type().Underlying().(*types.Slice).Elem()
		n, c := x.val(fr, in.Len).(*Term), x.val(fr, in.Cap).(*Term)
		x.safe(st, "make: length in range", in.Pos(), And(Le(tZero, n), Le(n, c)))
		if isByte(elem) {
			r := x.newRef()
			x.setBytes(st, r, x.fresh("bytes", sStr))
			x.set(fr, in, &Slice{r, tZero, n, c, elem})
			break
		}
		x.set(fr, in, &Slice{x.allocArr(st, elem), tZero, n, c, elem})
	case *ssa.MapUpdate:
		mt := in.Map.Type().Underlying().(*types.Map)
		m := x.val(fr, in.Map).(*Term)
		if m.Op != "ref" {
			x.safe(st, "assignment to nil map", in.Pos(), Not(Eq(m, tZero)))
		}
		x.mapStore(st, m, mt, x.keyTerm(x.val(fr, in.Key), mt.Key()), x.val(fr, in.Value))
	case *ssa.Range:
		x.set(fr, in, x.rangeInit(st, x.val(fr, in.X), in.X.Type()))
	case *ssa.Slice:
		x.set(fr, in, x.slice(fr, st, in))
	case *ssa.SliceToArrayPointer:
		unsup("slice to array pointer")
	case *ssa.Store:
		p := x.val(fr, in.Addr)
		x.derefOK(st, p, in.Pos(), "store")
		x.store(st, p, x.val(fr, in.Val), in.Val.Type())
	case *ssa.TypeAssert:
		x.set(fr, in, x.typeAssert(st, x.val(fr, in.X).(*Term), in.AssertedType, in.CommaOk, in.Pos()))
	case *ssa.Defer:
		d := deferred{call: &in.Call}
		if in.Call.IsInvoke() {
			d.fn = x.val(fr, in.Call.Value)
		} else {
			d.fn = x.val(fr, in.Call.Value)
		}
		for _, a := range in.Call.Args {
			d.args = append(d.args, x.val(fr, a))
		}
		fr.defers = append(fr.defers, d)
	default:
		unsup("instruction %T %s", ins, ins)
	}
}

func (x *X) typeAssert(st *State, i *Term, t types.Type, commaOk bool, pos token.Pos) Value {
	ok := typeTest(i, t)
	if commaOk {
		okS := st.simp(ok)
		if types.IsInterface(t) {
			return &Tuple{[]Value{Ite(okS, i, tNil), okS}}
		}
		raw := x.ifaceVal(i, t)
		fs := &State{heap: st.heap, lits: map[*Term]bool{}}
		x.typeFacts(fs, raw, t)
		for _, f := range fs.pc {
			st.add(Imp(okS, f))
		}
		v := x.flatten(raw, t)
		z := x.flatten(x.zero(t), t)
		for k := range v {
			v[k] = Ite(okS, v[k], z[k])
		}
		return &Tuple{[]Value{x.unflatten(v, t), okS}}
	}
	x.safe(st, "type assertion to "+typeKey(t), pos, ok)
	if types.IsInterface(t) {
		return i
	}
	r := x.ifaceVal(i, t)
	x.typeFacts(st, r, t)
	return r
}

func (x *X) retype(v Value, t types.Type) Value {
	switch p := v.(type) {
	case *Ptr:
		// *A to *B with identical underlying types: only between cells of the same leaf is it exact
		el := t.Underlying().(*types.Pointer).Elem()
		if p.Suf == "" && p.Idx == nil && rootKey(el) != p.Root {
			unsup("pointer conversion %s to %s", p.T, t)
		}
		n := *p
		n.T = el
		return &n
	case *Slice:
		n := *p
		n.Elem = t.Underlying().(*types.Slice).Elem()
		if typeKey(n.Elem) != typeKey(p.Elem) {
			unsup("slice conversion to %s", t)
		}
		return &n
	}
	return v
}

func (x *X) fieldAddr(p *Ptr, f int) *Ptr {
	s := asStructT(p.T)
	if s == nil {
		unsup("field of %s", p.T)
	}
	fd := s.Field(f)
	return &Ptr{Base: p.Base, Idx: p.Idx, Root: p.Root, Suf: p.Suf + "." + fd.Name(), T: fd.Type()}
}

func (x *X) indexAddr(st *State, v Value, t types.Type, i *Term, pos token.Pos) Value {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s := v.(*Slice)
		x.safe(st, "index in range", pos, And(Le(tZero, i), Lt(i, s.Len)))
		if isByte(u.Elem()) {
			return &bytePtr{s, i}
		}
		return s.elemPtr(i)
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		p := v.(*Ptr)
		if isByte(a.Elem()) {
			unsup("element of byte array")
		}
		x.safe(st, "index in range", pos, And(Le(tZero, i), Lt(i, Int(a.Len()))))
		if strings.HasPrefix(p.Root, "[]") && p.Idx == nil && p.Suf == "" {
			return &Ptr{Base: p.Base, Idx: i, Root: p.Root, T: a.Elem()}
		}
		if i.Op != "int" {
			unsup("symbolic index of array field")
		}
		return &Ptr{Base: p.Base, Idx: p.Idx, Root: p.Root, Suf: fmt.Sprintf("%s[%s]", p.Suf, i.I), T: a.Elem()}
	}
	unsup("index address of %s", t)
	return nil
}

type bytePtr struct {
	s *Slice
	i *Term
}

func (x *X) slice(fr *Frame, st *State, in *ssa.Slice) Value {
	v := x.val(fr, in.X)
	opt := func(o ssa.Value) *Term {
		if o == nil {
			return nil
		}
		return x.val(fr, o).(*Term)
	}
	lo, hi, mx := opt(in.Low), opt(in.High), opt(in.Max)
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic:
		s := v.(*Term)
		if lo == nil {
			lo = tZero
		}
		if hi == nil {
			hi = Slen(s)
		}
		x.safe(st, "slice bounds", in.Pos(), And(Le(tZero, lo), Le(lo, hi), Le(hi, Slen(s))))
		return x.substr(st, s, lo, hi)
	case *types.Slice:
		s := v.(*Slice)
		if lo == nil {
			lo = tZero
		}
		if hi == nil {
			hi = s.Len
		}
		c := s.Cap
		if mx != nil {
			c = mx
		}
		x.safe(st, "slice bounds", in.Pos(), And(Le(tZero, lo), Le(lo, hi), Le(hi, c)))
		return &Slice{s.Arr, Add(s.Off, lo), Sub(hi, lo), Sub(c, lo), s.Elem}
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		p := v.(*Ptr)
		if lo == nil {
			lo = tZero
		}
		if hi == nil {
			hi = Int(a.Len())
		}
		c := Int(a.Len())
		if mx != nil {
			c = mx
		}
		x.safe(st, "slice bounds", in.Pos(), And(Le(tZero, lo), Le(lo, hi), Le(hi, c)))
		if isByte(a.Elem()) {
			r := x.newRef()
			cont := x.load(st, p, u.Elem()).(*Term)
			x.setBytes(st, r, cont)
			st.add(Eq(Slen(cont), Int(a.Len())))
			if lo == tZero && hi == Int(a.Len()) {
				return &Slice{r, tZero, Slen(cont), Slen(cont), a.Elem()}
			}
			return &Slice{r, lo, Sub(hi, lo), Sub(c, lo), a.Elem()}
		}
		if !strings.HasPrefix(p.Root, "[]") || p.Idx != nil {
			unsup("slice of array field")
		}
		return &Slice{p.Base, lo, Sub(hi, lo), Sub(c, lo), a.Elem()}
	}
	unsup("slice %s", in)
	return nil
}

// --- byte slices: the contents of a byte array are one string ---

const bytesLeaf = "bytes!"

func (x *X) setBytes(st *State, a, s *Term) {
	st.heap[bytesLeaf] = Store(x.get(st, bytesLeaf, arr(sInt, sStr)), a, s)
}

func (x *X) bytesString(st *State, s *Slice) *Term {
	c := Select(x.get(st, bytesLeaf, arr(sInt, sStr)), s.Arr)
	if s.Off == tZero && s.Len == Slen(c) {
		return c
	}
	if s.Len == tZero {
		return Str("")
	}
	return x.substr(st, c, s.Off, Add(s.Off, s.Len))
}

func (x *X) newBytes(st *State, s *Term) *Slice {
	r := x.newRef()
	x.setBytes(st, r, s)
	return &Slice{r, tZero, Slen(s), Slen(s), types.Typ[types.Byte]}
}

func intRange(b *types.Basic) (*big.Int, *big.Int) {
	p := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	m1 := big.NewInt(-1)
	signed := func(n uint) (*big.Int, *big.Int) {
		return new(big.Int).Neg(p(n - 1)), new(big.Int).Add(p(n-1), m1)
	}
	unsigned := func(n uint) (*big.Int, *big.Int) { return big.NewInt(0), new(big.Int).Add(p(n), m1) }
	switch b.Kind() {
	case types.Int, types.Int64:
		return signed(64)
	case types.Int32:
		return signed(32)
	case types.Int16:
		return signed(16)
	case types.Int8:
		return signed(8)
	case types.Uint, types.Uint64, types.Uintptr:
		return unsigned(64)
	case types.Uint32:
		return unsigned(32)
	case types.Uint16:
		return unsigned(16)
	case types.Uint8:
		return unsigned(8)
	}
	return nil, nil
}

// small: the term is a length, an index or a constant, or a small sum of such: it cannot overflow 64 bits.
func small(t *Term, d int) bool {
	if d > 6 {
		return false
	}
	switch t.Op {
	case "int":
		return t.I.BitLen() <= 60
	case "app":
		return t.Name == "slen" || t.Name == "sindex" || t.Name == "slastindex" || t.Name == "ntok" || t.Name == "sat" || t.Name == "runeAt"
	case "var":
		return strings.Contains(t.Name, "!idx") || strings.Contains(t.Name, ".$len") || strings.Contains(t.Name, ".$cap") || strings.Contains(t.Name, "$i!")
	case "+", "-":
		return small(t.Args[0], d+1) && small(t.Args[1], d+1)
	case "select":
		b := t.Args[0]
		for b.Op == "store" || b.Op == "select" {
			b = b.Args[0]
		}
		return b.Op == "var" && (strings.HasSuffix(b.Name, ".$len") || strings.HasSuffix(b.Name, ".len") || strings.HasSuffix(b.Name, ".$cap"))
	case "ite":
		return small(t.Args[1], d+1) && small(t.Args[2], d+1)
	case "*":
		return t.Args[1].Op == "int" && t.Args[1].I.BitLen() <= 8 && small(t.Args[0], d+1)
	}
	return false
}

// wrap reduces a mathematical result to the machine integer type.
func (x *X) wrap(st *State, t *Term, ty types.Type) *Term {
	b, ok := ty.Underlying().(*types.Basic)
	if !ok {
		return t
	}
	lo, hi := intRange(b)
	if lo == nil {
		return t
	}
	if t.Op == "int" {
		if t.I.Cmp(lo) >= 0 && t.I.Cmp(hi) <= 0 {
			return t
		}
		n := new(big.Int).Sub(hi, lo)
		n.Add(n, big.NewInt(1))
		r := new(big.Int).Sub(t.I, lo)
		r.Mod(r, n)
		return IntBig(r.Add(r, lo))
	}
	if small(t, 0) && hi.BitLen() >= 62 && lo.Sign() < 0 {
		return t
	}
	if b, c := linBase(t); b.Op == "var" && hi.BitLen() >= 63 && lo.Sign() < 0 && c.IsInt64() && (c.Int64() == 1 || c.Int64() == -1) {
		if strings.Contains(b.Name, ":rangeindex") {
			return t // bounded by the length of what is ranged over
		}
		if strings.Contains(b.Name, "!phi") {
			x.note("loop counters stepping by one are assumed not to overflow 64 bits")
			return t
		}
	}
	n := new(big.Int).Sub(hi, lo)
	n.Add(n, big.NewInt(1))
	in := And(Le(IntBig(lo), t), Le(t, IntBig(hi)))
	if st != nil && st.simp(in) == tTrue {
		return t
	}
	return Ite(in, t, Add(Mod(Sub(t, IntBig(lo)), IntBig(n)), IntBig(lo)))
}

func (x *X) binop(st *State, op token.Token, a, b Value, xt, rt types.Type, pos token.Pos) Value {
	switch op {
	case token.EQL, token.NEQ:
		e := x.valEq(a, b, xt)
		if op == token.NEQ {
			return Not(e)
		}
		return e
	}
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsup("binary %s on %T", op, a)
	}
	switch ta.Sort {
	case sStr:
		switch op {
		case token.ADD:
			return Cat(ta, tb)
		case token.LSS:
			return App("slt", sBool, ta, tb)
		case token.GTR:
			return App("slt", sBool, tb, ta)
		case token.LEQ:
			return Not(App("slt", sBool, tb, ta))
		case token.GEQ:
			return Not(App("slt", sBool, ta, tb))
		}
	case "F64":
		switch op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return App("f"+op.String(), "F64", ta, tb)
		case token.LSS:
			return App("flt", sBool, ta, tb)
		case token.GTR:
			return App("flt", sBool, tb, ta)
		case token.LEQ:
			return App("fle", sBool, ta, tb)
		case token.GEQ:
			return App("fle", sBool, tb, ta)
		}
	case sInt:
		switch op {
		case token.ADD:
			return x.wrap(st, Add(ta, tb), rt)
		case token.SUB:
			return x.wrap(st, Sub(ta, tb), rt)
		case token.MUL:
			return x.wrap(st, Mul(ta, tb), rt)
		case token.QUO:
			x.safe(st, "division by zero", pos, Not(Eq(tb, tZero)))
			return x.wrap(st, goDiv(ta, tb), rt)
		case token.REM:
			x.safe(st, "division by zero", pos, Not(Eq(tb, tZero)))
			return Sub(ta, Mul(goDiv(ta, tb), tb))
		case token.LSS:
			return Lt(ta, tb)
		case token.GTR:
			return Lt(tb, ta)
		case token.LEQ:
			return Le(ta, tb)
		case token.GEQ:
			return Le(tb, ta)
		case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
			if ta.Op == "int" && tb.Op == "int" {
				r := new(big.Int)
				switch op {
				case token.AND:
					r.And(ta.I, tb.I)
				case token.OR:
					r.Or(ta.I, tb.I)
				case token.XOR:
					r.Xor(ta.I, tb.I)
				case token.SHL:
					r.Lsh(ta.I, uint(tb.I.Int64()))
				case token.SHR:
					r.Rsh(ta.I, uint(tb.I.Int64()))
				case token.AND_NOT:
					r.AndNot(ta.I, tb.I)
				}
				return x.wrap(st, IntBig(r), rt)
			}
			if op == token.OR && tb.Op == "int" && tb.I.Sign() > 0 {
				// x | c is non-zero and at least c (unsigned use: error flag sets)
				r := App("bit|", sInt, ta, tb)
				if bb, ok := rt.Underlying().(*types.Basic); ok && bb.Info()&types.IsUnsigned != 0 {
					st.add(Le(tb, r))
				}
				return r
			}
			return App("bit"+op.String(), sInt, ta, tb)
		}
	case sBool:
		switch op {
		case token.AND, token.LAND:
			return And(ta, tb)
		case token.OR, token.LOR:
			return Or(ta, tb)
		}
	}
	unsup("binary %s on %s", op, xt)
	return nil
}

func goDiv(a, b *Term) *Term {
	if b.Op == "int" && b.I.Sign() > 0 {
		return Ite(Le(tZero, a), Div(a, b), Sub(tZero, Div(Sub(tZero, a), b)))
	}
	return App("godiv", sInt, a, b)
}

func (x *X) valEq(a, b Value, t types.Type) *Term {
	switch t.Underlying().(type) {
	case *types.Slice:
		// only comparison with nil
		sa, sb := a.(*Slice), b.(*Slice)
		if sb.Arr == tZero {
			return Eq(sa.Arr, tZero)
		}
		return Eq(sb.Arr, tZero)
	}
	return x.eqVal(a, b, t)
}

func (x *X) convert(st *State, v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)
	if fb != nil && tb != nil {
		switch {
		case fb.Kind() == types.UnsafePointer || tb.Kind() == types.UnsafePointer:
			return v
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			lo, _ := intRange(tb)
			flo, fhi := intRange(fb)
			tlo, thi := intRange(tb)
			if lo == nil || (flo != nil && flo.Cmp(tlo) >= 0 && fhi.Cmp(thi) <= 0) {
				return v
			}
			return x.wrap(st, v.(*Term), to)
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return v
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			return runeStr(v.(*Term))
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
			return App("i2f", "F64", v.(*Term))
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			return App("f2i", sInt, v.(*Term))
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			return v
		}
	}
	if fb != nil && fb.Info()&types.IsString != 0 {
		if s, ok := tu.(*types.Slice); ok {
			if isByte(s.Elem()) {
				return x.newBytes(st, v.(*Term))
			}
			unsup("string to %s", to)
		}
	}
	if s, ok := fu.(*types.Slice); ok && tb != nil && tb.Info()&types.IsString != 0 {
		if isByte(s.Elem()) {
			return x.bytesString(st, v.(*Slice))
		}
		unsup("%s to string", from)
	}
	if tb != nil && tb.Kind() == types.UnsafePointer {
		return v // pointer carried as is
	}
	if fb != nil && fb.Kind() == types.UnsafePointer {
		el := tu.(*types.Pointer).Elem()
		switch p := v.(type) {
		case *Ptr:
			n := *p
			if typeKey(p.T) != typeKey(el) {
				if b, ok := el.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
					// *unsafe.Pointer view of a pointer field: same single leaf
					n.T = el
					return &n
				}
				if p.Suf != "" || p.Idx != nil {
					unsup("unsafe conversion %s to %s", p.T, to)
				}
				n.Root = rootKey(el)
			}
			n.T = el
			return &n
		case *Term:
			return x.dec(p, el)
		}
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

func runeStr(r *Term) *Term {
	if r.Op == "int" {
		return Str(string(rune(r.I.Int64())))
	}
	return App("runeStr", sStr, r)
}

func debugf(f string, a ...interface{}) {
	if os.Getenv("GVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

package main

// Calls: builtins, functions under contract, library models, in-place execution, goroutines, channels, ranges.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type rangeIter struct {
	str   bool
	s     *Term
	m     *Term
	mt    *types.Map
	leaf  string
	start *Term // domain when the iteration began
}

// Call is one call of a function not executed from a repository body.
type Call struct {
	x    *X
	fr   *Frame
	st   *State
	name string
	args []Value
	argT []types.Type
	sig  *types.Signature
	pos  token.Pos
}

func one(st *State, res ...Value) []Outcome { return []Outcome{{kind: oRet, st: st, res: res}} }

func (c *Call) ret(res ...Value) []Outcome { return one(c.st, res...) }
func (c *Call) t(i int) *Term              { return c.args[i].(*Term) }

// resType is the type of result i.
func (c *Call) resType(i int) types.Type { return c.sig.Results().At(i).Type() }

// forking executes instructions that may have several outcomes; handled=false leaves them to simple.
func (x *X) forking(fr *Frame, st *State, ins ssa.Instruction) ([]Outcome, bool) {
	switch in := ins.(type) {
	case *ssa.UnOp:
		if in.Op != token.ARROW {
			return nil, false
		}
		return x.recv(st, x.val(fr, in.X).(*Term), in.X.Type().Underlying().(*types.Chan), in.CommaOk), true
	case *ssa.Send:
		x.send(st, x.val(fr, in.Chan).(*Term), in.Chan.Type().Underlying().(*types.Chan), x.val(fr, in.X), in.Pos())
		return one(st), true
	case *ssa.Next:
		return x.next(st, x.val(fr, in.Iter).(*rangeIter), in), true
	case *ssa.Select:
		return x.selectStmt(fr, st, in), true
	case *ssa.Call:
		fn, args := x.callee(fr, &in.Call)
		return x.call(fr, st, &in.Call, fn, args, in.Pos()), true
	case *ssa.Go:
		fn, args := x.callee(fr, &in.Call)
		done := x.goBody(st)
		outs := x.call(fr, st, &in.Call, fn, args, in.Pos())
		done(outs)
		for i := range outs {
			outs[i].res = nil
		}
		return outs, true
	case *ssa.RunDefers:
		ds := fr.defers
		fr.defers = nil
		outs := []Outcome{{kind: oRet, st: st}}
		for i := len(ds) - 1; i >= 0; i-- {
			var next []Outcome
			for _, o := range outs {
				if o.kind == oPanic {
					next = append(next, o)
					continue
				}
				for _, r := range x.call(fr, o.st, ds[i].call, ds[i].fn, ds[i].args, ds[i].call.Pos()) {
					r.res = nil
					next = append(next, r)
				}
			}
			outs = next
		}
		return outs, true
	}
	return nil, false
}

// goBody prepares the execution of a goroutine's body; the result is to be called with its outcomes.
func (x *X) goBody(st *State) func([]Outcome) {
	st.heap["$unjoined"] = tFalse
	st.heap["$doneCalled"] = tFalse
	x.goMarks = append(x.goMarks, x.refN)
	x.goIDs = append(x.goIDs, x.newRef())
	return func(outs []Outcome) {
		x.goMarks = x.goMarks[:len(x.goMarks)-1]
		x.goIDs = x.goIDs[:len(x.goIDs)-1]
		for i := range outs {
			outs[i].st.heap["$unjoined"] = tTrue
			outs[i].st.heap["$doneCalled"] = tFalse
		}
	}
}

// foreign: the object existed before the goroutine that is being executed was started.
func (x *X) foreign(base *Term) bool {
	if len(x.goMarks) == 0 {
		return false
	}
	return base.Op != "ref" || base.I.Int64() <= int64(x.goMarks[len(x.goMarks)-1])
}

// joinObl is an obligation of contracts with a join clause.
func (x *X) joinObl(st *State, what string, pos token.Pos, g *Term) {
	if x.ctr != nil && len(x.ctr.JoinTags) > 0 {
		x.obl(st, "join", what, x.ctr.JoinTags, pos, g)
	}
}

// effect: something others can see, which a worker must do before it reports to be done.
func (x *X) effect(st *State, what string, pos token.Pos) {
	if len(x.goMarks) > 0 {
		x.joinObl(st, what+" before the worker reports to be done", pos, Not(x.get(st, "$doneCalled", sBool)))
	}
}

func (x *X) joined(st *State, what string, pos token.Pos) {
	x.joinObl(st, what+" only after every worker has finished", pos, Not(x.get(st, "$unjoined", sBool)))
}

func (x *X) callee(fr *Frame, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	fn := x.val(fr, c.Value)
	for _, a := range c.Args {
		args = append(args, x.val(fr, a))
	}
	return fn, args
}

func (x *X) call(fr *Frame, st *State, c *ssa.CallCommon, fn Value, args []Value, pos token.Pos) []Outcome {
	if b, ok := fn.(*ssa.Builtin); ok {
		return x.builtin(fr, st, b.Name(), c, args, pos)
	}
	if c.IsInvoke() {
		return x.invoke(fr, st, fn.(*Term), c.Value.Type(), c.Method, args, pos)
	}
	if f, ok := c.Value.(*ssa.Function); ok {
		return x.callFunc(fr, st, f, nil, args, pos)
	}
	return x.callTerm(fr, st, fn.(*Term), c.Value.Type(), args, pos)
}

// callTerm calls a function value.
func (x *X) callTerm(fr *Frame, st *State, f *Term, t types.Type, args []Value, pos token.Pos) []Outcome {
	if fv, ok := x.funcTab[f]; ok {
		if fv.Call != nil {
			return fv.Call(x, st, args)
		}
		return x.callFunc(fr, st, fv.Fn, fv.Bind, args, pos)
	}
	if f.Op == "ite" {
		c := st.simp(f.Args[0])
		if c == tTrue {
			return x.callTerm(fr, st, f.Args[1], t, args, pos)
		}
		if c == tFalse {
			return x.callTerm(fr, st, f.Args[2], t, args, pos)
		}
		s2 := st.clone()
		st.add(c)
		s2.add(Not(c))
		var out []Outcome
		if !st.dead {
			out = x.callTerm(fr, st, f.Args[1], t, args, pos)
		}
		if !s2.dead {
			out = append(out, x.callTerm(fr, s2, f.Args[2], t, args, pos)...)
		}
		return out
	}
	x.safe(st, "call of nil function", pos, Not(Eq(f, tZero)))
	sig := t.Underlying().(*types.Signature)
	name := "func " + typeKey(t)
	if np := namedPath(t); np != "" {
		name = "func " + shortPath(np)
	}
	all := append([]Value{f}, args...)
	ts := []types.Type{t}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	return x.extern(&Call{x: x, fr: fr, st: st, name: name, args: all, argT: ts, sig: sig, pos: pos})
}

// shortPath drops the directories of a package path: "github.com/a/b.T" -> "b.T".
func shortPath(s string) string {
	i := strings.LastIndex(s, "/")
	if i < 0 {
		return s
	}
	pre := ""
	for _, c := range "(*" {
		if strings.HasPrefix(s[len(pre):], string(c)) {
			pre += string(c)
		}
	}
	base := s[i+1:]
	// version suffix such as /v5.T
	if len(base) > 1 && base[0] == 'v' && base[1] >= '0' && base[1] <= '9' {
		if k := strings.LastIndex(s[:i], "/"); k >= 0 {
			mod := s[k+1 : i]
			dot := strings.IndexAny(base, ".")
			if dot > 0 {
				if strings.HasSuffix(mod, "athenz-authorizer") {
					mod = "authorizerd"
				}
				base = mod + base[dot:]
			}
		}
	}
	return pre + base
}

// funcKey is the name contracts and models use: "access.(*atp).keyFunc", "strings.SplitN", "sync.(*Map).Load".
func funcKey(f *ssa.Function) string {
	if f.Pkg == nil {
		if o := f.Object(); o != nil && o.Pkg() != nil {
			if fo, ok := o.(*types.Func); ok {
				return typesFuncKey(fo)
			}
		}
		return f.String()
	}
	p := f.Pkg.Pkg
	return theEng.qualified(p, pkgShort(p)+"."+f.RelString(p))
}

func pkgShort(p *types.Package) string { return p.Name() }

// qualified: a function of a library with the same short name as one of the repository gets its parent directory.
func (e *Eng) qualified(p *types.Package, key string) string {
	if p == nil || e == nil || e.repoPkg[p.Path()] || e.funcs[key] == nil {
		return key
	}
	fs := strings.Split(p.Path(), "/")
	if len(fs) < 2 {
		return key
	}
	return fs[len(fs)-2] + "/" + key
}

func typesFuncKey(fo *types.Func) string {
	sig := fo.Type().(*types.Signature)
	p := fo.Pkg()
	pn := ""
	if p != nil {
		pn = pkgShort(p)
	}
	if r := sig.Recv(); r != nil {
		t := r.Type()
		ptr := ""
		if pt, ok := t.(*types.Pointer); ok {
			t, ptr = pt.Elem(), "*"
		}
		nm := typeKey(t)
		if n, ok := types.Unalias(t).(*types.Named); ok {
			nm = n.Obj().Name()
		}
		if types.IsInterface(t) {
			return pn + "." + nm + "." + fo.Name()
		}
		if ptr != "" {
			return pn + ".(*" + nm + ")." + fo.Name()
		}
		return pn + ".(" + nm + ")." + fo.Name()
	}
	return pn + "." + fo.Name()
}

func (x *X) invoke(fr *Frame, st *State, recv *Term, it types.Type, m *types.Func, args []Value, pos token.Pos) []Outcome {
	if recv.Op == "ite" {
		c := st.simp(recv.Args[0])
		if c == tTrue || c == tFalse {
			if c == tTrue {
				recv = recv.Args[1]
			} else {
				recv = recv.Args[2]
			}
			return x.invoke(fr, st, recv, it, m, args, pos)
		}
	}
	x.safe(st, "method call on nil interface ("+m.Name()+")", pos, Not(Eq(recv, tNil)))
	if st.dead {
		return nil
	}
	name := ifaceMethodKey(it, m)
	sig := m.Type().(*types.Signature)
	mk := func() *Call {
		all := append([]Value{recv}, args...)
		ts := []types.Type{it}
		for i := 0; i < sig.Params().Len(); i++ {
			ts = append(ts, sig.Params().At(i).Type())
		}
		return &Call{x: x, fr: fr, st: st, name: name, args: all, argT: ts, sig: sig, pos: pos}
	}
	if ty := ityp(recv); ty.Op == "int" && ty.I.Sign() > 0 {
		n := int(ty.I.Int64())
		dt := typeByID[n-1]
		if _, isM := models[name]; !isM || x.e.inRepo(dt) {
			sel := types.NewMethodSet(dt).Lookup(m.Pkg(), m.Name())
			if sel == nil {
				sel = types.NewMethodSet(dt).Lookup(nil, m.Name())
			}
			if sel != nil {
				if f := x.e.prog.MethodValue(sel); f != nil && (x.e.inRepo(dt) || models[funcKey(f)] != nil) {
					rv := x.ifaceVal(recv, dt)
					return x.callFunc(fr, st, f, nil, append([]Value{rv}, args...), pos)
				}
			}
		}
	}
	return x.extern(mk())
}

// ifaceMethodKey: "policy.Daemon.CheckPolicy" by the interface that declares the method, if named.
func ifaceMethodKey(it types.Type, m *types.Func) string {
	if n := namedPath(it); n != "" {
		if n == "error" {
			return "error." + m.Name()
		}
		return shortPath(n) + "." + m.Name()
	}
	return typeKey(it) + "." + m.Name()
}

var ignoredPkgs = map[string]bool{"glg": true}

func (x *X) callFunc(fr *Frame, st *State, f *ssa.Function, bind []Value, args []Value, pos token.Pos) []Outcome {
	key := funcKey(f)
	if f.Synthetic == "" || !strings.Contains(f.Synthetic, "wrapper") && !strings.Contains(f.Synthetic, "bound") && !strings.Contains(f.Synthetic, "thunk") {
		if ct := x.e.contracts[key]; ct != nil && ct.Kind == "func" && x.ctr != nil && !ct.Inline && f.Parent() == nil && (ct.Opaque || ct.relevant(x.prop)) {
			if ct.Ctor {
				if x.ctr != nil && f != x.top {
					x.modular[key] = true
					c := x.mkCall(fr, st, key, f.Signature, args, pos)
					r := first0(x.pureCall(c))
					for i, v := range r {
						if t, ok := v.(*Term); ok && ct.makes() {
							if _, ok := c.resType(i).Underlying().(*types.Signature); ok {
								st.add(Not(Eq(t, tZero)))
							}
						}
					}
					return c.ret(r...)
				}
			} else {
				return x.applyContract(fr, st, f, ct, args, pos)
			}
		}
		if ct := x.e.contracts[key]; ct != nil && ct.Kind != "func" {
			return x.extern(x.mkCall(fr, st, key, f.Signature, args, pos))
		}
		if m := models[key]; m != nil {
			x.modelled[key] = true
			return m(x.mkCall(fr, st, key, f.Signature, args, pos))
		}
	}
	if f.Pkg != nil && ignoredPkgs[f.Pkg.Pkg.Name()] && f.Parent() == nil {
		return x.ignored(x.mkCall(fr, st, key, f.Signature, args, pos))
	}
	if len(f.Blocks) > 0 && (f.Pkg == nil || f.Parent() != nil || x.e.repoPkg[f.Pkg.Pkg.Path()] || x.e.inlineOK(key) || f.Synthetic != "") {
		d := 0
		if fr != nil {
			d = fr.depth
		}
		for c := fr; c != nil; c = c.caller {
			if c.fn == f && f.Parent() == nil {
				unsup("recursive call of %s without contract", key)
			}
		}
		if d > 40 {
			unsup("call depth at %s", key)
		}
		x.inlined[key] = true
		return x.inline(fr, st, f, bind, args)
	}
	if f.Pkg != nil && f.Pkg.Pkg != nil && len(f.Blocks) == 0 && x.e.inlineOK(key) {
		f.Pkg.Build()
		if len(f.Blocks) > 0 {
			return x.callFunc(fr, st, f, bind, args, pos)
		}
	}
	return x.extern(x.mkCall(fr, st, key, f.Signature, args, pos))
}

func (x *X) mkCall(fr *Frame, st *State, key string, sig *types.Signature, args []Value, pos token.Pos) *Call {
	c := &Call{x: x, fr: fr, st: st, name: key, args: args, sig: sig, pos: pos}
	if sig.Recv() != nil {
		c.argT = append(c.argT, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		c.argT = append(c.argT, sig.Params().At(i).Type())
	}
	return c
}

func (x *X) inline(fr *Frame, st *State, f *ssa.Function, bind, args []Value) []Outcome {
	d := 0
	if fr != nil {
		d = fr.depth + 1
	}
	nf := &Frame{fn: f, env: map[ssa.Value]Value{}, depth: d, unroll: map[*ssa.BasicBlock]int{}, args: args, caller: fr}
	if len(args) != len(f.Params) {
		panic(fmt.Sprintf("inline %s: %d args for %d params", f, len(args), len(f.Params)))
	}
	for i, p := range f.Params {
		nf.env[p] = args[i]
	}
	for i, v := range f.FreeVars {
		nf.env[v] = bind[i]
	}
	outs := x.enter(nf, st, nil, f.Blocks[0], nil)
	var rt []types.Type
	for i := 0; i < f.Signature.Results().Len(); i++ {
		rt = append(rt, f.Signature.Results().At(i).Type())
	}
	return x.merge(outs, rt)
}

// ignored: logging. Closures passed to it are run for their panics, their effects are dropped.
func (x *X) ignored(c *Call) []Outcome {
	for i, a := range c.args {
		if t, ok := a.(*Term); ok {
			if fv := x.funcTab[t]; fv != nil && fv.Fn != nil && fv.Fn.Signature.Params().Len() == 0 {
				s2 := c.st.clone()
				x.callFunc(c.fr, s2, fv.Fn, fv.Bind, nil, c.pos)
			}
		}
		_ = i
	}
	var res []Value
	for i := 0; i < c.sig.Results().Len(); i++ {
		res = append(res, x.freshVal(c.st, "log", c.resType(i)))
	}
	if p, ok := first(res).(*Ptr); ok {
		c.st.add(Not(Eq(p.Base, tZero)))
	}
	return c.ret(res...)
}

func first(v []Value) Value {
	if len(v) == 0 {
		return nil
	}
	return v[0]
}

func first0(os []Outcome) []Value { return os[0].res }

// pureCall: the results are functions of the arguments.
func (x *X) pureCall(c *Call) []Outcome {
	var as []*Term
	for i, a := range c.args {
		as = append(as, x.pureArg(c.st, a, c.argT[i])...)
	}
	var res []Value
	for i := 0; i < c.sig.Results().Len(); i++ {
		var ts []*Term
		for _, l := range leaves(c.resType(i)) {
			ts = append(ts, App(fmt.Sprintf("P!%s!%d%s", c.name, i, l.suf), l.sort, as...))
		}
		v := x.unflatten(zeroOffs(ts, leaves(c.resType(i))), c.resType(i))
		x.deepFacts(c.st, v, c.resType(i))
		x.implFact(c.st, v, c.resType(i))
		res = append(res, v)
	}
	return c.ret(res...)
}

// extern: a function known only through an assumed contract (pure or event), or not at all.
func (x *X) extern(c *Call) []Outcome {
	ct := x.e.contracts[c.name]
	if ct == nil {
		if m := models[c.name]; m != nil {
			x.modelled[c.name] = true
			return m(c)
		}
	}
	n := c.sig.Results().Len()
	if ct == nil {
		x.note("call of %s: no model; results arbitrary, assumed without effect on modelled state except through pointer arguments", c.name)
		// pointers to structs given to unknown functions: contents become arbitrary
		for i, a := range c.args {
			if p, ok := a.(*Ptr); ok && i < len(c.argT) {
				x.havocObj(c.st, p)
			}
		}
		var res []Value
		for i := 0; i < n; i++ {
			res = append(res, x.freshVal(c.st, "r"+fmt.Sprint(i)+":"+c.name, c.resType(i)))
		}
		return c.ret(res...)
	}
	x.used[c.name] = true
	var res []Value
	switch ct.Kind {
	case "pure":
		res = first0(x.pureCall(c))
	case "event":
		k := x.event(c.st, c.name)
		for i, a := range c.args {
			for q, t := range x.pureArg(c.st, a, c.argT[i]) {
				c.st.add(Eq(App(fmt.Sprintf("A!%s!%d.%d", c.name, i, q), t.Sort, k), t))
			}
		}
		res = x.eventResults(c.st, c.name, c.sig, k)
	}
	for i := range ct.HavocArgs {
		if ct.HavocArgs[i] && i < len(c.args) {
			if p, ok := c.args[i].(*Ptr); ok {
				x.havocObj(c.st, p)
			}
		}
	}
	// assumed postconditions
	x.assumeEnsures(c, ct, res)
	return c.ret(res...)
}

func (x *X) event(st *State, name string) *Term {
	leaf := "$ev." + name
	k := x.get(st, leaf, sInt)
	st.heap[leaf] = Add(k, Int(1))
	clk := x.get(st, "$clock", sInt)
	st.heap["$clock"] = Add(clk, Int(1))
	st.add(Eq(App("T!"+name, sInt, k), clk))
	if x.e.ordered[name] {
		// the goroutine of the event, and whether it may still run alongside others
		g, u := tZero, x.get(st, "$unjoined", sBool)
		if n := len(x.goIDs); n > 0 {
			g, u = x.goIDs[n-1], tTrue
		}
		st.add(Eq(App("G!"+name, sInt, k), g))
		st.add(Eq(App("U!"+name, sBool, k), u))
	}
	return k
}

// implFact: a value of an interface type is nil or has a type that implements it.
func (x *X) implFact(st *State, v Value, t types.Type) {
	if u, ok := t.Underlying().(*types.Interface); ok && u.NumMethods() > 0 && !types.Identical(t, errorType) {
		if tm, ok := v.(*Term); ok && tm.Op == "app" {
			st.add(Or(Eq(tm, tNil), typeTest(tm, t)))
		}
	}
}

func (x *X) eventResults(st *State, name string, sig *types.Signature, k *Term) []Value {
	var res []Value
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		var ts []*Term
		for _, l := range leaves(t) {
			ts = append(ts, App(fmt.Sprintf("R!%s!%d%s", name, i, l.suf), l.sort, k))
		}
		v := x.unflatten(zeroOffs(ts, leaves(t)), t)
		x.deepFacts(st, v, t)
		x.implFact(st, v, t)
		if s, ok := v.(*Slice); ok {
			st.add(Eq(s.Off, tZero))
		}
		res = append(res, v)
	}
	return res
}

// pureArg: the terms a library function's result may depend on. Slices count by contents.
func (x *X) pureArg(st *State, a Value, t types.Type) []*Term {
	if s, ok := a.(*Slice); ok {
		if isByte(s.Elem) {
			return []*Term{x.bytesString(st, s)}
		}
		return append(x.contents(st, s), s.Off, s.Len)
	}
	return x.flatten(a, t)
}

// havocObj makes the contents of the object arbitrary.
func (x *X) havocObj(st *State, p *Ptr) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); !ok {
				panic(r)
			}
		}
	}()
	for _, l := range leaves(p.T) {
		x.storeLeaf(st, p, l, x.fresh("hv"+l.suf, l.sort))
	}
}

// --- builtins ---

func (x *X) builtin(fr *Frame, st *State, name string, c *ssa.CallCommon, args []Value, pos token.Pos) []Outcome {
	switch name {
	case "len", "cap":
		return one(st, x.lenOf(st, args[0], c.Args[0].Type(), name))
	case "append":
		s := args[0].(*Slice)
		if len(args) == 1 {
			return one(st, s)
		}
		if t, ok := args[1].(*Term); ok { // append([]byte, string...)
			return one(st, x.newBytes(st, Cat(x.bytesString(st, s), t)))
		}
		return one(st, x.appendSlice(st, s, args[1].(*Slice)))
	case "copy":
		d := args[0].(*Slice)
		s, ok := args[1].(*Slice)
		if !ok || isByte(d.Elem) {
			unsup("copy of bytes")
		}
		n := x.minT(st, d.Len, s.Len)
		return one(st, x.copySlice(st, d, s, n))
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		x.mapDelete(st, args[0].(*Term), mt, x.keyTerm(args[1], mt.Key()))
		return one(st)
	case "close":
		x.closeChan(st, args[0].(*Term), c.Args[0].Type().Underlying().(*types.Chan), pos)
		return one(st)
	case "panic":
		x.safe(st, "panic call unreachable", pos, tFalse)
		return []Outcome{{kind: oPanic, st: st}}
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if name == "min" {
				r = Ite(Lt(t, r), t, r)
			} else {
				r = Ite(Lt(r, t), t, r)
			}
		}
		return one(st, r)
	case "print", "println":
		return one(st)
	case "recover":
		return one(st, tNil)
	case "ssa:wrapnilchk":
		x.derefOK(st, args[0], pos, "receiver")
		return one(st, args[0])
	}
	unsup("builtin %s", name)
	return nil
}

func (x *X) minT(st *State, a, b *Term) *Term {
	if a == b {
		return a
	}
	c := st.simp(Le(a, b))
	return Ite(c, a, b)
}

func (x *X) lenOf(st *State, v Value, t types.Type, name string) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return Slen(v.(*Term))
	case *types.Slice:
		if name == "cap" {
			return v.(*Slice).Cap
		}
		return v.(*Slice).Len
	case *types.Array:
		return Int(u.Len())
	case *types.Pointer:
		return Int(u.Elem().Underlying().(*types.Array).Len())
	case *types.Map:
		m := v.(*Term)
		if m == tZero {
			return tZero
		}
		l := x.mapLen(st, m, u)
		if l.Op == "int" {
			return l
		}
		d := x.mapDom(st, m, u)
		st.add(Le(tZero, l))
		k := FreshBV("k", sortOfKey(u.Key()))
		st.add(Imp(Eq(l, tZero), Forall(k, Not(Select(d, k)))))
		w := App("mapwit", sortOfKey(u.Key()), d)
		st.add(Imp(Not(Eq(l, tZero)), Select(d, w)))
		if m.Op != "ref" {
			st.add(Imp(Eq(m, tZero), Eq(l, tZero)))
		}
		return l
	case *types.Chan:
		return x.fresh("chanlen", sInt)
	}
	unsup("len of %s", t)
	return nil
}

// appendSlice is modelled as building a new backing array.
func (x *X) appendSlice(st *State, s, t *Slice) *Slice {
	elem := s.Elem
	if isByte(elem) {
		return x.newBytes(st, Cat(x.bytesString(st, s), x.bytesString(st, t)))
	}
	if t.Len == tZero {
		return s
	}
	base := x.shifted(st, s)
	if t.Len.Op == "int" && t.Len.I.Int64() <= 32 {
		add := x.contents(st, t)
		n := int(t.Len.I.Int64())
		for i := range base {
			for j := 0; j < n; j++ {
				base[i] = Store(base[i], Add(s.Len, Int(int64(j))), Select(add[i], Add(t.Off, Int(int64(j)))))
			}
		}
		return x.newSlice(st, elem, base, Add(s.Len, t.Len))
	}
	if s.Len == tZero {
		return x.newSlice(st, elem, x.shifted(st, t), t.Len)
	}
	tc := x.shifted(st, t)
	ls := leaves(elem)
	for i := range base {
		if s.Len.Op == "int" && s.Len.I.Int64() <= 16 {
			// prepend a known prefix to an arbitrary tail
			a := x.fresh("[]"+typeKey(elem)+ls[i].suf+"@app", arr(sInt, ls[i].sort))
			n := s.Len.I.Int64()
			k := FreshBV("k", sInt)
			st.add(Forall(k, Imp(Le(s.Len, k), Eq(Select(a, k), Select(tc[i], Sub(k, s.Len))))))
			st.add(Forall(k, Imp(Le(tZero, k), Eq(Select(tc[i], k), Select(a, Add(k, s.Len)))))) // the same, found from the tail
			for j := int64(0); j < n; j++ {
				st.add(Eq(Select(a, Int(j)), Select(base[i], Int(j))))
			}
			base[i] = a
			continue
		}
		a := x.fresh("[]"+typeKey(elem)+ls[i].suf+"@app", arr(sInt, ls[i].sort))
		k := FreshBV("k", sInt)
		st.add(Forall(k, Imp(And(Le(tZero, k), Lt(k, s.Len)), Eq(Select(a, k), Select(base[i], k)))))
		k2 := FreshBV("k", sInt)
		st.add(Forall(k2, Imp(Le(s.Len, k2), Eq(Select(a, k2), Select(tc[i], Sub(k2, s.Len))))))
		base[i] = a
	}
	return x.newSlice(st, elem, base, Add(s.Len, t.Len))
}

// shifted returns the contents of s as arrays starting at 0.
func (x *X) shifted(st *State, s *Slice) []*Term {
	c := x.contents(st, s)
	if s.Off == tZero {
		return c
	}
	if s.Arr == tZero {
		return c
	}
	for i, l := range leaves(s.Elem) {
		if s.Len.Op == "int" && s.Len.I.Int64() <= 32 {
			a := x.fresh("shift", arr(sInt, l.sort))
			for j := int64(0); j < s.Len.I.Int64(); j++ {
				a = Store(a, Int(j), Select(c[i], Add(s.Off, Int(j))))
			}
			c[i] = a
			continue
		}
		a := x.fresh("shift", arr(sInt, l.sort))
		k := FreshBV("k", sInt)
		st.add(Forall(k, Eq(Select(a, k), Select(c[i], Add(s.Off, k)))))
		c[i] = a
	}
	return c
}

func (x *X) copySlice(st *State, d, s *Slice, n *Term) *Term {
	sc := x.shifted(st, s)
	for i, l := range leaves(d.Elem) {
		name := "[]" + typeKey(d.Elem) + l.suf
		h := x.get(st, name, arr(sInt, arr(sInt, l.sort)))
		old := Select(h, d.Arr)
		if n.Op == "int" && n.I.Int64() <= 32 {
			for j := int64(0); j < n.I.Int64(); j++ {
				old = Store(old, Add(d.Off, Int(j)), Select(sc[i], Int(j)))
			}
			st.heap[name] = Store(h, d.Arr, old)
			continue
		}
		a := x.fresh("copy", arr(sInt, l.sort))
		k := FreshBV("k", sInt)
		in := And(Le(d.Off, k), Lt(k, Add(d.Off, n)))
		st.add(Forall(k, Eq(Select(a, k), Ite(in, Select(sc[i], Sub(k, d.Off)), Select(old, k)))))
		st.heap[name] = Store(h, d.Arr, a)
	}
	return n
}

// --- ranges ---

func (x *X) rangeInit(st *State, v Value, t types.Type) Value {
	x.loopN++
	switch u := t.Underlying().(type) {
	case *types.Map:
		m := v.(*Term)
		leaf := fmt.Sprintf("$it:%s:%d", mapKey(u), len(x.headStack))
		ks := sortOfKey(u.Key())
		st.heap[leaf] = ConstArr(arr(ks, sBool), tFalse)
		x.e.leafSort[leaf] = arr(ks, sBool)
		st.heap[leaf+"#"] = tZero // keys visited so far
		x.e.leafSort[leaf+"#"] = sInt
		d := x.mapDom(st, m, u)
		if m.Op != "ref" {
			st.add(Imp(Eq(m, tZero), Eq(d, ConstArr(d.Sort, tFalse))))
		}
		return &rangeIter{m: m, mt: u, leaf: leaf, start: d}
	case *types.Basic:
		leaf := fmt.Sprintf("$it:str:%d:%d", len(x.headStack), v.(*Term).id)
		st.heap[leaf] = tZero
		x.e.leafSort[leaf] = sInt
		return &rangeIter{str: true, s: v.(*Term), leaf: leaf}
	}
	unsup("range over %s", t)
	return nil
}

func nrunes(s *Term) *Term { return App("nrunes", sInt, s) }
func runeAt(s, i *Term) *Term {
	if s.Op == "str" && i.Op == "int" {
		r := []rune(s.Name)
		if i.I.Sign() >= 0 && i.I.Int64() < int64(len(r)) {
			return Int(int64(r[i.I.Int64()]))
		}
	}
	return App("runeAt", sInt, s, i)
}

func (x *X) next(st *State, it *rangeIter, in *ssa.Next) []Outcome {
	if it.str {
		p := x.get(st, it.leaf, sInt)
		n := nrunes(it.s)
		if it.s.Op == "str" {
			n = Int(int64(len([]rune(it.s.Name))))
		} else {
			st.add(Le(tZero, n))
		}
		s2 := st.clone()
		var outs []Outcome
		st.add(Lt(p, n))
		if !st.dead {
			r := runeAt(it.s, p)
			st.heap[it.leaf] = Add(p, Int(1))
			st.add(Le(tZero, r))
			st.add(Le(r, Int(0x10ffff)))
			outs = append(outs, Outcome{kind: oRet, st: st, res: []Value{tTrue, App("byteIdx", sInt, it.s, p), r}})
		}
		s2.add(Le(n, p))
		if !s2.dead {
			outs = append(outs, Outcome{kind: oRet, st: s2, res: []Value{tFalse, tZero, tZero}})
		}
		return outs
	}
	ks := sortOfKey(it.mt.Key())
	vis := x.get(st, it.leaf, arr(ks, sBool))
	d := x.mapDom(st, it.m, it.mt)
	s2 := st.clone()
	var outs []Outcome
	cnt := x.get(st, it.leaf+"#", sInt)
	st.heap[it.leaf+"#"] = Add(cnt, Int(1))
	if d == it.start { // a map left alone: each key comes exactly once
		n := Ite(Eq(it.m, tZero), tZero, x.mapLen(st, it.m, it.mt))
		st.add(Lt(cnt, n))
		s2.add(Eq(cnt, n))
	}
	if it.m != tZero {
		k := x.fresh("key", ks)
		if it.m.Op != "ref" {
			st.add(Not(Eq(it.m, tZero)))
		}
		st.add(Select(d, k))
		st.add(Not(Select(vis, k)))
		st.heap[it.leaf] = Store(vis, k, tTrue)
		var ts []*Term
		for _, l := range leaves(it.mt.Elem()) {
			ts = append(ts, normOff(l.suf, Select(x.mapVal(st, it.m, it.mt, l), k)))
		}
		v := x.unflatten(ts, it.mt.Elem())
		x.deepFacts(st, v, it.mt.Elem())
		kv := x.unkey(k, it.mt.Key())
		x.deepFacts(st, kv, it.mt.Key())
		if n := len(x.headStack); n > 0 && x.headStack[n-1].it.seen == it.leaf {
			x.headStack[n-1].key, x.headStack[n-1].kt = kv, it.mt.Key()
		}
		if !st.dead {
			outs = append(outs, Outcome{kind: oRet, st: st, res: []Value{tTrue, kv, v}})
		}
	}
	k := FreshBV("k", ks)
	s2.add(Forall(k, Imp(And(Select(d, k), Select(it.start, k)), Select(vis, k))))
	outs = append(outs, Outcome{kind: oRet, st: s2, res: []Value{tFalse, x.zero(it.mt.Key()), x.zero(it.mt.Elem())}})
	return outs
}

// --- channels ---

func chanKey(t *types.Chan) string { return "chan$" + typeKey(t.Elem()) }

func (x *X) chanInit(st *State, r *Term, t *types.Chan) {
	k := chanKey(t)
	st.heap[k+".n"] = Store(x.get(st, k+".n", arr(sInt, sInt)), r, tZero)
	st.heap[k+".rcvd"] = Store(x.get(st, k+".rcvd", arr(sInt, arr(sInt, sBool))), r, ConstArr(arr(sInt, sBool), tFalse))
	st.heap[k+".closed"] = Store(x.get(st, k+".closed", arr(sInt, sBool)), r, tFalse)
}

func (x *X) send(st *State, c *Term, t *types.Chan, v Value, pos token.Pos) {
	k := chanKey(t)
	x.effect(st, "send", pos)
	x.safe(st, "send on closed channel", pos, Not(Select(x.get(st, k+".closed", arr(sInt, sBool)), c)))
	nh := x.get(st, k+".n", arr(sInt, sInt))
	n := Select(nh, c)
	st.heap[k+".n"] = Store(nh, c, Add(n, Int(1)))
	fl := x.flatten(v, t.Elem())
	for i, l := range leaves(t.Elem()) {
		mh := x.get(st, k+".msg"+l.suf, arr(sInt, arr(sInt, l.sort)))
		st.heap[k+".msg"+l.suf] = Store(mh, c, Store(Select(mh, c), n, fl[i]))
	}
}

func (x *X) closeChan(st *State, c *Term, t *types.Chan, pos token.Pos) {
	k := chanKey(t)
	h := x.get(st, k+".closed", arr(sInt, sBool))
	x.safe(st, "close of closed channel", pos, Not(Select(h, c)))
	x.joined(st, "channel is closed", pos)
	st.heap[k+".closed"] = Store(h, c, tTrue)
}

func (x *X) recv(st *State, c *Term, t *types.Chan, commaOk bool) []Outcome {
	if c.Op == "app" && c.Name == "ctxDone" {
		x.foundDone(st, c.Args[0], tTrue)
		return one(st, x.zero(t.Elem()))
	}
	k := chanKey(t)
	s2 := st.clone()
	n := Select(x.get(st, k+".n", arr(sInt, sInt)), c)
	rh := x.get(st, k+".rcvd", arr(sInt, arr(sInt, sBool)))
	m := x.fresh("msg!idx", sInt)
	st.add(Le(tZero, m))
	st.add(Lt(m, n))
	st.add(Not(Select(Select(rh, c), m)))
	st.heap[k+".rcvd"] = Store(rh, c, Store(Select(rh, c), m, tTrue))
	var ts []*Term
	for _, l := range leaves(t.Elem()) {
		ts = append(ts, Select(Select(x.get(st, k+".msg"+l.suf, arr(sInt, arr(sInt, l.sort))), c), m))
	}
	v := x.unflatten(ts, t.Elem())
	x.deepFacts(st, v, t.Elem())
	var outs []Outcome
	res := func(v Value, ok *Term) []Value {
		if commaOk {
			return []Value{v, ok}
		}
		return []Value{v}
	}
	if !st.dead {
		outs = append(outs, Outcome{kind: oRet, st: st, res: res(v, tTrue)})
	}
	s2.add(Select(x.get(s2, k+".closed", arr(sInt, sBool)), c))
	q := FreshBV("m", sInt)
	s2.add(Forall(q, Imp(And(Le(tZero, q), Lt(q, n)), Select(Select(rh, c), q))))
	if !s2.dead {
		outs = append(outs, Outcome{kind: oRet, st: s2, res: res(x.zero(t.Elem()), tFalse)})
	}
	return outs
}

func (x *X) selectStmt(fr *Frame, st *State, in *ssa.Select) []Outcome {
	var outs []Outcome
	nrecv := 0
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	mk := func(s *State, idx int, ok *Term, got map[int]Value) Outcome {
		res := []Value{Int(int64(idx)), ok}
		q := 0
		for _, sst := range in.States {
			if sst.Dir == types.RecvOnly {
				el := sst.Chan.Type().Underlying().(*types.Chan).Elem()
				if v, has := got[q]; has {
					res = append(res, v)
				} else {
					res = append(res, x.zero(el))
				}
				q++
			}
		}
		return Outcome{kind: oRet, st: s, res: res}
	}
	q := 0
	for i, sst := range in.States {
		s := st.clone()
		ch := x.val(fr, sst.Chan).(*Term)
		ct := sst.Chan.Type().Underlying().(*types.Chan)
		if sst.Dir == types.RecvOnly {
			for _, o := range x.recv(s, ch, ct, true) {
				v := o.res[0]
				ok := tTrue
				if len(o.res) > 1 {
					ok = o.res[1].(*Term)
				}
				outs = append(outs, mk(o.st, i, ok, map[int]Value{q: v}))
			}
			q++
		} else {
			x.send(s, ch, ct, x.val(fr, sst.Send), in.Pos())
			outs = append(outs, mk(s, i, tFalse, nil))
		}
	}
	if !in.Blocking {
		for _, sst := range in.States {
			if c, ok := x.val(fr, sst.Chan).(*Term); ok && sst.Dir == types.RecvOnly && c.Op == "app" && c.Name == "ctxDone" {
				st.add(Not(x.ctxIsDone(st, c.Args[0])))
			}
		}
		outs = append(outs, mk(st, -1, tFalse, nil))
	}
	var live []Outcome
	for _, o := range outs {
		if !o.st.dead {
			live = append(live, o)
		}
	}
	return live
}

package main

// Models of library functions. They are assumptions, listed in DESIGN.md and in the evidence of the
// properties whose proofs use them.

import (
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"net/http"
	"regexp"
	"regexp/syntax"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(c *Call) []Outcome

var models map[string]func(c *Call) []Outcome

func synth(name string) types.Type {
	return types.NewNamed(types.NewTypeName(token.NoPos, nil, name, nil), types.NewStruct(nil, nil), nil)
}

var (
	errT    = synth("$err")
	wrapT   = synth("$wrap")
	gacheT  = synth("$gache")
	readerT = synth("$reader")
)

func (x *X) newErr() *Term { return imk(errT, x.newRef()) }

func (x *X) wrapErr(st *State, e *Term) *Term {
	c := st.simp(Eq(e, tNil))
	return Ite(c, tNil, imk(wrapT, App("mkwrap", sInt, e, x.newRef())))
}

// freshErr is an error value that may be nil.
func (x *X) freshErr(hint string) *Term {
	return x.fresh(hint, sIface)
}

func (x *X) nowEvent(st *State) *Term {
	k := x.event(st, "now")
	v := App("R!now!0", sInt, k)
	st.add(Le(tZero, v))
	st.add(Lt(v, IntBig(new(big.Int).Lsh(big.NewInt(1), 62))))
	return v
}

// objField reads a leaf of an opaque object.
func (x *X) ghost(st *State, v Value, suf, sort string) *Term {
	p, ok := v.(*Ptr)
	if !ok {
		unsup("ghost of %T", v)
	}
	return x.loadLeaf(st, p, leafT{suf, sort, nil})
}
func (x *X) setGhost(st *State, v Value, suf, sort string, t *Term) {
	p, ok := v.(*Ptr)
	if !ok {
		unsup("ghost of %T", v)
	}
	x.storeLeaf(st, p, leafT{suf, sort, nil}, t)
}

// fork splits the state on a condition.
func (c *Call) fork(cond *Term, yes, no func(*Call) []Outcome) []Outcome {
	cond = c.st.simp(cond)
	if cond == tTrue {
		return yes(c)
	}
	if cond == tFalse {
		return no(c)
	}
	s2 := c.st.clone()
	c2 := *c
	c2.st = s2
	var out []Outcome
	c.st.add(cond)
	if !c.st.dead && c.x.feasible(c.st) {
		out = append(out, yes(c)...)
	}
	s2.add(Not(cond))
	if !s2.dead && c.x.feasible(s2) {
		out = append(out, no(&c2)...)
	}
	return out
}

// onAll runs f after every returning outcome.
func onAll(outs []Outcome, f func(o Outcome) []Outcome) []Outcome {
	var res []Outcome
	for _, o := range outs {
		if o.kind != oRet {
			res = append(res, o)
			continue
		}
		res = append(res, f(o)...)
	}
	return res
}

var secNs = Int(1000000000)

// format of a Sprintf-like call.
func (x *X) sprintf(st *State, f *Term, args *Slice) *Term {
	opaqueS := func() *Term {
		as := []*Term{f}
		as = append(as, x.pureArg(st, args, types.NewSlice(anyType))...)
		return App("sprintf", sStr, as...)
	}
	if f.Op != "str" || args == nil || args.Len.Op != "int" {
		return opaqueS()
	}
	cont := x.contents(st, args)[0]
	var parts []*Term
	s := f.Name
	n := int64(0)
	for {
		i := strings.IndexByte(s, '%')
		if i < 0 {
			parts = append(parts, Str(s))
			break
		}
		parts = append(parts, Str(s[:i]))
		if i+1 >= len(s) {
			return opaqueS()
		}
		v := s[i+1]
		s = s[i+2:]
		if v == '%' {
			parts = append(parts, Str("%"))
			continue
		}
		if n >= args.Len.I.Int64() {
			return opaqueS()
		}
		a := Select(cont, Int(n))
		n++
		switch v {
		case 's', 'v':
			parts = append(parts, x.fmtArg(st, a, v))
		case 'd':
			if ty := ityp(a); ty.Op == "int" {
				parts = append(parts, App("itoa", sStr, App("ival", sInt, a)))
				continue
			}
			return opaqueS()
		default:
			parts = append(parts, App("fmt%"+string(v), sStr, a))
		}
	}
	return Cat(parts...)
}

func (x *X) fmtArg(st *State, a *Term, verb byte) *Term {
	ty := ityp(a)
	if ty.Op == "int" && ty.I.Sign() > 0 {
		t := typeByID[ty.I.Int64()-1]
		if b, ok := t.Underlying().(*types.Basic); ok {
			ms := types.NewMethodSet(t)
			if ms.Lookup(nil, "String") == nil && ms.Lookup(nil, "Error") == nil {
				if b.Info()&types.IsString != 0 {
					return unbox(App("ival", sInt, a), sStr)
				}
				if b.Info()&types.IsInteger != 0 && verb == 'v' {
					return App("itoa", sStr, App("ival", sInt, a))
				}
			}
		}
	}
	return App("fmt%v", sStr, a)
}

func catModel(name string) func(c *Call) []Outcome {
	return func(c *Call) []Outcome { return c.ret(App(name, sStr, c.t(0))) }
}

// overwrite: contracts with an overwrite clause restrict what one of several concurrent workers may put in the
// place of an entry it does not know (rely-guarantee: entries of the others only change in that way).
func (x *X) overwrite(c *Call, k, v *Term) {
	if x.ctr == nil || !x.foreign(c.args[0].(*Ptr).Base) {
		return
	}
	for _, cl := range x.ctr.Overwrite {
		if v == nil {
			x.obl(c.st, "overwrite", cl.Label+": entry removed by a worker", cl.Tags, c.pos, tFalse)
			continue
		}
		env := &SpecEnv{x: x, st: c.st, old: x.entry, vars: map[string]TV{"k": {k, anyType}, "v": {v, anyType}}}
		x.obl(c.st, "overwrite", cl.Label, cl.Tags, c.pos, env.boolTerm(cl.Expr))
	}
}

// stored: contracts with a holds clause restrict what may be put in any shared map; entries of a shared map made
// during the call satisfy it.
func (x *X) stored(c *Call, k, v *Term) {
	if x.ctr == nil {
		return
	}
	for _, cl := range x.ctr.Holds {
		x.obl(c.st, "holds", cl.Label, cl.Tags, c.pos, x.holdsAt(c.st, cl, k, v))
	}
}

func (x *X) holdsAt(st *State, cl *Clause, k, v *Term) *Term {
	vars := map[string]TV{}
	for n, p := range x.params {
		vars[n] = p
	}
	vars["k"], vars["v"] = TV{k, anyType}, TV{v, anyType}
	return (&SpecEnv{x: x, st: st, old: x.entry, vars: vars}).boolTerm(cl.Expr)
}

func (x *X) entry1(st *State, p *Ptr, k, v *Term) {
	if x.ctr == nil || p.Base.Op != "ref" {
		return
	}
	for _, cl := range x.ctr.Holds {
		st.add(x.holdsAt(st, cl, k, v))
	}
}

// pureModel: result i is an uninterpreted function of the arguments.
func pureModel(c *Call) []Outcome {
	x := c.x
	var as []*Term
	for i, a := range c.args {
		as = append(as, x.pureArg(c.st, a, c.argT[i])...)
	}
	var res []Value
	for i := 0; i < c.sig.Results().Len(); i++ {
		t := c.resType(i)
		if sl, ok := t.Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
			res = append(res, x.newBytes(c.st, App("P!"+c.name+"!"+itoa(i), sStr, as...)))
			continue
		}
		var ts []*Term
		for _, l := range leaves(t) {
			ts = append(ts, App("P!"+c.name+"!"+itoa(i)+l.suf, l.sort, as...))
		}
		v := x.unflatten(zeroOffs(ts, leaves(t)), t)
		x.deepFacts(c.st, v, t)
		res = append(res, v)
	}
	return c.ret(res...)
}

func itoa(i int) string { return big.NewInt(int64(i)).String() }

func noop(c *Call) []Outcome {
	var res []Value
	for i := 0; i < c.sig.Results().Len(); i++ {
		res = append(res, c.x.freshVal(c.st, "r:"+c.name, c.resType(i)))
	}
	return c.ret(res...)
}

func dur(sec float64) *Term { return Int(int64(sec * 1e9)) }

var minI64, maxI64 = intRange(types.Typ[types.Int64])

// tokens of strings.Split as a slice.
func (x *X) splitSlice(st *State, s, sep *Term) *Slice {
	if s.Op == "str" && sep.Op == "str" && sep.Name != "" {
		var vs []Value
		for _, p := range strings.Split(s.Name, sep.Name) {
			vs = append(vs, Str(p))
		}
		return x.sliceOf(st, types.Typ[types.String], vs...)
	}
	n := App("ntok", sInt, s, sep)
	st.add(Le(Int(1), n))
	return x.newSlice(st, types.Typ[types.String], []*Term{App("toks", arr(sInt, sStr), s, sep)}, n)
}

// anyObj makes a new object of type t with arbitrary contents.
func (x *X) anyObj(st *State, hint string, t types.Type) *Ptr {
	p := x.alloc(st, t).(*Ptr)
	for _, l := range leaves(t) {
		v := x.fresh(hint+l.suf, l.sort)
		if strings.HasSuffix(l.suf, ".$off") {
			v = tZero
		}
		x.storeLeaf(st, p, l, v)
	}
	return p
}

// callFn calls a function value.
func (c *Call) callFn(st *State, f Value, ft types.Type, args ...Value) []Outcome {
	return c.x.callTerm(c.fr, st, f.(*Term), ft, args, c.pos)
}

// rangeOver runs body for every key of a domain: dom(st) must be the current domain array.
// body returns outcomes whose first result is "continue".
func (c *Call) rangeOver(st *State, ks string, dom func(*State) *Term, body func(*State, *Term) []Outcome) []Outcome {
	x := c.x
	x.loopN++
	leaf := "$it:range:" + c.name + ":" + itoa(len(x.headStack))
	st.heap[leaf] = ConstArr(arr(ks, sBool), tFalse)
	x.e.leafSort[leaf] = arr(ks, sBool)
	start := dom(st)
	it := &iter{fr: c.fr, seen: leaf, key: c.name + "@" + x.e.pos(c.pos) + "/" + itoa(len(x.headStack)), fn: c.name}
	it.run = func(s *State, _ []Value) []Outcome {
		s2 := s.clone()
		var outs []Outcome
		vis := x.get(s, leaf, arr(ks, sBool))
		k := x.fresh("key", ks)
		s.add(Select(dom(s), k))
		s.add(Not(Select(vis, k)))
		s.heap[leaf] = Store(vis, k, tTrue)
		if !s.dead {
			for _, o := range body(s, k) {
				if o.kind != oRet {
					outs = append(outs, o)
					continue
				}
				cont := o.st.simp(first(o.res).(*Term))
				if cont != tFalse {
					s3 := o.st.clone()
					s3.add(cont)
					if !s3.dead {
						outs = append(outs, Outcome{kind: oEdge, st: s3, tag: "back"})
					}
				}
				if cont != tTrue {
					o.st.add(Not(cont))
					if !o.st.dead {
						outs = append(outs, Outcome{kind: oEdge, st: o.st, tag: "exit"})
					}
				}
			}
		}
		vis2 := x.get(s2, leaf, arr(ks, sBool))
		b := FreshBV("k", ks)
		s2.add(Forall(b, Imp(And(Select(start, b), Select(dom(s2), b)), Select(vis2, b))))
		outs = append(outs, Outcome{kind: oEdge, st: s2, tag: "exit"})
		return outs
	}
	it.back = func(o Outcome) bool { return o.tag == "back" }
	it.next = func(o Outcome) []Value { return nil }
	var res []Outcome
	for _, o := range x.cutLoop(st, it) {
		if o.kind == oEdge && o.tag == "exit" {
			res = append(res, Outcome{kind: oRet, st: o.st})
		} else {
			res = append(res, o)
		}
	}
	return res
}

func init() {
	models = map[string]func(*Call) []Outcome{}
	m := models

	// ---- errors ----
	newErr := func(c *Call) []Outcome { return c.ret(c.x.newErr()) }
	m["errors.New"] = newErr
	m["errors.Errorf"] = newErr
	m["fmt.Errorf"] = func(c *Call) []Outcome {
		// %w wrapping is followed when the format is constant and has exactly one %w argument
		if f := c.t(0); f.Op == "str" && strings.Contains(f.Name, "%w") {
			if s := c.args[1].(*Slice); s.Len.Op == "int" {
				n := int64(strings.Count(f.Name[:strings.Index(f.Name, "%w")], "%"))
				if n < s.Len.I.Int64() {
					in := Select(c.x.contents(c.st, s)[0], Int(n))
					return c.ret(imk(wrapT, App("mkwrap", sInt, in, c.x.newRef())))
				}
			}
		}
		return c.ret(c.x.newErr())
	}
	wrap := func(c *Call) []Outcome { return c.ret(c.x.wrapErr(c.st, c.t(0))) }
	m["errors.Wrap"] = wrap
	m["errors.Wrapf"] = wrap
	m["errors.WithMessage"] = wrap
	m["errors.WithMessagef"] = wrap
	m["errors.WithStack"] = wrap
	m["errors.Cause"] = func(c *Call) []Outcome { return c.ret(causeT(c.t(0))) }
	m["errors.Is"] = func(c *Call) []Outcome { return c.ret(App("errIs", sBool, c.t(0), c.t(1))) }
	m["error.Error"] = func(c *Call) []Outcome { return c.ret(App("errText", sStr, c.t(0))) }

	// ---- time ----
	now := func(c *Call) []Outcome { return c.ret(c.x.nowEvent(c.st)) }
	m["time.Now"] = now
	m["fastime.Now"] = now
	m["fastime.UnixNow"] = func(c *Call) []Outcome { return c.ret(Div(c.x.nowEvent(c.st), secNs)) }
	m["fastime.UnixNanoNow"] = now
	m["time.Since"] = func(c *Call) []Outcome { return c.ret(tsub(c.x.nowEvent(c.st), c.t(0))) }
	m["time.Until"] = func(c *Call) []Outcome { return c.ret(tsub(c.t(0), c.x.nowEvent(c.st))) }
	m["time.Unix"] = func(c *Call) []Outcome { return c.ret(Add(Mul(c.t(0), secNs), c.t(1))) }
	m["time.(Time).Unix"] = func(c *Call) []Outcome { return c.ret(Div(c.t(0), secNs)) }
	m["time.(Time).UnixNano"] = func(c *Call) []Outcome { return c.ret(c.t(0)) }
	m["time.(Time).Before"] = func(c *Call) []Outcome { return c.ret(Lt(c.t(0), c.t(1))) }
	m["time.(Time).After"] = func(c *Call) []Outcome { return c.ret(Lt(c.t(1), c.t(0))) }
	m["time.(Time).Equal"] = func(c *Call) []Outcome { return c.ret(Eq(c.t(0), c.t(1))) }
	m["time.(Time).Compare"] = func(c *Call) []Outcome {
		return c.ret(Ite(Lt(c.t(0), c.t(1)), Int(-1), Ite(Eq(c.t(0), c.t(1)), tZero, Int(1))))
	}
	m["time.(Time).IsZero"] = func(c *Call) []Outcome { return c.ret(Eq(c.t(0), IntBig(zeroTimeNs))) }
	m["time.(Time).Add"] = func(c *Call) []Outcome { return c.ret(Add(c.t(0), c.t(1))) }
	m["time.(Time).Sub"] = func(c *Call) []Outcome { return c.ret(tsub(c.t(0), c.t(1))) }
	m["time.(Time).UTC"] = func(c *Call) []Outcome { return c.ret(c.t(0)) }
	m["time.(Time).Local"] = m["time.(Time).UTC"]
	m["time.(Time).String"] = pureModel
	m["time.(Time).Format"] = pureModel
	m["time.(Duration).Seconds"] = func(c *Call) []Outcome { return c.ret(App("durSeconds", "F64", c.t(0))) }
	m["time.(Duration).String"] = pureModel
	m["time.ParseDuration"] = func(c *Call) []Outcome {
		if c.t(0).Op == "str" {
			if d, err := time.ParseDuration(c.t(0).Name); err == nil {
				return c.ret(Int(int64(d)), tNil)
			}
		}
		return pureModel(c)
	}
	m["time.Sleep"] = func(c *Call) []Outcome {
		k := c.x.event(c.st, "time.Sleep")
		c.st.add(Eq(App("A!time.Sleep!0.0", sInt, k), c.t(0)))
		return c.ret()
	}

	// ---- strings ----
	m["strings.Contains"] = func(c *Call) []Outcome { return c.ret(Le(tZero, c.idx(c.t(0), c.t(1)))) }
	m["strings.Index"] = func(c *Call) []Outcome { return c.ret(c.idx(c.t(0), c.t(1))) }
	m["strings.LastIndex"] = func(c *Call) []Outcome { return c.ret(c.lastIdx(c.t(0), c.t(1))) }
	byteArg := func(t *Term) *Term {
		if t.Op == "int" {
			return Str(string([]byte{byte(t.I.Int64())}))
		}
		return App("byteStr", sStr, t)
	}
	m["strings.IndexByte"] = func(c *Call) []Outcome { return c.ret(c.idx(c.t(0), byteArg(c.t(1)))) }
	m["strings.LastIndexByte"] = func(c *Call) []Outcome { return c.ret(c.lastIdx(c.t(0), byteArg(c.t(1)))) }
	m["strings.IndexRune"] = func(c *Call) []Outcome { return c.ret(c.idx(c.t(0), runeStr(c.t(1)))) }
	m["strings.ContainsRune"] = func(c *Call) []Outcome { return c.ret(Le(tZero, c.idx(c.t(0), runeStr(c.t(1))))) }
	m["strings.HasPrefix"] = func(c *Call) []Outcome { return c.ret(hasPrefix(c.t(0), c.t(1))) }
	m["strings.HasSuffix"] = func(c *Call) []Outcome { return c.ret(hasSuffix(c.t(0), c.t(1))) }
	m["strings.TrimPrefix"] = func(c *Call) []Outcome {
		s, p := c.t(0), c.t(1)
		return c.fork(hasPrefix(s, p), func(c *Call) []Outcome {
			c.st.add(Le(Slen(p), Slen(s)))
			return c.ret(c.x.substr(c.st, s, Slen(p), Slen(s)))
		}, func(c *Call) []Outcome { return c.ret(s) })
	}
	m["strings.CutPrefix"] = func(c *Call) []Outcome {
		s, p := c.t(0), c.t(1)
		return c.fork(hasPrefix(s, p), func(c *Call) []Outcome {
			c.st.add(Le(Slen(p), Slen(s)))
			return c.ret(c.x.substr(c.st, s, Slen(p), Slen(s)), tTrue)
		}, func(c *Call) []Outcome { return c.ret(s, tFalse) })
	}
	m["strings.TrimSuffix"] = func(c *Call) []Outcome {
		s, p := c.t(0), c.t(1)
		return c.fork(hasSuffix(s, p), func(c *Call) []Outcome {
			c.st.add(Le(Slen(p), Slen(s)))
			return c.ret(c.x.substr(c.st, s, tZero, Sub(Slen(s), Slen(p))))
		}, func(c *Call) []Outcome { return c.ret(s) })
	}
	m["strings.EqualFold"] = func(c *Call) []Outcome { return c.ret(eqFold(c.t(0), c.t(1))) }
	m["strings.ToLower"] = func(c *Call) []Outcome { return c.ret(App("lower", sStr, c.t(0))) }
	m["strings.ToUpper"] = func(c *Call) []Outcome { return c.ret(App("upper", sStr, c.t(0))) }
	m["strings.TrimSpace"] = pureModel
	m["strings.Trim"] = pureModel
	m["strings.TrimLeft"] = pureModel
	m["strings.TrimRight"] = pureModel
	m["strings.ReplaceAll"] = pureModel
	m["strings.Replace"] = pureModel
	m["strings.Join"] = func(c *Call) []Outcome {
		if s := c.args[0].(*Slice); s.Len.Op == "int" && s.Len.I.Int64() <= 16 {
			cont := c.x.contents(c.st, s)[0]
			var as []*Term
			for i := int64(0); i < s.Len.I.Int64(); i++ {
				if i > 0 {
					as = append(as, c.t(1))
				}
				as = append(as, c.st.simp(Select(cont, Add(s.Off, Int(i)))))
			}
			return c.ret(Cat(as...))
		}
		return pureModel(c)
	}
	m["strings.Count"] = pureModel
	m["strings.Fields"] = pureModel
	m["strings.Repeat"] = pureModel
	m["strings.Split"] = func(c *Call) []Outcome { return c.ret(c.x.splitSlice(c.st, c.t(0), c.t(1))) }
	m["strings.SplitN"] = func(c *Call) []Outcome {
		s, sep, n := c.t(0), c.t(1), c.t(2)
		if n.Op != "int" || sep.Op != "str" || sep.Name == "" {
			unsup("SplitN with computed arguments")
		}
		str := types.Typ[types.String]
		k := n.I.Int64()
		if k < 0 {
			return c.ret(c.x.splitSlice(c.st, s, sep))
		}
		if k == 0 {
			return c.ret(c.x.zero(types.NewSlice(str)))
		}
		if k > 4 {
			unsup("SplitN(%d)", k)
		}
		var rec func(c *Call, rest *Term, got []Value) []Outcome
		rec = func(c *Call, rest *Term, got []Value) []Outcome {
			if int64(len(got)) == k-1 {
				return c.ret(c.x.sliceOf(c.st, str, append(append([]Value{}, got...), rest)...))
			}
			i := c.idx(rest, sep)
			return c.fork(Le(tZero, i), func(c *Call) []Outcome {
				a := c.x.substr(c.st, rest, tZero, i)
				b := c.x.substr(c.st, rest, Add(i, Slen(sep)), Slen(rest))
				return rec(c, b, append(append([]Value{}, got...), a))
			}, func(c *Call) []Outcome {
				return c.ret(c.x.sliceOf(c.st, str, append(append([]Value{}, got...), rest)...))
			})
		}
		return rec(c, s, nil)
	}
	m["strings.Cut"] = func(c *Call) []Outcome {
		s, sep := c.t(0), c.t(1)
		i := c.idx(s, sep)
		return c.fork(Le(tZero, i), func(c *Call) []Outcome {
			return c.ret(c.x.substr(c.st, s, tZero, i), c.x.substr(c.st, s, Add(i, Slen(sep)), Slen(s)), tTrue)
		}, func(c *Call) []Outcome { return c.ret(s, Str(""), tFalse) })
	}
	m["strings.NewReplacer"] = func(c *Call) []Outcome {
		x := c.x
		s := c.args[0].(*Slice)
		p := x.alloc(c.st, c.resType(0).(*types.Pointer).Elem())
		cont := x.contents(c.st, s)[0]
		if s.Len.Op == "int" {
			var as []*Term
			for i := int64(0); i < s.Len.I.Int64(); i++ {
				as = append(as, Select(cont, Add(s.Off, Int(i))))
			}
			x.setGhost(c.st, p, ".$r", sInt, App("replTab", sInt, as...))
		} else {
			x.safe(c.st, "strings.NewReplacer: even argument count", c.pos, Eq(Mod(s.Len, Int(2)), tZero))
			k := x.event(c.st, "strings.NewReplacer")
			for q, t := range x.pureArg(c.st, s, c.argT[0]) {
				c.st.add(Eq(App("A!strings.NewReplacer!0."+itoa(q), t.Sort, k), t))
			}
			x.setGhost(c.st, p, ".$r", sInt, App("replTabE", sInt, k))
		}
		return c.ret(p)
	}
	// sorting strings in place: a permutation of the elements, in order
	sorted := func(c *Call, sl *Slice, desc bool) []Outcome {
		x := c.x
		leaf := "[]string"
		h := x.get(c.st, leaf, arr(sInt, arr(sInt, sStr)))
		old := Select(h, sl.Arr)
		nw := x.fresh("sorted", arr(sInt, sStr))
		to, from := x.fresh("perm", arr(sInt, sInt)), x.fresh("mrep", arr(sInt, sInt))
		in := func(i *Term) *Term { return And(Le(tZero, i), Lt(i, sl.Len)) }
		i, j := FreshBV("i", sInt), FreshBV("j", sInt)
		el := func(a, i *Term) *Term { return Select(a, Add(sl.Off, i)) }
		c.st.add(Forall(i, Imp(in(i), And(in(Select(to, i)), Eq(Select(from, Select(to, i)), i), Eq(el(nw, i), el(old, Select(to, i)))))))
		c.st.add(Forall(i, Imp(in(i), And(in(Select(from, i)), Eq(Select(to, Select(from, i)), i), Eq(el(old, i), el(nw, Select(from, i)))))))
		lt := App("slt", sBool, el(nw, j), el(nw, i))
		if desc {
			lt = App("slt", sBool, el(nw, i), el(nw, j))
		}
		c.st.add(Forall(i, Forall(j, Imp(And(Le(tZero, i), Lt(i, j), Lt(j, sl.Len)), Not(lt)))))
		c.st.add(Forall(i, Imp(Not(And(Le(sl.Off, i), Lt(i, Add(sl.Off, sl.Len)))), Eq(Select(nw, i), Select(old, i)))))
		c.st.heap[leaf] = Store(h, sl.Arr, nw)
		return c.ret()
	}
	m["sort.Strings"] = func(c *Call) []Outcome { return sorted(c, c.args[0].(*Slice), false) }
	m["sort.Reverse"] = func(c *Call) []Outcome { return c.ret(App("sort.Reverse", sIface, c.t(0))) }
	m["sort.Sort"] = func(c *Call) []Outcome {
		t := c.t(0)
		desc := false
		for t.Op == "app" && t.Name == "sort.Reverse" {
			desc = !desc
			t = t.Args[0]
		}
		if t.Op == "app" && t.Name == "imk" && t.Args[1].Op == "app" && strings.HasPrefix(t.Args[1].Name, "mk$") && strings.HasSuffix(t.Args[1].Name, "sort.StringSlice") {
			a := t.Args[1].Args
			return sorted(c, &Slice{Arr: a[0], Off: a[1], Len: a[2], Cap: a[3], Elem: types.Typ[types.String]}, desc)
		}
		unsup("sort.Sort of %s", head3(t))
		return nil
	}
	m["sort.Stable"] = m["sort.Sort"]
	m["strings.(*Replacer).Replace"] = func(c *Call) []Outcome {
		tab := c.x.ghost(c.st, c.args[0], ".$r", sInt)
		return c.ret(App("replace", sStr, tab, c.t(1)))
	}
	for _, ty := range []string{"strings.(*Builder)", "bytes.(*Buffer)"} {
		get := func(c *Call) *Term { return c.x.ghost(c.st, c.args[0], ".$s", sStr) }
		set := func(c *Call, t *Term) { c.x.setGhost(c.st, c.args[0], ".$s", sStr, t) }
		nn := func(c *Call) { c.x.derefOK(c.st, c.args[0], c.pos, "builder") }
		m[ty+".WriteString"] = func(c *Call) []Outcome {
			nn(c)
			set(c, Cat(get(c), c.t(1)))
			return c.ret(Slen(c.t(1)), tNil)
		}
		m[ty+".WriteRune"] = func(c *Call) []Outcome {
			nn(c)
			r := runeStr(c.t(1))
			set(c, Cat(get(c), r))
			return c.ret(Slen(r), tNil)
		}
		m[ty+".WriteByte"] = func(c *Call) []Outcome {
			nn(c)
			set(c, Cat(get(c), byteArg(c.t(1))))
			return c.ret(tNil)
		}
		m[ty+".Write"] = func(c *Call) []Outcome {
			nn(c)
			s := c.x.bytesString(c.st, c.args[1].(*Slice))
			set(c, Cat(get(c), s))
			return c.ret(Slen(s), tNil)
		}
		m[ty+".String"] = func(c *Call) []Outcome { nn(c); return c.ret(get(c)) }
		m[ty+".Bytes"] = func(c *Call) []Outcome { nn(c); return c.ret(c.x.newBytes(c.st, get(c))) }
		m[ty+".Len"] = func(c *Call) []Outcome { nn(c); return c.ret(Slen(get(c))) }
		m[ty+".Reset"] = func(c *Call) []Outcome { nn(c); set(c, Str("")); return c.ret() }
		m[ty+".Grow"] = func(c *Call) []Outcome { return c.ret() }
	}
	m["bytes.NewBufferString"] = func(c *Call) []Outcome {
		p := c.x.alloc(c.st, c.resType(0).(*types.Pointer).Elem())
		c.x.setGhost(c.st, p, ".$s", sStr, c.t(0))
		return c.ret(p)
	}
	m["bytes.NewBuffer"] = func(c *Call) []Outcome {
		p := c.x.alloc(c.st, c.resType(0).(*types.Pointer).Elem())
		c.x.setGhost(c.st, p, ".$s", sStr, c.x.bytesString(c.st, c.args[0].(*Slice)))
		return c.ret(p)
	}
	m["bytes.Equal"] = func(c *Call) []Outcome {
		return c.ret(Eq(c.x.bytesString(c.st, c.args[0].(*Slice)), c.x.bytesString(c.st, c.args[1].(*Slice))))
	}
	m["subtle.ConstantTimeCompare"] = func(c *Call) []Outcome {
		return c.ret(Ite(Eq(c.x.bytesString(c.st, c.args[0].(*Slice)), c.x.bytesString(c.st, c.args[1].(*Slice))), Int(1), tZero))
	}
	m["strconv.ParseInt"] = func(c *Call) []Outcome {
		// base and size are part of the function; results in range of the size
		return pureModel(c)
	}
	m["strconv.Atoi"] = pureModel
	m["strconv.Itoa"] = func(c *Call) []Outcome { return c.ret(App("itoa", sStr, c.t(0))) }
	m["strconv.FormatInt"] = func(c *Call) []Outcome {
		if c.t(1) == Int(10) {
			return c.ret(App("itoa", sStr, c.t(0)))
		}
		return pureModel(c)
	}
	m["strconv.Quote"] = pureModel
	m["fmt.Sprintf"] = func(c *Call) []Outcome {
		s, _ := c.args[1].(*Slice)
		return c.ret(c.x.sprintf(c.st, c.t(0), s))
	}
	m["fmt.Sprint"] = pureModel

	// ---- sync ----
	m["sync.(*Mutex).Lock"] = noop
	m["sync.(*Mutex).Unlock"] = noop
	m["sync.(*RWMutex).Lock"] = noop
	m["sync.(*RWMutex).Unlock"] = noop
	m["sync.(*RWMutex).RLock"] = noop
	m["sync.(*RWMutex).RUnlock"] = noop
	m["sync.(*WaitGroup).Add"] = func(c *Call) []Outcome {
		if c.x.foreign(c.args[0].(*Ptr).Base) {
			c.x.joinObl(c.st, "WaitGroup.Add before the goroutine it counts is started", c.pos, tFalse)
		}
		n := c.x.ghost(c.st, c.args[0], ".$n", sInt)
		c.x.setGhost(c.st, c.args[0], ".$n", sInt, Add(n, c.t(1)))
		return c.ret()
	}
	m["sync.(*WaitGroup).Done"] = func(c *Call) []Outcome {
		n := c.x.ghost(c.st, c.args[0], ".$n", sInt)
		c.x.setGhost(c.st, c.args[0], ".$n", sInt, Add(n, Int(-1)))
		c.st.heap["$doneCalled"] = tTrue
		return c.ret()
	}
	m["sync.(*WaitGroup).Wait"] = func(c *Call) []Outcome {
		c.x.joinObl(c.st, "WaitGroup counts the goroutines started", c.pos, Eq(c.x.ghost(c.st, c.args[0], ".$n", sInt), tZero))
		c.st.heap["$unjoined"] = tFalse
		return c.ret()
	}
	m["sync.(*Once).Do"] = func(c *Call) []Outcome {
		if fv := c.x.funcTab[c.t1(1)]; fv != nil && fv.Fn != nil && c.x.e.onceOnly(fv.Fn) {
			for _, b := range fv.Fn.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						g := s.Addr.(*ssa.Global)
						c.x.lazy[c.x.globalPtr(g.Pkg.Pkg.Path()+"."+g.Name(), g.Type().(*types.Pointer).Elem()).Base] = true
					}
				}
			}
			// whoever called first, the variables hold what the function assigns
			return c.callFn(c.st, c.args[1], c.argT[1])
		}
		d := c.x.ghost(c.st, c.args[0], ".$done", sBool)
		return c.fork(d, func(c *Call) []Outcome { return c.ret() }, func(c *Call) []Outcome {
			outs := c.callFn(c.st, c.args[1], c.argT[1])
			return onAll(outs, func(o Outcome) []Outcome {
				c.x.setGhost(o.st, c.args[0], ".$done", sBool, tTrue)
				return one(o.st)
			})
		})
	}
	smLeaf := func(i int) leafT { return opaque["sync.Map"][i] }
	smKey := func(c *Call, i int) *Term { return c.t(i) }
	m["sync.(*Map).Load"] = func(c *Call) []Outcome {
		c.x.derefOK(c.st, c.args[0], c.pos, "sync.Map")
		p := c.args[0].(*Ptr)
		ok := c.st.simp(Select(c.x.loadLeaf(c.st, p, smLeaf(0)), smKey(c, 1)))
		v := Select(c.x.loadLeaf(c.st, p, smLeaf(1)), smKey(c, 1))
		s2 := c.st.clone()
		s2.add(ok)
		if n := len(s2.pc); !s2.dead {
			c.x.entry1(s2, p, smKey(c, 1), v)
			for _, f := range s2.pc[n:] {
				c.st.add(Imp(ok, f))
			}
		}
		return c.ret(Ite(ok, v, tNil), ok)
	}
	smStore := func(c *Call, st *State, k, v *Term) {
		p := c.args[0].(*Ptr)
		d := c.x.loadLeaf(st, p, smLeaf(0))
		w := c.x.loadLeaf(st, p, smLeaf(1))
		c.x.storeLeaf(st, p, smLeaf(0), Store(d, k, tTrue))
		c.x.storeLeaf(st, p, smLeaf(1), Store(w, k, v))
	}
	m["sync.(*Map).Store"] = func(c *Call) []Outcome {
		c.x.derefOK(c.st, c.args[0], c.pos, "sync.Map")
		c.x.effect(c.st, "store into a shared map", c.pos)
		c.x.overwrite(c, smKey(c, 1), c.t(2))
		c.x.stored(c, smKey(c, 1), c.t(2))
		smStore(c, c.st, smKey(c, 1), c.t(2))
		return c.ret()
	}
	m["sync.(*Map).LoadOrStore"] = func(c *Call) []Outcome {
		c.x.derefOK(c.st, c.args[0], c.pos, "sync.Map")
		p := c.args[0].(*Ptr)
		k := smKey(c, 1)
		c.x.effect(c.st, "store into a shared map", c.pos)
		ok := Select(c.x.loadLeaf(c.st, p, smLeaf(0)), k)
		c.x.stored(c, k, c.t(2))
		return c.fork(ok, func(c *Call) []Outcome {
			v := Select(c.x.loadLeaf(c.st, p, smLeaf(1)), k)
			c.x.entry1(c.st, p, k, v)
			return c.ret(v, tTrue)
		}, func(c *Call) []Outcome {
			smStore(c, c.st, k, c.t(2))
			return c.ret(c.t(2), tFalse)
		})
	}
	m["sync.(*Map).Delete"] = func(c *Call) []Outcome {
		p := c.args[0].(*Ptr)
		c.x.derefOK(c.st, p, c.pos, "sync.Map")
		if c.x.ctr != nil {
			for _, cl := range c.x.ctr.Deletes {
				vars := map[string]TV{}
				for n, v := range c.x.params {
					vars[n] = v
				}
				vars["m"], vars["k"] = TV{p, c.argT[0]}, TV{smKey(c, 1), anyType}
				env := &SpecEnv{x: c.x, st: c.st, old: c.x.entry, vars: vars}
				c.x.obl(c.st, "deletes", cl.Label, cl.Tags, c.pos, env.boolTerm(cl.Expr))
			}
		}
		d := c.x.loadLeaf(c.st, p, smLeaf(0))
		c.x.effect(c.st, "removal from a shared map", c.pos)
		c.x.overwrite(c, smKey(c, 1), nil)
		c.x.storeLeaf(c.st, p, smLeaf(0), Store(d, smKey(c, 1), tFalse))
		return c.ret()
	}
	m["sync.(*Map).Range"] = func(c *Call) []Outcome {
		p := c.args[0].(*Ptr)
		c.x.joined(c.st, "shared map is read in full", c.pos)
		return c.rangeOver(c.st, sIface, func(s *State) *Term { return c.x.loadLeaf(s, p, smLeaf(0)) }, func(s *State, k *Term) []Outcome {
			v := Select(c.x.loadLeaf(s, p, smLeaf(1)), k)
			c.x.entry1(s, p, k, v)
			return c.callFn(s, c.args[1], c.argT[1], k, v)
		})
	}
	// errgroup: a worker runs to completion where it is started
	var child func(c *Call) *Term
	m["errgroup.WithContext"] = func(c *Call) []Outcome {
		p := c.x.alloc(c.st, c.resType(0).(*types.Pointer).Elem())
		return c.ret(p, child(c))
	}
	m["errgroup.(*Group).Go"] = func(c *Call) []Outcome {
		done := c.x.goBody(c.st)
		outs := c.callFn(c.st, c.args[1], c.argT[1])
		done(outs)
		return onAll(outs, func(o Outcome) []Outcome {
			e0 := c.x.ghost(o.st, c.args[0], ".$err", sIface)
			e := first(o.res).(*Term)
			c.x.setGhost(o.st, c.args[0], ".$err", sIface, Ite(o.st.simp(Eq(e0, tNil)), e, e0))
			return one(o.st)
		})
	}
	m["errgroup.(*Group).Wait"] = func(c *Call) []Outcome {
		c.st.heap["$unjoined"] = tFalse
		return c.ret(c.x.ghost(c.st, c.args[0], ".$err", sIface))
	}
	m["errgroup.(*Group).SetLimit"] = noop
	loadPtr := func(c *Call) []Outcome {
		p := c.args[0].(*Ptr)
		c.x.derefOK(c.st, p, c.pos, "atomic")
		c.x.event(c.st, "atomic.LoadPointer")
		t := c.x.loadLeaf(c.st, p, leafT{"", sInt, nil})
		if t.Op == "var" || t.Op == "select" {
			c.x.addrFacts(c.st, t)
		}
		return c.ret(t)
	}
	m["atomic.LoadPointer"] = loadPtr
	m["atomic.StorePointer"] = func(c *Call) []Outcome {
		p := c.args[0].(*Ptr)
		c.x.derefOK(c.st, p, c.pos, "atomic")
		c.x.joined(c.st, "pointer is stored", c.pos)
		c.x.storeLeaf(c.st, p, leafT{"", sInt, nil}, c.x.enc(c.args[1]))
		return c.ret()
	}
	m["atomic.SwapPointer"] = func(c *Call) []Outcome {
		p := c.args[0].(*Ptr)
		c.x.derefOK(c.st, p, c.pos, "atomic")
		t := c.x.loadLeaf(c.st, p, leafT{"", sInt, nil})
		c.x.joined(c.st, "pointer is swapped", c.pos)
		c.x.storeLeaf(c.st, p, leafT{"", sInt, nil}, c.x.enc(c.args[1]))
		return c.ret(t)
	}

	// ---- context ----
	m["context.Context.Done"] = func(c *Call) []Outcome { return c.ret(App("ctxDone", sInt, c.t(0))) }
	m["context.Context.Err"] = func(c *Call) []Outcome {
		e := c.x.fresh("ctxErr", sIface)
		c.st.add(Imp(c.x.ctxIsDone(c.st, c.t(0)), Not(Eq(e, tNil))))
		c.x.foundDone(c.st, c.t(0), Not(Eq(e, tNil)))
		return c.ret(e)
	}
	child = func(c *Call) *Term { // a context derived from another one: done if that is
		n := c.x.fresh("ctx", sIface)
		c.st.add(Not(Eq(n, tNil)))
		d := c.x.get(c.st, "$ctxdone", arr(sIface, sBool))
		c.st.heap["$ctxdone"] = Store(d, n, c.x.ctxIsDone(c.st, c.t(0)))
		return n
	}
	withCancel := func(c *Call) []Outcome {
		r := c.x.newRef()
		n := child(c)
		c.x.funcTab[r] = &FuncVal{Call: func(x *X, st *State, args []Value) []Outcome {
			st.heap["$ctxdone"] = Store(x.get(st, "$ctxdone", arr(sIface, sBool)), n, tTrue)
			return one(st)
		}}
		return c.ret(n, r)
	}
	m["context.WithCancel"] = func(c *Call) []Outcome { // done exactly when cancelled or its parent is
		n := c.x.fresh("ctx", sIface)
		c.st.add(Not(Eq(n, tNil)))
		if c.x.ctxParent == nil {
			c.x.ctxParent = map[*Term]*Term{}
		}
		c.x.ctxParent[n] = c.t(0)
		c.st.heap["$cancelled"] = Store(c.x.get(c.st, "$cancelled", arr(sIface, sBool)), n, tFalse)
		r := c.x.newRef()
		c.x.funcTab[r] = &FuncVal{Call: func(x *X, st *State, args []Value) []Outcome {
			st.heap["$cancelled"] = Store(x.get(st, "$cancelled", arr(sIface, sBool)), n, tTrue)
			return one(st)
		}}
		return c.ret(n, r)
	}
	m["context.WithTimeout"] = withCancel
	m["context.WithDeadline"] = withCancel
	m["context.Background"] = func(c *Call) []Outcome { return c.ret(App("ctxBackground", sIface)) }

	// ---- gache ----
	gKeys := func(x *X, st *State, g *Term) (*Term, *Term, *Term, *Term) {
		a := App("ival", sInt, g)
		return a, x.get(st, "gache.dom", arr(sInt, arr(sStr, sBool))), x.get(st, "gache.val", arr(sInt, arr(sStr, sIface))), x.get(st, "gache.ttl", arr(sInt, arr(sStr, sInt)))
	}
	m["gache.New"] = func(c *Call) []Outcome {
		g := imk(gacheT, c.x.newRef())
		a, d, _, _ := gKeys(c.x, c.st, g)
		c.st.heap["gache.dom"] = Store(d, a, ConstArr(arr(sStr, sBool), tFalse))
		return c.ret(g)
	}
	m["gache.Gache.Get"] = func(c *Call) []Outcome {
		c.x.noteKey(c.st, "gache.Gache.Get", c.args, c.pos)
		n := c.x.event(c.st, "gache.Gache.Get")
		for i, a := range c.args {
			c.st.add(Eq(App("A!gache.Gache.Get!"+itoa(i)+".0", a.(*Term).Sort, n), a.(*Term)))
		}
		a, d, v, _ := gKeys(c.x, c.st, c.t(0))
		ok := c.st.simp(Select(Select(d, a), c.t(1)))
		if c.x.ctr != nil && len(c.x.ctr.Entries) > 0 {
			val := Select(Select(v, a), c.t(1))
			return c.fork(ok, func(c *Call) []Outcome {
				for _, cl := range c.x.ctr.Entries {
					c.st.add(c.x.holdsAt(c.st, cl, c.t(1), val))
				}
				return c.ret(val, tTrue)
			}, func(c *Call) []Outcome { return c.ret(tNil, tFalse) })
		}
		return c.ret(Ite(ok, Select(Select(v, a), c.t(1)), tNil), ok)
	}
	m["gache.Gache.SetWithExpire"] = func(c *Call) []Outcome {
		x := c.x
		k := x.event(c.st, "gache.Gache.SetWithExpire")
		for i, a := range c.args {
			c.st.add(Eq(App("A!gache.Gache.SetWithExpire!"+itoa(i)+".0", a.(*Term).Sort, k), a.(*Term)))
		}
		x.effect(c.st, "store into the cache", c.pos)
		a, d, v, t := gKeys(x, c.st, c.t(0))
		key := c.t(1)
		if x.ctr != nil {
			for _, cl := range x.ctr.Entries {
				x.obl(c.st, "entries", cl.Label, cl.Tags, c.pos, x.holdsAt(c.st, cl, key, c.t(2)))
			}
		}
		c.st.heap["gache.dom"] = Store(d, a, Store(Select(d, a), key, tTrue))
		c.st.heap["gache.val"] = Store(v, a, Store(Select(v, a), key, c.t(2)))
		c.st.heap["gache.ttl"] = Store(t, a, Store(Select(t, a), key, c.t(3)))
		return c.ret()
	}
	m["gache.Gache.Set"] = func(c *Call) []Outcome {
		c.args = append(c.args, App("gacheDefault", sInt, c.t(0)))
		return models["gache.Gache.SetWithExpire"](c)
	}
	m["gache.Gache.Delete"] = func(c *Call) []Outcome {
		a, d, _, _ := gKeys(c.x, c.st, c.t(0))
		c.st.heap["gache.dom"] = Store(d, a, Store(Select(d, a), c.t(1), tFalse))
		return c.ret()
	}
	m["gache.Gache.Clear"] = func(c *Call) []Outcome {
		a, d, _, _ := gKeys(c.x, c.st, c.t(0))
		c.st.heap["gache.dom"] = Store(d, a, ConstArr(arr(sStr, sBool), tFalse))
		return c.ret()
	}
	m["gache.Gache.Len"] = func(c *Call) []Outcome { return c.ret(c.x.fresh("gache.$len", sInt)) }
	self := func(c *Call) []Outcome { return c.ret(c.args[0]) }
	m["gache.Gache.EnableExpiredHook"] = self
	m["gache.Gache.DisableExpiredHook"] = self
	m["gache.Gache.SetExpiredHook"] = self
	m["gache.Gache.StartExpired"] = self
	m["gache.Gache.SetDefaultExpire"] = func(c *Call) []Outcome {
		k := c.x.event(c.st, "gache.Gache.SetDefaultExpire")
		c.st.add(Eq(App("A!gache.Gache.SetDefaultExpire!0.0", sIface, k), c.t(0)))
		c.st.add(Eq(App("A!gache.Gache.SetDefaultExpire!1.0", sInt, k), c.t(1)))
		return c.ret(c.args[0])
	}
	m["gache.Gache.Stop"] = noop
	m["gache.Gache.ToRawMap"] = noop

	// ---- HTTP, JSON, io ----
	hdr := func(x *X, st *State) *Term { return x.get(st, "http.hdr", arr(sInt, arr(sStr, sStr))) }
	canon := func(k *Term) *Term {
		if k.Op == "str" {
			return Str(http.CanonicalHeaderKey(k.Name))
		}
		return App("canonHdr", sStr, k)
	}
	m["http.NewRequest"] = func(c *Call) []Outcome {
		x := c.x
		s2 := c.st.clone()
		rt := c.resType(0).(*types.Pointer).Elem()
		p := x.anyObj(c.st, "req", rt)
		x.storeLeaf(c.st, p, leafT{".Method", sStr, nil}, c.t(0))
		h := x.newRef()
		x.storeLeaf(c.st, p, leafT{".Header", sInt, nil}, h)
		c.st.heap["http.hdr"] = Store(hdr(x, c.st), h, ConstArr(arr(sStr, sStr), Str("")))
		c.st.add(Eq(App("reqURL", sStr, p.Base), c.t(1)))
		e := x.newErr()
		return []Outcome{{kind: oRet, st: c.st, res: []Value{p, tNil}}, {kind: oRet, st: s2, res: []Value{x.zero(c.resType(0)), e}}}
	}
	m["http.NewRequestWithContext"] = func(c *Call) []Outcome {
		c.args = c.args[1:]
		return models["http.NewRequest"](c)
	}
	m["http.(*Request).WithContext"] = self
	m["http.(*Request).Context"] = func(c *Call) []Outcome {
		c.x.derefOK(c.st, c.args[0], c.pos, "request")
		return c.ret(App("reqCtx", sIface, c.x.enc(c.args[0])))
	}
	m["http.(Header).Get"] = func(c *Call) []Outcome {
		return c.ret(Select(Select(hdr(c.x, c.st), c.t(0)), canon(c.t(1))))
	}
	m["http.(Header).Set"] = func(c *Call) []Outcome {
		c.x.safe(c.st, "assignment to nil header", c.pos, Not(Eq(c.t(0), tZero)))
		h := hdr(c.x, c.st)
		c.st.heap["http.hdr"] = Store(h, c.t(0), Store(Select(h, c.t(0)), canon(c.t(1)), c.t(2)))
		return c.ret()
	}
	m["http.(Header).Add"] = m["http.(Header).Set"]
	m["http.(*Client).Do"] = func(c *Call) []Outcome {
		x := c.x
		k := x.event(c.st, c.name)
		rq := c.args[1].(*Ptr)
		c.st.add(Eq(App("A!"+c.name+"!0.0", sInt, k), x.enc(c.args[0])))
		c.st.add(Eq(App("A!"+c.name+"!1.0", sInt, k), x.enc(rq)))
		// the headers as sent
		h := x.loadLeaf(c.st, rq, leafT{".Header", sInt, nil})
		c.st.add(Eq(App("sentHdr", arr(sStr, sStr), k), Select(hdr(x, c.st), h)))
		c.st.add(Eq(App("sentURL", sStr, k), App("reqURL", sStr, x.enc(rq))))
		s2 := c.st.clone()
		rt := c.resType(0).(*types.Pointer).Elem()
		p := x.anyObj(c.st, "resp", rt)
		// net/http: a response without error has a non-nil body
		body := x.loadLeaf(c.st, p, leafT{".Body", sIface, nil})
		c.st.add(Not(Eq(body, tNil)))
		c.st.add(Not(Eq(x.loadLeaf(c.st, p, leafT{".Header", sInt, nil}), tZero)))
		c.st.add(Eq(App("R!"+c.name+"!0", sInt, k), p.Base))
		c.st.add(Eq(App("R!"+c.name+"!1", sIface, k), tNil))
		e := x.fresh("doErr", sIface)
		s2.add(Not(Eq(e, tNil)))
		s2.add(Eq(App("R!"+c.name+"!0", sInt, k), tZero))
		s2.add(Eq(App("R!"+c.name+"!1", sIface, k), e))
		return []Outcome{{kind: oRet, st: c.st, res: []Value{p, tNil}}, {kind: oRet, st: s2, res: []Value{x.zero(c.resType(0)), e}}}
	}
	m["json.NewDecoder"] = func(c *Call) []Outcome {
		r := c.x.newRef()
		p := c.x.dec(r, c.resType(0).(*types.Pointer).Elem())
		c.x.setGhost(c.st, p, ".$rd", sIface, c.t(0))
		return c.ret(p)
	}
	m["json.(*Decoder).Decode"] = func(c *Call) []Outcome {
		return c.x.decodeInto(c, c.t(1), c.x.ghost(c.st, c.args[0], ".$rd", sIface))
	}
	m["json.Unmarshal"] = func(c *Call) []Outcome {
		t := c.x.bytesString(c.st, c.args[0].(*Slice))
		src := App("bytesReader", sIface, t)
		if t.Op == "app" && t.Name == "bodyText" {
			src = t.Args[0]
		}
		return c.x.decodeInto(c, c.t(1), src)
	}
	m["json.Marshal"] = func(c *Call) []Outcome {
		x := c.x
		v := c.t(0)
		return c.ret(x.newBytes(c.st, App("jsonOf", sStr, v)), App("jsonErr", sIface, v))
	}
	m["jwk.Key.Raw"] = func(c *Call) []Outcome {
		// decodes the key into the variable given; on failure the variable is arbitrary
		x := c.x
		ty := ityp(c.t(1))
		if ty.Op != "int" || ty.I.Sign() <= 0 {
			unsup("Raw into unknown type")
		}
		pt, ok := typeByID[ty.I.Int64()-1].(*types.Pointer)
		if !ok || !types.IsInterface(pt.Elem()) {
			unsup("Raw into %s", typeByID[ty.I.Int64()-1])
		}
		e := App("jwkRawErr", sIface, c.t(0))
		v := x.fresh("rawKey", sIface)
		x.store(c.st, x.ifaceVal(c.t(1), pt).(*Ptr), Ite(Eq(e, tNil), App("jwkRaw", sIface, c.t(0)), v), pt.Elem())
		return c.ret(e)
	}
	m["io.Copy"] = func(c *Call) []Outcome {
		k := c.x.event(c.st, "io.Copy")
		c.st.add(Eq(App("A!io.Copy!0.0", sIface, k), c.t(0)))
		c.st.add(Eq(App("A!io.Copy!1.0", sIface, k), c.t(1)))
		return noop(c)
	}
	closeM := func(c *Call) []Outcome {
		k := c.x.event(c.st, "io.Closer.Close")
		c.st.add(Eq(App("A!io.Closer.Close!0.0", sIface, k), c.t(0)))
		return noop(c)
	}
	m["io.ReadCloser.Close"] = closeM
	m["io.Closer.Close"] = closeM
	m["ioutil.ReadAll"] = func(c *Call) []Outcome {
		k := c.x.event(c.st, "io.ReadAll")
		c.st.add(Eq(App("A!io.ReadAll!0.0", sIface, k), c.t(0)))
		return c.ret(c.x.newBytes(c.st, App("bodyText", sStr, c.t(0))), c.x.freshErr("readErr"))
	}
	m["io.ReadAll"] = m["ioutil.ReadAll"]

	// ---- regexp, url, crypto ----
	m["regexp.Compile"] = func(c *Call) []Outcome {
		x := c.x
		p := x.alloc(c.st, c.resType(0).(*types.Pointer).Elem()).(*Ptr)
		x.setGhost(c.st, p, ".$pat", sStr, c.t(0))
		e := App("reErr", sIface, c.t(0))
		return c.fork(Eq(e, tNil), func(c *Call) []Outcome { return c.ret(p, tNil) },
			func(c *Call) []Outcome { return c.ret(x.zero(c.resType(0)), e) })
	}
	m["regexp.MustCompile"] = func(c *Call) []Outcome {
		x := c.x
		p := x.alloc(c.st, c.resType(0).(*types.Pointer).Elem()).(*Ptr)
		x.setGhost(c.st, p, ".$pat", sStr, c.t(0))
		return c.ret(p)
	}
	pat := func(c *Call) *Term {
		c.x.derefOK(c.st, c.args[0], c.pos, "regexp")
		return c.x.ghost(c.st, c.args[0], ".$pat", sStr)
	}
	m["regexp.(*Regexp).MatchString"] = func(c *Call) []Outcome { return c.ret(App("reMatch", sBool, c.st.simp(pat(c)), c.t(1))) }
	m["regexp.(*Regexp).String"] = func(c *Call) []Outcome { return c.ret(pat(c)) }
	m["regexp.(*Regexp).ReplaceAllString"] = func(c *Call) []Outcome {
		return reReplace(c, c.st.simp(pat(c)), c.t(1), c.t(2))
	}
	m["regexp.QuoteMeta"] = pureModel
	m["zmssvctoken.(*YBase64).DecodeString"] = func(c *Call) []Outcome {
		return c.ret(c.x.newBytes(c.st, App("ybase64", sStr, c.t(1))), App("ybase64Err", sIface, c.t(1)))
	}
	m["url.ParseQuery"] = func(c *Call) []Outcome {
		x := c.x
		mt := c.resType(0).Underlying().(*types.Map)
		r := x.makeMap(c.st, mt)
		qs := c.t(0)
		dn := mapKey(mt) + ".dom"
		c.st.heap[dn] = Store(c.st.heap[dn], r, App("pqdom", arr(sStr, sBool), qs))
		n := App("pqlen", sInt, qs)
		ln := mapKey(mt) + ".len"
		c.st.heap[ln] = Store(c.st.heap[ln], r, n)
		for _, l := range leaves(mt.Elem()) {
			vn := mapKey(mt) + ".val" + l.suf
			h := x.get(c.st, vn, arr(sInt, arr(sStr, l.sort)))
			v := App("pqval"+l.suf, arr(sStr, l.sort), qs)
			if l.suf == ".$off" {
				v = ConstArr(arr(sStr, sInt), tZero)
			}
			c.st.heap[vn] = Store(h, r, v)
		}
		return c.ret(r, App("pqerr", sIface, qs))
	}
	m["url.ParseRequestURI"] = func(c *Call) []Outcome {
		x := c.x
		e := App("puErr", sIface, c.t(0))
		return c.fork(Eq(e, tNil), func(c *Call) []Outcome {
			p := x.anyObj(c.st, "url", c.resType(0).(*types.Pointer).Elem())
			return c.ret(p, tNil)
		}, func(c *Call) []Outcome { return c.ret(x.zero(c.resType(0)), e) })
	}
	m["url.(*URL).String"] = func(c *Call) []Outcome {
		c.x.derefOK(c.st, c.args[0], c.pos, "URL")
		return c.ret(App("urlString", sStr, c.x.enc(c.args[0])))
	}
	m["sha256.Sum256"] = func(c *Call) []Outcome {
		s := App("sha256", sStr, c.x.bytesString(c.st, c.args[0].(*Slice)))
		c.st.add(Eq(Slen(s), Int(32)))
		return c.ret(s)
	}
	m["base64.(*Encoding).EncodeToString"] = func(c *Call) []Outcome {
		return c.ret(App("base64", sStr, c.x.enc(c.args[0]), c.x.bytesString(c.st, c.args[1].(*Slice))))
	}
	m["math.Pow"] = func(c *Call) []Outcome { return c.ret(App("fpow", "F64", c.t(0), c.t(1))) }
	m["math.Ceil"] = pureModel
	m["math.Floor"] = pureModel

	// ---- jwt ----
	m["jwt.ParseWithClaims"] = func(c *Call) []Outcome { return c.x.jwtParse(c, c.t(0), c.t(1), c.args[2], c.argT[2]) }
	m["jwt.(*Parser).ParseWithClaims"] = func(c *Call) []Outcome {
		return c.x.jwtParse(c, c.t(1), c.t(2), c.args[3], c.argT[3])
	}
	_ = constant.MakeBool
}

func tsub(a, b *Term) *Term {
	d := Sub(a, b)
	return Ite(Lt(IntBig(maxI64), d), IntBig(maxI64), Ite(Lt(d, IntBig(minI64)), IntBig(minI64), d))
}

func (c *Call) idx(s, sub *Term) *Term {
	i := sindex(c.st, s, sub)
	if i.Op == "app" {
		c.st.add(Le(Int(-1), i))
		c.st.add(Or(Lt(i, tZero), Le(Add(i, Slen(sub)), Slen(s))))
	}
	return i
}

func (c *Call) lastIdx(s, sub *Term) *Term {
	i := slastindex(c.st, s, sub)
	if i.Op == "app" {
		c.st.add(Le(Int(-1), i))
		c.st.add(Or(Lt(i, tZero), Le(Add(i, Slen(sub)), Slen(s))))
	}
	return i
}

// decodeInto: the decoded variable is arbitrary (a pointer may be nil, or refer to a new arbitrary object).
func (x *X) decodeInto(c *Call, target, src *Term) []Outcome {
	ty := ityp(target)
	if ty.Op != "int" || ty.I.Sign() <= 0 {
		unsup("decode into unknown type")
	}
	pt, ok := typeByID[ty.I.Int64()-1].(*types.Pointer)
	if !ok {
		unsup("decode into %s", typeByID[ty.I.Int64()-1])
	}
	p := x.ifaceVal(target, pt).(*Ptr)
	k := x.event(c.st, "json.Decode")
	e := App("R!json.Decode!0", sIface, k)
	var v Value
	if el, ok := pt.Elem().Underlying().(*types.Pointer); ok {
		o := x.anyObj(c.st, "json", el.Elem())
		b := x.fresh("jsonNonNil", sBool)
		v = x.dec(Ite(b, o.Base, tZero), el.Elem())
	} else {
		v = x.freshVal(c.st, "json", pt.Elem())
	}
	x.store(c.st, p, v, pt.Elem())
	c.st.add(Eq(App("A!json.Decode!0.0", sIface, k), src))
	res := target
	if _, ok := pt.Elem().Underlying().(*types.Pointer); ok {
		res = x.makeIface(v, pt.Elem())
	}
	c.st.add(Eq(App("A!json.Decode!1.0", sIface, k), res))
	return c.ret(e)
}

// jwtParse models jwt.ParseWithClaims: header and claims are functions of the token text; the key function
// and Valid of the claims are the repository's own code.
func (x *X) jwtParse(c *Call, cred, claims *Term, keyFunc Value, kt types.Type) []Outcome {
	st := c.st
	tt := c.resType(0).(*types.Pointer).Elem()
	fail := func(s *State) Outcome {
		e := x.fresh("jwtErr", sIface)
		s.add(Not(Eq(e, tNil)))
		tok := x.fresh("jwtTok", sInt)
		s.add(Le(tZero, tok))
		return Outcome{kind: oRet, st: s, res: []Value{x.dec(tok, tt), e}}
	}
	ty := ityp(claims)
	if ty.Op != "int" || ty.I.Sign() <= 0 {
		unsup("jwt claims of unknown type")
	}
	pt, ok := typeByID[ty.I.Int64()-1].(*types.Pointer)
	if !ok {
		unsup("jwt claims %s", typeByID[ty.I.Int64()-1])
	}
	cp := x.ifaceVal(claims, pt).(*Ptr)
	bad := st.clone()
	outs := []Outcome{fail(bad)}
	// malformed tokens end here
	st.add(App("jwt.wellFormed", sBool, cred))
	tokV := x.anyObj(st, "jwtTok", tt)
	// header
	var hm *types.Map
	sT := tt.Underlying().(*types.Struct)
	for i := 0; i < sT.NumFields(); i++ {
		if sT.Field(i).Name() == "Header" {
			hm = sT.Field(i).Type().Underlying().(*types.Map)
		}
	}
	h := x.makeMap(st, hm)
	dn := mapKey(hm) + ".dom"
	st.heap[dn] = Store(st.heap[dn], h, App("jwt.hdrdom", arr(sStr, sBool), cred))
	vn := mapKey(hm) + ".val"
	st.heap[vn] = Store(x.get(st, vn, arr(sInt, arr(sStr, sIface))), h, App("jwt.hdrval", arr(sStr, sIface), cred))
	x.storeLeaf(st, tokV, leafT{".Header", sInt, nil}, h)
	x.storeLeaf(st, tokV, leafT{".Claims", sIface, nil}, claims)
	x.storeLeaf(st, tokV, leafT{".Valid", sBool, nil}, tFalse)
	x.storeLeaf(st, tokV, leafT{".Raw", sStr, nil}, cred)
	// claims
	for _, l := range leaves(cp.T) {
		v := App("jwt.claim"+l.suf, l.sort, cred)
		if strings.HasSuffix(l.suf, ".$off") {
			v = tZero
		}
		x.storeLeaf(st, cp, l, v)
	}
	x.deepFacts(st, x.load(st, cp, cp.T), cp.T)
	for _, o := range x.callTerm(c.fr, st, keyFunc.(*Term), kt, []Value{tokV}, c.pos) {
		if o.kind != oRet {
			outs = append(outs, o)
			continue
		}
		key, kerr := o.res[0].(*Term), o.res[1].(*Term)
		if s2 := o.st.clone(); s2.simp(Eq(kerr, tNil)) != tTrue {
			s2.add(Not(Eq(kerr, tNil)))
			if !s2.dead {
				outs = append(outs, fail(s2))
			}
		}
		s := o.st
		s.add(Eq(kerr, tNil))
		if s.dead {
			continue
		}
		// claims.Valid()
		sel := types.NewMethodSet(pt).Lookup(nil, "Valid")
		var vouts []Outcome
		if sel != nil {
			if f := x.e.prog.MethodValue(sel); f != nil {
				vouts = x.callFunc(c.fr, s, f, nil, []Value{cp}, c.pos)
			}
		}
		if vouts == nil {
			unsup("claims without Valid")
		}
		for _, vo := range vouts {
			if vo.kind != oRet {
				outs = append(outs, vo)
				continue
			}
			verr := vo.res[0].(*Term)
			if s2 := vo.st.clone(); s2.simp(Eq(verr, tNil)) != tTrue {
				s2.add(Not(Eq(verr, tNil)))
				if !s2.dead {
					outs = append(outs, fail(s2))
				}
			}
			s := vo.st
			s.add(Eq(verr, tNil))
			if s.dead {
				continue
			}
			sig := App("jwtSigOK", sBool, cred, key)
			s2 := s.clone()
			s2.add(Not(sig))
			if !s2.dead {
				outs = append(outs, fail(s2))
			}
			s.add(sig)
			x.storeLeaf(s, tokV, leafT{".Valid", sBool, nil}, tTrue)
			if !s.dead {
				outs = append(outs, Outcome{kind: oRet, st: s, res: []Value{tokV, tNil}})
			}
		}
	}
	return x.merge(outs, []types.Type{c.resType(0), c.resType(1)})
}

var _ = ssa.BuildSerially

func (x *X) ctxIsDone(st *State, c *Term) *Term {
	if p := x.ctxParent[c]; p != nil {
		return Or(x.ctxIsDone(st, p), Select(x.get(st, "$cancelled", arr(sIface, sBool)), c))
	}
	return Select(x.get(st, "$ctxdone", arr(sIface, sBool)), c)
}

// foundDone: the context is observed to be done (if cond); a context that has only been derived from another
// and not cancelled is done because that one is.
func (x *X) foundDone(st *State, c, cond *Term) {
	if p := x.ctxParent[c]; p != nil {
		x.foundDone(st, p, And(cond, Not(Select(x.get(st, "$cancelled", arr(sIface, sBool)), c))))
		return
	}
	d := x.get(st, "$ctxdone", arr(sIface, sBool))
	st.heap["$ctxdone"] = Store(d, c, Or(Select(d, c), cond))
}

// prefixes: the strings a pattern of the form ^(literal|literal...)... matches, in order of preference.
func prefixes(pat string) ([]string, bool) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil, false
	}
	re = re.Simplify()
	var lits func(r *syntax.Regexp) ([]string, bool)
	lits = func(r *syntax.Regexp) ([]string, bool) {
		switch r.Op {
		case syntax.OpLiteral:
			if r.Flags&syntax.FoldCase != 0 {
				return nil, false
			}
			return []string{string(r.Rune)}, true
		case syntax.OpEmptyMatch:
			return []string{""}, true
		case syntax.OpCapture:
			return lits(r.Sub[0])
		case syntax.OpQuest:
			a, ok := lits(r.Sub[0])
			if r.Flags&syntax.NonGreedy != 0 {
				return append([]string{""}, a...), ok
			}
			return append(a, ""), ok
		case syntax.OpAlternate:
			var out []string
			for _, s := range r.Sub {
				a, ok := lits(s)
				if !ok {
					return nil, false
				}
				out = append(out, a...)
			}
			return out, true
		case syntax.OpConcat:
			out := []string{""}
			for _, s := range r.Sub {
				a, ok := lits(s)
				if !ok || len(out)*len(a) > 16 {
					return nil, false
				}
				var n []string
				for _, p := range out {
					for _, q := range a {
						n = append(n, p+q)
					}
				}
				out = n
			}
			return out, true
		}
		return nil, false
	}
	if re.Op != syntax.OpConcat || len(re.Sub) == 0 || re.Sub[0].Op != syntax.OpBeginText {
		return nil, false
	}
	c := *re
	c.Sub = re.Sub[1:]
	return lits(&c)
}

// reReplace is (*Regexp).ReplaceAllString.
func reReplace(c *Call, pat, s, by *Term) []Outcome {
	if pat.Op == "str" && s.Op == "str" && by.Op == "str" {
		if re, err := regexp.Compile(pat.Name); err == nil {
			return c.ret(Str(re.ReplaceAllString(s.Name, by.Name)))
		}
	}
	if pat.Op == "str" && by.Op == "str" && !strings.Contains(by.Name, "$") {
		if ps, ok := prefixes(pat.Name); ok {
			var alt func(i int) func(c *Call) []Outcome
			alt = func(i int) func(c *Call) []Outcome {
				return func(c *Call) []Outcome {
					if i == len(ps) {
						return c.ret(s)
					}
					if ps[i] == "" {
						return c.ret(Cat(by, s))
					}
					p := Str(ps[i])
					return c.fork(hasPrefix(s, p), func(c *Call) []Outcome {
						c.st.add(Le(Slen(p), Slen(s)))
						return c.ret(Cat(by, c.x.substr(c.st, s, Slen(p), Slen(s))))
					}, alt(i+1))
				}
			}
			return alt(0)(c)
		}
	}
	return c.ret(App("reReplace", sStr, pat, s, by))
}

func (c *Call) t1(i int) *Term {
	t, _ := c.args[i].(*Term)
	return t
}

// onceOnly: f is a closure without free variables that only assigns package variables, is used in one call of
// (*sync.Once).Do on a package variable that no other call uses, and nothing else assigns those variables.
func (e *Eng) onceOnly(f *ssa.Function) bool {
	if f.Parent() == nil || len(f.FreeVars) > 0 {
		return false
	}
	vars := map[*ssa.Global]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				g, ok := s.Addr.(*ssa.Global)
				if !ok {
					return false
				}
				vars[g] = true
			}
		}
	}
	var once *ssa.Global
	bad := false
	uses := 0
	var scan func(h *ssa.Function, visit func(h *ssa.Function, in ssa.Instruction))
	scan = func(h *ssa.Function, visit func(h *ssa.Function, in ssa.Instruction)) {
		for _, b := range h.Blocks {
			for _, in := range b.Instrs {
				visit(h, in)
			}
		}
		for _, a := range h.AnonFuncs {
			scan(a, visit)
		}
	}
	all := func(visit func(h *ssa.Function, in ssa.Instruction)) {
		for _, k := range sortedKeys(e.funcs) {
			if h := e.funcs[k]; h.Parent() == nil {
				scan(h, visit)
			}
		}
	}
	all(func(h *ssa.Function, in ssa.Instruction) {
		for _, op := range in.Operands(nil) {
			if *op == ssa.Value(f) {
				c, ok := in.(*ssa.Call)
				if ok && len(c.Call.Args) == 2 && c.Call.Args[1] == ssa.Value(f) {
					if g, ok := c.Call.Args[0].(*ssa.Global); ok {
						once = g
						continue
					}
				}
				bad = true
			}
			if g, ok := (*op).(*ssa.Global); ok && vars[g] && h != f {
				// only reads
				if u, ok := in.(*ssa.UnOp); !ok || u.Op != token.MUL {
					if h.Name() != "init" {
						bad = true
					}
				}
			}
		}
	})
	if once == nil || bad {
		return false
	}
	all(func(h *ssa.Function, in ssa.Instruction) {
		for _, op := range in.Operands(nil) {
			if *op == ssa.Value(once) && h.Name() != "init" {
				uses++
			}
		}
	})
	return uses == 1
}

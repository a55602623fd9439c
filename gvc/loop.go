package main

// Loops: concrete unrolling while the header condition is decided; otherwise the loop is cut at its header.
// What the loop may change is found by a fixpoint; unchanged parts are kept exactly, counters become
// init + c*$i, everything else is arbitrary, related to the iterations by derived summaries:
//   - every completed iteration j < $i satisfied the path condition of one of the body's continuing paths;
//   - a location assigned in the body holds its initial value or the value of the last assigning iteration;
//   - an array (map, channel history, appended slice) likewise, per key.
// Values created inside an iteration become functions of the iteration number.
// Contract-supplied candidate invariants are added when they are inductive (Houdini).

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
}

// loopsOf finds the natural loops of a function.
func loopsOf(f *ssa.Function) map[*ssa.BasicBlock]*Loop {
	res := map[*ssa.BasicBlock]*Loop{}
	n := 0
	for _, b := range f.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				lp := res[h]
				if lp == nil {
					lp = &Loop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					res[h] = lp
				}
				var stack []*ssa.BasicBlock
				if !lp.blocks[b] {
					lp.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					c := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range c.Preds {
						if !lp.blocks[p] {
							lp.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	for _, b := range f.Blocks {
		if lp := res[b]; lp != nil {
			lp.ord = n
			n++
		}
	}
	return res
}

// iter is a loop to be cut.
type iter struct {
	key   string // identifies the loop for memoization
	fn    string
	ord   int
	types []types.Type // carried values
	hints []string
	init  []Value
	run   func(st *State, vals []Value) []Outcome
	next  func(o Outcome) []Value // carried values at a closing edge
	back  func(o Outcome) bool
	fr    *Frame
	vars  map[string]TV
	seen  string                  // leaf of the visited keys of a Range
	cond  func(o Outcome) []*Term // candidate bounds, evaluated in a closing outcome's frame
}

type loopShape struct {
	heap   map[string]map[*Term]bool // leaf -> stable refs written
	whole  map[string]bool           // leaf havocked entirely
	scal   map[string]bool           // scalar leaf havocked
	forced map[string]bool           // carried leaf or location that is not linear
}

type loopHead struct {
	i   *Term
	it  *iter
	key Value // key the loop's Range visits
	kt  types.Type
	// variables numbered in (enter, built] or (ready, run] belong to earlier rounds or runs of the loop
	enter, built, ready, run int
}

// stale: the term mentions a variable of an earlier round or run of an enclosing loop.
func (x *X) stale(t *Term) bool {
	bad := false
	collect(t, map[*Term]bool{}, func(s *Term) {
		if s.Op == "var" {
			n := varNum(s)
			for _, h := range x.headStack {
				if h.enter < n && n <= h.built || h.ready < n && n <= h.run {
					bad = true
				}
			}
		}
	})
	return bad
}

func (x *X) loopEntry(fr *Frame, st *State, from *ssa.BasicBlock, lp *Loop, rg *region) []Outcome {
	h := lp.header
	if fr.unroll[h] < 200 && x.headerConst(fr, st, lp) {
		fr.unroll[h]++
		return x.run(fr, st, h, firstNonPhi(h), rg)
	}
	it := &iter{key: fmt.Sprintf("%s#%d@%d/%d", fr.fn, h.Index, fr.depth, len(x.headStack)), fn: fr.fn.String(), fr: fr}
	if _, ok := x.loopOrd[it.key]; !ok { // loops are numbered in the order they are first reached
		x.loopOrd[it.key] = len(x.loopOrd)
	}
	it.ord = x.loopOrd[it.key]
	for _, ins := range h.Instrs {
		if n, ok := ins.(*ssa.Next); ok {
			if ri, ok := x.val(fr, n.Iter).(*rangeIter); ok && !ri.str {
				it.seen = ri.leaf
			}
		}
	}
	var phis []*ssa.Phi
	for _, ins := range h.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		it.types = append(it.types, p.Type())
		it.hints = append(it.hints, p.Comment)
		it.init = append(it.init, fr.env[p])
	}
	it.run = func(s *State, vals []Value) []Outcome {
		f2 := fr.clone()
		f2.cut = map[*ssa.BasicBlock]bool{h: true}
		for k := range fr.cut {
			f2.cut[k] = true
		}
		for i, p := range phis {
			f2.env[p] = vals[i]
		}
		return x.run(f2, s, h, firstNonPhi(h), &region{lp.blocks, h})
	}
	it.back = func(o Outcome) bool { return o.kind == oEdge && o.to == h }
	it.next = func(o Outcome) []Value {
		idx := -1
		for i, p := range h.Preds {
			if p == o.from {
				idx = i
			}
		}
		var vs []Value
		for _, p := range phis {
			vs = append(vs, x.val(o.fr, p.Edges[idx]))
		}
		return vs
	}
	it.cond = func(o Outcome) []*Term {
		iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
		if !ok {
			return nil
		}
		b, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			return nil
		}
		l, ok1 := x.val(o.fr, b.X).(*Term)
		r, ok2 := x.val(o.fr, b.Y).(*Term)
		if !ok1 || !ok2 || l.Sort != sInt {
			return nil
		}
		inLoop := lp.blocks[h.Succs[0]]
		op := b.Op
		if !inLoop {
			return nil
		}
		switch op {
		case token.LSS, token.NEQ:
			return []*Term{Le(l, r)}
		case token.LEQ:
			return []*Term{Le(l, Add(r, Int(1)))}
		case token.GTR:
			return []*Term{Le(r, l)}
		case token.GEQ:
			return []*Term{Le(r, Add(l, Int(1)))}
		}
		return nil
	}
	outs := x.cutLoop(st, it)
	var res []Outcome
	for _, o := range outs {
		switch o.kind {
		case oEdge:
			o.fr.cut = fr.cut
			res = append(res, x.edge(o.fr, o.st, o.from, o.to, rg)...)
		default:
			if o.fr != nil {
				o.fr.cut = fr.cut
			}
			res = append(res, o)
		}
	}
	return res
}

// headerConst: executing the header decides its condition.
func (x *X) headerConst(fr *Frame, st *State, lp *Loop) bool {
	h := lp.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	if lp.blocks[h.Succs[0]] && lp.blocks[h.Succs[1]] {
		return false
	}
	f2, s2 := fr.clone(), st.clone()
	x.quiet++
	defer func() { x.quiet-- }()
	for i := firstNonPhi(h); i < len(h.Instrs)-1; i++ {
		switch in := h.Instrs[i].(type) {
		case *ssa.BinOp, *ssa.FieldAddr, *ssa.Extract, *ssa.DebugRef, *ssa.Convert, *ssa.ChangeType:
			x.simple(f2, s2, h.Instrs[i])
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				return false
			}
			x.simple(f2, s2, in)
		case *ssa.Call:
			b, ok := in.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return false
			}
			outs, _ := x.forking(f2, s2, in)
			f2.env[in] = outs[0].res[0]
		case *ssa.Next:
			ri, ok := x.val(f2, in.Iter).(*rangeIter)
			if !ok || !ri.str || ri.s.Op != "str" {
				return false
			}
			p := x.get(s2, ri.leaf, sInt)
			return p.Op == "int"
		default:
			return false
		}
	}
	c := s2.simp(x.val(f2, iff.Cond).(*Term))
	return c == tTrue || c == tFalse
}

// storedAt: the heap term has a store at r.
func storedAt(h, r *Term) bool {
	for h != nil && h.Op == "store" {
		if h.Args[1] == r {
			return true
		}
		h = h.Args[0]
	}
	return false
}

type loc struct {
	name       string
	head, init *Term
	sort       string
	linear     bool
	set        func(*Term)
}

func (x *X) cutLoop(st0 *State, it *iter) []Outcome {
	shape := x.e.shapes[it.key]
	if shape == nil {
		shape = &loopShape{heap: map[string]map[*Term]bool{}, whole: map[string]bool{}, scal: map[string]bool{}, forced: map[string]bool{}}
		x.e.shapes[it.key] = shape
	}
	// objects of earlier rounds of an enclosing loop are gone
	for leaf, rs := range shape.heap {
		for r := range rs {
			if r.Op == "ref" && r.I.Sign() > 0 && !storedAt(st0.heap[leaf], r) || x.stale(r) {
				delete(rs, r)
			}
		}
	}
	for n := range shape.forced {
		if i := strings.LastIndex(n, "@&"); i > 0 && strings.Trim(n[i+2:], "0123456789") == "" {
			k, _ := strconv.Atoi(n[i+2:])
			if !storedAt(st0.heap[n[:i]], Ref(k)) {
				delete(shape.forced, n)
			}
		}
	}
	linear := map[string]*Term{} // location -> step
	havocAll := true             // first round: carried values arbitrary
	_ = havocAll
	stable := map[string]bool{}
	freshMark, refMark := 0, 0
	var locs []*loc
	var head *State
	var vals []Value
	var iv *Term
	var loopVars map[*Term]*loc
	loopID := 0
	enter, ready := x.freshN, 0
	push := func() {
		x.headStack = append(x.headStack, &loopHead{i: iv, it: it, enter: enter, built: freshMark, ready: ready, run: x.freshN})
	}

	build := func() {
		x.loopN++
		loopID = x.loopN
		x.refN++ // leave room for objects of earlier iterations
		freshMark = x.freshN
		head = st0.clone()
		locs = nil
		loopVars = map[*Term]*loc{}
		x.freshN++
		iv = Var(fmt.Sprintf("v!%d!$i!%d", x.freshN, x.loopN), sInt)
		loopVars[iv] = nil
		head.add(Le(tZero, iv))
		mk := func(name, sort string, init *Term, forceArr bool) *Term {
			l := &loc{name: name, init: init, sort: sort}
			locs = append(locs, l)
			if strings.HasSuffix(name, ".$off") && init == tZero && !shape.forced[name] {
				stable[name] = true // until a round shows otherwise
			}
			if stable[name] && !shape.forced[name] {
				l.head = init
				return init
			}
			if c := linear[name]; c != nil && !shape.forced[name] {
				l.linear = true
				l.head = Add(init, Mul(iv, c))
				return l.head
			}
			hint := name
			if k := strings.LastIndexAny(hint, "/"); k >= 0 {
				hint = hint[k+1:]
			}
			if strings.HasPrefix(name, "phi") && strings.HasSuffix(name, ".$arr") {
				hint += "<" + itoa(x.refN+1) // older than any object allocated from here on
			}
			v := x.fresh(hint, sort)
			l.head = v
			loopVars[v] = l
			return v
		}
		vals = nil
		for k, t := range it.types {
			fl := x.flatten(it.init[k], t)
			var ts []*Term
			for q, lf := range leaves(t) {
				ts = append(ts, mk(fmt.Sprintf("phi%d:%s%s", k, it.hints[k], lf.suf), lf.sort, fl[q], false))
			}
			v := x.unflatten(ts, t)
			vals = append(vals, v)
			x.deepFacts(head, v, t)
		}
		for _, leaf := range sortedKeys(shape.scal) {
			init := st0.heap[leaf]
			if init == nil {
				init = x.get(head, leaf, x.e.leafSort[leaf])
			}
			head.heap[leaf] = mk("$"+leaf, init.Sort, init, false)
			if strings.HasPrefix(leaf, "$ev.") || leaf == "$clock" {
				head.add(Le(init, head.heap[leaf]))
			}
		}
		for _, leaf := range sortedKeys(shape.heap) {
			if shape.whole[leaf] {
				continue
			}
			srt := x.e.leafSort[leaf]
			h0 := x.get(head, leaf, srt)
			h := h0
			_, es := splitArr(srt)
			var refs []*Term
			for r := range shape.heap[leaf] {
				refs = append(refs, r)
			}
			sortTerms(refs)
			for _, r := range refs {
				v := mk(leaf+"@"+r.String(), es, Select(h0, r), true)
				h = Store(h, r, v)
				if ks, vs := arrOf(es); v.Op == "var" && vs == sIface {
					// slices in a table of interface values, too, are older than anything allocated from here on
					for n, t := range typeByID {
						if _, ok := t.Underlying().(*types.Slice); !ok {
							continue
						}
						i := FreshBV("i", ks)
						b := Select(v, i)
						head.add(Forall(i, Imp(Eq(ityp(b), Int(int64(n+1))), Lt(x.ifaceVal(b, t).(*Slice).Arr, Ref(x.refN+1)))))
					}
				}
				if v.Op == "var" && x.e.refLeaf[leaf] {
					if es == sInt {
						head.add(Lt(v, Ref(x.refN+1)))
					} else if ks, vs := splitArr(es); vs == sInt {
						i := FreshBV("i", ks)
						head.add(Forall(i, Lt(Select(v, i), Ref(x.refN+1))))
					}
				}
			}
			head.heap[leaf] = h
		}
		for _, leaf := range sortedKeys(shape.whole) {
			srt := x.e.leafSort[leaf]
			v := x.fresh("H!"+leaf, srt)
			loopVars[v] = &loc{name: "whole:" + leaf, head: v, sort: srt}
			head.heap[leaf] = v
			if x.e.refLeaf[leaf] {
				// what the heap refers to is older than anything allocated from here on
				a := FreshBV("a", sInt)
				_, es := splitArr(srt)
				if es == sInt {
					head.add(Forall(a, Lt(Select(v, a), Ref(x.refN+1))))
				} else if ks, vs := splitArr(es); vs == sInt {
					i := FreshBV("i", ks)
					head.add(Forall(a, Forall(i, Lt(Select(Select(v, a), i), Ref(x.refN+1)))))
				}
			}
		}
		refMark = x.refN
		ready = x.freshN
	}

	isLoopTerm := func(t *Term) bool {
		bad := false
		collect(t, map[*Term]bool{}, func(s *Term) {
			if bad {
				return
			}
			if _, ok := loopVars[s]; ok {
				bad = true
			}
			if s.Op == "var" && varNum(s) > freshMark {
				bad = true
			}
			if s.Op == "ref" && s.I.Int64() > int64(refMark) {
				bad = true
			}
		})
		return bad
	}

	var outs []Outcome
	var backs []Outcome
	var nexts [][]Value
	for round := 0; ; round++ {
		if round > 12 {
			unsup("loop in %s: no fixpoint", it.fn)
		}
		build()
		x.quiet++
		x.noCand++
		push()
		outs = it.run(head.clone(), vals)
		x.headStack = x.headStack[:len(x.headStack)-1]
		x.noCand--
		x.quiet--
		backs, nexts = nil, nil
		for _, o := range outs {
			if it.back(o) && !o.st.dead {
				backs = append(backs, o)
				nexts = append(nexts, it.next(o))
			}
		}
		changed := false
		// heap writes
		for _, o := range backs {
			for _, leaf := range sortedKeys(o.st.heap) {
				t := o.st.heap[leaf]
				base := head.heap[leaf]
				if base == nil {
					if t.Op == "var" && t.Name == x.heapPrefix+leaf {
						continue
					}
					base = x.get(head, leaf, t.Sort)
				}
				if t == base {
					continue
				}
				x.e.leafSort[leaf] = t.Sort
				if strings.HasPrefix(leaf, "$") {
					if !shape.scal[leaf] {
						shape.scal[leaf] = true
						changed = true
					}
					continue
				}
				if shape.whole[leaf] {
					continue
				}
				refs, ok := writtenRefs(t, base)
				if !ok {
					shape.whole[leaf] = true
					changed = true
					debugf("loop %s: leaf %s havocked entirely (%s)", it.key, leaf, head3(t))
					continue
				}
				for _, r := range refs {
					if r.Op == "ref" && r.I.Int64() > int64(refMark) {
						continue
					}
					if isLoopTerm(r) {
						shape.whole[leaf] = true
						changed = true
						debugf("loop %s: leaf %s written at %s", it.key, leaf, r)
						break
					}
					if shape.heap[leaf] == nil {
						shape.heap[leaf] = map[*Term]bool{}
					}
					if !shape.heap[leaf][r] {
						shape.heap[leaf][r] = true
						changed = true
					}
				}
			}
		}
		// carried values and scalar locations
		for _, l := range locs {
			same, lin := true, true
			var step *Term
			for bi, o := range backs {
				t := x.locValue(it, l, o, nexts[bi])
				if t != l.head && same && !o.st.lits[Eq(t, l.head)] && (l.name[0] == '$' || l.sort == sInt && Sub(t, l.head).Op == "int" || !x.e.valid(x, o.st.pc, Eq(t, l.head))) {
					same = false
				}
				if l.sort != sInt {
					lin = false
				} else {
					d := Sub(t, l.head)
					if d.Op != "int" || (step != nil && step != d) {
						lin = false
					}
					step = d
				}
			}
			switch {
			case stable[l.name] && !shape.forced[l.name]:
				if !same {
					shape.forced[l.name] = true
					changed = true
				}
			case linear[l.name] != nil && !shape.forced[l.name]:
				if !lin || step != linear[l.name] {
					shape.forced[l.name] = true
					changed = true
				}
			case shape.forced[l.name]:
			case len(backs) == 0:
			case same:
				stable[l.name] = true
				changed = true
			case lin && step != nil && step != tZero:
				linear[l.name] = step
				changed = true
			}
		}
		if !changed {
			break
		}
	}

	// derived summaries
	inv := x.summaries(loopID, st0, it, head, locs, backs, nexts, iv, loopVars, freshMark, refMark, isLoopTerm)

	inv = append(inv, x.candidates(st0, it, head, vals, locs, inv, iv, push)...)

	if x.quiet > 0 {
		var res []Outcome
		for _, o := range outs {
			if it.back(o) {
				continue
			}
			s := o.st
			for _, f := range inv {
				s.add(f)
			}
			if !s.dead {
				res = append(res, o)
			}
		}
		return res
	}
	for _, f := range inv {
		head.add(f)
	}
	push()
	outs = it.run(head, vals)
	x.headStack = x.headStack[:len(x.headStack)-1]
	var res []Outcome
	for _, o := range outs {
		if !it.back(o) {
			res = append(res, o)
		}
	}
	return res
}

// candidates keeps the contract's candidate invariants that hold initially and are preserved (Houdini).
func (x *X) candidates(st0 *State, it *iter, head *State, vals []Value, locs []*loc, inv []*Term, iv *Term, push func()) []*Term {
	if x.ctr == nil || x.entry == nil || x.noCand > 0 || len(x.ctr.Invariants)+len(x.ctr.LoopVals) == 0 || x.ctr.PlainLoops > 0 && it.ord >= x.ctr.PlainLoops {
		return nil
	}
	type cand struct {
		label string
		at    func(st *State, i *Term, o *Outcome, next []Value) *Term
	}
	eval := func(cl *Clause, st *State, i *Term) (v Value) {
		defer func() {
			if r := recover(); r != nil {
				if se, ok := r.(specErr); ok {
					debugf("candidate %s: %s", cl.Label, se.msg)
					v = nil
					return
				}
				panic(r)
			}
		}()
		vars := map[string]TV{"iter": {i, types.Typ[types.Int]}}
		for k, v := range x.params {
			vars[k] = v
		}
		for k, v := range it.vars {
			vars[k] = v
		}
		env := &SpecEnv{x: x, st: st, old: x.entry, vars: vars, it: it}
		return env.eval(cl.Expr).V
	}
	var cs []*cand
	for _, cl := range x.ctr.Invariants {
		cl := cl
		if len(cl.Tags) > 0 && x.prop != "" && !wanted(cl.Tags, x.prop) {
			continue
		}
		cs = append(cs, &cand{cl.Label, func(st *State, i *Term, o *Outcome, next []Value) *Term {
			t, _ := eval(cl, st, i).(*Term)
			return t
		}})
	}
	for _, cl := range x.ctr.LoopVals {
		for _, l := range locs {
			cl, l := cl, l
			if l.linear || l.head == l.init || strings.HasPrefix(l.name, "$ev.") || l.name == "$clock" {
				continue
			}
			cs = append(cs, &cand{cl.Label + "=" + l.name, func(st *State, i *Term, o *Outcome, next []Value) *Term {
				t, _ := eval(cl, st, i).(*Term)
				if t == nil || t.Sort != l.sort {
					return nil
				}
				switch {
				case o != nil:
					return Eq(x.locValue(it, l, *o, next), t)
				case i == tZero:
					return Eq(l.init, t)
				}
				return Eq(l.head, t)
			}})
		}
	}
	// hold initially
	var keep []*cand
	for _, c := range cs {
		t := c.at(st0, tZero, nil, nil)
		if t == nil {
			continue
		}
		if !x.e.validQ(st0, t, "init "+c.label+" "+it.key) {
			debugf("candidate %s of %s fails initially", c.label, it.key)
			continue
		}
		keep = append(keep, c)
	}
	for len(keep) > 0 {
		h2 := head.clone()
		for _, f := range inv {
			h2.add(f)
		}
		can := keep[:0]
		for _, c := range keep {
			if t := c.at(head, iv, nil, nil); t != nil {
				h2.add(t)
				can = append(can, c)
			}
		}
		keep = can
		if len(keep) == 0 {
			break
		}
		x.quiet++
		push()
		outs := it.run(h2, vals)
		x.headStack = x.headStack[:len(x.headStack)-1]
		x.quiet--
		drop := map[*cand]bool{}
		for _, o := range outs {
			if !it.back(o) || o.st.dead {
				continue
			}
			o := o
			nx := it.next(o)
			for _, c := range keep {
				if drop[c] {
					continue
				}
				t := c.at(o.st, Add(iv, Int(1)), &o, nx)
				if t == nil || !x.e.validQ(o.st, t, "kept "+c.label+" "+it.key) {
					debugf("candidate %s of %s is not preserved", c.label, it.key)
					drop[c] = true
				}
			}
		}
		if len(drop) == 0 {
			break
		}
		var k2 []*cand
		for _, c := range keep {
			if !drop[c] {
				k2 = append(k2, c)
			}
		}
		keep = k2
	}
	var res []*Term
	for _, c := range keep {
		debugf("candidate %s of %s holds", c.label, it.key)
		res = append(res, c.at(head, iv, nil, nil))
	}
	return res
}

func head3(t *Term) string {
	s := t.String()
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

func varNum(t *Term) int {
	var n int
	if strings.HasPrefix(t.Name, "v!") {
		fmt.Sscanf(t.Name[2:], "%d", &n)
	}
	return n
}

func sortTerms(ts []*Term) {
	for i := range ts {
		for j := i + 1; j < len(ts); j++ {
			if ts[j].id < ts[i].id {
				ts[i], ts[j] = ts[j], ts[i]
			}
		}
	}
}

// writtenRefs lists the indices stored to between t and base.
func writtenRefs(t, base *Term) ([]*Term, bool) {
	seen := map[*Term]bool{}
	var out []*Term
	ok := true
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == base || !ok || seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case "store":
			out = append(out, t.Args[1])
			walk(t.Args[0])
		case "ite":
			walk(t.Args[1])
			walk(t.Args[2])
		default:
			// base may itself be a store chain: accept if t is one of its suffixes
			b := base
			for b.Op == "store" {
				out = append(out, b.Args[1])
				b = b.Args[0]
				if b == t {
					return
				}
			}
			ok = false
		}
	}
	walk(t)
	return out, ok
}

// stripFresh: the array arr is older than the iteration, so what the iteration stores in arrays it made itself
// does not show in it.
func stripFresh(t, arr *Term, refMark int) *Term {
	m := map[*Term]*Term{}
	collect(t, map[*Term]bool{}, func(s *Term) {
		if s.Op != "select" || s.Args[1] != arr {
			return
		}
		h := s.Args[0]
		for h.Op == "store" && h.Args[1].Op == "ref" && h.Args[1].I.Int64() > int64(refMark) {
			h = h.Args[0]
		}
		if h != s.Args[0] {
			m[s] = Select(h, arr)
		}
	})
	if len(m) == 0 {
		return t
	}
	return Subst(t, m)
}

// locValue is the value of location l at a closing edge.
func (x *X) locValue(it *iter, l *loc, o Outcome, next []Value) *Term {
	if strings.HasPrefix(l.name, "phi") {
		var k int
		fmt.Sscanf(l.name[3:], "%d:", &k)
		rest := l.name[strings.Index(l.name, ":")+1+len(it.hints[k]):]
		fl := x.flatten(next[k], it.types[k])
		for q, lf := range leaves(it.types[k]) {
			if lf.suf == rest {
				return fl[q]
			}
		}
		panic("locValue " + l.name)
	}
	if strings.HasPrefix(l.name, "$") {
		return o.st.heap[l.name[1:]]
	}
	at := strings.LastIndex(l.name, "@")
	leaf := l.name[:at]
	h := o.st.heap[leaf]
	// the reference is the one in the head's store
	for r := range x.e.shapes[it.key].heap[leaf] {
		if r.String() == l.name[at+1:] {
			return Select(h, r)
		}
	}
	panic("locValue " + l.name)
}

// generalize turns a formula about the current iteration into one about iteration j.
type generalizer struct {
	x         *X
	iv        *Term
	loopVars  map[*Term]*loc
	freshMark int
	refMark   int
	id        int
}

func (g *generalizer) at(t, j *Term) *Term {
	memo := map[*Term]*Term{}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if t == g.iv {
			return j
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		_, lv := g.loopVars[t]
		switch {
		case lv, t.Op == "var" && varNum(t) > g.freshMark:
			r = App(fmt.Sprintf("at!%d!%s", g.id, t.Name), t.Sort, j)
		case t.Op == "ref" && t.I.Int64() > int64(g.refMark):
			r = App(fmt.Sprintf("refat!%d!%s!%d", g.id, t.I, g.refMark), sInt, j)
		case len(t.Args) > 0:
			as := make([]*Term, len(t.Args))
			ch := false
			for i, a := range t.Args {
				as[i] = walk(a)
				if as[i] != a {
					ch = true
				}
			}
			if t.Op == "app" && g.inner(t.Name) {
				n := t.Name
				if strings.HasPrefix(n, "refat!") {
					// objects of earlier outer iterations live in the outer loop's room
					fs := strings.SplitN(n, "!", 4)
					tail := ""
					if k := strings.IndexByte(fs[3], '^'); k >= 0 {
						tail = fs[3][k:]
					}
					n = fmt.Sprintf("refat!%s!%s!%d%s", fs[1], fs[2], g.refMark, tail)
				}
				r = App(fmt.Sprintf("%s^%d", n, g.id), t.Sort, append(as, j)...)
			} else if ch {
				r = rebuild(t, as)
			}
		case t.Op == "app" && g.inner(t.Name):
			r = App(fmt.Sprintf("%s^%d", t.Name, g.id), t.Sort, j)
		}
		memo[t] = r
		return r
	}
	return walk(t)
}

// inner: a summary function of a loop run inside this loop's iteration.
func (g *generalizer) inner(name string) bool {
	for _, p := range []string{"at!", "wr!", "src!", "refat!", "prod!", "path!"} {
		if strings.HasPrefix(name, p) {
			rest := name[len(p):]
			k := strings.IndexByte(rest, '!')
			var n int
			fmt.Sscanf(rest[:k], "%d", &n)
			return n > g.id
		}
	}
	return false
}

// usable: the formula does not depend on arrays changed by the loop.
func (g *generalizer) usable(t *Term) bool {
	ok := true
	collect(t, map[*Term]bool{}, func(s *Term) {
		if l, in := g.loopVars[s]; in && l != nil && strings.HasPrefix(s.Sort, "(Array") {
			ok = false
		}
	})
	return ok
}

func (x *X) summaries(id int, st0 *State, it *iter, head *State, locs []*loc, backs []Outcome, nexts [][]Value, iv *Term, loopVars map[*Term]*loc, freshMark, refMark int, isLoopTerm func(*Term) bool) []*Term {
	if len(backs) == 0 {
		return []*Term{Eq(iv, tZero)}
	}
	if x.ctr != nil && len(x.headStack) < x.ctr.Plain && (x.ctr.PlainLoops == 0 || it.ord < x.ctr.PlainLoops) && (x.prop == "" || len(x.ctr.PlainTags) == 0 || wanted(x.ctr.PlainTags, x.prop)) {
		return x.condBounds(st0, it, backs, iv, loopVars, freshMark)
	}
	g := &generalizer{x, iv, loopVars, freshMark, refMark, id}
	var inv []*Term
	np := len(backs)
	conds := make([]*Term, np)
	for p, o := range backs {
		var cs []*Term
		for _, c := range o.st.pc[len(head.pc):] {
			if g.usable(c) {
				cs = append(cs, c)
			}
		}
		conds[p] = And(cs...)
	}
	extra := make([][]func(j *Term) *Term, np)

	// views: scalars and arrays
	type view struct {
		name       string
		head, init *Term
		back       []*Term
		sort       string
	}
	var views []*view
	for _, l := range locs {
		if l.linear || l.head == l.init {
			continue
		}
		v := &view{name: l.name, head: l.head, init: l.init, sort: l.sort}
		for p, o := range backs {
			v.back = append(v.back, x.locValue(it, l, o, nexts[p]))
		}
		views = append(views, v)
	}
	// contents of carried slices
	for k, t := range it.types {
		st, ok := t.Underlying().(*types.Slice)
		if !ok || isByte(st.Elem()) {
			continue
		}
		hs := x.headVal(it, locs, k, t)
		s := hs.(*Slice)
		if s.Arr.Op == "ref" || s.Arr == x.flatten(it.init[k], t)[0] {
			continue
		}
		s0 := it.init[k].(*Slice)
		for _, lf := range leaves(st.Elem()) {
			leaf := "[]" + typeKey(st.Elem()) + lf.suf
			srt := arr(sInt, arr(sInt, lf.sort))
			h := x.get(head, leaf, srt)
			init := Select(x.get(st0, leaf, srt), s0.Arr)
			if s0.Off != tZero {
				continue
			}
			v := &view{name: "cont:" + leaf, head: Select(h, s.Arr), init: init, sort: arr(sInt, lf.sort)}
			for p, o := range backs {
				ns := nexts[p][k].(*Slice)
				v.back = append(v.back, stripFresh(Select(x.get(o.st, leaf, srt), ns.Arr), s.Arr, refMark))
			}
			views = append(views, v)
		}
	}
	// slices held at stable locations
	for _, l := range locs {
		if !strings.HasSuffix(strings.SplitN(l.name, "@", 2)[0], ".$arr") || strings.HasPrefix(l.name, "phi") || l.head == l.init {
			continue
		}
		_ = l
	}

	objs := x.newObjects(g, head, backs, func(add func(*Term), p int) {
		for _, v := range views {
			add(v.back[p])
		}
	})
	for p := range backs {
		if objs[p] != nil {
			extra[p] = append(extra[p], objs[p])
		}
	}
	// at: what holds after an iteration j that took path p
	took := func(p int, j *Term) *Term {
		if np == 1 {
			return g.at(conds[p], j)
		}
		return And(Eq(App(fmt.Sprintf("path!%d!", g.id), sInt, j), Int(int64(p))), g.at(conds[p], j))
	}
	condAt := func(p int, j *Term) *Term {
		if objs[p] != nil {
			return And(took(p, j), objs[p](j))
		}
		return took(p, j)
	}

	type group struct {
		wr, src string
		keys    []*Term // per path, nil when not storing
		ks      string
	}
	groups := map[string]*group{}
	find := func(keys []*Term, ks string) (*group, bool) {
		sig := ks
		for _, k := range keys {
			if k == nil {
				sig += "|-"
			} else {
				sig += fmt.Sprintf("|%d", k.id)
			}
		}
		if gr, ok := groups[sig]; ok {
			return gr, false
		}
		n := len(groups)
		gr := &group{fmt.Sprintf("wr!%d!%d", g.id, n), fmt.Sprintf("src!%d!%d", g.id, n), keys, ks}
		groups[sig] = gr
		return gr, true
	}
	inRange := func(j *Term) *Term { return And(Le(tZero, j), Lt(j, iv)) }

	for _, v := range views {
		if strings.HasPrefix(v.sort, "(Array") {
			ks, _ := splitArr(v.sort)
			keys := make([]*Term, np)
			valsP := make([]*Term, np)
			ok := true
			var multi [][][2]*Term // per path: the stores, oldest first
			many := false
			for p, t := range v.back {
				var sts [][2]*Term
				b := t
				for b != v.head && b.Op == "store" && g.usable(b.Args[1]) {
					sts = append([][2]*Term{{b.Args[1], b.Args[2]}}, sts...)
					b = b.Args[0]
				}
				if b != v.head {
					ok = false
				}
				if len(sts) == 1 {
					keys[p], valsP[p] = sts[0][0], sts[0][1]
				}
				many = many || len(sts) > 1
				multi = append(multi, sts)
			}
			if ok && many {
				inv = append(inv, x.multiStore(g, v.head, v.init, ks, multi, locs, len(groups), condAt, extra, inRange)...)
				groups[fmt.Sprintf("multi:%s", v.name)] = &group{}
				continue
			}
			if !ok {
				debugf("loop %s: no summary for %s: %s", it.key, v.name, head3(v.back[0]))
				continue
			}
			gr, isNew := find(keys, ks)
			k := FreshBV("k", ks)
			wr := App(gr.wr, sBool, k)
			src := App(gr.src, sInt, k)
			inv = append(inv, Forall(k, Or(wr, Eq(Select(v.head, k), Select(v.init, k)))))
			var alts []*Term
			for p := range backs {
				if keys[p] == nil {
					continue
				}
				cs := []*Term{condAt(p, src), Eq(g.at(keys[p], src), k)}
				if g.usable(valsP[p]) {
					cs = append(cs, Eq(Select(v.head, k), g.at(valsP[p], src)))
				}
				alts = append(alts, And(cs...))
			}
			inv = append(inv, Forall(k, Imp(wr, And(inRange(src), Or(alts...)))))
			if isNew {
				// is the key a counter that advances exactly when storing?
				for p := range backs {
					if keys[p] == nil {
						continue
					}
					key := keys[p]
					counter := x.isCounter(key, keys, it, locs, backs, nexts, g)
					extra[p] = append(extra[p], func(j *Term) *Term {
						kj := g.at(key, j)
						if counter {
							return And(App(gr.wr, sBool, kj), Eq(App(gr.src, sInt, kj), j))
						}
						return And(App(gr.wr, sBool, kj), Le(j, App(gr.src, sInt, kj)))
					})
					if counter {
						b, c := linBase(key)
						init := x.initOf(b, locs)
						if init != nil {
							kk := FreshBV("k", sInt)
							lo := Add(init, IntBig(c))
							inv = append(inv, Forall(kk, Eq(App(gr.wr, sBool, kk), And(Le(lo, kk), Lt(kk, key)))))
						}
					}
				}
			} else {
				_ = isNew
			}
			continue
		}
		// scalar: last writer
		valsP := make([]*Term, np)
		ok := true
		for p, t := range v.back {
			if t == v.head {
				continue
			}
			valsP[p] = t
			if !g.usable(t) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		if !strings.HasPrefix(v.name, "$$ev.") && v.name != "$$clock" {
			n := len(groups)
			wrN, srcN := fmt.Sprintf("wr!%d!%d", g.id, n), fmt.Sprintf("src!%d!%d", g.id, n)
			sig := "scalar"
			for p := range valsP {
				if valsP[p] == nil {
					sig += "-"
				} else {
					sig += "+"
				}
			}
			if gr, ok := groups[sig]; ok {
				wrN, srcN = gr.wr, gr.src
			} else {
				groups[sig] = &group{wr: wrN, src: srcN}
				for p := range backs {
					if valsP[p] != nil {
						extra[p] = append(extra[p], func(j *Term) *Term {
							return And(App(wrN, sBool), Le(j, App(srcN, sInt)))
						})
					}
				}
			}
			wr, src := App(wrN, sBool), App(srcN, sInt)
			inv = append(inv, Or(wr, Eq(v.head, v.init)))
			var alts []*Term
			for p := range backs {
				if valsP[p] == nil {
					continue
				}
				cs := []*Term{condAt(p, src), Eq(v.head, g.at(valsP[p], src))}
				alts = append(alts, And(cs...))
			}
			inv = append(inv, Imp(wr, And(inRange(src), Or(alts...))))
			// flags: the value the next iteration starts with is the one this one left
			if v.sort == sBool && !strings.HasPrefix(v.name, "$") {
				inv = append(inv, Imp(Lt(tZero, iv), Eq(g.at(v.head, tZero), v.init)))
				for p := range backs {
					b := v.back[p]
					extra[p] = append(extra[p], func(j *Term) *Term {
						next := Add(j, Int(1))
						return And(Imp(Lt(next, iv), Eq(g.at(v.head, next), g.at(b, j))), Imp(Eq(next, iv), Eq(v.head, g.at(b, j))))
					})
				}
			}
			// sticky errors: once set they stay set
			if v.sort == sIface {
				sticky := true
				isNil := Eq(v.head, tNil)
				for p := range backs {
					b := v.back[p]
					if b != v.head && !(b.Op == "ite" && b.Args[0] == isNil && b.Args[2] == v.head) {
						sticky = false
					}
				}
				if sticky {
					for p := range backs {
						b := v.back[p]
						if b != v.head {
							b = b.Args[1]
						}
						extra[p] = append(extra[p], func(j *Term) *Term {
							return Imp(isNil, And(Eq(g.at(v.head, j), tNil), Eq(g.at(b, j), tNil)))
						})
					}
				}
			}
		}
		// monotone counters
		if v.sort == sInt {
			up := true
			for p := range backs {
				d := Sub(v.back[p], v.head)
				if d.Op != "int" || d.I.Sign() < 0 || d.I.BitLen() > 1 {
					up = false
				}
			}
			if up {
				inv = append(inv, Le(v.init, v.head), Le(v.head, Add(v.init, iv)))
				j := FreshBV("j", sInt)
				hj := g.at(v.head, j)
				inv = append(inv, Forall(j, Imp(inRange(j), And(Le(v.init, hj), Le(hj, v.head)))))
				for p := range backs {
					if b := v.back[p]; b != v.head {
						extra[p] = append(extra[p], func(j *Term) *Term { return Le(g.at(b, j), v.head) })
					}
				}
				if strings.HasPrefix(v.name, "$$ev.") {
					// each event of the loop was produced by some iteration
					ev := v.name[len("$$ev."):]
					n := FreshBV("n", sInt)
					prod := App(fmt.Sprintf("prod!%d!%s", g.id, ev), sInt, n)
					var alts, pats []*Term
					seen := map[string]bool{}
					for p := range backs {
						if v.back[p] == v.head {
							continue
						}
						alts = append(alts, took(p, prod))
						collect(conds[p], map[*Term]bool{}, func(s *Term) {
							if s.Op == "app" && len(s.Args) == 1 && s.Args[0] == v.head && !seen[s.Name] {
								for _, pre := range []string{"A!", "R!", "T!"} {
									if strings.HasPrefix(s.Name, pre+ev) {
										seen[s.Name] = true
										pats = append(pats, App(s.Name, s.Sort, n))
									}
								}
							}
						})
					}
					body := Imp(And(Le(v.init, n), Lt(n, v.head)), And(inRange(prod), Eq(g.at(v.head, prod), n), Or(alts...)))
					if len(pats) > 0 {
						body = cons("pat", "", sBool, nil, append([]*Term{body}, pats...)...)
					}
					inv = append(inv, Forall(n, body))
				}
			}
		}
	}
	// every completed iteration took one of the continuing paths
	j := FreshBV("j", sInt)
	var alts []*Term
	for p := range backs {
		cs := []*Term{took(p, j)}
		for _, f := range extra[p] {
			cs = append(cs, f(j))
		}
		alts = append(alts, And(cs...))
	}
	all := Or(alts...)
	// common conjuncts separately
	inv = append(inv, forallSplit(j, inRange(j), all)...)
	return append(inv, x.condBounds(st0, it, backs, iv, loopVars, freshMark)...)
}

// condBounds: bounds of the loop condition that hold initially and are preserved by every closing path.
func (x *X) condBounds(st0 *State, it *iter, backs []Outcome, iv *Term, loopVars map[*Term]*loc, freshMark int) []*Term {
	var inv []*Term
	for _, o := range backs[:1] {
		if it.cond == nil {
			break
		}
		for _, b := range it.cond(o) {
			okb := true
			collect(b, map[*Term]bool{}, func(s *Term) {
				if s != iv {
					if _, in := loopVars[s]; in {
						okb = false
					}
					if s.Op == "var" && varNum(s) > freshMark && s != iv {
						okb = false
					}
				}
			})
			if !okb {
				continue
			}
			// initially, and preserved by every closing path
			b0 := Subst(b, map[*Term]*Term{iv: tZero})
			b1 := Subst(b, map[*Term]*Term{iv: Add(iv, Int(1))})
			if !x.e.valid(x, st0.pc, b0) {
				continue
			}
			pres := true
			for _, o2 := range backs {
				if !x.e.valid(x, o2.st.pc, b1) {
					pres = false
				}
			}
			if pres {
				inv = append(inv, b)
			}
		}
	}
	return inv
}

// newObjects: objects made in an iteration that outlive it keep the contents it gave them, since no later
// iteration writes to them (leaves written through carried references are havocked and left out).
func (x *X) newObjects(g *generalizer, head *State, backs []Outcome, roots func(add func(*Term), p int)) []func(j *Term) *Term {
	res := make([]func(j *Term) *Term, len(backs))
	for p, o := range backs {
		var work []*Term
		seen := map[*Term]bool{}
		visited := map[*Term]bool{}
		add := func(t *Term) {
			collect(t, visited, func(s *Term) {
				if s.Op == "ref" && s.I.Int64() > int64(g.refMark) && !seen[s] {
					seen[s] = true
					work = append(work, s)
				}
			})
		}
		roots(add, p)
		type fact struct{ h, r, c *Term }
		var facts []fact
		for len(work) > 0 {
			r := work[0]
			work = work[1:]
			for _, leaf := range sortedKeys(o.st.heap) {
				t := o.st.heap[leaf]
				hd := head.heap[leaf]
				if strings.HasPrefix(leaf, "$") || !strings.HasPrefix(t.Sort, "(Array Int") {
					continue
				}
				if hd == nil {
					hd = x.get(head, leaf, t.Sort)
				}
				if t == hd || !g.usable(hd) {
					continue
				}
				if refs, ok := writtenRefs(t, hd); !ok || !containsTerm(refs, r) {
					continue
				}
				c := Select(t, r)
				if c.Op == "select" && c.Args[0] == t || !g.usable(c) {
					continue
				}
				add(c)
				facts = append(facts, fact{hd, r, c})
			}
		}
		if len(facts) > 0 {
			res[p] = func(j *Term) *Term {
				var cs []*Term
				for _, f := range facts {
					cs = append(cs, Eq(Select(f.h, g.at(f.r, j)), g.at(f.c, j)))
				}
				return And(cs...)
			}
		}
	}
	return res
}

func containsTerm(ts []*Term, t *Term) bool {
	for _, s := range ts {
		if s == t {
			return true
		}
	}
	return false
}

func forallSplit(j, guard, body *Term) []*Term {
	if body == tTrue {
		return nil
	}
	if body.Op == "or" {
		// factor conjuncts common to all disjuncts
		count := map[*Term]int{}
		for _, d := range body.Args {
			for _, c := range conjuncts(d) {
				count[c]++
			}
		}
		var common []*Term
		for _, c := range conjuncts(body.Args[0]) {
			if count[c] == len(body.Args) {
				common = append(common, c)
			}
		}
		var out []*Term
		if len(common) > 0 {
			out = append(out, Forall(j, Imp(guard, And(common...))))
			cm := map[*Term]bool{}
			for _, c := range common {
				cm[c] = true
			}
			var ds []*Term
			for _, d := range body.Args {
				var rest []*Term
				for _, c := range conjuncts(d) {
					if !cm[c] {
						rest = append(rest, c)
					}
				}
				ds = append(ds, And(rest...))
			}
			body = Or(ds...)
		}
		if body != tTrue {
			out = append(out, Forall(j, Imp(guard, body)))
		}
		return out
	}
	return []*Term{Forall(j, Imp(guard, body))}
}

func conjuncts(t *Term) []*Term {
	if t.Op == "and" {
		return t.Args
	}
	return []*Term{t}
}

// multiStore relates an array to the iterations when a path may store more than once.
func (x *X) multiStore(g *generalizer, head, init *Term, ks string, multi [][][2]*Term, locs []*loc, n int, condAt func(int, *Term) *Term, extra [][]func(*Term) *Term, inRange func(*Term) *Term) []*Term {
	wrN, srcN := fmt.Sprintf("wr!%d!%d", g.id, n), fmt.Sprintf("src!%d!%d", g.id, n)
	k := FreshBV("k", ks)
	wr, src := App(wrN, sBool, k), App(srcN, sInt, k)
	inv := []*Term{Forall(k, Or(wr, Eq(Select(head, k), Select(init, k))))}
	var alts []*Term
	for p, sts := range multi {
		for q, kv := range sts {
			cs := []*Term{condAt(p, src), Eq(g.at(kv[0], src), k)}
			for _, later := range sts[q+1:] {
				cs = append(cs, Not(Eq(g.at(later[0], src), k)))
			}
			if g.usable(kv[1]) {
				cs = append(cs, Eq(Select(head, k), g.at(kv[1], src)))
			}
			alts = append(alts, And(cs...))
		}
	}
	inv = append(inv, Forall(k, Imp(wr, And(inRange(src), Or(alts...)))))
	// keys that advance by the number of stores: lo + c*iteration + 0, 1, … c-1
	var base *Term
	var lo *big.Int
	even := ks == sInt
	c := len(multi[0])
	for _, sts := range multi {
		if len(sts) != c {
			even = false
			break
		}
		for q, kv := range sts {
			b, off := linBase(kv[0])
			if base == nil {
				base, lo = b, off
			}
			if b == nil || b != base || new(big.Int).Sub(off, lo).Cmp(big.NewInt(int64(q))) != 0 {
				even = false
			}
		}
	}
	even = even && base == Mul(g.iv, Int(int64(c)))
	for p, sts := range multi {
		for _, kv := range sts {
			kv := kv
			extra[p] = append(extra[p], func(j *Term) *Term {
				kj := g.at(kv[0], j)
				if even && g.usable(kv[1]) {
					return And(App(wrN, sBool, kj), Eq(App(srcN, sInt, kj), j), Eq(Select(head, kj), g.at(kv[1], j)))
				}
				return And(App(wrN, sBool, kj), Le(j, App(srcN, sInt, kj)))
			})
		}
	}
	if even {
		kk := FreshBV("k", sInt)
		inv = append(inv, Forall(kk, Eq(App(wrN, sBool, kk), And(Le(IntBig(lo), kk), Lt(kk, Add(Mul(g.iv, Int(int64(c))), IntBig(lo)))))))
	}
	return inv
}

func (x *X) initOf(v *Term, locs []*loc) *Term {
	for _, l := range locs {
		if l.head == v {
			return l.init
		}
	}
	return nil
}

// isCounter: key is a changing integer location that advances by one exactly on the paths that store.
func (x *X) isCounter(key *Term, keys []*Term, it *iter, locs []*loc, backs []Outcome, nexts [][]Value, g *generalizer) bool {
	b, _ := linBase(key)
	for p := range keys {
		if keys[p] != nil && keys[p] != key {
			return false
		}
	}
	if b == g.iv {
		return true
	}
	for _, l := range locs {
		if l.head == nil || l.sort != sInt {
			continue
		}
		lb, _ := linBase(l.head)
		if lb != b {
			continue
		}
		if l.linear {
			return true
		}
		ok := true
		for p, o := range backs {
			d := Sub(x.locValue(it, l, o, nexts[p]), l.head)
			want := int64(0)
			if keys[p] != nil {
				want = 1
			}
			if d != Int(want) {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func (x *X) headVal(it *iter, locs []*loc, k int, t types.Type) Value {
	var ts []*Term
	for _, lf := range leaves(t) {
		name := fmt.Sprintf("phi%d:%s%s", k, it.hints[k], lf.suf)
		for _, l := range locs {
			if l.name == name {
				ts = append(ts, l.head)
			}
		}
	}
	return x.unflatten(ts, t)
}

package main

// Merging of the outcomes of a call: return paths that agree on which results are nil are joined into one state.
// Every fact of a path is kept under the path's selector, every location holds the path's value under it.

import (
	"fmt"
	"go/types"
	"strings"
)

const mergeOver = 4

func (x *X) nilness(st *State, v Value, t types.Type) string {
	switch w := v.(type) {
	case *Ptr:
		if w.Suf != "" || w.Idx != nil {
			return "p"
		}
		return x.nilTerm(st, w.Base, tZero)
	case *Slice:
		return "s"
	case *Term:
		switch {
		case w.Sort == sIface:
			return x.nilTerm(st, w, tNil)
		case w.Sort == sBool:
			c := st.simp(w)
			if c == tTrue || c == tFalse {
				return c.Op
			}
			return "b"
		case w.Op == "int" && w.I.IsInt64() && w.I.Int64() < 1<<20 && w.I.Int64() > -(1<<20):
			return w.I.String()
		}
		return "t"
	}
	return "x"
}

func (x *X) nilTerm(st *State, w, nilT *Term) string {
	c := st.simp(Eq(w, nilT))
	switch c {
	case tTrue:
		return "nil"
	case tFalse:
		return "set"
	}
	return "?"
}

// merge joins return outcomes of a call with results of the given types.
func (x *X) merge(outs []Outcome, rt []types.Type) []Outcome {
	if len(x.headStack) > 0 || len(outs) <= mergeOver || x.noMerge {
		return outs
	}
	groups := map[string][]Outcome{}
	var order []string
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		sig := fmt.Sprintf("k%d", o.kind)
		if o.kind == oRet {
			for i, r := range o.res {
				sig += "/" + x.nilness(o.st, r, rt[i])
			}
		} else {
			sig += fmt.Sprintf("!%d", len(order))
		}
		if groups[sig] == nil {
			order = append(order, sig)
		}
		groups[sig] = append(groups[sig], o)
	}
	var res []Outcome
	for _, s := range order {
		g := groups[s]
		if len(g) == 1 || g[0].kind != oRet {
			res = append(res, g...)
			continue
		}
		if o, ok := x.mergeGroup(g, rt); ok {
			res = append(res, o)
		} else {
			res = append(res, g...)
		}
	}
	return res
}

func (x *X) mergeGroup(g []Outcome, rt []types.Type) (Outcome, bool) {
	n := 0
	first := g[0].st.pc
common:
	for ; n < len(first); n++ {
		for _, o := range g[1:] {
			if n >= len(o.st.pc) || o.st.pc[n] != first[n] {
				break common
			}
		}
	}
	// flattened results must have the same shape
	fl := make([][]*Term, len(g))
	for i, o := range g {
		for k, r := range o.res {
			fl[i] = append(fl[i], x.flatten(r, rt[k])...)
		}
	}
	x.freshN++
	sel := Var(fmt.Sprintf("v!%d!sel", x.freshN), sInt)
	pick := make([]*Term, len(g))
	for i := range g {
		pick[i] = Eq(sel, Int(int64(i)))
	}
	ite := func(vs []*Term) *Term {
		r := vs[len(vs)-1]
		for i := len(vs) - 2; i >= 0; i-- {
			if vs[i] == r {
				continue
			}
			r = Ite(pick[i], vs[i], r)
		}
		return r
	}
	st := &State{pc: append([]*Term{}, first[:n]...), lits: map[*Term]bool{}, heap: map[string]*Term{}}
	for _, c := range st.pc {
		st.lits[c] = true
	}
	cnt := map[*Term]int{}
	for _, o := range g {
		for _, c := range o.st.pc[n:] {
			cnt[c]++
		}
	}
	for _, c := range g[0].st.pc[n:] {
		if cnt[c] == len(g) {
			st.add(c)
		}
	}
	st.add(Le(tZero, sel))
	st.add(Lt(sel, Int(int64(len(g)))))
	for i, o := range g {
		for _, c := range o.st.pc[n:] {
			if cnt[c] != len(g) {
				st.add(Imp(pick[i], c))
			}
		}
	}
	leavesSeen := map[string]bool{}
	for _, o := range g {
		for l := range o.st.heap {
			leavesSeen[l] = true
		}
	}
	for _, l := range sortedKeys(leavesSeen) {
		vs := make([]*Term, len(g))
		var srt string
		for _, o := range g {
			if h := o.st.heap[l]; h != nil {
				srt = h.Sort
			}
		}
		same := true
		for i, o := range g {
			vs[i] = x.get(o.st, l, srt)
			if vs[i] != vs[0] {
				same = false
			}
		}
		switch {
		case same:
			st.heap[l] = vs[0]
		case strings.HasPrefix(srt, "(Array") && !strings.HasPrefix(l, "$"):
			if m := mergeChains(vs, ite); m != nil {
				st.heap[l] = m
			} else {
				st.heap[l] = ite(vs)
			}
		default:
			st.heap[l] = ite(vs)
		}
	}
	var res []Value
	at := 0
	for k := range rt {
		m := len(leaves(rt[k]))
		ts := make([]*Term, m)
		for q := 0; q < m; q++ {
			vs := make([]*Term, len(g))
			for i := range g {
				vs[i] = fl[i][at+q]
			}
			ts[q] = ite(vs)
		}
		at += m
		res = append(res, x.unflatten(ts, rt[k]))
	}
	for k, r := range res {
		switch x.nilness(g[0].st, g[0].res[k], rt[k]) {
		case "set":
			if w, ok := r.(*Term); ok {
				st.add(Not(Eq(w, tNil)))
			} else if p, ok := r.(*Ptr); ok {
				st.add(Not(Eq(p.Base, tZero)))
			}
		case "nil":
			if w, ok := r.(*Term); ok && w != tNil && w.Sort == sIface {
				res[k] = tNil
			}
		}
	}
	return Outcome{kind: oRet, st: st, res: res}, true
}

// mergeChains joins arrays that differ by stores over a common base.
func mergeChains(vs []*Term, ite func([]*Term) *Term) *Term {
	in := map[*Term]int{}
	for _, v := range vs {
		for t := v; ; t = t.Args[0] {
			in[t]++
			if t.Op != "store" {
				break
			}
		}
	}
	base := vs[0]
	for in[base] != len(vs) {
		if base.Op != "store" {
			return nil
		}
		base = base.Args[0]
	}
	var idx []*Term
	owner := map[*Term][]int{}
	for i, v := range vs {
		var chain []*Term
		for t := v; t != base; t = t.Args[0] {
			chain = append(chain, t.Args[1])
		}
		for k := len(chain) - 1; k >= 0; k-- {
			if owner[chain[k]] == nil {
				idx = append(idx, chain[k])
			}
			if o := owner[chain[k]]; len(o) == 0 || o[len(o)-1] != i {
				owner[chain[k]] = append(o, i)
			}
		}
	}
	if len(idx) > 400 {
		return nil
	}
	r := base
	for _, ix := range idx {
		o := owner[ix]
		if ix.Op == "ref" && ix.I.Sign() > 0 && len(o) == 1 && freshIn(base, ix) {
			r = Store(r, ix, Select(vs[o[0]], ix)) // created on one path only
			continue
		}
		cur := make([]*Term, len(vs))
		for i := range vs {
			cur[i] = Select(vs[i], ix)
		}
		r = Store(r, ix, ite(cur))
	}
	return r
}

// freshIn: the array has no value stored for the object yet.
func freshIn(base, ref *Term) bool {
	for t := base; t.Op == "store"; t = t.Args[0] {
		if t.Args[1] == ref {
			return false
		}
	}
	return true
}

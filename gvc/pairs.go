package main

// determines clauses: whenever two runs of a function produce equal keys (an event argument), the listed
// observables of the two runs are equal, given that the listed givens are.
//
//	determines [TAG] label: determined("event", arg, given(g, ...), o, ...)
//
// The obligation ranges over every pair of occurrences of the event in the source (each with its path
// condition). Equality of the keys is used through its consequences for concatenations whose variable parts
// cannot contain the separating byte (see splitKey), which is justified for replacers by codeTable.

import (
	"go/ast"
	"go/token"
	"strconv"
	"strings"
)

type keyOcc struct {
	st  *State
	key *Term
	pos token.Pos
}

func (x *X) noteKey(st *State, event string, args []Value, pos token.Pos) {
	if x.ctr == nil || x.quiet > 0 {
		return
	}
	for _, c := range x.ctr.Determines {
		call := c.Expr.(*ast.CallExpr)
		ev, _ := strconv.Unquote(call.Args[0].(*ast.BasicLit).Value)
		if ev != event {
			continue
		}
		n, _ := strconv.Atoi(call.Args[1].(*ast.BasicLit).Value)
		// one occurrence for each case of a key that depends on conditions
		var split func(st *State, key *Term, depth int)
		split = func(st *State, key *Term, depth int) {
			var cond *Term
			if depth < 12 {
				collect(key, map[*Term]bool{}, func(t *Term) {
					if t.Op == "ite" && t.Sort == sStr && (cond == nil || t.Args[0].id < cond.id) {
						cond = t.Args[0]
					}
				})
			}
			if cond == nil {
				x.keyOccs = append(x.keyOccs, keyOcc{st, key, pos})
				return
			}
			for i, c := range []*Term{cond, Not(cond)} {
				s2 := st.clone()
				s2.add(c)
				if !s2.dead {
					split(s2, branch(key, cond, i+1), depth+1)
				}
			}
		}
		split(st.clone(), st.simp(args[n].(*Term)), 0)
		return
	}
}

// branch replaces the conditionals on cond by their first (1) or second (2) branch.
func branch(t, cond *Term, i int) *Term {
	if t.Op == "ite" && t.Args[0] == cond {
		return branch(t.Args[i], cond, i)
	}
	as, ch := make([]*Term, len(t.Args)), false
	for k, a := range t.Args {
		as[k] = branch(a, cond, i)
		ch = ch || as[k] != a
	}
	if !ch {
		return t
	}
	return rebuild(t, as)
}

// determinesObls builds the obligations of the clauses from the recorded occurrences.
func (x *X) determinesObls() {
	if x.ctr == nil {
		return
	}
	for _, c := range x.ctr.Determines {
		if !wanted(c.Tags, x.prop) && x.prop != "" {
			continue
		}
		call := c.Expr.(*ast.CallExpr)
		if len(x.keyOccs) == 0 {
			panic(specErr{c.Label + ": the key event does not occur"})
		}
		type occ struct {
			key         *Term
			givens, obs []*Term
			pc          []*Term
			pos         token.Pos
			st          *State
		}
		var occs []occ
		for _, ko := range x.keyOccs {
			st := ko.st.clone()
			env := &SpecEnv{x: x, st: x.entry, old: x.entry, vars: x.params}
			o := occ{key: ko.key, pos: ko.pos, st: st}
			for i, a := range call.Args[2:] {
				if cl, ok := a.(*ast.CallExpr); ok && i == 0 {
					if id, ok := cl.Fun.(*ast.Ident); ok && id.Name == "given" {
						for _, g := range cl.Args {
							o.givens = append(o.givens, x.flatten(env.eval(g).V, env.eval(g).T)...)
						}
						continue
					}
				}
				tv := env.eval(a)
				o.obs = append(o.obs, x.flatten(tv.V, tv.T)...)
			}
			for i := range o.obs {
				o.obs[i] = st.simp(o.obs[i])
			}
			o.pc = st.pc
			occs = append(occs, o)
		}
		for i, a := range occs {
			for j := i; j < len(occs); j++ {
				b := occs[j]
				m := map[*Term]*Term{}
				seen := map[*Term]bool{}
				pr := func(t *Term) *Term {
					collect(t, seen, func(u *Term) {
						if u.Op == "var" {
							m[u] = Var(u.Name+"''", u.Sort)
						}
					})
					return Subst(t, m)
				}
				var pc []*Term
				pc = append(pc, a.pc...)
				for _, f := range b.pc {
					pc = append(pc, pr(f))
				}
				for k := range a.givens {
					pc = append(pc, Eq(a.givens[k], pr(b.givens[k])))
				}
				bk := pr(b.key)
				label := c.Label + " [calls " + itoa(i) + ", " + itoa(j) + "]"
				facts, verdict := keysEqual(a.key, bk)
				var goals []*Term
				for k := range a.obs {
					goals = append(goals, Eq(a.obs[k], pr(b.obs[k])))
				}
				st := newState()
				o := &Obl{Tags: c.Tags, Func: x.name, Label: label, Pos: x.e.pos(a.pos), Kind: "determines", Goal: And(goals...), x: x}
				switch verdict {
				case "never":
					o.Status, o.Solver, o.Goal = "proved", "key decomposition", tTrue
				default:
					pc = append(pc, facts...)
					pc = append(pc, Eq(a.key, bk))
				}
				_ = st
				o.Pc = pc
				x.obls = append(x.obls, o)
			}
		}
	}
}

type keyPart struct {
	lit string
	t   *Term // nil for a literal
}

func keyParts(t *Term) []keyPart {
	if t.Op == "cat" {
		var r []keyPart
		for _, a := range t.Args {
			r = append(r, keyParts(a)...)
		}
		return r
	}
	if t.Op == "str" {
		return []keyPart{{lit: t.Name}}
	}
	return []keyPart{{t: t}}
}

// codeTable: the replacer table maps single ASCII bytes so that the result determines the argument, and tells
// which bytes cannot occur in any result.
func codeTable(tab *Term) (free map[byte]bool, ok bool) {
	if tab.Op != "app" || tab.Name != "replTab" || len(tab.Args)%2 != 0 || len(tab.Args) == 0 {
		return nil, false
	}
	olds := map[byte]bool{}
	var news []string
	for i, a := range tab.Args {
		if a.Op != "str" {
			return nil, false
		}
		if i%2 == 0 {
			if len(a.Name) != 1 || a.Name[0] >= 0x80 || olds[a.Name[0]] {
				return nil, false
			}
			olds[a.Name[0]] = true
		} else {
			news = append(news, a.Name)
		}
	}
	free = map[byte]bool{}
	for b := range olds {
		free[b] = true
	}
	for i, n := range news {
		// a code word starts with a replaced byte, which no other text can start with
		if n == "" || !olds[n[0]] {
			return nil, false
		}
		for j, m := range news {
			if i != j && strings.HasPrefix(n, m) {
				return nil, false
			}
		}
		for k := 0; k < len(n); k++ {
			delete(free, n[k])
		}
	}
	return free, true
}

// keysEqual returns what equality of two keys implies, or that they are never equal.
func keysEqual(a, b *Term) ([]*Term, string) {
	pa, pb := keyParts(a), keyParts(b)
	cand := map[byte]bool{}
	for c := 1; c < 128; c++ {
		cand[byte(c)] = true
	}
	for _, p := range append(append([]keyPart{}, pa...), pb...) {
		if p.t == nil {
			continue
		}
		if p.t.Op == "app" && p.t.Name == "replace" {
			if free, ok := codeTable(p.t.Args[0]); ok {
				for c := range cand {
					if !free[c] {
						delete(cand, c)
					}
				}
				continue
			}
		}
		cand = nil
	}
	var best []*Term
	verdict := "maybe"
	for c := range cand {
		ca, cb := splitKey(pa, c), splitKey(pb, c)
		if len(ca) != len(cb) {
			return nil, "never"
		}
		var facts []*Term
		for i := range ca {
			x, y := ca[i], cb[i]
			facts = append(facts, Eq(catOf(x), catOf(y)))
			if len(x) == 1 && len(y) == 1 && x[0].t != nil && y[0].t != nil && x[0].t.Args[0] == y[0].t.Args[0] {
				facts = append(facts, Eq(x[0].t.Args[1], y[0].t.Args[1]))
			}
		}
		if len(facts) > len(best) {
			best = facts
		}
	}
	return best, verdict
}

// splitKey cuts a key at the byte, which occurs in its literals only.
func splitKey(ps []keyPart, c byte) [][]keyPart {
	out := [][]keyPart{nil}
	for _, p := range ps {
		if p.t != nil {
			out[len(out)-1] = append(out[len(out)-1], p)
			continue
		}
		for i, s := range strings.Split(p.lit, string([]byte{c})) {
			if i > 0 {
				out = append(out, nil)
			}
			if s != "" {
				out[len(out)-1] = append(out[len(out)-1], keyPart{lit: s})
			}
		}
	}
	return out
}

func catOf(ps []keyPart) *Term {
	var ts []*Term
	for _, p := range ps {
		if p.t != nil {
			ts = append(ts, p.t)
		} else {
			ts = append(ts, Str(p.lit))
		}
	}
	return Cat(ts...)
}

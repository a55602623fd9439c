package main

// Instantiation of quantified facts with the terms a proof is likely to need: skolem constants, producing iterations,
// message and element indices. The solver gets the instances next to (or instead of) the quantified facts; since an
// instance follows from its fact, an unsatisfiable result stays a proof.

import (
	"fmt"
	"sort"
	"strings"
)

type inster struct {
	facts  []*Term // quantifier-free after flattening
	quants []*qfact
	byT    map[*Term]*qfact
	sk     int
	skMemo map[*Term]*Term
	seenF  map[*Term]bool
}

type qfact struct {
	t    *Term // the forall
	p    *Term // the literal that stands for it (tTrue at the top)
	done map[*Term]bool
	ctx  []string
}

func (in *inster) nnf(t *Term, pos bool) *Term {
	switch t.Op {
	case "not":
		return in.nnf(t.Args[0], !pos)
	case "and", "or":
		as := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			as[i] = in.nnf(a, pos)
		}
		if (t.Op == "and") == pos {
			return And(as...)
		}
		return Or(as...)
	case "pat":
		return in.nnf(t.Args[0], pos)
	case "=":
		if t.Args[0].Sort == sBool && (isQuant(t.Args[0]) || isQuant(t.Args[1])) {
			a, b := t.Args[0], t.Args[1]
			if pos {
				return And(Or(in.nnf(a, false), in.nnf(b, true)), Or(in.nnf(a, true), in.nnf(b, false)))
			}
			return And(Or(in.nnf(a, true), in.nnf(b, true)), Or(in.nnf(a, false), in.nnf(b, false)))
		}
	case "ite":
		if t.Sort == sBool && isQuant(t) {
			c, a, b := t.Args[0], t.Args[1], t.Args[2]
			return And(Or(in.nnf(c, false), in.nnf(a, pos)), Or(in.nnf(c, true), in.nnf(b, pos)))
		}
	case "forall", "exists":
		if (t.Op == "forall") == pos {
			if pos {
				return t
			}
			return Forall(t.Args[0], Not(stripPat(t.Args[1])))
		}
		if t.open {
			// below a binder: kept until the binder is instantiated
			if pos {
				return t
			}
			return Exists(t.Args[0], Not(stripPat(t.Args[1])))
		}
		// skolemize
		s, ok := in.skMemo[t]
		if !ok {
			in.sk++
			s = Var(fmt.Sprintf("sk!i%d!%s", in.sk, t.Args[0].Name), t.Args[0].Sort)
			in.skMemo[t] = s
		}
		return in.nnf(Subst(stripPat(t.Args[1]), map[*Term]*Term{t.Args[0]: s}), pos)
	}
	if pos {
		return t
	}
	return Not(t)
}

func stripPat(t *Term) *Term {
	if t.Op == "pat" {
		return t.Args[0]
	}
	return t
}

// flatten replaces universal facts by literals and records them.
func (in *inster) flat(t *Term, top bool) *Term {
	switch t.Op {
	case "and":
		as := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			as[i] = in.flat(a, top)
		}
		return And(as...)
	case "or":
		as := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			as[i] = in.flat(a, false)
		}
		return Or(as...)
	case "forall":
		if q, ok := in.byT[t]; ok {
			if top {
				q.p = tTrue
			}
			return q.p
		}
		q := &qfact{t: t, p: tTrue, done: map[*Term]bool{}}
		if !top {
			in.sk++
			q.p = Var(fmt.Sprintf("qf!%d", in.sk), sBool)
		}
		in.byT[t] = q
		in.quants = append(in.quants, q)
		return q.p
	}
	return t
}

func (in *inster) add(guard, t *Term) {
	f := in.nnf(t, true)
	f = in.flat(f, guard == tTrue)
	f = Or(Not(guard), f)
	if f == tTrue || in.seenF[f] {
		return
	}
	in.seenF[f] = true
	in.facts = append(in.facts, f)
}

// contexts: the places a term occurs in directly, as names shared by facts about the same thing.
func contexts(t *Term, emit func(ctx string, arg *Term)) {
	base := func(a *Term) *Term { b, _ := linBase(a); return b }
	switch t.Op {
	case "app":
		n := t.Name
		if strings.HasPrefix(n, "mk$[") && !strings.Contains(n, "#") {
			for i, a := range t.Args {
				emit(fmt.Sprintf("mk:%s/%d", n, i), a)
			}
			return
		}
		k := strings.IndexByte(n, '!')
		if k < 0 || len(t.Args) == 0 {
			return
		}
		switch n[:k+1] {
		case "at!", "refat!", "wr!", "src!", "prod!", "path!":
			parts := strings.Split(n, "^")
			fs := strings.Split(parts[0], "!")
			keyed := len(t.Args) - (len(parts) - 1) // arguments of the innermost function
			for i := 0; i < keyed; i++ {
				switch fs[0] {
				case "at", "refat":
					emit("it:"+fs[1], t.Args[i])
					if b := base(t.Args[i]); b != t.Args[i] {
						emit("it:"+fs[1], b)
					}
				case "prod":
					emit("ev:"+strings.Join(fs[2:], "!"), t.Args[i])
				default:
					emit("key:"+fs[1]+"!"+fs[2], t.Args[i])
				}
			}
			for i, id := range parts[1:] {
				emit("it:"+id, t.Args[keyed+i])
			}
			if fs[0] == "src" || fs[0] == "prod" {
				emit("it:"+fs[1], t)
			}
		case "A!", "R!":
			if j := strings.LastIndexByte(n, '!'); j > k {
				emit("ev:"+n[k+1:j], t.Args[0])
			}
		case "T!", "G!", "U!":
			emit("ev:"+n[k+1:], t.Args[0])
		}
	case "select":
		// a scaled index: c*v, possibly shifted
		for _, a := range addends(t.Args[1]) {
			if a.Op == "*" && len(a.Args) == 2 && a.Args[1].Op == "int" {
				emit("scaled:"+a.Args[1].I.String(), a.Args[0])
			}
		}
		if c := arrCtx(t.Args[0]); c != "" {
			emit(c, t.Args[1])
			b := base(t.Args[1])
			if b != t.Args[1] && b.Op != "int" {
				emit(c, b)
			}
			if as := addends(b); len(as) > 1 {
				for _, a := range as {
					emit(c, a)
				}
			}
		}
	}
}

func addends(t *Term) []*Term {
	if t.Op != "+" {
		return []*Term{t}
	}
	var r []*Term
	for _, a := range t.Args {
		r = append(r, addends(a)...)
	}
	return r
}

func arrCtx(a *Term) string {
	for {
		switch a.Op {
		case "store":
			a = a.Args[0]
			continue
		case "ite":
			a = a.Args[1]
			continue
		}
		break
	}
	clean := func(n string) string {
		for _, pre := range []string{"at!", "H0!"} {
			if strings.HasPrefix(n, pre) {
				n = n[len(pre):]
				if pre == "at!" {
					n = n[strings.IndexByte(n, '!')+1:]
				}
			}
		}
		if k := strings.IndexByte(n, '^'); k >= 0 {
			n = n[:k]
		}
		if strings.HasPrefix(n, "v!") {
			n = n[2:]
			n = n[strings.IndexByte(n, '!')+1:]
		}
		if k := strings.LastIndexByte(n, '@'); k >= 0 {
			n = n[:k]
		}
		for _, c := range []string{".msg", ".rcvd"} {
			if k := strings.Index(n, c); k >= 0 {
				if j := strings.LastIndexByte(n[:k], '/'); j >= 0 {
					n = n[j+1:]
					k = strings.Index(n, c)
				}
				return "chan"
			}
		}
		if j := strings.LastIndexByte(n, '/'); j >= 0 {
			n = n[j+1:]
		}
		return n
	}
	switch a.Op {
	case "select":
		// contents of an array, map or cache
		if h := a.Args[0]; h.Op == "select" {
			return arrCtx(h)
		} else {
			c := arrCtx(h)
			if strings.HasPrefix(c, "h:") {
				return "sel:" + c[2:]
			}
			return c
		}
	case "var":
		c := clean(a.Name)
		if strings.HasPrefix(a.Sort, "(Array Int (Array") || strings.HasPrefix(a.Name, "H0!") || strings.Contains(a.Name, "!H!") {
			return "h:" + c
		}
		return "sel:" + c
	case "app":
		if a.Name == "toks" || strings.HasPrefix(a.Name, "pq") {
			return "sel:" + a.Name
		}
		if strings.HasPrefix(a.Name, "at!") {
			return "sel:" + clean(a.Name)
		}
	}
	return ""
}

// candidates: ground terms by context.
func (in *inster) candidates() map[string][]*Term {
	res := map[string][]*Term{}
	type ct struct {
		c string
		t *Term
	}
	seen := map[ct]bool{}
	put := func(c string, t *Term) {
		if strings.HasPrefix(c, "h:") || strings.HasPrefix(c, "ev:") && t.Op == "app" && strings.HasPrefix(t.Name, "at!") || depth(t) > 2 {
			return
		}
		k := ct{c, t}
		if t.open || seen[k] || t.Op == "ref" || hasBV(t) {
			return
		}
		if t.Op == "app" && strings.HasPrefix(t.Name, "refat!") {
			return
		}
		seen[k] = true
		res[c] = append(res[c], t)
	}
	vis := map[*Term]bool{}
	for _, f := range in.facts {
		collect(f, vis, func(t *Term) {
			if t.open {
				return
			}
			contexts(t, put)
			if t.Op == "app" && len(t.Args) == 0 && strings.HasPrefix(t.Name, "src!") {
				fs := strings.Split(t.Name, "!")
				put("it:"+fs[1], t)
			}
		})
	}
	return res
}

// varContexts: the contexts of the bound variable of a forall.
func varContexts(q *Term) []string {
	v := q.Args[0]
	set := map[string]bool{}
	collect(q.Args[1], map[*Term]bool{}, func(t *Term) {
		contexts(t, func(c string, a *Term) {
			if a == v {
				set[c] = true
			}
		})
	})
	return sortedKeys(set)
}

// depth counts nested producing iterations.
func depth(t *Term) int {
	d := 0
	for _, a := range t.Args {
		if k := depth(a); k > d {
			d = k
		}
	}
	if t.Op == "app" && (strings.HasPrefix(t.Name, "src!") || strings.HasPrefix(t.Name, "prod!")) {
		d++
	}
	return d
}

func hasBV(t *Term) bool {
	r := false
	collect(t, map[*Term]bool{}, func(s *Term) {
		if s.Op == "bv" {
			r = true
		}
	})
	return r
}

func (in *inster) ofGoal(t *Term) bool {
	r := false
	collect(t, map[*Term]bool{}, func(s *Term) {
		if s.Op == "var" && strings.HasPrefix(s.Name, "sk!") && !strings.HasPrefix(s.Name, "sk!i") {
			r = true
		}
	})
	return r
}

func termSize(t *Term) int {
	n := 0
	collect(t, map[*Term]bool{}, func(*Term) { n++ })
	return n
}

// instantiate returns quantifier-free consequences of as; unsatisfiable only if as is.
// goalOnly: only with terms that mention what the goal is about.
func instantiate(as []*Term, rounds, max int, goalOnly bool) (ground []*Term, guards []*Term) {
	in := &inster{byT: map[*Term]*qfact{}, skMemo: map[*Term]*Term{}, seenF: map[*Term]bool{}}
	for _, a := range as {
		in.add(tTrue, a)
	}
	n := 0
	for r := 0; r < rounds; r++ {
		cand := in.candidates()
		for s := range cand {
			c := cand[s]
			if goalOnly {
				var k []*Term
				for _, t := range c {
					if in.ofGoal(t) {
						k = append(k, t)
					}
				}
				c = k
				cand[s] = k
			}
			sort.SliceStable(c, func(i, j int) bool { return termSize(c[i]) < termSize(c[j]) })
			if len(c) > 30 {
				cand[s] = c[:30]
			}
			debugf("  ctx %s: %v", s, cand[s])
		}
		work := in.quants[:len(in.quants):len(in.quants)]
		for _, q := range work {
			v := q.t.Args[0]
			if q.ctx == nil {
				q.ctx = varContexts(q.t)
				debugf("  quant %v", q.ctx)
			}
			for _, cx := range q.ctx {
				for _, c := range cand[cx] {
					if q.done[c] || n >= max || c.Sort != v.Sort {
						continue
					}
					if goalOnly && !in.ofGoal(c) {
						continue
					}
					q.done[c] = true
					n++
					in.add(q.p, Subst(stripPat(q.t.Args[1]), map[*Term]*Term{v: c}))
				}
			}
		}
	}
	for _, q := range in.quants {
		guards = append(guards, Or(Not(q.p), q.t))
	}
	debugf("instantiate: %d facts, %d quantified, %d instances", len(in.facts), len(in.quants), n)
	return in.facts, guards
}

package main

import (
	"math/big"
	"strings"
)

// position of p inside the concatenation: part index and constant offset.
func catPos(parts []*Term, p *Term) (int, int, bool) {
	acc := tZero
	for i := 0; ; i++ {
		d := Sub(p, acc)
		if d.Op == "int" && d.I.Sign() >= 0 {
			if d.I.Sign() == 0 {
				return i, 0, true
			}
			if i < len(parts) && parts[i].Op == "str" && d.I.Cmp(big.NewInt(int64(len(parts[i].Name)))) <= 0 {
				return i, int(d.I.Int64()), true
			}
		}
		if i == len(parts) {
			return 0, 0, false
		}
		acc = Add(acc, Slen(parts[i]))
	}
}

// substrT is s[lo:hi]; 0 <= lo <= hi <= len(s) is established by the caller.
func substrT(s, lo, hi *Term) *Term {
	if lo == tZero && hi == Slen(s) {
		return s
	}
	if lo == hi {
		return Str("")
	}
	if s.Op == "str" && lo.Op == "int" && hi.Op == "int" {
		l, h := lo.I.Int64(), hi.I.Int64()
		if 0 <= l && l <= h && h <= int64(len(s.Name)) {
			return Str(s.Name[l:h])
		}
	}
	if s.Op == "cat" {
		a, ao, ok1 := catPos(s.Args, lo)
		b, bo, ok2 := catPos(s.Args, hi)
		if ok1 && ok2 && (a < b || a == b && ao <= bo) {
			var out []*Term
			for i := a; i <= b && i < len(s.Args); i++ {
				p := s.Args[i]
				from, to := 0, -1
				if i == a {
					from = ao
				}
				if i == b {
					to = bo
				}
				if i == b && bo == 0 {
					break
				}
				if p.Op == "str" {
					if to < 0 {
						to = len(p.Name)
					}
					out = append(out, Str(p.Name[from:to]))
				} else {
					out = append(out, p)
				}
			}
			return Cat(out...)
		}
	}
	if s.Op == "app" && s.Name == "substr" {
		b := s.Args[1]
		return substrT(s.Args[0], Add(b, lo), Add(b, hi))
	}
	return App("substr", sStr, s, lo, hi)
}

func (x *X) substr(st *State, s, lo, hi *Term) *Term {
	r := substrT(s, lo, hi)
	if r.Op == "app" && r.Name == "substr" && !r.open {
		st.add(Eq(Slen(r), Sub(hi, lo)))
		// the text before a separator, the separator and the text after it make up the string
		if hi == Slen(s) && lo.Op == "+" {
			for _, i := range lo.Args {
				if i.Op == "app" && i.Name == "sindex" && i.Args[0] == s && i.Args[1].Op == "str" && Add(i, Slen(i.Args[1])) == lo {
					st.add(Imp(Le(tZero, i), Eq(s, Cat(substrT(s, tZero, i), i.Args[1], r))))
				}
			}
		}
	}
	return r
}

func sindex(st *State, s, sub *Term) *Term {
	if s.Op == "str" && sub.Op == "str" {
		return Int(int64(strings.Index(s.Name, sub.Name)))
	}
	return App("sindex", sInt, s, sub)
}

func slastindex(st *State, s, sub *Term) *Term {
	if s.Op == "str" && sub.Op == "str" {
		return Int(int64(strings.LastIndex(s.Name, sub.Name)))
	}
	return App("slastindex", sInt, s, sub)
}

func hasPrefix(s, p *Term) *Term {
	if p == Str("") || s == p {
		return tTrue
	}
	if s.Op == "cat" && s.Args[0] == p {
		return tTrue
	}
	if p.Op == "str" && s.Op == "cat" && s.Args[0].Op == "str" {
		a := s.Args[0].Name
		if len(a) >= len(p.Name) {
			return Bool(strings.HasPrefix(a, p.Name))
		}
		if !strings.HasPrefix(p.Name, a) {
			return tFalse
		}
	}
	return App("hasPrefix", sBool, s, p)
}

func hasSuffix(s, p *Term) *Term {
	if p == Str("") || s == p {
		return tTrue
	}
	if s.Op == "str" && p.Op == "str" {
		return Bool(strings.HasSuffix(s.Name, p.Name))
	}
	if s.Op == "cat" && s.Args[len(s.Args)-1] == p {
		return tTrue
	}
	return App("hasSuffix", sBool, s, p)
}

func foldT(s *Term) *Term {
	for s.Op == "app" && (s.Name == "lower" || s.Name == "upper") {
		// case folding ignores case conversion of ASCII text only; keep it uninterpreted otherwise
		break
	}
	return App("fold", sStr, s)
}

func eqFold(a, b *Term) *Term { return Eq(foldT(a), foldT(b)) }

// causeT follows the wrapping of an error value.
func causeT(t *Term) *Term {
	if t == tNil {
		return tNil
	}
	if t.Op == "ite" {
		return Ite(t.Args[0], causeT(t.Args[1]), causeT(t.Args[2]))
	}
	if t.Op == "app" && t.Name == "imk" {
		if t.Args[0] == typeID(wrapT) && t.Args[1].Op == "app" && t.Args[1].Name == "mkwrap" {
			return causeT(t.Args[1].Args[0])
		}
		if t.Args[0] == typeID(errT) {
			return t
		}
	}
	return App("cause", sIface, t)
}

// unixT is the number of whole seconds since the epoch of a time in nanoseconds.
func unixT(t *Term) *Term { return Div(t, secNs) }

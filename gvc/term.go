package main

// Terms of the many-sorted first-order logic the conditions are written in.
// Terms are hash-consed: pointer equality is syntactic equality.

import (
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
)

type Term struct {
	Op   string // int str true false var app ref and or not => = ite select store const + - * div mod < <= forall exists bv cat
	Name string
	I    *big.Int
	Args []*Term
	Sort string
	id   int
	open bool // contains bound variables
}

const (
	sInt   = "Int"
	sBool  = "Bool"
	sStr   = "Str"
	sIface = "Iface"
)

func arr(k, v string) string { return "(Array " + k + " " + v + ")" }

// splitArr returns index and element sort of an array sort.
func splitArr(s string) (string, string) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	body := s[7 : len(s)-1]
	d := 0
	for i, c := range body {
		switch c {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return body[:i], body[i+1:]
			}
		}
	}
	panic(s)
}

var (
	consMu  sync.Mutex
	consTab = map[string]*Term{}
	consN   int
)

func cons(op, name, sort string, i *big.Int, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(sort)
	if i != nil {
		sb.WriteByte('|')
		sb.WriteString(i.String())
	}
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	consMu.Lock()
	defer consMu.Unlock()
	if t, ok := consTab[k]; ok {
		return t
	}
	consN++
	t := &Term{Op: op, Name: name, I: i, Args: args, Sort: sort, id: consN}
	t.open = op == "bv"
	for _, a := range args {
		if a.open {
			t.open = true
		}
	}
	if op == "forall" || op == "exists" {
		// open iff the body contains another bound variable than ours
		t.open = len(freeBV(args[1], map[*Term]bool{args[0]: true})) > 0
	}
	consTab[k] = t
	return t
}

func freeBV(t *Term, bound map[*Term]bool) map[*Term]bool {
	res := map[*Term]bool{}
	var walk func(t *Term, b map[*Term]bool)
	walk = func(t *Term, b map[*Term]bool) {
		if !t.open && t.Op != "bv" {
			return
		}
		if t.Op == "bv" {
			if !b[t] {
				res[t] = true
			}
			return
		}
		if t.Op == "forall" || t.Op == "exists" {
			nb := map[*Term]bool{t.Args[0]: true}
			for k := range b {
				nb[k] = true
			}
			walk(t.Args[1], nb)
			return
		}
		for _, a := range t.Args {
			walk(a, b)
		}
	}
	walk(t, bound)
	return res
}

var (
	tTrue  = cons("true", "", sBool, nil)
	tFalse = cons("false", "", sBool, nil)
	tZero  = Int(0)
	tNil   = cons("app", "inil", sIface, nil)
)

func Int(n int64) *Term       { return IntBig(big.NewInt(n)) }
func IntBig(n *big.Int) *Term { return cons("int", "", sInt, new(big.Int).Set(n)) }
func Str(s string) *Term      { return cons("str", s, sStr, nil) }
func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func Var(name, sort string) *Term { return cons("var", name, sort, nil) }
func BV(name, sort string) *Term  { return cons("bv", name, sort, nil) }

// Ref is the address of the k-th object allocated during the symbolic run.
func Ref(k int) *Term { return cons("ref", "", sInt, big.NewInt(int64(k))) }

// Package variables have references below -globalBase, objects allocated while
// the packages initialise (the closures in a list of default options, say) the
// negative ones above it: the heap may hold pointers to the latter only.
const globalBase = 1 << 31

func atInit(t *Term) bool {
	return t.Op == "ref" && t.I.Sign() < 0 && t.I.Int64() > -globalBase
}

// refNum is the number a Ref is printed as; globals have negative k.
func refNum(k int64) *big.Int {
	n := new(big.Int).Lsh(big.NewInt(1), 40)
	return n.Mul(n, big.NewInt(k))
}

func isConst(t *Term) bool {
	return t.Op == "int" || t.Op == "str" || t.Op == "true" || t.Op == "false" || t.Op == "ref"
}

// isOld: the term is an address that existed on entry (entry parameter, or loaded from the entry heap).
func isOld(t *Term) bool {
	switch t.Op {
	case "var":
		return strings.HasPrefix(t.Name, "in!")
	case "select":
		return t.Sort == sInt && oldContents(t)
	case "int":
		return t.I.Sign() == 0
	case "ref":
		return t.I.Sign() < 0
	}
	return false
}

// oldContents: the value an object that existed on entry had on entry.
func oldContents(t *Term) bool {
	if t.Op != "select" {
		return false
	}
	a := t.Args[0]
	if a.Op == "app" && strings.HasPrefix(a.Name, "pqval") {
		return true // the values url.ParseQuery returns: never modified by this code
	}
	if a.Op == "var" && strings.HasPrefix(a.Name, "H0!") {
		return t.Args[1].Sort != sInt || isOld(t.Args[1])
	}
	return oldContents(a)
}

// distinct reports that two terms certainly denote different values.
func distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.Op == "ref" && b.Op == "ref" {
		return true
	}
	if (a.Op == "int" && b.Op == "int") || (a.Op == "str" && b.Op == "str") {
		return true
	}
	if (a.Op == "true" && b.Op == "false") || (a.Op == "false" && b.Op == "true") {
		return true
	}
	if a.Op == "ref" && (b.Op == "int" || isOld(b) && !atInit(a)) || b.Op == "ref" && (a.Op == "int" || isOld(a) && !atInit(b)) {
		return true // package variables: no pointer to one is kept in the heap
	}
	if a.Sort == sInt && (below(a, b) || below(b, a)) {
		return true
	}
	if isAddr(a) && (b.Op == "int" && b.I.Sign() == 0 || b.Op == "ref") || isAddr(b) && (a.Op == "int" && a.I.Sign() == 0 || a.Op == "ref") {
		return true
	}
	if a.Op == "app" && b.Op == "app" {
		if a.Name == "imk" && b.Name == "inil" || a.Name == "inil" && b.Name == "imk" {
			return true
		}
		if a.Name == "imk" && b.Name == "imk" {
			return distinct(a.Args[0], b.Args[0]) || (a.Args[0] == b.Args[0] && distinct(a.Args[1], b.Args[1]))
		}
		if a.Name == "boxS" && b.Name == "boxS" {
			return distinct(a.Args[0], b.Args[0])
		}
	}
	// x + c1 vs x + c2
	if a.Sort == sInt && b.Sort == sInt {
		ab, ac := linBase(a)
		bb, bc := linBase(b)
		if ab == bb && ab != nil && ac.Cmp(bc) != 0 {
			return true
		}
	}
	return false
}

// isAt: an object allocated in some iteration of a loop.
func isAt(t *Term) bool { return t.Op == "app" && strings.HasPrefix(t.Name, "refat!") }

// room: where the objects of refat! live: strictly between Ref(room) and Ref(room+1).
func room(t *Term) int64 {
	fs := strings.SplitN(t.Name, "!", 4)
	n, _ := strconv.ParseInt(strings.SplitN(fs[3], "^", 2)[0], 10, 64)
	return n
}

// below: a is certainly another address than b, being older.
func below(a, b *Term) bool {
	var lo int64 // Ref(lo) <= b
	switch {
	case isAt(b):
		lo = room(b)
	case b.Op == "ref":
		lo = b.I.Int64()
	default:
		return false
	}
	switch {
	case isOld(a), a.Op == "int":
		return isAt(b)
	case a.Op == "ref":
		return isAt(b)
	case isAt(a):
		return room(a) < lo
	case a.Op == "var":
		if i := strings.LastIndexByte(a.Name, '<'); i > 0 {
			n, err := strconv.ParseInt(a.Name[i+1:], 10, 64)
			return err == nil && n <= lo
		}
	}
	return false
}

// isAddr: the address of a field or element, or of a function: never nil, never a whole object.
func isAddr(t *Term) bool {
	return t.Op == "app" && (strings.HasPrefix(t.Name, "&") || strings.HasPrefix(t.Name, "fnref:"))
}

// linBase splits t into base + constant.
func linBase(t *Term) (*Term, *big.Int) {
	if t.Op == "+" && len(t.Args) == 2 && t.Args[1].Op == "int" {
		return t.Args[0], t.Args[1].I
	}
	if t.Op == "int" {
		return tZero, t.I
	}
	return t, big.NewInt(0)
}

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.Args[0]
	}
	return cons("not", "", sBool, nil, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a.Op == "and" {
			for _, x := range a.Args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		if a == tTrue || seen[a] {
			continue
		}
		if a == tFalse {
			return tFalse
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if seen[Not(a)] {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return cons("and", "", sBool, nil, out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a.Op == "or" {
			for _, x := range a.Args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		if a == tFalse || seen[a] {
			continue
		}
		if a == tTrue {
			return tTrue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if seen[Not(a)] {
			return tTrue
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return cons("or", "", sBool, nil, out...)
}

func Imp(a, b *Term) *Term { return Or(Not(a), b) }

func Eq(a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq on different sorts: %s : %s vs %s : %s", a, a.Sort, b, b.Sort))
	}
	if a == b {
		return tTrue
	}
	if distinct(a, b) {
		return tFalse
	}
	if a.Sort == sBool {
		switch {
		case a == tTrue:
			return b
		case b == tTrue:
			return a
		case a == tFalse:
			return Not(b)
		case b == tFalse:
			return Not(a)
		}
	}
	if a.Op == "app" && b.Op == "app" && a.Name == b.Name {
		if a.Name == "imk" {
			return And(Eq(a.Args[0], b.Args[0]), Eq(a.Args[1], b.Args[1]))
		}
		if a.Name == "boxS" {
			return Eq(a.Args[0], b.Args[0])
		}
	}
	if a.Op == "ite" && isConst(b) || b.Op == "ite" && isConst(a) {
		i, c := a, b
		if b.Op == "ite" {
			i, c = b, a
		}
		if isConst(i.Args[1]) || isConst(i.Args[2]) {
			return Ite(i.Args[0], Eq(i.Args[1], c), Eq(i.Args[2], c))
		}
	}
	// x + c == d
	if a.Sort == sInt {
		ab, ac := linBase(a)
		bb, bc := linBase(b)
		if ab == bb {
			return Bool(ac.Cmp(bc) == 0)
		}
		if b.Op == "int" && a.Op == "+" && a.Args[1].Op == "int" {
			return Eq(a.Args[0], IntBig(new(big.Int).Sub(b.I, ac)))
		}
		if a.Op == "int" && b.Op == "+" && b.Args[1].Op == "int" {
			return Eq(b.Args[0], IntBig(new(big.Int).Sub(a.I, bc)))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return cons("=", "", sBool, nil, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.Sort == sBool {
		return And(Or(Not(c), a), Or(c, b))
	}
	if a.Sort != b.Sort {
		panic("Ite sorts " + a.Sort + " / " + b.Sort)
	}
	return cons("ite", "", a.Sort, nil, c, a, b)
}

func Select(a, i *Term) *Term {
	k, v := splitArr(a.Sort)
	if k != i.Sort {
		panic("Select index sort " + i.Sort + " in " + a.Sort)
	}
	for {
		if a.Op == "store" {
			if a.Args[1] == i {
				return a.Args[2]
			}
			if distinct(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
		}
		if a.Op == "const" {
			return a.Args[0]
		}
		if a.Op == "ite" && (a.Args[1].Op == "store" || a.Args[2].Op == "store") {
			return Ite(a.Args[0], Select(a.Args[1], i), Select(a.Args[2], i))
		}
		break
	}
	return cons("select", "", v, nil, a, i)
}

func Store(a, i, v *Term) *Term {
	k, e := splitArr(a.Sort)
	if k != i.Sort || e != v.Sort {
		panic("Store sorts " + a.Sort + " " + i.Sort + " " + v.Sort)
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return cons("store", "", a.Sort, nil, a, i, v)
}

func ConstArr(sort string, v *Term) *Term { return cons("const", "", sort, nil, v) }

func Add(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" {
		return IntBig(new(big.Int).Add(a.I, b.I))
	}
	if a.Op == "int" {
		a, b = b, a
	}
	if b.Op == "int" {
		if b.I.Sign() == 0 {
			return a
		}
		if a.Op == "+" && a.Args[1].Op == "int" {
			return Add(a.Args[0], IntBig(new(big.Int).Add(a.Args[1].I, b.I)))
		}
		return cons("+", "", sInt, nil, a, b)
	}
	// push constants outward
	if a.Op == "+" && a.Args[1].Op == "int" {
		return Add(Add(a.Args[0], b), a.Args[1])
	}
	if b.Op == "+" && b.Args[1].Op == "int" {
		return Add(Add(a, b.Args[0]), b.Args[1])
	}
	if a.Op == "-" && a.Args[1] == b {
		return a.Args[0]
	}
	if b.Op == "-" && b.Args[1] == a {
		return b.Args[0]
	}
	if a.id > b.id {
		a, b = b, a
	}
	return cons("+", "", sInt, nil, a, b)
}

func Sub(a, b *Term) *Term {
	if a == b {
		return tZero
	}
	if b.Op == "int" {
		return Add(a, IntBig(new(big.Int).Neg(b.I)))
	}
	ab, ac := linBase(a)
	bb, bc := linBase(b)
	if ab == bb {
		return IntBig(new(big.Int).Sub(ac, bc))
	}
	if ab.Op == "+" {
		if ab.Args[0] == b {
			return Add(ab.Args[1], IntBig(ac))
		}
		if ab.Args[1] == b {
			return Add(ab.Args[0], IntBig(ac))
		}
	}
	if ac.Sign() != 0 && a.Op == "+" {
		return Add(Sub(ab, b), IntBig(ac))
	}
	if bc.Sign() != 0 && b.Op == "+" {
		return Add(Sub(a, bb), IntBig(new(big.Int).Neg(bc)))
	}
	return cons("-", "", sInt, nil, a, b)
}

func Mul(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" {
		return IntBig(new(big.Int).Mul(a.I, b.I))
	}
	if a.Op == "int" {
		a, b = b, a
	}
	if b.Op == "int" {
		if b.I.Sign() == 0 {
			return tZero
		}
		if b.I.Cmp(big.NewInt(1)) == 0 {
			return a
		}
	}
	return cons("*", "", sInt, nil, a, b)
}

// Div and Mod are SMT-LIB (Euclidean) division; callers adapt to Go's truncation.
func Div(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.I.Sign() != 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.I, b.I, m)
		return IntBig(q)
	}
	// (x * c) div c
	if b.Op == "int" && b.I.Sign() > 0 {
		if a.Op == "*" && a.Args[1] == b {
			return a.Args[0]
		}
	}
	return cons("div", "", sInt, nil, a, b)
}
func Mod(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.I.Sign() != 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.I, b.I, m)
		return IntBig(m)
	}
	return cons("mod", "", sInt, nil, a, b)
}

func Lt(a, b *Term) *Term {
	ab, ac := linBase(a)
	bb, bc := linBase(b)
	if ab == bb {
		return Bool(ac.Cmp(bc) < 0)
	}
	return cons("<", "", sBool, nil, a, b)
}
func Le(a, b *Term) *Term {
	ab, ac := linBase(a)
	bb, bc := linBase(b)
	if ab == bb {
		return Bool(ac.Cmp(bc) <= 0)
	}
	if a == tZero && b.Op == "app" && b.Name == "slen" {
		return tTrue
	}
	return cons("<=", "", sBool, nil, a, b)
}

func App(name, sort string, args ...*Term) *Term {
	switch name {
	case "unboxS":
		if args[0].Op == "app" && args[0].Name == "boxS" {
			return args[0].Args[0]
		}
	case "boxS":
		if args[0].Op == "app" && args[0].Name == "unboxS" {
			return args[0].Args[0]
		}
	case "ityp":
		if args[0].Op == "app" && args[0].Name == "imk" {
			return args[0].Args[0]
		}
		if args[0] == tNil {
			return Int(-1)
		}
		if args[0].Op == "ite" {
			return Ite(args[0].Args[0], App(name, sort, args[0].Args[1]), App(name, sort, args[0].Args[2]))
		}
	case "ival":
		if args[0].Op == "app" && args[0].Name == "imk" {
			return args[0].Args[1]
		}
		if args[0].Op == "ite" {
			return Ite(args[0].Args[0], App(name, sort, args[0].Args[1]), App(name, sort, args[0].Args[2]))
		}
	case "slen":
		switch args[0].Op {
		case "str":
			return Int(int64(len(args[0].Name)))
		case "cat":
			s := tZero
			for _, a := range args[0].Args {
				s = Add(s, App("slen", sInt, a))
			}
			return s
		}
	case "lower":
		if args[0].Op == "str" && isASCII(args[0].Name) {
			return Str(strings.ToLower(args[0].Name))
		}
		if args[0].Op == "app" && args[0].Name == "lower" {
			return args[0]
		}
	case "fold":
		if args[0].Op == "str" && isASCII(args[0].Name) {
			return cons("app", name, sort, nil, Str(strings.ToLower(args[0].Name)))
		}
	case "reMatch":
		if args[0].Op == "str" && args[1].Op == "str" {
			if re, err := regexp.Compile(args[0].Name); err == nil {
				return Bool(re.MatchString(args[1].Name))
			}
		}
	case "hasPrefix":
		if args[0].Op == "str" && args[1].Op == "str" {
			return Bool(strings.HasPrefix(args[0].Name, args[1].Name))
		}
	}
	if i := strings.LastIndex(name, "#"); i > 0 && len(args) == 1 && strings.HasPrefix(name, "mk") {
		if args[0].Op == "app" && args[0].Name == name[:i] {
			var n int
			fmt.Sscanf(name[i+1:], "%d", &n)
			return args[0].Args[n]
		}
	}
	return cons("app", name, sort, nil, args...)
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// Cat is string concatenation in flattened normal form.
func Cat(as ...*Term) *Term {
	var out []*Term
	add := func(x *Term) {
		if x.Op == "str" {
			if x.Name == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].Op == "str" {
				out[n-1] = Str(out[n-1].Name + x.Name)
				return
			}
		}
		out = append(out, x)
	}
	for _, a := range as {
		if a.Op == "cat" {
			for _, x := range a.Args {
				add(x)
			}
		} else {
			add(a)
		}
	}
	if len(out) == 0 {
		return Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return cons("cat", "", sStr, nil, out...)
}

func Slen(s *Term) *Term { return App("slen", sInt, s) }

var bvN int

func FreshBV(hint, sort string) *Term {
	consMu.Lock()
	bvN++
	n := bvN
	consMu.Unlock()
	return BV(fmt.Sprintf("%s?%d", hint, n), sort)
}

func Forall(v, body *Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	return cons("forall", "", sBool, nil, v, body)
}
func Exists(v, body *Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	return cons("exists", "", sBool, nil, v, body)
}

// Subst replaces terms by terms (simplifying again on the way up).
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = f(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "not":
		return Not(a[0])
	case "=":
		return Eq(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "const":
		return ConstArr(t.Sort, a[0])
	case "+":
		return Add(a[0], a[1])
	case "-":
		return Sub(a[0], a[1])
	case "*":
		return Mul(a[0], a[1])
	case "div":
		return Div(a[0], a[1])
	case "mod":
		return Mod(a[0], a[1])
	case "<":
		return Lt(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "cat":
		return Cat(a...)
	case "app":
		return App(t.Name, t.Sort, a...)
	}
	return cons(t.Op, t.Name, t.Sort, t.I, a...)
}

// vars collects the free variables (op var) of t.
func collect(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.Args {
		collect(a, seen, f)
	}
}

func (t *Term) String() string {
	switch t.Op {
	case "int":
		return t.I.String()
	case "ref":
		return "&" + t.I.String()
	case "str":
		return fmt.Sprintf("%q", t.Name)
	case "true", "false":
		return t.Op
	case "var", "bv":
		return t.Name
	}
	n := t.Op
	if n == "app" {
		n = t.Name
		if len(t.Args) == 0 {
			return n
		}
	}
	s := "(" + n
	for _, a := range t.Args {
		s += " " + a.String()
	}
	return s + ")"
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// arrOf is splitArr for sorts that need not be arrays.
func arrOf(s string) (string, string) {
	if !strings.HasPrefix(s, "(Array ") {
		return "", ""
	}
	return splitArr(s)
}

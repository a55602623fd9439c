package main

// Values of the symbolic run, their types, and the heap.

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Value is *Term (scalars, maps, channels, functions, interfaces, time), *Ptr, *Slice or *Tuple.
type Value interface{}

type Ptr struct {
	Base *Term
	Idx  *Term  // element index when the object is an array
	Root string // leaf prefix
	Suf  string // path inside the object
	T    types.Type
}

type Slice struct {
	Arr, Off, Len, Cap *Term
	Elem               types.Type
}

type Tuple struct{ E []Value }

type FuncVal struct {
	Fn   *ssa.Function
	Bind []Value
	Call func(x *X, st *State, args []Value) []Outcome // library-provided function value
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func qual(p *types.Package) string { return p.Path() }

var anyWord = regexp.MustCompile(`\bany\b`)
var typeKeys sync.Map

// typeKey names a type; "any" and "interface{}" are the same.
func typeKey(t types.Type) string {
	if s, ok := typeKeys.Load(t); ok {
		return s.(string)
	}
	s := types.TypeString(types.Unalias(t), qual)
	if strings.Contains(s, "any") {
		s = anyWord.ReplaceAllString(s, "interface{}")
	}
	typeKeys.Store(t, s)
	return s
}

// opaque library types with ghost contents
type leafT struct {
	suf, sort string
	t         types.Type
}

// isRef: the leaf holds references to objects.
func (l leafT) isRef() bool {
	if strings.HasSuffix(l.suf, ".$arr") {
		return true
	}
	if l.t == nil {
		return false
	}
	switch l.t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return true
	}
	return false
}

func namedPath(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() != nil {
			return o.Pkg().Path() + "." + o.Name()
		}
		return o.Name()
	}
	return ""
}

var opaque = map[string][]leafT{
	"time.Time":                        {{"", sInt, nil}},
	"strings.Builder":                  {{".$s", sStr, nil}},
	"bytes.Buffer":                     {{".$s", sStr, nil}},
	"sync.Map":                         {{".$dom", arr(sIface, sBool), nil}, {".$val", arr(sIface, sIface), nil}},
	"sync.WaitGroup":                   {{".$n", sInt, nil}},
	"sync.Once":                        {{".$done", sBool, nil}},
	"sync.Mutex":                       {{".$l", sInt, nil}},
	"sync.RWMutex":                     {{".$l", sInt, nil}},
	"golang.org/x/sync/errgroup.Group": {{".$err", sIface, nil}},
	"regexp.Regexp":                    {{".$pat", sStr, nil}},
	"strings.Replacer":                 {{".$r", sInt, nil}},
	"reflect.Value":                    {{".$v", sInt, nil}},
}

var leafCache = map[string][]leafT{}

func leaves(t types.Type) []leafT {
	k := typeKey(t)
	if l, ok := leafCache[k]; ok {
		return l
	}
	l := leaves0(t)
	leafCache[k] = l
	return l
}

func leaves0(t types.Type) []leafT {
	t = types.Unalias(t)
	if o, ok := opaque[namedPath(t)]; ok {
		return o
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return []leafT{{"", basicSort(u), t}}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []leafT{{"", sInt, t}}
	case *types.Interface:
		return []leafT{{"", sIface, t}}
	case *types.Slice:
		return []leafT{{".$arr", sInt, nil}, {".$off", sInt, nil}, {".$len", sInt, nil}, {".$cap", sInt, nil}}
	case *types.Struct:
		var out []leafT
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leaves(f.Type()) {
				out = append(out, leafT{"." + f.Name() + l.suf, l.sort, l.t})
			}
		}
		return out
	case *types.Array:
		if isByte(u.Elem()) {
			return []leafT{{"", sStr, t}}
		}
		if u.Len() > 64 {
			unsup("array type %s", t)
		}
		var out []leafT
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range leaves(u.Elem()) {
				out = append(out, leafT{fmt.Sprintf("[%d]%s", i, l.suf), l.sort, l.t})
			}
		}
		return out
	case *types.Tuple:
		var out []leafT
		for i := 0; i < u.Len(); i++ {
			for _, l := range leaves(u.At(i).Type()) {
				out = append(out, leafT{fmt.Sprintf("#%d%s", i, l.suf), l.sort, l.t})
			}
		}
		return out
	}
	unsup("type %s", t)
	return nil
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func basicSort(b *types.Basic) string {
	switch {
	case b.Info()&types.IsBoolean != 0:
		return sBool
	case b.Info()&types.IsString != 0:
		return sStr
	case b.Info()&types.IsInteger != 0, b.Kind() == types.UnsafePointer:
		return sInt
	case b.Info()&types.IsFloat != 0:
		return "F64"
	case b.Kind() == types.UntypedNil:
		return sIface
	}
	unsup("basic type %s", b)
	return ""
}

func isOpaque(t types.Type) bool { _, ok := opaque[namedPath(t)]; return ok }

// isScalar: represented by one *Term.
func isScalar(t types.Type) bool {
	t = types.Unalias(t)
	if isOpaque(t) {
		return len(opaque[namedPath(t)]) == 1
	}
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Array:
		return isByte(u.Elem())
	}
	return false
}

// rootKey is the leaf prefix of objects of type t.
func rootKey(t types.Type) string {
	if _, ok := t.Underlying().(*types.Struct); ok {
		return typeKey(t)
	}
	return "*" + typeKey(t)
}

func asStructT(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func (x *X) flatten(v Value, t types.Type) []*Term {
	t = types.Unalias(t)
	if isOpaque(t) {
		if len(opaque[namedPath(t)]) == 1 {
			return []*Term{v.(*Term)}
		}
		var out []*Term
		for _, e := range v.(*Tuple).E {
			out = append(out, e.(*Term))
		}
		return out
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return []*Term{x.enc(v)}
	case *types.Slice:
		s := v.(*Slice)
		return []*Term{s.Arr, s.Off, s.Len, s.Cap}
	case *types.Struct:
		var out []*Term
		tp := v.(*Tuple)
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, x.flatten(tp.E[i], u.Field(i).Type())...)
		}
		return out
	case *types.Array:
		if isByte(u.Elem()) {
			return []*Term{v.(*Term)}
		}
		var out []*Term
		for _, e := range v.(*Tuple).E {
			out = append(out, x.flatten(e, u.Elem())...)
		}
		return out
	case *types.Tuple:
		var out []*Term
		for i, e := range v.(*Tuple).E {
			out = append(out, x.flatten(e, u.At(i).Type())...)
		}
		return out
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return []*Term{x.enc(v)}
		}
	}
	return []*Term{v.(*Term)}
}

func (x *X) unflatten(ts []*Term, t types.Type) Value {
	v, rest := x.unfl(ts, t)
	if len(rest) != 0 {
		panic("unflatten: leftover for " + t.String())
	}
	return v
}

func (x *X) unfl(ts []*Term, t types.Type) (Value, []*Term) {
	t = types.Unalias(t)
	if o, ok := opaque[namedPath(t)]; ok {
		if len(o) == 1 {
			return ts[0], ts[1:]
		}
		tp := &Tuple{}
		for i := range o {
			tp.E = append(tp.E, ts[i])
		}
		return tp, ts[len(o):]
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return x.dec(ts[0], u.Elem()), ts[1:]
	case *types.Slice:
		return &Slice{ts[0], ts[1], ts[2], ts[3], u.Elem()}, ts[4:]
	case *types.Struct:
		tp := &Tuple{}
		for i := 0; i < u.NumFields(); i++ {
			var v Value
			v, ts = x.unfl(ts, u.Field(i).Type())
			tp.E = append(tp.E, v)
		}
		return tp, ts
	case *types.Array:
		if isByte(u.Elem()) {
			return ts[0], ts[1:]
		}
		tp := &Tuple{}
		for i := int64(0); i < u.Len(); i++ {
			var v Value
			v, ts = x.unfl(ts, u.Elem())
			tp.E = append(tp.E, v)
		}
		return tp, ts
	case *types.Tuple:
		tp := &Tuple{}
		for i := 0; i < u.Len(); i++ {
			var v Value
			v, ts = x.unfl(ts, u.At(i).Type())
			tp.E = append(tp.E, v)
		}
		return tp, ts
	}
	return ts[0], ts[1:]
}

// enc encodes a pointer as an integer term.
func (x *X) enc(v Value) *Term {
	switch p := v.(type) {
	case *Term:
		return p
	case *Ptr:
		if p.Idx == nil && p.Suf == "" {
			return p.Base
		}
		n := "&" + p.Root + p.Suf
		if _, ok := x.ptrTab[n]; !ok {
			x.ptrTab[n] = &Ptr{Root: p.Root, Suf: p.Suf, T: p.T}
		}
		if p.Idx != nil {
			return App(n, sInt, p.Base, p.Idx)
		}
		return App(n, sInt, p.Base)
	}
	panic(fmt.Sprintf("enc %T", v))
}

// dec turns an integer term into a pointer to t.
func (x *X) dec(a *Term, t types.Type) Value {
	if a.Op == "app" && strings.HasPrefix(a.Name, "&") {
		if d, ok := x.ptrTab[a.Name]; ok {
			p := &Ptr{Base: a.Args[0], Root: d.Root, Suf: d.Suf, T: t}
			if len(a.Args) == 2 {
				p.Idx = a.Args[1]
			}
			return p
		}
	}
	return &Ptr{Base: a, Root: rootKey(t), T: t}
}

func sortOfKey(t types.Type) string {
	l := leaves(t)
	if len(l) == 1 {
		return l[0].sort
	}
	return sInt
}

// keyTerm encodes a map key (or a value boxed in an interface) as one term.
func (x *X) keyTerm(v Value, t types.Type) *Term {
	fl := x.flatten(v, t)
	if len(fl) == 1 {
		return fl[0]
	}
	if s, ok := v.(*Slice); ok && s.Off != tZero {
		x.note("contents of a slice boxed in an interface are arbitrary when it does not start its array")
		return x.fresh("boxed", sInt)
	}
	return App("mk$"+typeKey(t), sInt, fl...)
}

func (x *X) unkey(k *Term, t types.Type) Value {
	l := leaves(t)
	if len(l) == 1 {
		return x.unflatten([]*Term{k}, t)
	}
	var ts []*Term
	for i := range l {
		if l[i].suf == ".$off" {
			ts = append(ts, tZero) // keyTerm refuses slices with an offset
			continue
		}
		ts = append(ts, App(fmt.Sprintf("mk$%s#%d", typeKey(t), i), l[i].sort, k))
	}
	return x.unflatten(ts, t)
}

// --- interfaces ---

var typeIDs = map[string]int{}
var typeByID []types.Type

func typeID(t types.Type) *Term {
	k := typeKey(t)
	id, ok := typeIDs[k]
	if !ok {
		id = len(typeByID) + 1
		typeIDs[k] = id
		typeByID = append(typeByID, t)
	}
	return Int(int64(id))
}

func imk(t types.Type, val *Term) *Term { return App("imk", sIface, typeID(t), val) }

func box(t *Term) *Term {
	switch t.Sort {
	case sInt:
		return t
	case sBool:
		return Ite(t, Int(1), tZero)
	case sStr:
		return App("boxS", sInt, t)
	}
	return App("box$"+t.Sort, sInt, t)
}
func unbox(t *Term, sort string) *Term {
	switch sort {
	case sInt:
		return t
	case sBool:
		return Eq(t, Int(1))
	case sStr:
		return App("unboxS", sStr, t)
	}
	if t.Op == "app" && t.Name == "box$"+sort {
		return t.Args[0]
	}
	return App("unbox$"+sort, sort, t)
}

func (x *X) makeIface(v Value, t types.Type) *Term {
	if types.IsInterface(t) {
		return v.(*Term)
	}
	return imk(t, box(x.keyTerm(v, t)))
}

func (x *X) ifaceVal(i *Term, t types.Type) Value {
	return x.unkey(unbox(App("ival", sInt, i), sortOfKey(t)), t)
}

func ityp(i *Term) *Term { return App("ityp", sInt, i) }

// typeTest is the condition of the type assertion i.(t).
func typeTest(i *Term, t types.Type) *Term {
	if it, ok := t.Underlying().(*types.Interface); ok {
		ty := ityp(i)
		if ty.Op == "int" {
			if ty.I.Sign() < 0 {
				return tFalse
			}
			n := int(ty.I.Int64())
			if n >= 1 && n <= len(typeByID) {
				return Bool(types.Implements(typeByID[n-1], it))
			}
		}
		if it.NumMethods() == 0 {
			return Not(Eq(i, tNil))
		}
		if theEng != nil {
			theEng.fnMu.Lock()
			theEng.implType["impl$"+typeKey(t)] = t
			theEng.fnMu.Unlock()
		}
		return And(Not(Eq(i, tNil)), App("impl$"+typeKey(t), sBool, ty))
	}
	return Eq(ityp(i), typeID(t))
}

// --- zero values, equality ---

func (x *X) zero(t types.Type) Value {
	var ts []*Term
	for _, l := range leaves(t) {
		ts = append(ts, zeroSort(l.sort))
	}
	if namedPath(t) == "time.Time" {
		return IntBig(zeroTimeNs)
	}
	fixZeroTimes(ts, t, 0)
	return x.unflatten(ts, t)
}

// fixZeroTimes puts the zero time into the time.Time leaves.
func fixZeroTimes(ts []*Term, t types.Type, at int) int {
	t = types.Unalias(t)
	if namedPath(t) == "time.Time" {
		ts[at] = IntBig(zeroTimeNs)
		return at + 1
	}
	if isOpaque(t) {
		return at + len(leaves(t))
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			at = fixZeroTimes(ts, u.Field(i).Type(), at)
		}
		return at
	case *types.Array:
		if !isByte(u.Elem()) {
			for i := int64(0); i < u.Len(); i++ {
				at = fixZeroTimes(ts, u.Elem(), at)
			}
			return at
		}
	}
	return at + len(leaves(t))
}

func zeroSort(s string) *Term {
	switch s {
	case sInt:
		return tZero
	case sBool:
		return tFalse
	case sStr:
		return Str("")
	case sIface:
		return tNil
	case "F64":
		return App("f64zero", "F64")
	}
	if strings.HasPrefix(s, "(Array ") {
		_, v := splitArr(s)
		return ConstArr(s, zeroSort(v))
	}
	panic("zeroSort " + s)
}

func (x *X) eqVal(a, b Value, t types.Type) *Term {
	fa, fb := x.flatten(a, t), x.flatten(b, t)
	var cs []*Term
	for i := range fa {
		cs = append(cs, Eq(fa[i], fb[i]))
	}
	return And(cs...)
}

// --- state and heap ---

type State struct {
	pc   []*Term
	lits map[*Term]bool
	heap map[string]*Term
	dead bool
}

func newState() *State {
	return &State{lits: map[*Term]bool{}, heap: map[string]*Term{}}
}

func (s *State) clone() *State {
	n := &State{pc: s.pc[:len(s.pc):len(s.pc)], heap: make(map[string]*Term, len(s.heap)+4), lits: make(map[*Term]bool, len(s.lits)+4), dead: s.dead}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k := range s.lits {
		n.lits[k] = true
	}
	return n
}

// add assumes t.
func (s *State) add(t *Term) {
	if t.Op == "and" {
		for _, a := range t.Args {
			s.add(a)
		}
		return
	}
	t = s.simp(t)
	if t == tTrue {
		return
	}
	if t == tFalse {
		s.dead = true
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.add(a)
		}
		return
	}
	if s.lits[t] {
		return
	}
	s.lits[t] = true
	s.pc = append(s.pc, t)
	if t.Op == "not" && t.Args[0].Op == "or" {
		for _, a := range t.Args[0].Args {
			s.add(Not(a))
		}
	}
}

// simp decides a condition from the literals already assumed, where that is syntactic.
func (s *State) simp(c *Term) *Term {
	if c.Sort != sBool || c == tTrue || c == tFalse {
		return c
	}
	if s.lits[c] {
		return tTrue
	}
	if s.lits[Not(c)] {
		return tFalse
	}
	switch c.Op {
	case "not":
		return Not(s.simp(c.Args[0]))
	case "and":
		as := make([]*Term, len(c.Args))
		for i, a := range c.Args {
			as[i] = s.simp(a)
		}
		return And(as...)
	case "or":
		as := make([]*Term, len(c.Args))
		for i, a := range c.Args {
			as[i] = s.simp(a)
		}
		return Or(as...)
	case "<":
		// a < b known false if b <= a known, or b < a known
		if s.lits[Le(c.Args[1], c.Args[0])] || s.lits[Lt(c.Args[1], c.Args[0])] {
			return tFalse
		}
	case "<=":
		if s.lits[Lt(c.Args[0], c.Args[1])] {
			return tTrue
		}
		if s.lits[Lt(c.Args[1], c.Args[0])] {
			return tFalse
		}
	case "=":
		// equal to another constant
		for i := 0; i < 2; i++ {
			v, k := c.Args[i], c.Args[1-i]
			if isConst(k) || k == tNil {
				if e, ok := s.knownConst(v); ok && distinct(e, k) {
					return tFalse
				}
			}
		}
		if a, b := c.Args[0], c.Args[1]; a.Sort == sInt {
			if s.lits[Lt(a, b)] || s.lits[Lt(b, a)] {
				return tFalse
			}
		}
	}
	return c
}

func (s *State) knownConst(v *Term) (*Term, bool) {
	for _, l := range s.pc {
		if l.Op == "=" {
			if l.Args[0] == v && isConst(l.Args[1]) {
				return l.Args[1], true
			}
			if l.Args[1] == v && isConst(l.Args[0]) {
				return l.Args[0], true
			}
		}
	}
	return nil, false
}

func (x *X) get(st *State, leaf, sort string) *Term {
	if h, ok := st.heap[leaf]; ok {
		if h.Sort != sort {
			panic("heap leaf " + leaf + ": sort " + h.Sort + " / " + sort)
		}
		return h
	}
	if x.heapPrefix == "H0!" && (leaf == "$clock" || strings.HasPrefix(leaf, "$ev.")) {
		st.heap[leaf] = tZero
		return tZero
	}
	if leaf == "$unjoined" || leaf == "$doneCalled" {
		st.heap[leaf] = tFalse
		return tFalse
	}
	h := Var(x.heapPrefix+leaf, sort)
	st.heap[leaf] = h
	return h
}

func (x *X) loadLeaf(st *State, p *Ptr, l leafT) *Term {
	name := p.Root + p.Suf + l.suf
	if p.Idx != nil {
		return normOff(name, Select(Select(x.get(st, name, arr(sInt, arr(sInt, l.sort))), p.Base), p.Idx))
	}
	return normOff(name, Select(x.get(st, name, arr(sInt, l.sort)), p.Base))
}

// normOff: slices that existed on entry, and slices library functions return, start at offset 0.
func normOff(leaf string, t *Term) *Term {
	if !strings.HasSuffix(leaf, ".$off") {
		return t
	}
	return normOff0(t)
}

func normOff0(t *Term) *Term {
	if isOld(t) {
		return tZero
	}
	if a := t; a.Op == "select" {
		for a.Op == "select" {
			a = a.Args[0]
		}
		if a.Op == "var" && strings.HasPrefix(a.Name, "H0!") {
			return tZero
		}
	}
	if t.Op == "ite" {
		return Ite(t.Args[0], normOff0(t.Args[1]), normOff0(t.Args[2]))
	}
	return t
}

// zeroOffs puts offset 0 into the slice leaves of a value of type t.
func zeroOffs(ts []*Term, ls []leafT) []*Term {
	for i, l := range ls {
		if strings.HasSuffix(l.suf, ".$off") {
			ts[i] = tZero
		}
	}
	return ts
}

func (x *X) storeLeaf(st *State, p *Ptr, l leafT, v *Term) {
	name := p.Root + p.Suf + l.suf
	if l.isRef() {
		x.e.refLeaf[name] = true
	}
	if p.Idx != nil {
		s := arr(sInt, arr(sInt, l.sort))
		h := x.get(st, name, s)
		if offStays(name, h, v) {
			return
		}
		st.heap[name] = Store(h, p.Base, Store(Select(h, p.Base), p.Idx, v))
		return
	}
	h := x.get(st, name, arr(sInt, l.sort))
	if offStays(name, h, v) {
		return
	}
	st.heap[name] = Store(h, p.Base, v)
}

// offStays: writing offset 0 where offsets are read as 0 already.
func offStays(name string, h, v *Term) bool {
	return v == tZero && strings.HasSuffix(name, ".$off") && h.Op == "var" && strings.HasPrefix(h.Name, "H0!")
}

func (x *X) load(st *State, v Value, t types.Type) Value {
	if b, ok := v.(*bytePtr); ok {
		c := Select(x.get(st, bytesLeaf, arr(sInt, sStr)), b.s.Arr)
		r := App("sat", sInt, c, Add(b.s.Off, b.i))
		st.add(Le(tZero, r))
		st.add(Lt(r, Int(256)))
		return r
	}
	if p, ok := v.(*Ptr); ok && strings.HasPrefix(p.Root, "[]") && p.Idx == nil && p.Suf == "" {
		if a, ok := t.Underlying().(*types.Array); ok && !isByte(a.Elem()) {
			tp := &Tuple{}
			for i := int64(0); i < a.Len(); i++ {
				tp.E = append(tp.E, x.load(st, &Ptr{Base: p.Base, Idx: Int(i), Root: p.Root, T: a.Elem()}, a.Elem()))
			}
			return tp
		}
	}
	p, ok := v.(*Ptr)
	if !ok {
		unsup("load through %T", v)
	}
	var ts []*Term
	for _, l := range leaves(t) {
		ts = append(ts, x.loadLeaf(st, p, l))
	}
	r := x.unflatten(ts, t)
	x.typeFacts(st, r, t)
	return r
}

func (x *X) store(st *State, v Value, val Value, t types.Type) {
	if b, ok := v.(*bytePtr); ok {
		h := x.get(st, bytesLeaf, arr(sInt, sStr))
		c := Select(h, b.s.Arr)
		st.heap[bytesLeaf] = Store(h, b.s.Arr, App("setbyte", sStr, c, Add(b.s.Off, b.i), val.(*Term)))
		return
	}
	if p, ok := v.(*Ptr); ok && strings.HasPrefix(p.Root, "[]") && p.Idx == nil && p.Suf == "" {
		if a, ok := t.Underlying().(*types.Array); ok && !isByte(a.Elem()) {
			for i := int64(0); i < a.Len(); i++ {
				x.store(st, &Ptr{Base: p.Base, Idx: Int(i), Root: p.Root, T: a.Elem()}, val.(*Tuple).E[i], a.Elem())
			}
			return
		}
	}
	p, ok := v.(*Ptr)
	if !ok {
		unsup("store through %T", v)
	}
	fl := x.flatten(val, t)
	for i, l := range leaves(t) {
		x.storeLeaf(st, p, l, fl[i])
	}
}

// typeFacts assumes what holds of every value of type t (slice bounds, integer ranges, addresses allocated).
func (x *X) typeFacts(st *State, v Value, t types.Type) {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s := v.(*Slice)
		if s.Len.Op != "int" {
			st.add(Le(tZero, s.Len))
			st.add(Le(s.Len, s.Cap))
			st.add(Imp(Eq(s.Arr, tZero), Eq(s.Len, tZero)))
		}
		x.addrFacts(st, s.Arr)
	case *types.Map, *types.Chan, *types.Signature:
		x.addrFacts(st, v.(*Term))
	case *types.Pointer:
		if p, ok := v.(*Ptr); ok && p.Suf == "" && p.Idx == nil {
			x.addrFacts(st, p.Base)
		}
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			if tm, ok := v.(*Term); ok && (tm.Op == "var" || tm.Op == "select" || tm.Op == "app") {
				lo, hi := intRange(u)
				if lo != nil {
					st.add(Le(IntBig(lo), tm))
					st.add(Le(tm, IntBig(hi)))
				}
			}
		}
	}
}

// addrFacts: an address read from the heap belongs to an object already allocated.
func (x *X) addrFacts(st *State, a *Term) {
	if a.Op == "ref" || a.Op == "int" || a.Op == "app" && !strings.HasPrefix(a.Name, "mk$") || a.Op == "ite" {
		return
	}
	st.add(Lt(lowestAddr, a))
	if isOld(a) {
		st.add(Lt(a, Ref(1)))
		return
	}
	st.add(Lt(a, Ref(x.refN+1)))
}

// lowestAddr: below what an address in the heap may be. Function constants are
// at -2^60 downwards, objects of package initialisation above, package
// variables at -2^71 downwards.
var lowestAddr = IntBig(new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 70)))

func (x *X) newRef() *Term {
	if x.initMode {
		x.e.globN++
		return cons("ref", "", sInt, big.NewInt(int64(-x.e.globN)))
	}
	x.refN++
	return Ref(x.refN)
}

func (x *X) fresh(hint, sort string) *Term {
	x.freshN++
	return Var(fmt.Sprintf("v!%d!%s", x.freshN, hint), sort)
}

func (x *X) freshVal(st *State, hint string, t types.Type) Value {
	var ts []*Term
	for _, l := range leaves(t) {
		v := x.fresh(hint+l.suf, l.sort)
		ts = append(ts, v)
	}
	v := x.unflatten(zeroOffs(ts, leaves(t)), t)
	x.deepFacts(st, v, t)
	return v
}

// deepFacts: typeFacts for every component.
func (x *X) deepFacts(st *State, v Value, t types.Type) {
	x.typeFacts(st, v, t)
	t = types.Unalias(t)
	if isOpaque(t) {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			x.deepFacts(st, v.(*Tuple).E[i], u.Field(i).Type())
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			x.deepFacts(st, v.(*Tuple).E[i], u.At(i).Type())
		}
	}
}

// alloc creates a zeroed object of type t.
func (x *X) alloc(st *State, t types.Type) Value {
	if a, ok := t.Underlying().(*types.Array); ok && !isByte(a.Elem()) {
		return &Ptr{Base: x.allocArr(st, a.Elem()), Root: "[]" + typeKey(a.Elem()), Suf: "", T: t}
	}
	r := x.newRef()
	p := &Ptr{Base: r, Root: rootKey(t), T: t}
	x.store(st, p, x.zero(t), t)
	return p
}

// allocArr creates a zeroed backing array.
func (x *X) allocArr(st *State, elem types.Type) *Term {
	r := x.newRef()
	z := x.flatten(x.zero(elem), elem)
	for i, l := range leaves(elem) {
		name := "[]" + typeKey(elem) + l.suf
		s := arr(sInt, arr(sInt, l.sort))
		h := x.get(st, name, s)
		st.heap[name] = Store(h, r, ConstArr(arr(sInt, l.sort), z[i]))
	}
	return r
}

func (s *Slice) elemPtr(i *Term) *Ptr {
	return &Ptr{Base: s.Arr, Idx: Add(s.Off, i), Root: "[]" + typeKey(s.Elem), T: s.Elem}
}

// contents returns, for each leaf of the element type, the array index -> value of the backing array.
func (x *X) contents(st *State, s *Slice) []*Term {
	var out []*Term
	for _, l := range leaves(s.Elem) {
		out = append(out, Select(x.get(st, "[]"+typeKey(s.Elem)+l.suf, arr(sInt, arr(sInt, l.sort))), s.Arr))
	}
	return out
}

// newSlice allocates a slice with the given contents.
func (x *X) newSlice(st *State, elem types.Type, cont []*Term, n *Term) *Slice {
	r := x.newRef()
	for i, l := range leaves(elem) {
		name := "[]" + typeKey(elem) + l.suf
		h := x.get(st, name, arr(sInt, arr(sInt, l.sort)))
		st.heap[name] = Store(h, r, cont[i])
	}
	return &Slice{Arr: r, Off: tZero, Len: n, Cap: n, Elem: elem}
}

// sliceOf builds a slice of known elements.
func (x *X) sliceOf(st *State, elem types.Type, vs ...Value) *Slice {
	ls := leaves(elem)
	z := x.flatten(x.zero(elem), elem)
	cont := make([]*Term, len(ls))
	for i, l := range ls {
		cont[i] = ConstArr(arr(sInt, l.sort), z[i])
	}
	for j, v := range vs {
		fl := x.flatten(v, elem)
		for i := range ls {
			cont[i] = Store(cont[i], Int(int64(j)), fl[i])
		}
	}
	return x.newSlice(st, elem, cont, Int(int64(len(vs))))
}

// --- maps ---

func mapKey(t types.Type) string { return "map$" + typeKey(t.Underlying()) }

func (x *X) mapDom(st *State, m *Term, mt *types.Map) *Term {
	return Select(x.get(st, mapKey(mt)+".dom", arr(sInt, arr(sortOfKey(mt.Key()), sBool))), m)
}
func (x *X) mapLen(st *State, m *Term, mt *types.Map) *Term {
	l := Select(x.get(st, mapKey(mt)+".len", arr(sInt, sInt)), m)
	return l
}
func (x *X) mapVal(st *State, m *Term, mt *types.Map, l leafT) *Term {
	return Select(x.get(st, mapKey(mt)+".val"+l.suf, arr(sInt, arr(sortOfKey(mt.Key()), l.sort))), m)
}

func (x *X) mapLookup(st *State, m *Term, mt *types.Map, k *Term) (Value, *Term) {
	ok := Select(x.mapDom(st, m, mt), k)
	if m == tZero {
		ok = tFalse
	} else if m.Op != "ref" {
		ok = And(ok, Not(Eq(m, tZero)))
	}
	z := x.flatten(x.zero(mt.Elem()), mt.Elem())
	var ts []*Term
	okS := st.simp(ok)
	for i, l := range leaves(mt.Elem()) {
		ts = append(ts, Ite(okS, normOff(l.suf, Select(x.mapVal(st, m, mt, l), k)), z[i]))
	}
	v := x.unflatten(ts, mt.Elem())
	if okS == tTrue {
		x.typeFacts(st, v, mt.Elem())
	} else {
		x.typeFacts(st, v, mt.Elem())
	}
	return v, okS
}

func (x *X) mapStore(st *State, m *Term, mt *types.Map, k *Term, v Value) {
	ks := sortOfKey(mt.Key())
	dn := mapKey(mt) + ".dom"
	d := x.get(st, dn, arr(sInt, arr(ks, sBool)))
	old := Select(Select(d, m), k)
	st.heap[dn] = Store(d, m, Store(Select(d, m), k, tTrue))
	ln := mapKey(mt) + ".len"
	lh := x.get(st, ln, arr(sInt, sInt))
	st.heap[ln] = Store(lh, m, Ite(old, Select(lh, m), Add(Select(lh, m), Int(1))))
	fl := x.flatten(v, mt.Elem())
	for i, l := range leaves(mt.Elem()) {
		vn := mapKey(mt) + ".val" + l.suf
		h := x.get(st, vn, arr(sInt, arr(ks, l.sort)))
		if l.isRef() {
			x.e.refLeaf[vn] = true
		}
		if offStays(vn, h, fl[i]) {
			continue
		}
		st.heap[vn] = Store(h, m, Store(Select(h, m), k, fl[i]))
	}
}

func (x *X) mapDelete(st *State, m *Term, mt *types.Map, k *Term) {
	ks := sortOfKey(mt.Key())
	dn := mapKey(mt) + ".dom"
	d := x.get(st, dn, arr(sInt, arr(ks, sBool)))
	old := Select(Select(d, m), k)
	st.heap[dn] = Store(d, m, Store(Select(d, m), k, tFalse))
	ln := mapKey(mt) + ".len"
	lh := x.get(st, ln, arr(sInt, sInt))
	st.heap[ln] = Store(lh, m, Ite(old, Add(Select(lh, m), Int(-1)), Select(lh, m)))
}

func (x *X) makeMap(st *State, mt *types.Map) *Term {
	m := x.newRef()
	ks := sortOfKey(mt.Key())
	dn := mapKey(mt) + ".dom"
	st.heap[dn] = Store(x.get(st, dn, arr(sInt, arr(ks, sBool))), m, ConstArr(arr(ks, sBool), tFalse))
	ln := mapKey(mt) + ".len"
	st.heap[ln] = Store(x.get(st, ln, arr(sInt, sInt)), m, tZero)
	return m
}

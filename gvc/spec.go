package main

// The contract language: //@ comments in Go files behind a build tag, expressions in Go syntax.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Clause struct {
	Tags  []string
	Label string
	Text  string
	Expr  ast.Expr
	Skip  bool
}

type Contract struct {
	Key        string
	Kind       string // func pure event
	Params     []string
	Results    []string
	Requires   []ast.Expr
	ReqText    []string
	Assumes    []ast.Expr // assumptions about the environment (listed in the evidence)
	AssText    []string
	Ensures    []*Clause
	Determines []*Clause
	Overwrite  []*Clause
	Entries    []*Clause // what every entry of the caches used here satisfies
	Holds      []*Clause // what every entry of the shared maps made here satisfies
	Closures   []*Clause // behaviour of function values reachable from the results
	Invariants []*Clause // candidate loop invariants, tried at every loop
	LoopVals   []*Clause // candidate values of the locations a loop changes
	Modifies   []ast.Expr
	Emits      []string
	Safety     []string
	JoinTags   []string
	HavocArgs  []bool
	Inline     bool
	Opaque     bool // always used modularly
	Deletes    []*Clause
	Quiet      bool // not even free events happen
	Ctor       bool // at call sites the result is a pure function of the arguments
	Logged     bool // calls are recorded as events named by the key
	HasFrame   bool
	NoFrame    bool
	Plain      int // loops nested less deep than this are described by the candidate invariants only
	PlainLoops int // and among the first PlainLoops loops, when positive
	PlainTags  []string
	Fresh      []string
	File       string
	Line       int
	Rec        bool
}

func (c *Contract) emits(n string) bool {
	for _, e := range c.Emits {
		if e == n {
			return true
		}
	}
	return false
}

// tags lists every property the contract has clauses for.
func (c *Contract) tags() map[string]bool {
	m := map[string]bool{}
	for _, e := range c.Ensures {
		for _, t := range e.Tags {
			m[t] = true
		}
	}
	for _, e := range append(append(append(append(c.Determines[:len(c.Determines):len(c.Determines)], c.Overwrite...), c.Deletes...), c.Closures...), append(c.Holds[:len(c.Holds):len(c.Holds)], c.Entries...)...) {
		for _, t := range e.Tags {
			m[t] = true
		}
	}
	for _, t := range c.Safety {
		m[t] = true
	}
	for _, t := range c.JoinTags {
		m[t] = true
	}
	return m
}

// relevant: the contract says something about the property being checked.
func (c *Contract) relevant(prop string) bool {
	if prop == "" {
		return true
	}
	m := c.tags()
	return m[prop] || m["*"]
}

type Macro struct {
	Name   string
	Params []string
	Types  []string
	Body   ast.Expr
	Rec    bool
	Ret    string
	Sorts  []string
	Decl   bool // uninterpreted
	ax     *Term
}

type specErr struct{ msg string }

func serr(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

var clauseKW = map[string]bool{"func": true, "determines": true, "invariant": true, "closure": true, "loopval": true, "overwrite": true, "holds": true, "entries": true, "deletes": true, "requires": true, "assumes": true, "ensures": true, "modifies": true, "emits": true, "safety": true, "join": true,
	"havoc": true, "inline": true, "noframe": true, "plain": true, "opaque": true, "logged": true, "constructor": true, "quiet": true, "fresh": true, "spec": true, "rec": true, "decl": true, "extern": true, "axiom": true, "lemma": true}

type rawClause struct {
	kw, tags, text string
	file           string
	line           int
}

var beforeRE = regexp.MustCompile(`before\("([^"]+)", *"([^"]+)"`)

func (e *Eng) loadContracts(dir string) error {
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		var cur *rawClause
		var all []*rawClause
		for n, line := range strings.Split(string(b), "\n") {
			t := strings.TrimSpace(line)
			if !strings.HasPrefix(t, "//@") {
				cur = nil
				continue
			}
			t = strings.TrimSpace(t[3:])
			if t == "" || strings.HasPrefix(t, "--") {
				continue
			}
			w := t
			if i := strings.IndexAny(t, " \t["); i >= 0 {
				w = t[:i]
			}
			if clauseKW[w] {
				rest := strings.TrimSpace(t[len(w):])
				tags := ""
				if strings.HasPrefix(rest, "[") {
					j := strings.Index(rest, "]")
					tags = rest[1:j]
					rest = strings.TrimSpace(rest[j+1:])
				}
				cur = &rawClause{w, tags, rest, f, n + 1}
				all = append(all, cur)
				continue
			}
			if cur == nil {
				return fmt.Errorf("%s:%d: continuation without clause", f, n+1)
			}
			cur.text += " " + t
		}
		for _, m := range beforeRE.FindAllStringSubmatch(string(b), -1) {
			if e.ordered == nil {
				e.ordered = map[string]bool{}
			}
			e.ordered[m[1]], e.ordered[m[2]] = true, true
		}
		if err := e.addClauses(all); err != nil {
			return err
		}
	}
	return nil
}

func splitTags(s string) []string {
	var out []string
	for _, t := range strings.FieldsFunc(s, func(r rune) bool { return r == ',' || r == ' ' }) {
		out = append(out, t)
	}
	return out
}

func parseSpec(s, where string) (ast.Expr, error) {
	ex, err := parser.ParseExpr(s)
	if err != nil {
		return nil, fmt.Errorf("%s: %v in %q", where, err, s)
	}
	return ex, nil
}

// header parses "pkg.(*T).name(a, b) r, s".
func header(s string) (key string, params, results []string, err error) {
	// the parameter list is the last parenthesized group before the results
	depth, open := 0, -1
	for i := 0; i < len(s); i++ {
		if s[i] == '(' {
			if depth == 0 && i > 0 && s[i-1] != '.' {
				open = i
				break
			}
			depth++
		} else if s[i] == ')' {
			depth--
		}
	}
	if open < 0 {
		return "", nil, nil, fmt.Errorf("no parameter list in %q", s)
	}
	cl := strings.IndexByte(s[open:], ')') + open
	key = strings.TrimSpace(s[:open])
	params = splitTags(s[open+1 : cl])
	results = splitTags(strings.Trim(strings.TrimSpace(s[cl+1:]), "()"))
	return
}

func (e *Eng) addClauses(cs []*rawClause) error {
	var cur *Contract
	for _, c := range cs {
		where := fmt.Sprintf("%s:%d", filepath.Base(c.file), c.line)
		switch c.kw {
		case "func", "extern":
			txt := c.text
			kind := "func"
			if c.kw == "extern" {
				i := strings.IndexByte(txt, ' ')
				kind = txt[:i]
				txt = strings.TrimSpace(txt[i:])
			}
			key, ps, rs, err := header(txt)
			if err != nil {
				return fmt.Errorf("%s: %v", where, err)
			}
			if e.contracts[key] != nil {
				return fmt.Errorf("%s: duplicate contract for %s", where, key)
			}
			cur = &Contract{Key: key, Kind: kind, Params: ps, Results: rs, File: filepath.Base(c.file), Line: c.line, HasFrame: true}
			e.contracts[key] = cur
			continue
		case "axiom":
			i := strings.Index(c.text, ":")
			if i < 0 {
				return fmt.Errorf("%s: axiom without name", where)
			}
			ex, err := parseSpec(c.text[i+1:], where)
			if err != nil {
				return err
			}
			n := strings.TrimSpace(c.text[:i])
			if e.axioms[n] != nil {
				return fmt.Errorf("%s: duplicate axiom %s", where, n)
			}
			e.axioms[n] = &axiomDef{name: n, text: strings.TrimSpace(c.text[i+1:]), expr: ex}
			e.axiomOrder = append(e.axiomOrder, n)
			continue
		case "spec", "rec", "decl":
			i := strings.Index(c.text, "=")
			head := c.text
			if c.kw != "decl" {
				// first '=' outside parentheses
				d := 0
				i = -1
				for k, ch := range c.text {
					if ch == '(' {
						d++
					} else if ch == ')' {
						d--
					} else if ch == '=' && d == 0 {
						i = k
						break
					}
				}
				if i < 0 {
					return fmt.Errorf("%s: no '='", where)
				}
				head = c.text[:i]
			}
			p := strings.IndexByte(head, '(')
			q := strings.LastIndexByte(head, ')')
			m := &Macro{Name: strings.TrimSpace(head[:p]), Rec: c.kw == "rec", Decl: c.kw == "decl", Ret: strings.TrimSpace(head[q+1:])}
			for _, f := range strings.Split(head[p+1:q], ",") {
				fs := strings.Fields(f)
				if len(fs) == 0 {
					continue
				}
				m.Params = append(m.Params, fs[0])
				if len(fs) > 1 {
					m.Types = append(m.Types, strings.Join(fs[1:], " "))
				} else {
					m.Types = append(m.Types, "")
				}
			}
			if !m.Decl {
				ex, err := parseSpec(c.text[i+1:], where)
				if err != nil {
					return err
				}
				m.Body = ex
			}
			if e.macros[m.Name] != nil {
				return fmt.Errorf("%s: duplicate spec %s", where, m.Name)
			}
			e.macros[m.Name] = m
			continue
		}
		if cur == nil {
			return fmt.Errorf("%s: clause outside a contract", where)
		}
		switch c.kw {
		case "requires", "assumes":
			ex, err := parseSpec(c.text, where)
			if err != nil {
				return err
			}
			if c.kw == "requires" {
				cur.Requires = append(cur.Requires, ex)
				cur.ReqText = append(cur.ReqText, c.text)
			} else {
				cur.Assumes = append(cur.Assumes, ex)
				cur.AssText = append(cur.AssText, c.text)
			}
		case "ensures":
			label, txt := "", c.text
			if i := strings.Index(txt, ":"); i > 0 && !strings.ContainsAny(txt[:i], "(=<>!\" ") {
				label, txt = txt[:i], txt[i+1:]
			}
			ex, err := parseSpec(txt, where)
			if err != nil {
				return err
			}
			if label == "" {
				label = fmt.Sprintf("ensures#%d", len(cur.Ensures)+1)
			}
			cur.Ensures = append(cur.Ensures, &Clause{Tags: splitTags(c.tags), Label: label, Text: strings.TrimSpace(txt), Expr: ex})
		case "invariant", "loopval", "closure":
			i := strings.Index(c.text, ":")
			ex, err := parseSpec(c.text[i+1:], where)
			if err != nil {
				return err
			}
			cl := &Clause{Tags: splitTags(c.tags), Label: c.text[:i], Text: strings.TrimSpace(c.text[i+1:]), Expr: ex}
			if c.kw == "closure" {
				if ce, ok := ex.(*ast.CallExpr); !ok || len(ce.Args) < 4 {
					return fmt.Errorf("%s: on(guard, function, requires, ensures) expected", where)
				}
				cur.Closures = append(cur.Closures, cl)
			} else if c.kw == "loopval" {
				cur.LoopVals = append(cur.LoopVals, cl)
			} else {
				cur.Invariants = append(cur.Invariants, cl)
			}
		case "overwrite", "deletes", "holds", "entries":
			i := strings.Index(c.text, ":")
			ex, err := parseSpec(c.text[i+1:], where)
			if err != nil {
				return err
			}
			cl := &Clause{Tags: splitTags(c.tags), Label: c.text[:i], Text: strings.TrimSpace(c.text[i+1:]), Expr: ex}
			if c.kw == "deletes" {
				cur.Deletes = append(cur.Deletes, cl)
			} else if c.kw == "entries" {
				cur.Entries = append(cur.Entries, cl)
			} else if c.kw == "holds" {
				cur.Holds = append(cur.Holds, cl)
			} else {
				cur.Overwrite = append(cur.Overwrite, cl)
			}
		case "determines":
			i := strings.Index(c.text, ":")
			ex, err := parseSpec(c.text[i+1:], where)
			if err != nil {
				return err
			}
			cl, ok := ex.(*ast.CallExpr)
			if !ok || len(cl.Args) < 3 {
				return fmt.Errorf("%s: determined(event, arg, ...) expected", where)
			}
			cur.Determines = append(cur.Determines, &Clause{Tags: splitTags(c.tags), Label: c.text[:i], Text: strings.TrimSpace(c.text[i+1:]), Expr: ex})
		case "modifies":
			for _, m := range strings.Split(c.text, ";") {
				ex, err := parseSpec(m, where)
				if err != nil {
					return err
				}
				cur.Modifies = append(cur.Modifies, ex)
			}
		case "emits":
			for _, n := range strings.Split(c.text, ",") {
				cur.Emits = append(cur.Emits, strings.TrimSpace(n))
			}
		case "safety":
			cur.Safety = append(cur.Safety, splitTags(c.tags)...)
		case "join":
			cur.JoinTags = append(cur.JoinTags, splitTags(c.tags)...)
		case "havoc":
			n, _ := strconv.Atoi(c.text)
			for len(cur.HavocArgs) <= n {
				cur.HavocArgs = append(cur.HavocArgs, false)
			}
			cur.HavocArgs[n] = true
		case "inline":
			cur.Inline = true
			cur.HasFrame = false
		case "opaque":
			cur.Opaque = true
		case "quiet":
			cur.Quiet = true
		case "logged":
			cur.Opaque, cur.Logged = true, true
		case "constructor":
			cur.Ctor = true
		case "noframe":
			cur.NoFrame = true
		case "plain":
			fmt.Sscan(c.text, &cur.Plain, &cur.PlainLoops)
			cur.PlainTags = splitTags(c.tags)
		case "fresh":
			cur.Fresh = append(cur.Fresh, splitTags(c.text)...)
		}
	}
	return nil
}

// --- evaluation ---

type SpecEnv struct {
	x    *X
	st   *State
	old  *State
	vars map[string]TV
	it   *iter // loop being cut, in candidate invariants
	// for assumed contracts at call sites: event counters before the call
}

var untypedInt = types.Typ[types.UntypedInt]

type nilV struct{}

func (env *SpecEnv) boolTerm(e ast.Expr) *Term {
	v := env.eval(e)
	t, ok := v.V.(*Term)
	if !ok || t.Sort != sBool {
		serr("not a condition: %s", exprStr(e))
	}
	return t
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

func (env *SpecEnv) intTerm(e ast.Expr) *Term {
	v := env.eval(e)
	t, ok := v.V.(*Term)
	if !ok || t.Sort != sInt {
		serr("not an integer: %s", exprStr(e))
	}
	return t
}

// level is a literal loop depth.
func (env *SpecEnv) level(e ast.Expr) int {
	t := env.intTerm(e)
	if t.Op != "int" {
		serr("loop depth must be a number")
	}
	return int(t.I.Int64())
}

func (env *SpecEnv) strTerm(e ast.Expr) *Term {
	v := env.eval(e)
	if s, ok := v.V.(*Slice); ok && isByte(s.Elem) {
		return env.x.bytesString(env.st, s)
	}
	t, ok := v.V.(*Term)
	if !ok || t.Sort != sStr {
		serr("not a string: %s", exprStr(e))
	}
	return t
}

func (env *SpecEnv) with(name string, v TV) *SpecEnv {
	n := *env
	n.vars = map[string]TV{}
	for k, w := range env.vars {
		n.vars[k] = w
	}
	n.vars[name] = v
	return &n
}

func tvBool(t *Term) TV { return TV{t, types.Typ[types.Bool]} }
func tvInt(t *Term) TV  { return TV{t, types.Typ[types.Int]} }
func tvStr(t *Term) TV  { return TV{t, types.Typ[types.String]} }

var errorType = types.Universe.Lookup("error").Type()
var anyType = types.Universe.Lookup("any").Type()

// resolveType reads a type written as an expression.
func (env *SpecEnv) resolveType(e ast.Expr) types.Type {
	switch n := e.(type) {
	case *ast.Ident:
		if o := types.Universe.Lookup(n.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
		switch n.Name {
		case "Str":
			return types.Typ[types.String]
		}
		serr("unknown type %s", n.Name)
	case *ast.StarExpr:
		return types.NewPointer(env.resolveType(n.X))
	case *ast.ArrayType:
		if n.Len == nil {
			return types.NewSlice(env.resolveType(n.Elt))
		}
	case *ast.MapType:
		return types.NewMap(env.resolveType(n.Key), env.resolveType(n.Value))
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if p := env.x.e.byName[id.Name]; p != nil {
				if o := p.Scope().Lookup(n.Sel.Name); o != nil {
					return o.Type()
				}
			}
			for _, sp := range env.x.e.prog.AllPackages() {
				if sp.Pkg.Name() == id.Name {
					if o := sp.Pkg.Scope().Lookup(n.Sel.Name); o != nil {
						return o.Type()
					}
				}
			}
		}
	case *ast.InterfaceType:
		return anyType
	}
	serr("unknown type %s", exprStr(e))
	return nil
}

func (env *SpecEnv) typeArg(e ast.Expr) types.Type {
	if b, ok := e.(*ast.BasicLit); ok && b.Kind == token.STRING {
		s, _ := strconv.Unquote(b.Value)
		ex, err := parser.ParseExpr(s)
		if err != nil {
			serr("type %q: %v", s, err)
		}
		return env.resolveType(ex)
	}
	return env.resolveType(e)
}

func (env *SpecEnv) eval(e ast.Expr) TV {
	x := env.x
	switch n := e.(type) {
	case *ast.ParenExpr:
		return env.eval(n.X)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			b, _ := new(big.Int).SetString(n.Value, 0)
			return TV{IntBig(b), untypedInt}
		case token.STRING:
			s, _ := strconv.Unquote(n.Value)
			return tvStr(Str(s))
		case token.CHAR:
			r, _, _, _ := strconv.UnquoteChar(n.Value[1:len(n.Value)-1], '\'')
			return TV{Int(int64(r)), untypedInt}
		}
	case *ast.Ident:
		if v, ok := env.vars[n.Name]; ok {
			return v
		}
		switch n.Name {
		case "true":
			return tvBool(tTrue)
		case "false":
			return tvBool(tFalse)
		case "nil":
			return TV{nilV{}, nil}
		}
		serr("unknown name %s", n.Name)
	case *ast.UnaryExpr:
		switch n.Op {
		case token.NOT:
			return tvBool(Not(env.boolTerm(n.X)))
		case token.SUB:
			return TV{Sub(tZero, env.intTerm(n.X)), untypedInt}
		case token.AND:
			return env.addr(n.X)
		}
	case *ast.StarExpr:
		v := env.eval(n.X)
		p, ok := v.V.(*Ptr)
		if !ok {
			serr("* of non-pointer %s", exprStr(e))
		}
		el := v.T.Underlying().(*types.Pointer).Elem()
		return TV{x.loadQ(env.st, p, el), el}
	case *ast.BinaryExpr:
		return env.binary(n)
	case *ast.SelectorExpr:
		return env.selector(n)
	case *ast.IndexExpr:
		return env.index(n)
	case *ast.SliceExpr:
		s := env.strTerm(n.X)
		lo, hi := tZero, Slen(s)
		if n.Low != nil {
			lo = env.intTerm(n.Low)
		}
		if n.High != nil {
			hi = env.intTerm(n.High)
		}
		return tvStr(substrT(s, lo, hi))
	case *ast.CallExpr:
		return env.callExpr(n)
	}
	serr("unsupported expression %s", exprStr(e))
	return TV{}
}

// loadQ loads without recording facts about bound variables.
func (x *X) loadQ(st *State, p *Ptr, t types.Type) Value {
	var ts []*Term
	for _, l := range leaves(t) {
		ts = append(ts, x.loadLeaf(st, p, l))
	}
	v := x.unflatten(ts, t)
	open := false
	for _, t := range ts {
		if t.open {
			open = true
		}
	}
	if !open {
		x.typeFacts(st, v, t)
	}
	return v
}

func (env *SpecEnv) binary(n *ast.BinaryExpr) TV {
	x := env.x
	switch n.Op {
	case token.LAND:
		return tvBool(And(env.boolTerm(n.X), env.boolTerm(n.Y)))
	case token.LOR:
		return tvBool(Or(env.boolTerm(n.X), env.boolTerm(n.Y)))
	}
	a, b := env.eval(n.X), env.eval(n.Y)
	switch n.Op {
	case token.EQL, token.NEQ:
		var r *Term
		_, an := a.V.(nilV)
		_, bn := b.V.(nilV)
		switch {
		case an && bn:
			r = tTrue
		case bn:
			r = x.isNil(a)
		case an:
			r = x.isNil(b)
		default:
			r = x.specEq(env.st, a, b, exprStr(n))
		}
		if n.Op == token.NEQ {
			r = Not(r)
		}
		return tvBool(r)
	}
	ta, ok1 := a.V.(*Term)
	tb, ok2 := b.V.(*Term)
	if !ok1 || !ok2 || ta.Sort != tb.Sort {
		serr("operands of %s", exprStr(n))
	}
	if ta.Sort == sStr {
		switch n.Op {
		case token.ADD:
			return tvStr(Cat(ta, tb))
		case token.LSS:
			return tvBool(App("slt", sBool, ta, tb))
		}
	}
	if ta.Sort == "F64" {
		switch n.Op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return TV{App("f"+n.Op.String(), "F64", ta, tb), a.T}
		}
	}
	if ta.Sort == sInt {
		t := a.T
		if t == untypedInt {
			t = b.T
		}
		switch n.Op {
		case token.ADD:
			return TV{Add(ta, tb), t}
		case token.SUB:
			return TV{Sub(ta, tb), t}
		case token.MUL:
			return TV{Mul(ta, tb), t}
		case token.SHL:
			if ta.Op == "int" && tb.Op == "int" {
				return TV{IntBig(new(big.Int).Lsh(ta.I, uint(tb.I.Int64()))), t}
			}
		case token.QUO:
			return TV{goDiv(ta, tb), t}
		case token.LSS:
			return tvBool(Lt(ta, tb))
		case token.LEQ:
			return tvBool(Le(ta, tb))
		case token.GTR:
			return tvBool(Lt(tb, ta))
		case token.GEQ:
			return tvBool(Le(tb, ta))
		}
	}
	serr("operator in %s", exprStr(n))
	return TV{}
}

func (x *X) isNil(a TV) *Term {
	switch v := a.V.(type) {
	case *Ptr:
		return Eq(x.enc(v), tZero)
	case *Slice:
		return Eq(v.Arr, tZero)
	case *Term:
		if v.Sort == sIface {
			return Eq(v, tNil)
		}
		if v.Sort == sInt {
			return Eq(v, tZero)
		}
	}
	serr("comparison with nil")
	return nil
}

func (x *X) specEq(st *State, a, b TV, what string) *Term {
	_, as := a.V.(*Slice)
	_, bs := b.V.(*Slice)
	if as && bs {
		sa, sb := a.V.(*Slice), b.V.(*Slice)
		if isByte(sa.Elem) {
			return Eq(x.bytesString(st, sa), x.bytesString(st, sb))
		}
		// the same slice value
		return And(Eq(sa.Arr, sb.Arr), Eq(sa.Off, sb.Off), Eq(sa.Len, sb.Len))
	}
	// box a concrete value compared with an interface
	ai := a.T != nil && types.IsInterface(a.T)
	bi := b.T != nil && types.IsInterface(b.T)
	if ai && !bi {
		return Eq(a.V.(*Term), x.makeIface(b.V, b.T))
	}
	if bi && !ai {
		return Eq(x.makeIface(a.V, a.T), b.V.(*Term))
	}
	ta, ok1 := a.V.(*Term)
	tb, ok2 := b.V.(*Term)
	if ok1 && ok2 {
		if ta.Sort != tb.Sort {
			serr("comparison of different sorts in %s", what)
		}
		return Eq(ta, tb)
	}
	if p, ok := a.V.(*Ptr); ok {
		if q, ok := b.V.(*Ptr); ok {
			return Eq(x.enc(p), x.enc(q))
		}
	}
	if _, ok := a.V.(*Tuple); ok {
		return x.eqVal(a.V, b.V, a.T)
	}
	serr("comparison in %s", what)
	return nil
}

func (env *SpecEnv) pkgMember(pkg, name string) (TV, bool) {
	p := env.x.e.byName[pkg]
	if p == nil {
		return TV{}, false
	}
	o := p.Scope().Lookup(name)
	switch o := o.(type) {
	case *types.Const:
		return constTV(o.Val(), o.Type()), true
	case *types.Var:
		ptr := env.x.globalPtr(p.Path()+"."+name, o.Type())
		return TV{env.x.loadQ(env.st, ptr, o.Type()), o.Type()}, true
	case *types.Func:
		if f := env.x.e.prog.FuncValue(o); f != nil {
			return TV{env.x.funcRef(f), o.Type()}, true
		}
	}
	return TV{}, false
}

func constTV(v constant.Value, t types.Type) TV {
	switch v.Kind() {
	case constant.Bool:
		return TV{Bool(constant.BoolVal(v)), t}
	case constant.String:
		return TV{Str(constant.StringVal(v)), t}
	case constant.Int:
		n, _ := new(big.Int).SetString(v.ExactString(), 10)
		return TV{IntBig(n), t}
	}
	serr("constant %s", v)
	return TV{}
}

func (env *SpecEnv) selector(n *ast.SelectorExpr) TV {
	if id, ok := n.X.(*ast.Ident); ok {
		if _, shadow := env.vars[id.Name]; !shadow {
			if v, ok := env.pkgMember(id.Name, n.Sel.Name); ok {
				return v
			}
		}
	}
	v := env.eval(n.X)
	return env.field(v, n.Sel.Name)
}

func (env *SpecEnv) field(v TV, name string) TV {
	x := env.x
	if v.T == nil {
		serr("field %s of untyped value", name)
	}
	var pk *types.Package
	if nn := namedOf(v.T); nn != nil {
		pk = nn.Obj().Pkg()
	}
	obj, path, _ := types.LookupFieldOrMethod(v.T, true, pk, name)
	fv, ok := obj.(*types.Var)
	if !ok {
		serr("no field %s in %s", name, v.T)
	}
	_ = fv
	cur := v
	for _, i := range path {
		if p, ok := cur.V.(*Ptr); ok {
			pt := cur.T.Underlying().(*types.Pointer)
			p2 := *p
			p2.T = pt.Elem()
			fp := x.fieldAddr(&p2, i)
			cur = TV{x.loadQ(env.st, fp, fp.T), fp.T}
			continue
		}
		tp, ok := cur.V.(*Tuple)
		if !ok {
			serr("field of %T", cur.V)
		}
		s := asStructT(cur.T)
		cur = TV{tp.E[i], s.Field(i).Type()}
	}
	return cur
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// addr: pointer to a field or variable.
func (env *SpecEnv) addr(e ast.Expr) TV {
	if s, ok := e.(*ast.SelectorExpr); ok {
		v := env.eval(s.X)
		p, ok := v.V.(*Ptr)
		if !ok {
			serr("address of field of non-pointer")
		}
		st := asStructT(v.T.Underlying().(*types.Pointer).Elem())
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == s.Sel.Name {
				fp := env.x.fieldAddr(p, i)
				return TV{fp, types.NewPointer(fp.T)}
			}
		}
	}
	serr("address of %s", exprStr(e))
	return TV{}
}

func (env *SpecEnv) index(n *ast.IndexExpr) TV {
	x := env.x
	v := env.eval(n.X)
	if v.T == nil {
		serr("index of untyped")
	}
	switch u := v.T.Underlying().(type) {
	case *types.Slice:
		i := env.intTerm(n.Index)
		s := v.V.(*Slice)
		if isByte(s.Elem) {
			return tvInt(App("sat", sInt, x.bytesString(env.st, s), i))
		}
		return TV{x.loadQ(env.st, s.elemPtr(i), u.Elem()), u.Elem()}
	case *types.Map:
		k := env.eval(n.Index)
		kt := x.specKey(k, u.Key())
		m := v.V.(*Term)
		z := x.flatten(x.zero(u.Elem()), u.Elem())
		dom := And(Select(x.mapDom(env.st, m, u), kt), Not(Eq(m, tZero)))
		var ts []*Term
		for i, l := range leaves(u.Elem()) {
			ts = append(ts, Ite(dom, normOff(l.suf, Select(x.mapVal(env.st, m, u, l), kt)), z[i]))
		}
		r := x.unflatten(ts, u.Elem())
		op := false
		for _, t := range ts {
			op = op || t.open
		}
		if !op {
			x.typeFacts(env.st, r, u.Elem())
		}
		return TV{r, u.Elem()}
	case *types.Basic:
		return tvInt(App("sat", sInt, v.V.(*Term), env.intTerm(n.Index)))
	case *types.Array:
		i := env.intTerm(n.Index)
		if tp, ok := v.V.(*Tuple); ok && i.Op == "int" {
			return TV{tp.E[i.I.Int64()], u.Elem()}
		}
	}
	serr("index %s", exprStr(n))
	return TV{}
}

func (x *X) specKey(k TV, t types.Type) *Term {
	if types.IsInterface(t) && !types.IsInterface(k.T) {
		return x.makeIface(k.V, k.T)
	}
	return x.keyTerm(k.V, t)
}

func (env *SpecEnv) callExpr(n *ast.CallExpr) TV {
	x := env.x
	id, ok := n.Fun.(*ast.Ident)
	if !ok {
		serr("call %s", exprStr(n))
	}
	arg := func(i int) ast.Expr {
		if i >= len(n.Args) {
			serr("missing argument in %s", exprStr(n))
		}
		return n.Args[i]
	}
	str := func(i int) string {
		b, ok := arg(i).(*ast.BasicLit)
		if !ok || b.Kind != token.STRING {
			serr("string literal expected in %s", exprStr(n))
		}
		s, _ := strconv.Unquote(b.Value)
		return s
	}
	switch id.Name {
	case "imp":
		a := env.boolTerm(arg(0))
		if a == tFalse {
			return tvBool(tTrue)
		}
		return tvBool(Imp(a, env.boolTerm(arg(1))))
	case "iff":
		return tvBool(Eq(env.boolTerm(arg(0)), env.boolTerm(arg(1))))
	case "ite":
		c := env.boolTerm(arg(0))
		a, b := env.eval(arg(1)), env.eval(arg(2))
		ta, ok1 := a.V.(*Term)
		tb, ok2 := b.V.(*Term)
		if ok1 && ok2 {
			return TV{Ite(c, ta, tb), a.T}
		}
		t := a.T
		if _, isNil := a.V.(nilV); isNil {
			t = b.T
			a.V = x.zero(t)
		}
		if _, isNil := b.V.(nilV); isNil {
			b.V = x.zero(t)
		}
		fa, fb := x.flatten(a.V, t), x.flatten(b.V, t)
		for i := range fa {
			fa[i] = Ite(c, fa[i], fb[i])
		}
		return TV{x.unflatten(fa, t), t}
	case "forall", "exists":
		v := arg(0).(*ast.Ident).Name
		mk := Forall
		if id.Name == "exists" {
			mk = Exists
		}
		if len(n.Args) == 3 { // typed
			t := env.typeArg(arg(1))
			b := FreshBV(v, sortOfKey(t))
			bt := TV{x.unkey(b, t), t}
			body := env.with(v, bt).boolTerm(arg(2))
			return tvBool(mk(b, body))
		}
		lo, hi := env.intTerm(arg(1)), env.intTerm(arg(2))
		// a small constant range is expanded
		if d := Sub(hi, lo); d.Op == "int" && d.I.Cmp(big.NewInt(6)) <= 0 {
			var cs []*Term
			for k := int64(0); k < d.I.Int64(); k++ {
				cs = append(cs, env.with(v, tvInt(Add(lo, Int(k)))).boolTerm(arg(3)))
			}
			if id.Name == "exists" {
				return tvBool(Or(cs...))
			}
			return tvBool(And(cs...))
		}
		b := FreshBV(v, sInt)
		body := env.with(v, tvInt(b)).boolTerm(arg(3))
		rng := And(Le(lo, b), Lt(b, hi))
		if id.Name == "exists" {
			return tvBool(Exists(b, And(rng, body)))
		}
		return tvBool(Forall(b, Imp(rng, body)))
	case "let":
		v := arg(0).(*ast.Ident).Name
		return env.with(v, env.eval(arg(1))).eval(arg(2))
	case "old":
		e2 := *env
		e2.st = env.old
		// parameters keep their entry values; results are not visible
		return e2.eval(arg(0))
	case "len":
		v := env.eval(arg(0))
		if v.T == nil {
			serr("len of untyped")
		}
		if m, ok := v.T.Underlying().(*types.Map); ok {
			mt := v.V.(*Term)
			return tvInt(Ite(Eq(mt, tZero), tZero, x.mapLen(env.st, mt, m)))
		}
		return tvInt(x.lenOf(env.st, v.V, v.T, "len"))
	case "has":
		m := env.eval(arg(0))
		mt := m.T.Underlying().(*types.Map)
		k := env.eval(arg(1))
		return tvBool(And(Select(x.mapDom(env.st, m.V.(*Term), mt), x.specKey(k, mt.Key())), Not(Eq(m.V.(*Term), tZero))))
	case "is":
		v := env.eval(arg(0))
		return tvBool(typeTest(v.V.(*Term), env.typeArg(arg(1))))
	case "as":
		v := env.eval(arg(0))
		t := env.typeArg(arg(1))
		if types.IsInterface(t) {
			return TV{v.V, t}
		}
		r := x.ifaceVal(v.V.(*Term), t)
		if !v.V.(*Term).open {
			x.typeFacts(env.st, r, t)
		}
		return TV{r, t}
	case "cast": // reinterpret an address as a pointer
		v := env.eval(arg(0))
		t := env.typeArg(arg(1))
		switch a := v.V.(type) {
		case *Term:
			return TV{x.unflatten([]*Term{a}, t), t}
		case *Ptr:
			return TV{x.dec(x.enc(a), t.Underlying().(*types.Pointer).Elem()), t}
		}
	case "cause":
		v := env.eval(arg(0))
		return TV{causeT(v.V.(*Term)), errorType}
	case "calls":
		leaf := "$ev." + str(0)
		return tvInt(Sub(x.get(env.st, leaf, sInt), x.get(env.old, leaf, sInt)))
	case "arg", "res", "tick":
		name := str(0)
		k := env.intTerm(arg(1))
		base := x.get(env.old, "$ev."+name, sInt)
		kk := Add(base, k)
		if id.Name == "tick" {
			return tvInt(App("T!"+name, sInt, kk))
		}
		sig := x.e.eventSig(name)
		if sig == nil {
			serr("unknown event %s", name)
		}
		var i int64
		if len(n.Args) > 2 {
			i = env.intTerm(arg(2)).I.Int64()
		}
		if id.Name == "res" {
			if int(i) >= len(sig.res) {
				serr("event %s has no result %d", name, i)
			}
			t := sig.res[i]
			var ts []*Term
			for _, l := range leaves(t) {
				ts = append(ts, App(fmt.Sprintf("R!%s!%d%s", name, i, l.suf), l.sort, kk))
			}
			v := x.unflatten(zeroOffs(ts, leaves(t)), t)
			if !kk.open {
				x.typeFacts(env.st, v, t)
			}
			return TV{v, t}
		}
		t := sig.args[i]
		if s, ok := t.Underlying().(*types.Slice); ok && isByte(s.Elem()) {
			return tvStr(App(fmt.Sprintf("A!%s!%d.0", name, i), sStr, kk))
		} else if ok {
			// slices are recorded by contents: array(s), offset, length
			serr("arg of slice type: use argat/arglen (%s)", name)
		}
		var ts []*Term
		for q, l := range leaves(t) {
			ts = append(ts, App(fmt.Sprintf("A!%s!%d.%d", name, i, q), l.sort, kk))
		}
		return TV{x.unflatten(ts, t), t}
	case "arglen", "argat":
		name := str(0)
		kk := Add(x.get(env.old, "$ev."+name, sInt), env.intTerm(arg(1)))
		i := env.intTerm(arg(2)).I.Int64()
		sig := x.e.eventSig(name)
		el := sig.args[i].Underlying().(*types.Slice).Elem()
		ls := leaves(el)
		off := App(fmt.Sprintf("A!%s!%d.%d", name, i, len(ls)), sInt, kk)
		ln := App(fmt.Sprintf("A!%s!%d.%d", name, i, len(ls)+1), sInt, kk)
		if id.Name == "arglen" {
			return tvInt(ln)
		}
		ix := env.intTerm(arg(3))
		var ts []*Term
		for q, l := range ls {
			ts = append(ts, Select(App(fmt.Sprintf("A!%s!%d.%d", name, i, q), arr(sInt, l.sort), kk), Add(off, ix)))
		}
		return TV{x.unflatten(ts, el), el}
	case "qhas", "qlen", "qnum", "qval": // what url.ParseQuery makes of a query string
		qs := env.strTerm(arg(0))
		if id.Name == "qlen" {
			return tvInt(App("pqlen", sInt, qs))
		}
		k := env.strTerm(arg(1))
		sel := func(suf, sort string) *Term { return Select(App("pqval"+suf, arr(sStr, sort), qs), k) }
		switch id.Name {
		case "qhas":
			return tvBool(Select(App("pqdom", arr(sStr, sBool), qs), k))
		case "qnum":
			return tvInt(sel(".$len", sInt))
		}
		h := x.get(env.st, "[]string", arr(sInt, arr(sInt, sStr)))
		return tvStr(Select(Select(h, sel(".$arr", sInt)), env.intTerm(arg(2))))
	case "replaced": // replaced(k, s): what the k-th replacer made does to s
		k := Add(x.get(env.old, "$ev.strings.NewReplacer", sInt), env.intTerm(arg(0)))
		return tvStr(App("replace", sStr, App("replTabE", sInt, k), env.strTerm(arg(1))))
	case "now":
		return tvInt(App("R!now!0", sInt, Add(x.get(env.old, "$ev.now", sInt), env.intTerm(arg(0)))))
	case "joined": // every goroutine started has been waited for
		return tvBool(Not(x.get(env.st, "$unjoined", sBool)))
	case "clock":
		return tvInt(x.get(env.st, "$clock", sInt))
	case "pure":
		name := str(0)
		sig := x.e.eventSig(name)
		if sig == nil {
			serr("unknown function %s", name)
		}
		i := 0
		rest := n.Args[1:]
		if len(n.Args)-2 == len(sig.args) {
			i = int(env.intTerm(arg(1)).I.Int64())
			rest = n.Args[2:]
		}
		var as []*Term
		for q, a := range rest {
			v := env.eval(a)
			t := sig.args[q]
			if types.IsInterface(t) && v.T != nil && !types.IsInterface(v.T) {
				as = append(as, x.makeIface(v.V, v.T))
				continue
			}
			if _, isNil := v.V.(nilV); isNil {
				as = append(as, x.flatten(x.zero(t), t)...)
				continue
			}
			if tm, ok := v.V.(*Term); ok && tm.Sort == sStr {
				as = append(as, tm) // also for byte slices
				continue
			}
			as = append(as, x.pureArg(env.st, v.V, t)...)
		}
		t := sig.res[i]
		var ts []*Term
		for _, l := range leaves(t) {
			ts = append(ts, App(fmt.Sprintf("P!%s!%d%s", name, i, l.suf), l.sort, as...))
		}
		return TV{x.unflatten(zeroOffs(ts, leaves(t)), t), t}
	case "sent": // header of the k-th request sent, "" when absent
		kk := Add(x.get(env.old, "$ev.http.(*Client).Do", sInt), env.intTerm(arg(0)))
		return tvStr(Select(App("sentHdr", arr(sStr, sStr), kk), env.strTerm(arg(1))))
	case "senturl":
		kk := Add(x.get(env.old, "$ev.http.(*Client).Do", sInt), env.intTerm(arg(0)))
		return tvStr(App("sentURL", sStr, kk))
	case "header": // header of a response (entry of its header map)
		hk := env.strTerm(arg(1))
		if hk.Op != "str" {
			hk = App("canonHdr", sStr, hk)
		}
		return tvStr(Select(Select(x.get(env.st, "http.hdr", arr(sInt, arr(sStr, sStr))), env.eval(arg(0)).V.(*Term)), hk))
	case "pattern": // source text of a compiled regular expression
		return tvStr(x.ghost(env.st, env.eval(arg(0)).V, ".$pat", sStr))
	case "seen", "seenby": // keys already visited by the loop ranging over a map (candidate invariants); seenby names the loop by its depth
		a0, leaf := arg(0), ""
		if env.it != nil {
			leaf = env.it.seen
		}
		if id.Name == "seenby" {
			n, h := env.level(arg(0)), x.headStack
			if env.it == nil || n > len(h) {
				serr("seenby: no such loop")
			}
			if n < len(h) {
				leaf = h[n].it.seen
			}
			a0 = arg(1)
		}
		if leaf == "" {
			serr("seen outside a range loop")
		}
		v := env.eval(a0)
		ts := x.flatten(v.V, v.T)
		var k *Term
		if len(ts) == 1 {
			k = ts[0]
		} else {
			k = x.specKey(v, v.T)
		}
		srt := x.e.leafSort[leaf]
		if ks, _ := splitArr(srt); ks != k.Sort {
			serr("seen: key sort")
		}
		return tvBool(Select(x.get(env.st, leaf, srt), k))
	case "local": // value of a local variable that lives in memory (candidate invariants)
		nm := str(0)
		if env.it == nil || env.it.fr == nil {
			serr("local outside a loop")
		}
		for fr := env.it.fr; fr != nil; fr = fr.caller {
			for v, val := range fr.env {
				al, ok := v.(*ssa.Alloc)
				if !ok || al.Comment != nm {
					continue
				}
				p, ok := val.(*Ptr)
				if !ok {
					continue
				}
				t := al.Type().Underlying().(*types.Pointer).Elem()
				return TV{x.load(env.st, p, t), t}
			}
		}
		serr("no local variable %s", nm)
	case "localof": // the first local variable of one of the given types (candidate invariants)
		if env.it == nil || env.it.fr == nil {
			serr("localof outside a loop")
		}
		for fr := env.it.fr; fr != nil; fr = fr.caller {
			var best ssa.Value
			var bt types.Type
			for v, val := range fr.env {
				t := v.Type()
				al, isAl := v.(*ssa.Alloc)
				if isAl {
					if _, ok := val.(*Ptr); !ok {
						continue
					}
					t = al.Type().Underlying().(*types.Pointer).Elem()
				}
				if val == nil {
					continue
				}
				for i := range n.Args {
					if types.TypeString(t, nil) == str(i) && (best == nil || v.Pos() < best.Pos() || v.Pos() == best.Pos() && v.Name() < best.Name()) {
						best, bt = v, t
					}
				}
			}
			if best != nil {
				if _, ok := best.(*ssa.Alloc); ok {
					return TV{x.load(env.st, fr.env[best].(*Ptr), bt), bt}
				}
				return TV{fr.env[best], bt}
			}
		}
		serr("no local %s", str(0))
	case "counting": // a candidate invariant for loops that do not range over a map
		if env.it == nil || env.it.seen != "" {
			serr("not a counting loop")
		}
		return env.eval(arg(0))
	case "localptr": // the object of the given type that the function works with (candidate invariants)
		if env.it == nil || env.it.fr == nil {
			serr("localptr outside a loop")
		}
		for fr := env.it.fr; fr != nil; fr = fr.caller {
			var best ssa.Value
			for v, val := range fr.env {
				pt, ok := v.Type().Underlying().(*types.Pointer)
				if _, isP := val.(*Ptr); !ok || !isP || pt.Elem().String() != str(0) {
					continue
				}
				if best == nil || v.Pos() < best.Pos() {
					best = v
				}
			}
			if best != nil {
				return TV{fr.env[best], best.Type()}
			}
		}
		serr("no local %s", str(0))
	case "grouperr": // error recorded so far by an errgroup
		return TV{x.ghost(env.st, env.eval(arg(0)).V, ".$err", sIface), types.Universe.Lookup("error").Type()}
	case "tripleof": // the array of three strings
		ss := types.NewArray(types.Typ[types.String], 3)
		return TV{&Tuple{E: []Value{env.strTerm(arg(0)), env.strTerm(arg(1)), env.strTerm(arg(2))}}, ss}
	case "pairof": // the array of two strings
		ss := types.NewArray(types.Typ[types.String], 2)
		return TV{&Tuple{E: []Value{env.strTerm(arg(0)), env.strTerm(arg(1))}}, ss}
	case "atlevel": // a candidate invariant for loops of one nesting depth
		if env.it == nil || env.level(arg(0)) != len(x.headStack) {
			serr("not at this level")
		}
		return env.eval(arg(1))
	case "iterof": // iteration number of an enclosing loop
		n := env.level(arg(0))
		if env.it == nil || n >= len(x.headStack) {
			serr("iterof: no such loop")
		}
		return tvInt(x.headStack[n].i)
	case "keyof": // key visited by an enclosing loop ranging over a map
		n := env.level(arg(0))
		if env.it == nil || n >= len(x.headStack) || x.headStack[n].key == nil {
			serr("keyof: no such loop")
		}
		return TV{x.headStack[n].key, x.headStack[n].kt}
	case "ctxdone": // the context has been cancelled
		return tvBool(x.ctxIsDone(env.st, env.eval(arg(0)).V.(*Term)))
	case "before": // before("ev1", "ev2", i, j): event i of ev1 happens before event j of ev2 in every interleaving
		n1, n2 := str(0), str(1)
		k1 := Add(x.get(env.old, "$ev."+n1, sInt), env.intTerm(arg(2)))
		k2 := Add(x.get(env.old, "$ev."+n2, sInt), env.intTerm(arg(3)))
		g1, g2 := App("G!"+n1, sInt, k1), App("G!"+n2, sInt, k2)
		return tvBool(And(Lt(App("T!"+n1, sInt, k1), App("T!"+n2, sInt, k2)), Or(Eq(g1, g2), Eq(g1, tZero), And(Eq(g2, tZero), Not(App("U!"+n2, sBool, k2))))))
	case "zerotime": // the zero time
		return tvBool(Eq(env.intTerm(arg(0)), IntBig(zeroTimeNs)))
	case "unix": // seconds of a time
		return tvInt(unixT(env.intTerm(arg(0))))
	case "jwthas": // the token's header has the key
		return tvBool(Select(App("jwt.hdrdom", arr(sStr, sBool), env.strTerm(arg(0))), env.strTerm(arg(1))))
	case "jwthdr":
		return TV{Select(App("jwt.hdrval", arr(sStr, sIface), env.strTerm(arg(0))), env.strTerm(arg(1))), anyType}
	case "jwtsig": // the token's signature verifies under the key
		return tvBool(App("jwtSigOK", sBool, env.strTerm(arg(0)), env.eval(arg(1)).V.(*Term)))
	case "jwtclaims": // the object holds the claims of the token
		p := env.eval(arg(0)).V.(*Ptr)
		cred := env.strTerm(arg(1))
		var cs []*Term
		for _, l := range leaves(p.T) {
			if strings.HasSuffix(l.suf, ".$off") {
				continue
			}
			cs = append(cs, Eq(x.loadLeaf(env.st, p, l), App("jwt.claim"+l.suf, l.sort, cred)))
		}
		return tvBool(And(cs...))
	case "str": // contents of a byte slice
		return tvStr(env.strTerm(arg(0)))
	case "lower":
		return tvStr(App("lower", sStr, env.strTerm(arg(0))))
	case "eqfold":
		return tvBool(eqFold(env.strTerm(arg(0)), env.strTerm(arg(1))))
	case "index":
		return tvInt(sindex(env.st, env.strTerm(arg(0)), env.strTerm(arg(1))))
	case "lastindex":
		return tvInt(slastindex(env.st, env.strTerm(arg(0)), env.strTerm(arg(1))))
	case "sub":
		return tvStr(substrT(env.strTerm(arg(0)), env.intTerm(arg(1)), env.intTerm(arg(2))))
	case "ntok":
		return tvInt(App("ntok", sInt, env.strTerm(arg(0)), env.strTerm(arg(1))))
	case "tok":
		return tvStr(Select(App("toks", arr(sInt, sStr), env.strTerm(arg(0)), env.strTerm(arg(1))), env.intTerm(arg(2))))
	case "hasprefix":
		return tvBool(hasPrefix(env.strTerm(arg(0)), env.strTerm(arg(1))))
	case "hassuffix":
		return tvBool(hasSuffix(env.strTerm(arg(0)), env.strTerm(arg(1))))
	case "nrunes":
		return tvInt(nrunes(env.strTerm(arg(0))))
	case "runeat":
		return tvInt(runeAt(env.strTerm(arg(0)), env.intTerm(arg(1))))
	case "runestr":
		return tvStr(runeStr(env.intTerm(arg(0))))
	case "app": // uninterpreted: app("name", "Sort", args...)
		var as []*Term
		for _, a := range n.Args[2:] {
			v := env.eval(a)
			as = append(as, x.flatten(v.V, v.T)...)
		}
		srt := str(1)
		var t types.Type
		switch srt {
		case sInt:
			t = types.Typ[types.Int]
		case sStr:
			t = types.Typ[types.String]
		case sBool:
			t = types.Typ[types.Bool]
		case sIface:
			t = anyType
		case "F64":
			t = types.Typ[types.Float64]
		}
		return TV{App(str(0), srt, as...), t}
	case "gdom", "gval", "gttl": // gache entry
		g := env.eval(arg(0)).V.(*Term)
		k := env.strTerm(arg(1))
		a := App("ival", sInt, g)
		switch id.Name {
		case "gdom":
			return tvBool(Select(Select(x.get(env.st, "gache.dom", arr(sInt, arr(sStr, sBool))), a), k))
		case "gval":
			return TV{Select(Select(x.get(env.st, "gache.val", arr(sInt, arr(sStr, sIface))), a), k), anyType}
		default:
			return tvInt(Select(Select(x.get(env.st, "gache.ttl", arr(sInt, arr(sStr, sInt))), a), k))
		}
	case "smdom", "smval": // sync.Map entry: smdom(ptr, key)
		m := env.eval(arg(0)).V.(*Ptr)
		k := env.eval(arg(1))
		kt := x.specKey(k, anyType)
		l := opaque["sync.Map"][0]
		if id.Name == "smval" {
			l = opaque["sync.Map"][1]
			return TV{Select(x.loadLeaf(env.st, m, l), kt), anyType}
		}
		return tvBool(Select(x.loadLeaf(env.st, m, l), kt))
	case "fresh":
		v := env.eval(arg(0))
		var t *Term
		switch w := v.V.(type) {
		case *Ptr:
			t = x.enc(w)
		case *Term:
			t = w
		}
		if t.Sort == sIface {
			t = App("ival", sInt, t)
		}
		return tvBool(Le(Ref(1), t))
	case "ref": // address
		v := env.eval(arg(0))
		switch w := v.V.(type) {
		case *Ptr:
			return tvInt(x.enc(w))
		case *Slice:
			return tvInt(w.Arr)
		case *Term:
			if w.Sort == sIface {
				return tvInt(App("ival", sInt, w))
			}
			return tvInt(w)
		}
	case "iface":
		v := env.eval(arg(0))
		return TV{x.makeIface(v.V, v.T), anyType}
	case "ityp":
		return tvInt(ityp(env.eval(arg(0)).V.(*Term)))
	}
	if m := x.e.macros[id.Name]; m != nil {
		if len(n.Args) != len(m.Params) {
			serr("arguments of %s", id.Name)
		}
		if m.Rec || m.Decl {
			var as []*Term
			for i, a := range n.Args {
				v := env.eval(a)
				if _, isNil := v.V.(nilV); isNil {
					t := env.typeArg(mustParse(m.Types[i]))
					as = append(as, x.flatten(x.zero(t), t)...)
					continue
				}
				as = append(as, x.flatten(v.V, v.T)...)
			}
			t := env.typeArg(mustParse(m.Ret))
			return TV{App("spec:"+m.Name, sortOfKey(t), as...), t}
		}
		e2 := *env
		e2.vars = map[string]TV{}
		for i, p := range m.Params {
			v := env.eval(n.Args[i])
			if _, isNil := v.V.(nilV); isNil && m.Types[i] != "" {
				t := env.typeArg(mustParse(m.Types[i]))
				v = TV{x.zero(t), t}
			}
			e2.vars[p] = v
		}
		return e2.eval(m.Body)
	}
	serr("unknown function %s", id.Name)
	return TV{}
}

func mustParse(s string) ast.Expr {
	ex, err := parser.ParseExpr(s)
	if err != nil {
		serr("type %q: %v", s, err)
	}
	return ex
}

// recAxiom is the defining equation of a recursive spec function.
func (e *Eng) recAxiom(m *Macro) *Term {
	if m.ax != nil {
		return m.ax
	}
	x := e.newX("axiom")
	env := &SpecEnv{x: x, st: newState(), old: newState(), vars: map[string]TV{}}
	var bvs, as []*Term
	for i, p := range m.Params {
		t := env.typeArg(mustParse(m.Types[i]))
		b := BV("ax!"+m.Name+"!"+p, sortOfKey(t))
		bvs = append(bvs, b)
		as = append(as, b)
		env.vars[p] = TV{x.unkey(b, t), t}
	}
	rt := env.typeArg(mustParse(m.Ret))
	lhs := App("spec:"+m.Name, sortOfKey(rt), as...)
	body := env.eval(m.Body)
	ax := Eq(lhs, body.V.(*Term))
	ax = cons("pat", "", sBool, nil, ax, lhs)
	for i := len(bvs) - 1; i >= 0; i-- {
		ax = Forall(bvs[i], ax)
	}
	m.ax = ax
	return ax
}

// eventSig gives argument and result types of an event or pure function.
type evSig struct{ args, res []types.Type }

func (e *Eng) eventSig(name string) *evSig {
	if s, ok := evSigs[name]; ok {
		return s
	}
	s := e.eventSig0(name)
	if s != nil {
		evSigs[name] = s
	}
	return s
}

var evSigs = map[string]*evSig{}

func sigOf(recv types.Type, sig *types.Signature) *evSig {
	s := &evSig{}
	if recv != nil {
		s.args = append(s.args, recv)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		s.args = append(s.args, sig.Params().At(i).Type())
	}
	for i := 0; i < sig.Results().Len(); i++ {
		s.res = append(s.res, sig.Results().At(i).Type())
	}
	return s
}

func (e *Eng) eventSig0(name string) *evSig {
	if f := e.funcs[name]; f != nil {
		var r types.Type
		if f.Signature.Recv() != nil {
			r = f.Signature.Recv().Type()
		}
		return sigOf(r, f.Signature)
	}
	if strings.HasPrefix(name, "func ") { // call of a function-typed value
		pt := strings.SplitN(name[5:], ".", 2)
		if len(pt) == 2 {
			if p := e.byName[pt[0]]; p != nil {
				if o := p.Scope().Lookup(pt[1]); o != nil {
					return sigOf(o.Type(), o.Type().Underlying().(*types.Signature))
				}
			}
		}
		return nil
	}
	// pkg.Func, pkg.(*T).M, pkg.Iface.M
	i := strings.IndexByte(name, '.')
	if i < 0 {
		return nil
	}
	var cands []*types.Package
	if p := e.byName[name[:i]]; p != nil {
		cands = append(cands, p)
	}
	for _, sp := range e.prog.AllPackages() {
		if sp.Pkg.Name() == name[:i] || strings.HasSuffix(sp.Pkg.Path(), "/"+name[:i]) {
			cands = append(cands, sp.Pkg)
		}
	}
	rest := name[i+1:]
	for _, p := range cands {
		if j := strings.LastIndexByte(rest, '.'); j >= 0 {
			tn := strings.Trim(rest[:j], "(*)")
			o := p.Scope().Lookup(tn)
			if o == nil {
				continue
			}
			var t types.Type = o.Type()
			if strings.HasPrefix(rest, "(*") {
				t = types.NewPointer(t)
			}
			ob, _, _ := types.LookupFieldOrMethod(t, true, p, rest[j+1:])
			if f, ok := ob.(*types.Func); ok {
				return sigOf(t, f.Type().(*types.Signature))
			}
			continue
		}
		if f, ok := p.Scope().Lookup(rest).(*types.Func); ok {
			return sigOf(nil, f.Type().(*types.Signature))
		}
	}
	if name == "json.Decode" { // source and decoded object
		return &evSig{args: []types.Type{anyType, anyType}, res: []types.Type{errorType}}
	}
	if name == "error.Error" {
		return &evSig{args: []types.Type{errorType}, res: []types.Type{types.Typ[types.String]}}
	}
	return nil
}

// --- using contracts at call sites ---

func (x *X) ctrVars(ct *Contract, args []Value, argT []types.Type, res []Value, resT []types.Type) map[string]TV {
	vars := map[string]TV{}
	for i, p := range ct.Params {
		if i < len(args) && p != "_" {
			vars[p] = TV{args[i], argT[i]}
		}
	}
	for i, r := range ct.Results {
		if i < len(res) && r != "_" {
			vars[r] = TV{res[i], resT[i]}
		}
	}
	return vars
}

// assumeEnsures assumes the postconditions of an assumed (external) contract.
func (x *X) assumeEnsures(c *Call, ct *Contract, res []Value) {
	var rt []types.Type
	for i := range res {
		rt = append(rt, c.resType(i))
	}
	env := &SpecEnv{x: x, st: c.st, old: c.st, vars: x.ctrVars(ct, c.args, c.argT, res, rt)}
	for _, cl := range ct.Ensures {
		c.st.add(env.boolTerm(cl.Expr))
	}
}

// applyContract is a call of a function under contract: requires is an obligation, ensures is assumed.
func (x *X) applyContract(fr *Frame, st *State, f *ssa.Function, ct *Contract, args []Value, pos token.Pos) []Outcome {
	sig := f.Signature
	var at []types.Type
	if sig.Recv() != nil {
		at = append(at, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		at = append(at, sig.Params().At(i).Type())
	}
	x.modular[ct.Key] = true
	pre := st.clone()
	env := &SpecEnv{x: x, st: st, old: pre, vars: x.ctrVars(ct, args, at, nil, nil)}
	for i, r := range ct.Requires {
		g := env.boolTerm(r)
		x.obl(st, "requires", "precondition of "+ct.Key+": "+ct.ReqText[i], []string{"*"}, pos, g)
		st.add(g)
	}
	var evK *Term
	if ct.Logged {
		evK = x.event(st, ct.Key)
		for i, a := range args {
			for q, t := range x.pureArg(st, a, at[i]) {
				st.add(Eq(App(fmt.Sprintf("A!%s!%d.%d", ct.Key, i, q), t.Sort, evK), t))
			}
		}
		pre = st.clone()
	}
	// frame
	allowed := map[string][]*Term{}
	for _, m := range ct.Modifies {
		x.modTargets(env, m, allowed)
	}
	for _, leafp := range sortedKeys(allowed) {
		if strings.HasPrefix(leafp, "sync.Map") && x.ctr != nil && len(x.ctr.Holds) > 0 {
			unsup("call of %s may change shared maps under a holds clause", ct.Key)
		}
		for _, leaf := range sortedKeys(st.heap) {
			h := st.heap[leaf]
			if !under(leaf, leafp) {
				continue
			}
			_, es := splitArr(h.Sort)
			for _, b := range allowed[leafp] {
				h = Store(h, b, x.fresh("mod:"+leaf, es))
			}
			st.heap[leaf] = h
		}
	}
	emits := ct.Emits
	for _, ev := range sortedKeys(freeEvent) {
		if !ct.Quiet && !ct.emits(ev) {
			emits = append(emits[:len(emits):len(emits)], ev) // any function may read the clock
		}
	}
	for _, ev := range emits {
		leaf := "$ev." + ev
		k := x.get(st, leaf, sInt)
		n := x.fresh("cnt:"+ev, sInt)
		st.add(Le(k, n))
		if ev == "now" {
			j := FreshBV("n", sInt)
			v := App("R!now!0", sInt, j)
			f := Imp(And(Le(k, j), Lt(j, n)), And(Le(tZero, v), Lt(v, IntBig(new(big.Int).Lsh(big.NewInt(1), 62)))))
			st.add(Forall(j, cons("pat", "", sBool, nil, f, v)))
		}
		st.heap[leaf] = n
	}
	if len(emits) > 0 {
		k := x.get(st, "$clock", sInt)
		n := x.fresh("clock", sInt)
		st.add(Le(k, n))
		st.heap["$clock"] = n
	}
	var res []Value
	var rt []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		name := ""
		if i < len(ct.Results) {
			name = ct.Results[i]
		}
		isFresh := false
		for _, fn := range ct.Fresh {
			if fn == name {
				isFresh = true
			}
		}
		var v Value
		if pt, ok := t.Underlying().(*types.Pointer); ok && isFresh {
			r := x.newRef()
			b := x.fresh("fr:"+name, sBool)
			v = x.dec(Ite(b, r, tZero), pt.Elem())
		} else {
			v = x.freshVal(st, "r:"+name, t)
		}
		if evK != nil {
			for q, l := range leaves(t) {
				st.add(Eq(App(fmt.Sprintf("R!%s!%d%s", ct.Key, i, l.suf), l.sort, evK), x.flatten(v, t)[q]))
			}
		}
		res = append(res, v)
		rt = append(rt, t)
	}
	env2 := &SpecEnv{x: x, st: st, old: pre, vars: x.ctrVars(ct, args, at, res, rt)}
	for _, cl := range ct.Ensures {
		if x.prop != "" && !wanted(cl.Tags, x.prop) {
			continue
		}
		st.add(env2.boolTerm(cl.Expr))
	}
	return one(st, res...)
}

// modTargets: "p.field", "*p", "gache(g)", "mapof(m)" or "elems(s)" as leaf prefix and object.
func (x *X) modTargets(env *SpecEnv, m ast.Expr, out map[string][]*Term) {
	force := func(name, sort string) { x.get(env.st, name, sort) }
	switch n := m.(type) {
	case *ast.CallExpr:
		id := n.Fun.(*ast.Ident).Name
		switch id {
		case "gache":
			g := env.eval(n.Args[0]).V.(*Term)
			a := App("ival", sInt, g)
			force("gache.dom", arr(sInt, arr(sStr, sBool)))
			force("gache.val", arr(sInt, arr(sStr, sIface)))
			force("gache.ttl", arr(sInt, arr(sStr, sInt)))
			out["gache."] = append(out["gache."], a)
			return
		case "mapof":
			v := env.eval(n.Args[0])
			mt := v.T.Underlying().(*types.Map)
			k := mapKey(mt)
			x.mapDom(env.st, v.V.(*Term), mt)
			x.mapLen(env.st, v.V.(*Term), mt)
			for _, l := range leaves(mt.Elem()) {
				x.mapVal(env.st, v.V.(*Term), mt, l)
			}
			out[k] = append(out[k], v.V.(*Term))
			return
		case "elems":
			v := env.eval(n.Args[0])
			s := v.V.(*Slice)
			k := "[]" + typeKey(s.Elem)
			x.contents(env.st, s)
			out[k] = append(out[k], s.Arr)
			return
		}
	case *ast.StarExpr:
		v := env.eval(n.X)
		p := v.V.(*Ptr)
		for _, l := range leaves(p.T) {
			x.loadLeaf(env.st, p, l)
		}
		out[p.Root+p.Suf] = append(out[p.Root+p.Suf], p.Base)
		return
	case *ast.SelectorExpr:
		tv := env.addr(n)
		p := tv.V.(*Ptr)
		for _, l := range leaves(p.T) {
			x.loadLeaf(env.st, p, l)
		}
		out[p.Root+p.Suf] = append(out[p.Root+p.Suf], p.Base)
		return
	}
	serr("modifies %s", exprStr(m))
}

// makes: the constructor is shown (clause "made") never to return nil.
func (c *Contract) makes() bool {
	for _, e := range c.Ensures {
		if e.Label == "made" {
			return true
		}
	}
	return false
}

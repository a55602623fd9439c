package main

// Printing conditions as SMT-LIB and running the solvers.

import (
	"bufio"
	"context"
	"crypto/sha256"
	"fmt"
	"go/types"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------- printing ----------

type printer struct {
	e     *Eng
	decl  strings.Builder
	defs  strings.Builder
	done  map[*Term]string
	count map[*Term]int
	strs  map[string]string
	funs  map[string]string // name + signature -> printed symbol
	names map[string]bool
	apps  map[string][]*Term // closed and open applications by name
	sorts map[string]bool
	nDef  int
	lens  bool
}

func q(s string) string {
	ok := s != ""
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("_!$.?@", c) >= 0) {
			ok = false
		}
	}
	if ok && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	s = strings.NewReplacer("|", "!bar!", "\\", "!bs!").Replace(s)
	return "|" + s + "|"
}

func (p *printer) num(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func (p *printer) sort(s string) string {
	for _, b := range []string{"F64"} {
		if strings.Contains(s, b) && !p.sorts[b] {
			p.sorts[b] = true
		}
	}
	return s
}

func (p *printer) str(s string) string {
	n, ok := p.strs[s]
	if !ok {
		n = fmt.Sprintf("str!%d", len(p.strs))
		p.strs[s] = n
	}
	return n
}

// scan counts uses so that shared closed terms get a definition.
func (p *printer) scan(t *Term) {
	p.count[t]++
	if p.count[t] > 1 {
		return
	}
	if t.Op == "app" {
		p.apps[t.Name] = append(p.apps[t.Name], t)
	}
	for _, a := range t.Args {
		p.scan(a)
	}
}

func (p *printer) fun(name string, args []*Term, ret string) string {
	sig := name + ":"
	for _, a := range args {
		sig += a.Sort + ","
	}
	sig += ret
	if n, ok := p.funs[sig]; ok {
		return n
	}
	n := name
	for i := 0; p.names[n]; i++ {
		n = fmt.Sprintf("%s~%d", name, i)
	}
	p.names[n] = true
	qn := q(n)
	p.funs[sig] = qn
	if len(args) == 0 {
		fmt.Fprintf(&p.decl, "(declare-const %s %s)\n", qn, p.sort(ret))
		return qn
	}
	fmt.Fprintf(&p.decl, "(declare-fun %s (", qn)
	for i, a := range args {
		if i > 0 {
			p.decl.WriteByte(' ')
		}
		p.decl.WriteString(p.sort(a.Sort))
	}
	fmt.Fprintf(&p.decl, ") %s)\n", p.sort(ret))
	return qn
}

var builtinFun = map[string]bool{"imk": true, "inil": true, "ityp": true, "ival": true}

func (p *printer) term(t *Term) string {
	if s, ok := p.done[t]; ok {
		return s
	}
	s := p.term0(t)
	if !t.open && len(t.Args) > 0 && p.count[t] > 1 && len(s) > 24 {
		p.nDef++
		n := fmt.Sprintf("d!%d", p.nDef)
		fmt.Fprintf(&p.defs, "(define-fun %s () %s %s)\n", n, p.sort(t.Sort), s)
		s = n
	}
	p.done[t] = s
	return s
}

func (p *printer) list(op string, as []*Term) string {
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(op)
	for _, a := range as {
		sb.WriteByte(' ')
		sb.WriteString(p.term(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

func (p *printer) term0(t *Term) string {
	switch t.Op {
	case "int":
		return p.num(t.I)
	case "ref":
		return p.num(refNum(t.I.Int64()))
	case "str":
		return p.str(t.Name)
	case "true", "false":
		return t.Op
	case "bv":
		return q(t.Name)
	case "var":
		return p.fun(t.Name, nil, t.Sort)
	case "app":
		if builtinFun[t.Name] {
			if t.Name == "inil" {
				return "inil"
			}
			return p.list(t.Name, t.Args)
		}
		f := p.fun(t.Name, t.Args, t.Sort)
		if len(t.Args) == 0 {
			return f
		}
		return p.list(f, t.Args)
	case "cat":
		s := p.term(t.Args[len(t.Args)-1])
		for i := len(t.Args) - 2; i >= 0; i-- {
			s = "(cat " + p.term(t.Args[i]) + " " + s + ")"
		}
		return s
	case "const":
		return "((as const " + p.sort(t.Sort) + ") " + p.term(t.Args[0]) + ")"
	case "forall", "exists":
		var bvs []string
		b := t
		for b.Op == t.Op {
			bvs = append(bvs, "("+q(b.Args[0].Name)+" "+p.sort(b.Args[0].Sort)+")")
			b = b.Args[1]
		}
		return "(" + t.Op + " (" + strings.Join(bvs, " ") + ") " + p.term(b) + ")"
	case "pat":
		r := "(! " + p.term(t.Args[0])
		for _, a := range t.Args[1:] {
			r += " :pattern (" + p.term(a) + ")"
		}
		return r + ")"
	case "and", "or", "not", "=", "ite", "select", "store", "+", "-", "*", "div", "mod", "<", "<=":
		return p.list(t.Op, t.Args)
	}
	panic("print " + t.Op)
}

func (e *Eng) newPrinter() *printer {
	p := &printer{e: e, done: map[*Term]string{}, count: map[*Term]int{}, strs: map[string]string{}, funs: map[string]string{}, names: map[string]bool{}, apps: map[string][]*Term{}, sorts: map[string]bool{}}
	for _, n := range []string{"cat", "inil", "imk", "ityp", "ival", "ityp0", "ival0", "slen", "substr"} {
		p.names[n] = true
	}
	p.funs["slen:Str,Int"] = "slen"
	p.funs["substr:Str,Int,Int,Str"] = "substr"
	p.str("")
	return p
}

const prelude = `(declare-sort Str 0)
(declare-fun refkind (Int) Int)
(declare-datatypes ((Iface 0)) (((inil) (imk (ityp0 Int) (ival0 Int)))))
(define-fun ityp ((i Iface)) Int (ite ((_ is inil) i) (- 1) (ityp0 i)))
(define-fun ival ((i Iface)) Int (ival0 i))
(declare-fun slen (Str) Int)
(declare-fun cat (Str Str) Str)
(declare-fun substr (Str Int Int) Str)
`

const strAxioms = `(assert (forall ((s Str)) (! (and (<= 0 (slen s)) (=> (= (slen s) 0) (= s str!0))) :pattern ((slen s)))))
(assert (forall ((a Str) (b Str)) (! (and (= (slen (cat a b)) (+ (slen a) (slen b))) (= (substr (cat a b) 0 (slen a)) a) (= (substr (cat a b) (slen a) (+ (slen a) (slen b))) b)) :pattern ((cat a b)))))
(assert (forall ((s Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s))) (= (slen (substr s i j)) (- j i))) :pattern ((substr s i j)))))
(assert (forall ((s Str)) (! (= (substr s 0 (slen s)) s) :pattern ((substr s 0 (slen s))))))
`

// query renders: asserts are satisfiable?
func (e *Eng) query(asserts []*Term, axioms bool) string {
	p := e.newPrinter()
	// recursive definitions in use
	var all []*Term
	all = append(all, asserts...)
	doneAx := map[string]bool{}
	if axioms {
		for changed := true; changed; {
			changed = false
			seen := map[*Term]bool{}
			for _, a := range all {
				collect(a, seen, func(t *Term) {
					if t.Op == "app" && strings.HasPrefix(t.Name, "spec:") && !doneAx[t.Name] {
						doneAx[t.Name] = true
						changed = true
					}
				})
			}
			if changed {
				for n := range doneAx {
					m := e.macros[n[5:]]
					if m != nil && m.Rec {
						ax := e.recAxiom(m)
						found := false
						for _, a := range all {
							if a == ax {
								found = true
							}
						}
						if !found {
							all = append(all, ax)
						}
					}
				}
			}
		}
		for _, n := range e.axiomOrder {
			all = append(all, e.axiomTerm(n))
		}
		all = append(all, e.autoAxioms(all)...)
	}
	for _, a := range all {
		p.scan(a)
	}
	var body strings.Builder
	for _, a := range all {
		s := p.term(a)
		body.WriteString(p.defs.String())
		p.defs.Reset()
		body.WriteString("(assert ")
		body.WriteString(s)
		body.WriteString(")\n")
	}
	var out strings.Builder
	out.WriteString(prelude)
	if p.sorts["F64"] {
		out.WriteString("(declare-sort F64 0)\n")
	}
	var names []string
	for s := range p.strs {
		names = append(names, s)
	}
	sort.Strings(names)
	for _, s := range names {
		fmt.Fprintf(&out, "(declare-const %s Str) ; %q\n", p.strs[s], s)
	}
	if len(names) > 1 {
		out.WriteString("(assert (distinct")
		for _, s := range names {
			out.WriteString(" " + p.strs[s])
		}
		out.WriteString("))\n")
	}
	for _, s := range names {
		fmt.Fprintf(&out, "(assert (= (slen %s) %d))\n", p.strs[s], len(s))
	}
	out.WriteString(p.decl.String())
	if axioms {
		out.WriteString(strAxioms)
		p.axioms(&out)
	}
	out.WriteString(body.String())
	return out.String()
}

// autoAxioms: facts about library functions that need terms, found from the terms in use.
func (e *Eng) autoAxioms(all []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var folds []*Term
	for _, a := range all {
		collect(a, seen, func(t *Term) {
			if t.Op != "app" {
				return
			}
			if t.Name == "fold" && t.Args[0].Op == "str" {
				folds = append(folds, t)
			}
			if strings.HasPrefix(t.Name, "impl$") && len(t.Args) == 1 {
				// handled below
			}
		})
	}
	for i := range folds {
		for j := i + 1; j < len(folds); j++ {
			out = append(out, Not(Eq(folds[i], folds[j])))
		}
	}
	return out
}

func (p *printer) axioms(out *strings.Builder) {
	var keys []string
	for k := range p.funs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	has := map[string]bool{}
	for _, k := range keys {
		has[k[:strings.LastIndex(k, ":")]] = true
	}
	for _, k := range keys {
		c := strings.LastIndex(k, ":")
		name, sg := k[:c], k[c+1:]
		f := p.funs[k]
		parts := splitSig(sg)
		ret := parts[len(parts)-1]
		args := parts[:len(parts)-1]
		vars := func() (string, string) {
			var d, u []string
			for i, a := range args {
				d = append(d, fmt.Sprintf("(x%d %s)", i, a))
				u = append(u, fmt.Sprintf("x%d", i))
			}
			return strings.Join(d, " "), "(" + f + " " + strings.Join(u, " ") + ")"
		}
		switch {
		case len(args) == 0 && strings.HasPrefix(name, "fnref:"):
			fmt.Fprintf(out, "(assert (= %s (- %d)))\n", f, 1<<60+p.e.fnNum(name))
		case len(args) > 0 && strings.HasPrefix(name, "&"):
			d, u := vars()
			fmt.Fprintf(out, "(assert (forall (%s) (! (< %s (- 0 %s)) :pattern (%s))))\n", d, u, new(big.Int).Lsh(big.NewInt(1), 80), u)
			for i := range args {
				inv := q(fmt.Sprintf("inv%d:%s", i, name))
				fmt.Fprintf(out, "(declare-fun %s (Int) %s)\n(assert (forall (%s) (! (= (%s %s) x%d) :pattern (%s))))\n", inv, args[i], d, inv, u, i, u)
			}
		case strings.HasPrefix(name, "refat!"):
			// refat!loop!k!room(j...)
			fs := strings.SplitN(name, "!", 4)
			room, _ := new(big.Int).SetString(strings.SplitN(fs[3], "^", 2)[0], 10)
			lo := new(big.Int).Lsh(room, 40)
			hi := new(big.Int).Lsh(new(big.Int).Add(room, big.NewInt(1)), 40)
			d, u := vars()
			fmt.Fprintf(out, "(assert (forall (%s) (! (and (< %s %s) (< %s %s)) :pattern (%s))))\n", d, p.num(lo), u, u, p.num(hi), u)
			for i := range args {
				inv := q(fmt.Sprintf("inv%d:%s", i, name))
				fmt.Fprintf(out, "(declare-fun %s (Int) %s)\n(assert (forall (%s) (! (= (%s %s) x%d) :pattern (%s))))\n", inv, args[i], d, inv, u, i, u)
			}
			fmt.Fprintf(out, "(assert (forall (%s) (! (= (refkind %s) %d) :pattern (%s))))\n", d, u, p.e.fnNum(name), u)
		case name == "boxS":
			d, u := vars()
			un := p.funs["unboxS:Int,Str"]
			if un == "" {
				un = "unboxS!"
				fmt.Fprintf(out, "(declare-fun %s (Int) Str)\n", un)
			}
			fmt.Fprintf(out, "(assert (forall (%s) (! (= (%s %s) x0) :pattern (%s))))\n", d, un, u, u)
		case name == "unboxS":
			bx := p.funs["boxS:Str,Int"]
			if bx == "" {
				bx = "boxS!"
				fmt.Fprintf(out, "(declare-fun %s (Str) Int)\n", bx)
			}
			d, u := vars()
			fmt.Fprintf(out, "(assert (forall (%s) (! (= (%s %s) x0) :pattern (%s))))\n", d, bx, u, u)
		case strings.HasPrefix(name, "box$"):
			s := name[4:]
			d, u := vars()
			un := p.funs["unbox$"+s+":Int,"+s]
			if un == "" {
				un = q("unbox!" + s)
				fmt.Fprintf(out, "(declare-fun %s (Int) %s)\n", un, s)
			}
			fmt.Fprintf(out, "(assert (forall (%s) (! (= (%s %s) x0) :pattern (%s))))\n", d, un, u, u)
		case strings.HasPrefix(name, "mk$") && !strings.Contains(name, "#"):
			d, u := vars()
			for i, a := range args {
				pn := fmt.Sprintf("%s#%d", name, i)
				pr := p.funs[pn+":Int,"+a]
				if pr == "" {
					pr = q(pn)
					fmt.Fprintf(out, "(declare-fun %s (Int) %s)\n", pr, a)
				}
				fmt.Fprintf(out, "(assert (forall (%s) (! (= (%s %s) x%d) :pattern (%s))))\n", d, pr, u, i, u)
			}
		case name == "hasPrefix":
			d, u := vars()
			fmt.Fprintf(out, "(assert (forall (%s) (! (= %s (and (<= (slen x1) (slen x0)) (= (substr x0 0 (slen x1)) x1))) :pattern (%s))))\n", d, u, u)
			fmt.Fprintf(out, "(assert (forall (%s) (! (=> %s (= x0 (cat x1 (substr x0 (slen x1) (slen x0))))) :pattern (%s))))\n", d, u, u)
			// prefixes that exclude or imply one another
			var cs []*Term
			seen := map[*Term]bool{}
			for _, t := range p.apps["hasPrefix"] {
				if c := t.Args[1]; c.Op == "str" && !seen[c] {
					seen[c] = true
					cs = append(cs, c)
				}
			}
			for i, a := range cs {
				for j, b := range cs {
					switch {
					case i == j:
					case strings.HasPrefix(a.Name, b.Name):
						fmt.Fprintf(out, "(assert (forall ((s Str)) (! (=> (%s s %s) (%s s %s)) :pattern ((%s s %s)))))\n", f, p.term(a), f, p.term(b), f, p.term(a))
					case i < j && !strings.HasPrefix(b.Name, a.Name):
						fmt.Fprintf(out, "(assert (forall ((s Str)) (! (not (and (%s s %s) (%s s %s))) :pattern ((%s s %s) (%s s %s)))))\n", f, p.term(a), f, p.term(b), f, p.term(a), f, p.term(b))
					}
				}
			}
		case name == "hasSuffix":
			d, u := vars()
			fmt.Fprintf(out, "(assert (forall (%s) (! (=> %s (and (<= (slen x1) (slen x0)) (= (substr x0 (- (slen x0) (slen x1)) (slen x0)) x1))) :pattern (%s))))\n", d, u, u)
		case name == "sindex" || name == "slastindex":
			d, u := vars()
			fmt.Fprintf(out, "(assert (forall (%s) (! (and (<= (- 1) %s) (=> (<= 0 %s) (<= (+ %s (slen x1)) (slen x0)))) :pattern (%s))))\n", d, u, u, u, u)
		case name == "ntok":
			d, u := vars()
			fmt.Fprintf(out, "(assert (forall (%s) (! (<= 1 %s) :pattern (%s))))\n", d, u, u)
		case name == "nrunes":
			d, u := vars()
			fmt.Fprintf(out, "(assert (forall (%s) (! (<= 0 %s) :pattern (%s))))\n", d, u, u)
		case name == "sat":
			d, u := vars()
			fmt.Fprintf(out, "(assert (forall (%s) (! (and (<= 0 %s) (< %s 256)) :pattern (%s))))\n", d, u, u, u)
		case name == "fold" && has["lower"]:
		case name == "cause":
			fmt.Fprintf(out, "(assert (= (%s inil) inil))\n(assert (forall ((i Iface)) (! (=> (not (= i inil)) (not (= (%s i) inil))) :pattern ((%s i)))))\n", f, f, f)
		case name == "slt":
			d, u := vars()
			fmt.Fprintf(out, "(assert (forall (%s) (! (not (and %s (%s x1 x0))) :pattern (%s))))\n", d, u, f, u)
		case strings.HasPrefix(name, "impl$"):
			for i, t := range typeByID {
				if it := p.e.implType[name]; it != nil && !strings.Contains(typeKey(t), "$") {
					v := types.Implements(t, it.Underlying().(*types.Interface))
					fmt.Fprintf(out, "(assert (= (%s %d) %v))\n", f, i+1, v)
				}
			}
		}
		_ = ret
	}
}

func splitSig(s string) []string {
	var out []string
	d, st := 0, 0
	for i, c := range s {
		switch c {
		case '(':
			d++
		case ')':
			d--
		case ',':
			if d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	return append(out, s[st:])
}

func (e *Eng) fnNum(name string) int {
	if e.fnNums == nil {
		e.fnNums = map[string]int{}
	}
	e.fnMu.Lock()
	defer e.fnMu.Unlock()
	if n, ok := e.fnNums[name]; ok {
		return n
	}
	n := len(e.fnNums) + 1
	e.fnNums[name] = n
	return n
}

// ---------- solver processes ----------

type z3proc struct {
	opt string
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

type Solver struct {
	mu    sync.Mutex
	free  map[string][]*z3proc
	races chan bool
	cache map[string]string
	nq    int
	ms    map[string]int64
	n     map[string]int
}

func newSolver() *Solver {
	return &Solver{free: map[string][]*z3proc{}, races: make(chan bool, 3), cache: map[string]string{}, ms: map[string]int64{}, n: map[string]int{}}
}

// variants are settings of the solver that are tried against each other; an answer other than unsat counts only from the first.
var variants = []string{"", "smt.relevancy=0", "smt.array.extensional=false", "smt.random_seed=1", "smt.random_seed=2 smt.relevancy=0", "smt.mbqi=false smt.auto_config=false"}

func (s *Solver) proc(opt string) (*z3proc, error) {
	s.mu.Lock()
	if k := len(s.free[opt]); k > 0 {
		p := s.free[opt][k-1]
		s.free[opt] = s.free[opt][:k-1]
		s.mu.Unlock()
		return p, nil
	}
	s.mu.Unlock()
	cmd := exec.Command("z3-new", append([]string{"-in", "-memory:3000"}, strings.Fields(opt)...)...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &z3proc{opt, cmd, in, bufio.NewReaderSize(out, 1<<16)}, nil
}

func (s *Solver) put(p *z3proc) {
	s.mu.Lock()
	s.free[p.opt] = append(s.free[p.opt], p)
	s.mu.Unlock()
}

func (s *Solver) closeAll() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, ps := range s.free {
		for _, p := range ps {
			p.in.Close()
			p.cmd.Process.Kill()
			p.cmd.Wait()
		}
	}
	s.free = map[string][]*z3proc{}
}

// z3 runs one query on a persistent process; the answer is sat, unsat or unknown.
func (s *Solver) z3(query string, timeout int, model bool) (string, string) {
	return s.z3v("", nil, query, timeout, model)
}

// race runs one query under several settings at once.
func (s *Solver) race(query string, timeout int) (string, string) {
	s.races <- true
	defer func() { <-s.races }()
	type ans struct{ r, out string }
	ch := make(chan ans, len(variants))
	stop := make(chan bool)
	for i, v := range variants {
		go func() {
			r, o := s.z3v(v, stop, query, timeout, false)
			if i > 0 && r != "unsat" {
				r = "unknown"
			}
			ch <- ans{r, o}
		}()
	}
	res, out := "unknown", ""
	for range variants {
		a := <-ch
		if res == "unknown" && a.r != "unknown" {
			res, out = a.r, a.out
			close(stop)
		}
	}
	return res, out
}

func (s *Solver) z3v(opt string, stop chan bool, query string, timeout int, model bool) (string, string) {
	key := ""
	if !model {
		h := sha256.Sum256([]byte(query))
		key = string(h[:])
		s.mu.Lock()
		if r, ok := s.cache[key]; ok && r != "unknown" {
			s.mu.Unlock()
			return r, ""
		}
		s.mu.Unlock()
	}
	t0 := time.Now()
	p, err := s.proc(opt)
	if err != nil {
		return "unknown", err.Error()
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "(reset)\n(set-option :timeout %d)\n", timeout)
	if model {
		sb.WriteString("(set-option :produce-models true)\n")
	}
	sb.WriteString(query)
	sb.WriteString("(check-sat)\n")
	if model {
		sb.WriteString("(get-model)\n")
	}
	sb.WriteString("(echo \"<<done>>\")\n")
	killed := false
	var km sync.Mutex
	timer := time.AfterFunc(time.Duration(timeout)*time.Millisecond*2+3*time.Second, func() {
		km.Lock()
		killed = true
		km.Unlock()
		p.cmd.Process.Kill()
	})
	over := make(chan bool)
	defer close(over)
	if stop != nil {
		go func() {
			select {
			case <-over:
			case <-stop:
				km.Lock()
				killed = true
				km.Unlock()
				p.cmd.Process.Kill()
			}
		}()
	}
	go io.WriteString(p.in, sb.String())
	res, outp := "unknown", ""
	bad := false
	for {
		line, err := p.out.ReadString('\n')
		if err != nil {
			bad = true
			break
		}
		line = strings.TrimRight(line, "\n")
		if line == "<<done>>" || line == "\"<<done>>\"" {
			break
		}
		switch {
		case line == "sat" || line == "unsat" || line == "unknown":
			res = line
		case line == "timeout":
			res = "unknown"
		case strings.HasPrefix(line, "(error") && res != "unsat":
			outp += line + "\n"
			if !model || !strings.Contains(line, "model is not available") {
				res = "error"
			}
		default:
			outp += line + "\n"
		}
	}
	timer.Stop()
	km.Lock()
	k := killed
	km.Unlock()
	if bad || k {
		p.in.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
		if k {
			outp += "killed after timeout"
		}
		res = "unknown"
	} else {
		s.put(p)
	}
	if res == "error" && os.Getenv("GVC_KEEP") != "" {
		os.WriteFile(os.Getenv("GVC_KEEP"), []byte(query+"(check-sat)\n"), 0o644)
	}
	s.mu.Lock()
	s.nq++
	s.n["z3-new"]++
	s.ms["z3-new"] += time.Since(t0).Milliseconds()
	if key != "" && (res == "unsat" || res == "sat" && opt == "") {
		s.cache[key] = res
	}
	s.mu.Unlock()
	if res == "error" {
		fmt.Fprintln(os.Stderr, "solver error:", outp)
		res = "unknown"
	}
	return res, outp
}

func (s *Solver) external(name string, query string, timeout int) (string, string) {
	t0 := time.Now()
	f, err := os.CreateTemp("", "gvc-*.smt2")
	if err != nil {
		return "unknown", err.Error()
	}
	defer os.Remove(f.Name())
	fmt.Fprintf(f, "(set-logic ALL)\n%s(check-sat)\n", query)
	f.Close()
	var args []string
	switch name {
	case "cvc5":
		args = []string{"cvc5", fmt.Sprintf("--tlimit=%d", timeout), "--full-saturate-quant", f.Name()}
	case "z3":
		args = []string{"z3", fmt.Sprintf("-t:%d", timeout), "-memory:3000", f.Name()}
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(timeout)*time.Millisecond*2+2*time.Second)
	defer cancel()
	out, _ := exec.CommandContext(ctx, args[0], args[1:]...).CombinedOutput()
	res := "unknown"
	for _, l := range strings.Split(string(out), "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" {
			res = l
			break
		}
	}
	s.mu.Lock()
	s.n[name]++
	s.ms[name] += time.Since(t0).Milliseconds()
	s.mu.Unlock()
	return res, string(out)
}

func hasQuant(t *Term) bool {
	r := false
	collect(t, map[*Term]bool{}, func(s *Term) {
		if s.Op == "forall" || s.Op == "exists" {
			r = true
		}
	})
	return r
}

var quantMemo sync.Map

func isQuant(t *Term) bool {
	if v, ok := quantMemo.Load(t); ok {
		return v.(bool)
	}
	r := hasQuant(t)
	quantMemo.Store(t, r)
	return r
}

// mayHold: the quantifier-free part of the path condition is not refuted.
func (e *Eng) mayHold(x *X, st *State) bool {
	var as []*Term
	for _, c := range st.pc {
		if !isQuant(c) {
			as = append(as, c)
		}
	}
	if len(as) == 0 {
		return true
	}
	r, _ := e.solver.z3(e.query(as, false), 300, false)
	return r != "unsat"
}

func (e *Eng) valid(x *X, pc []*Term, goal *Term) bool {
	if goal == tTrue {
		return true
	}
	for _, pg := range splitGoal(nil, goal, 0) {
		var as []*Term
		for _, c := range pc {
			if !isQuant(c) {
				as = append(as, c)
			}
		}
		as = append(append(as, pg.hyps...), Not(pg.goal))
		r, _ := e.solver.z3(e.query(as, false), 500, false)
		if r != "unsat" {
			return false
		}
	}
	return true
}

// validQ decides validity with quantified facts and axioms, within a short time.
var candN int // numbers the queries in dumps

// candMs: time spent beyond the first levels on candidates that turned out not to hold.
var candMs atomic.Int64

func (e *Eng) validQ(st *State, goal *Term, what string) bool {
	var wg sync.WaitGroup
	var failed atomic.Bool
	sem := make(chan struct{}, 6)
	candN++
	for n, pg := range splitGoal(nil, goal, 0) {
		s2 := st.clone()
		for _, h := range pg.hyps {
			s2.add(h)
		}
		if s2.dead || s2.simp(pg.goal) == tTrue {
			continue
		}
		as := append(append(append([]*Term{}, st.pc...), pg.hyps...), Not(pg.goal))
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			if failed.Load() {
				return
			}
			t0 := time.Now()
			for lvl, ms := range []int{300, 800, 1500, 2500, 2500, 5000, 10000} {
				if lvl >= 5 && (failed.Load() || candMs.Load() > 40000) {
					break // enough time has been spent on candidates that do not hold
				}
				var q string
				run := func(q string, ms int) (string, string) { return e.solver.z3(q, ms, false) }
				if lvl == 0 || lvl == 2 || lvl >= 5 {
					q = e.query(as, true)
					if lvl > 0 {
						run = e.solver.race
					}
				} else {
					rounds, most, deep := 10, 6000, true
					if lvl == 3 {
						rounds, most, deep = 3, 3000, false
					}
					g, _ := instantiate(as, rounds, most, deep)
					q = e.query(g, true)
				}
				if d := os.Getenv("GVC_DUMP"); d != "" && lvl > 0 {
					os.WriteFile(fmt.Sprintf("%s/cand_%s_%d_%v_%d.smt2", d, fileName(what), n, lvl, candN), []byte(q+"(check-sat)\n"), 0o644)
				}
				if r, _ := run(q, ms); r == "unsat" {
					if d := time.Since(t0).Milliseconds(); d > 200 {
						debugf("slow %d ms level %d %s", d, lvl, what)
					}
					return
				}
			}
			candMs.Add(time.Since(t0).Milliseconds() - 7600)
			if !failed.Swap(true) {
				debugf("%s fails: %s\n   under %s", what, pg.goal, And(pg.hyps...))
			}
		}()
	}
	wg.Wait()
	return !failed.Load()
}

type piece struct {
	hyps []*Term
	goal *Term
}

var skN int

// splitGoal breaks a goal into independent pieces, skolemizing universal quantifiers.
func splitGoal(hyps []*Term, g *Term, d int) []piece {
	if g == tTrue {
		return nil
	}
	if d > 12 {
		return []piece{{hyps, g}}
	}
	switch g.Op {
	case "and":
		var out []piece
		for _, a := range g.Args {
			out = append(out, splitGoal(hyps, a, d+1)...)
		}
		return out
	case "forall":
		consMu.Lock()
		skN++
		n := skN
		consMu.Unlock()
		b := g.Args[0]
		v := Var(fmt.Sprintf("sk!%d!%s", n, b.Name), b.Sort)
		body := Subst(g.Args[1], map[*Term]*Term{b: v})
		if body.Op == "pat" {
			body = body.Args[0]
		}
		return splitGoal(hyps, body, d+1)
	case "or":
		// choose a disjunct that can be split further
		for i, a := range g.Args {
			if a.Op == "and" || a.Op == "forall" || a.Op == "ite" {
				nh := append([]*Term{}, hyps...)
				for j, b := range g.Args {
					if j != i {
						nh = append(nh, Not(b))
					}
				}
				if a.Op == "and" && len(a.Args) > 24 {
					break
				}
				return splitGoal(nh, a, d+1)
			}
		}
	case "=":
		if g.Args[0].Sort == sBool {
			a, b := g.Args[0], g.Args[1]
			return append(splitGoal(append(append([]*Term{}, hyps...), a), b, d+1), splitGoal(append(append([]*Term{}, hyps...), b), a, d+1)...)
		}
	}
	return []piece{{hyps, g}}
}

type level struct {
	solver string
	ms     int
}

var levels = []level{{"z3-new", 1500}, {"race", 2500}, {"inst", 4000}, {"deep", 4000}, {"cvc5", 3000}, {"inst+", 8000}, {"z3", 2000}, {"race", 8000}}

// discharge decides one obligation.
func (e *Eng) discharge(o *Obl) {
	if o.Status == "proved" {
		return
	}
	if l := os.Getenv("GVC_ONLY"); l != "" && !strings.Contains(o.Label, l) {
		o.Status, o.Solver = "proved", "skipped"
		return
	}
	t0 := time.Now()
	defer func() { o.Ms = time.Since(t0).Milliseconds() }()
	o.Status = "proved"
	used := map[string]bool{}
	for _, pg := range splitGoal(nil, o.Goal, 0) {
		s := o.st
		hy := append([]*Term{}, pg.hyps...)
		if s != nil {
			s2 := s.clone()
			for _, h := range hy {
				s2.add(h)
			}
			if s2.dead {
				used["simplifier"] = true
				continue
			}
			if s2.simp(pg.goal) == tTrue {
				used["simplifier"] = true
				continue
			}
		}
		as := append(append([]*Term{}, o.Pc...), hy...)
		as = append(as, Not(pg.goal))
		qs := e.query(as, true)
		ok := false
		var last string
		var outp string
		for _, lv := range e.levels() {
			var r string
			if lv.solver == "z3-new" {
				r, outp = e.solver.z3(qs, lv.ms, false)
			} else if lv.solver == "race" {
				r, outp = e.solver.race(qs, lv.ms)
			} else if lv.solver == "inst" || lv.solver == "inst+" || lv.solver == "deep" {
				rounds, most := 3, 3000
				if lv.solver == "deep" {
					rounds, most = 10, 6000
				}
				g, q := instantiate(as, rounds, most, lv.solver == "deep")
				if lv.solver == "inst+" {
					g = append(g, q...)
				}
				iq := e.query(g, true)
				if d := os.Getenv("GVC_DUMP"); d != "" {
					os.WriteFile(d+"/inst_"+lv.solver+"_"+fileName(o.Func+"_"+o.Label)+".smt2", []byte(iq+"(check-sat)\n"), 0o644)
				}
				r, outp = e.solver.z3(iq, lv.ms, false)
				if r == "sat" {
					r = "unknown" // instances are weaker than the facts
				}
			} else {
				r, outp = e.solver.external(lv.solver, qs, lv.ms)
			}
			last = r
			if r == "unsat" {
				used[lv.solver] = true
				ok = true
				break
			}
			if r == "sat" {
				break
			}
		}
		if !ok {
			o.Status = "failed"
			o.Output = fmt.Sprintf("%s\npiece: %s\nunder: %s\n", last, pg.goal, And(hy...))
			if last == "sat" {
				_, m := e.solver.z3(qs, 3000, true)
				outp = m
			}
			if len(outp) > 6000 {
				outp = outp[:6000]
			}
			o.Output += outp
			o.Query = qs
			if d := os.Getenv("GVC_DUMP"); d != "" {
				os.WriteFile(d+"/"+fileName(o.Func+"_"+o.Label)+".smt2", []byte(qs+"(check-sat)\n"), 0o644)
			}
			break
		}
	}
	o.Solver = strings.Join(sortedKeys(used), "+")
}

func fileName(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, s)
}

func (e *Eng) levels() []level {
	if thorough {
		var r []level
		for _, l := range levels {
			r = append(r, level{l.solver, 4 * l.ms})
		}
		return r
	}
	return levels
}

var thorough bool

// maxFailed: stop after that many obligations that could not be discharged.
var maxFailed = 0

func (e *Eng) dischargeAll(obls []*Obl) {
	var wg sync.WaitGroup
	var failed atomic.Int32
	ch := make(chan *Obl)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for o := range ch {
				if maxFailed > 0 && failed.Load() >= int32(maxFailed) && o.Status != "proved" {
					o.Status = "not attempted"
					continue
				}
				e.discharge(o)
				if o.Status != "proved" {
					failed.Add(1)
				}
			}
		}()
	}
	for _, o := range obls {
		ch <- o
	}
	close(ch)
	wg.Wait()
}

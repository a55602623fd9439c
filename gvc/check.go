package main

// The check of one property: every function whose contract carries clauses of the property, and every function used
// through its contract on the way, is verified against the current source; then the replay harness runs the real code.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

type checkRun struct {
	e         *Eng
	prop      string
	verif     string
	contracts string
	repo      string
	verbose   bool
	noReplay  bool
	start     time.Time
}

type funcReport struct {
	Function    string         `json:"function"`
	Paths       int            `json:"paths"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	By          map[string]int `json:"by_back_end"`
	SolverMs    int64          `json:"solver_ms"`
	MaxMs       int64          `json:"slowest_ms"`
	ExecMs      int64          `json:"generation_ms"`
	Reachable   string         `json:"reachable_return"`
	Inlined     []string       `json:"executed_in_place,omitempty"`
	Modular     []string       `json:"callees_by_contract,omitempty"`
	Bounded     []string       `json:"bounded,omitempty"`
	Err         string         `json:"error,omitempty"`
}

type replayResult struct {
	Evaluations int                      `json:"evaluations"`
	Distinct    int                      `json:"distinct_nontrivial"`
	Rule        string                   `json:"rule"`
	Samples     []interface{}            `json:"samples"`
	Failures    []map[string]interface{} `json:"failures"`
	Note        string                   `json:"note,omitempty"`
	Packages    []string                 `json:"packages,omitempty"`
}

func (e *Eng) check(c *checkRun) int {
	thorough = os.Getenv("VERIF_TIER") == "thorough"
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	maxFailed = 12
	rch := make(chan *replayResult, 1)
	go func() {
		if c.noReplay {
			rch <- nil
			return
		}
		rch <- c.replay(tier, seed)
	}()
	var work []string
	for _, k := range sortedKeys(e.contracts) {
		if ct := e.contracts[k]; ct.Kind == "func" && ct.tags()[c.prop] {
			work = append(work, k)
		}
	}
	done := map[string]bool{}
	var reports []*funcReport
	var bad []*Obl
	var errs []string
	total, ok := 0, 0
	by := map[string]int{}
	var solverMs int64
	assumed, models, notes := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for len(work) > 0 {
		k := work[0]
		work = work[1:]
		if done[k] {
			continue
		}
		done[k] = true
		r := e.verify(k, c.prop)
		fr := &funcReport{Function: k, Paths: r.Paths, ExecMs: r.Ms, By: map[string]int{}, Inlined: r.Inlined, Modular: r.Modular, Err: r.Err}
		reports = append(reports, fr)
		var obls []*Obl
		for _, o := range r.Obls {
			if wanted(o.Tags, c.prop) {
				obls = append(obls, o)
			}
		}
		if r.Err != "" {
			errs = append(errs, k+": "+r.Err)
			total++
			// what was generated before may still show where
			continue
		}
		if os.Getenv("GVC_REACH") != "" {
			c.reachReport(r)
			work = append(work, r.Modular...)
			continue
		}
		e.dischargeAll(obls)
		for _, o := range obls {
			total++
			fr.Obligations++
			fr.SolverMs += o.Ms
			if o.Ms > fr.MaxMs {
				fr.MaxMs = o.Ms
			}
			if o.Status == "proved" {
				ok++
				fr.Discharged++
				s := o.Solver
				if s == "" {
					s = "simplifier"
				}
				by[s]++
				fr.By[s]++
			} else {
				bad = append(bad, o)
			}
		}
		solverMs += fr.SolverMs
		fr.Reachable = c.reachable(r)
		if fr.Reachable == "none" {
			errs = append(errs, k+": every return is unreachable under the contract's assumptions (vacuous proof)")
			total++
		}
		for _, n := range r.Used {
			assumed[n] = true
		}
		for _, n := range r.Models {
			models[n] = true
		}
		for _, n := range r.Notes {
			notes[n] = true
		}
		work = append(work, r.Modular...)
	}
	if len(done) == 0 {
		fmt.Fprintln(os.Stderr, "no contract carries", c.prop)
		return 2
	}
	rep := <-rch
	known := c.knownFindings()

	failed := len(bad) > 0 || len(errs) > 0
	var inputs []map[string]interface{}
	var listed []string
	if rep != nil {
		for _, f := range rep.Failures {
			k := fmt.Sprint(f["key"])
			if known[k] != "" {
				listed = append(listed, known[k])
				continue
			}
			inputs = append(inputs, f)
		}
	}
	viol := 0
	if failed || len(inputs) > 0 {
		viol = 1
	}

	// evidence
	asm := []string{
		"partial correctness: termination is not proved; functions without model or contract are assumed without effect on modelled state except through pointer arguments",
		"append never writes into a backing array shared with another slice; slice parameters start at offset 0 and do not overlap",
		"goroutines are executed at the point where they are started and joined results come from every order only where the contract says so (join obligations); data races are not modelled",
		"time is a mathematical number of nanoseconds; the clock does not run backwards within a call; jwt.TimeFunc is not reassigned",
		"loop counters and lengths do not overflow int; strings are sequences of bytes or runes related by uninterpreted functions",
		"key providers, verifiers and compiled regexps answer alike for equal arguments within one call",
		"no pointer to a package variable is stored in the heap; functions declared pure depend on their arguments only",
		"logging (glg) has no effect on results; its arguments are still checked for panics where they are closures",
		"slices reachable when a function is entered, and slices kept in maps, start at the beginning of their arrays; the contents of a partial slice boxed in an interface are arbitrary",
		"a map or shared map that a loop ranges over without changing it yields every key exactly once; URL.String depends on the URL object only (URLs are not changed)",
		"cached assertions and policy lists are not changed after they were cached; expiry inside gache is not modelled; slices returned by url.ParseQuery are not changed by others",
	}
	for _, k := range sortedKeys(done) {
		ct := e.contracts[k]
		for _, a := range ct.AssText {
			asm = append(asm, "assumed by "+k+": "+a)
		}
		for _, a := range ct.ReqText {
			asm = append(asm, "required by "+k+" (obligation at call sites under contract): "+a)
		}
	}
	for _, n := range sortedKeys(assumed) {
		txt := "assumed contract: " + n
		if ct := e.contracts[n]; ct != nil {
			txt = fmt.Sprintf("assumed contract: extern %s %s", ct.Kind, n)
			for _, cl := range ct.Ensures {
				txt += "; " + cl.Label + ": " + exprStr(cl.Expr)
			}
		}
		asm = append(asm, txt)
	}
	for _, n := range sortedKeys(notes) {
		asm = append(asm, "note: "+n)
	}
	for _, n := range e.axiomOrder {
		asm = append(asm, "axiom "+n+": "+e.axioms[n].text)
	}
	tb := []string{
		"gvc (this directory): translation of go/ssa to verification conditions, memory model, simplifier",
		"golang.org/x/tools/go/ssa, the Go type checker",
		"z3 (z3-new, z3 4.8.12), cvc5 1.1.2",
	}
	for _, n := range sortedKeys(models) {
		tb = append(tb, "built-in model of "+n)
	}
	var funcs []string
	for _, k := range sortedKeys(done) {
		funcs = append(funcs, k)
	}
	cov := map[string]interface{}{
		"obligations":              total,
		"discharged":               ok,
		"checker_cmd":              "gvc check " + c.prop + " (contracts: " + c.contracts + ")",
		"trusted_base":             tb,
		"functions_under_contract": funcs,
		"functions":                reports,
		"by_back_end":              by,
		"solver_ms":                solverMs,
	}
	if len(errs) > 0 {
		cov["errors"] = errs
	}
	if rep != nil {
		cov["bounded_replay_harness"] = rep
	}
	ev := map[string]interface{}{
		"property": c.prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": asm, "wall_s": time.Since(c.start).Seconds(), "violations": viol,
	}
	os.MkdirAll(filepath.Join(c.verif, "evidence", "replay"), 0o755)
	js, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), append(js, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d functions under contract, %d of %d obligations discharged, back ends %v, %.1fs\n", c.prop, len(done), ok, total, by, time.Since(c.start).Seconds())
	if rep != nil {
		fmt.Printf("%s: replay harness (bounded): %d evaluations, %d distinct, %d failures %s\n", c.prop, rep.Evaluations, rep.Distinct, len(rep.Failures), rep.Note)
	}
	sort.Strings(listed)
	for i, l := range listed {
		if i == 0 || listed[i-1] != l {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, l)
		}
	}
	if viol == 0 {
		return 0
	}
	path := filepath.Join(c.verif, "evidence", "replay", c.prop+".txt")
	var b bytes.Buffer
	fmt.Fprintf(&b, "property %s\n", c.prop)
	if len(inputs) > 0 {
		fmt.Fprintf(&b, "\nfailing inputs, run against the code in %s:\n", c.repo)
		for _, f := range inputs {
			j, _ := json.MarshalIndent(f, "  ", "  ")
			fmt.Fprintf(&b, "  %s\n", j)
		}
	}
	for _, er := range errs {
		fmt.Fprintf(&b, "\nnot verifiable: %s\n", er)
	}
	for _, o := range bad {
		fmt.Fprintf(&b, "\nfailed obligation: %s %s %s %v at %s (%s)\n", o.Func, o.Kind, o.Label, o.Tags, o.Pos, o.Status)
		if o.Status != "not attempted" {
			fmt.Fprintf(&b, "%s\npath condition:\n", o.Output)
			for _, p := range o.Pc {
				s := p.String()
				if len(s) > 600 {
					s = s[:600] + "..."
				}
				fmt.Fprintf(&b, "  %s\n", s)
			}
		}
	}
	os.WriteFile(path, b.Bytes(), 0o644)
	for i, o := range bad {
		if i < 6 {
			fmt.Printf("  failed obligation: %s %s %s at %s\n", o.Func, o.Kind, o.Label, o.Pos)
		}
	}
	for _, er := range errs {
		fmt.Println("  not verifiable:", er)
	}
	if len(inputs) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", c.prop, path)
	}
	return 1
}

// reachReport prints the returns refuted under the assumptions (development aid).
func (c *checkRun) reachReport(r *FuncResult) {
	n, dead := 0, []string{}
	for _, o := range r.outs {
		if o.kind != oRet || o.st.dead {
			continue
		}
		n++
		as := append([]*Term{}, o.st.pc...)
		res, _ := c.e.solver.z3(c.e.query(as, true), 400, false)
		if res != "unsat" {
			g, _ := instantiate(as, 3, 3000, false)
			res, _ = c.e.solver.z3(c.e.query(g, true), 400, false)
		}
		if res == "unsat" {
			if d := os.Getenv("GVC_DUMP"); d != "" {
				os.WriteFile(fmt.Sprintf("%s/reach_%s_%d.smt2", d, fileName(r.Key), n), []byte(c.e.query(as, true)+"(check-sat)\n"), 0o644)
			}
			dead = append(dead, fmt.Sprint(n))
		}
	}
	if len(dead) > 0 {
		fmt.Printf("REACH %s: returns %d refuted %v\n", r.Key, n, dead)
	}
}

// reachable guards against vacuous proofs: some return must not be refutable.
func (c *checkRun) reachable(r *FuncResult) string {
	n := 0
	for _, o := range r.outs {
		if o.kind != oRet || o.st.dead {
			continue
		}
		n++
		as := append([]*Term{}, o.st.pc...)
		qs := c.e.query(as, true)
		res, _ := c.e.solver.z3(qs, 600, false)
		if res != "unsat" {
			return "yes (" + res + ")"
		}
		if n > 40 {
			break
		}
	}
	if n == 0 && len(r.outs) > 0 {
		return "no return path"
	}
	return "none"
}

// knownFindings: lines "known: property=<id> key=<key> <what fails>" of KNOWN_FINDINGS.
func (c *checkRun) knownFindings() map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(c.verif, "KNOWN_FINDINGS"))
	if err != nil {
		return m
	}
	re := regexp.MustCompile(`^known: property=(\S+) key=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if s := re.FindStringSubmatch(l); s != nil && s[1] == c.prop {
			m[s[2]] = s[3]
		}
	}
	return m
}

// replay runs the in-package harness of the property on the real code (bounded).
// Files: replay/<package dir with / as _>/<prop>_*.go.txt plus common_*.go.txt, laid over the package as _test.go files.
func (c *checkRun) replay(tier string, seed int) *replayResult {
	res := &replayResult{}
	dirs, _ := filepath.Glob(filepath.Join(c.verif, "replay", "*", strings.ToLower(c.prop)+"_verif_test.go"))
	if len(dirs) == 0 {
		return nil
	}
	tmp, err := os.MkdirTemp("", "gvcreplay")
	if err != nil {
		res.Note = err.Error()
		return res
	}
	defer os.RemoveAll(tmp)
	for _, f := range dirs {
		rel := strings.ReplaceAll(filepath.Base(filepath.Dir(f)), "_", "/")
		if rel == "root" {
			rel = "."
		}
		pkgDir := filepath.Join(c.repo, rel)
		ov := map[string]string{}
		old, _ := filepath.Glob(filepath.Join(pkgDir, "*_test.go"))
		for _, o := range old {
			ov[o] = ""
		}
		extra, _ := filepath.Glob(filepath.Join(filepath.Dir(f), "common*_verif_test.go"))
		if tm, err := os.ReadFile(filepath.Join(c.verif, "replay", "common.go.tmpl")); err == nil {
			src, _ := os.ReadFile(f)
			pk := regexp.MustCompile(`(?m)^package (\w+)`).FindSubmatch(src)
			if pk != nil {
				cf := filepath.Join(tmp, "base_verif_test.go")
				os.WriteFile(cf, bytes.Replace(tm, []byte("package PKG"), []byte("package "+string(pk[1])), 1), 0o644)
				extra = append(extra, cf)
			}
		}
		for _, x := range append(extra, f) {
			ov[filepath.Join(pkgDir, "zz_"+filepath.Base(x))] = x
		}
		js, _ := json.Marshal(map[string]interface{}{"Replace": ov})
		ovf := filepath.Join(tmp, "overlay.json")
		os.WriteFile(ovf, js, 0o644)
		outf := filepath.Join(tmp, "out.json")
		os.Remove(outf)
		to := "240s"
		if tier == "thorough" {
			to = "1500s"
		}
		cmd := exec.Command("go", "test", "-vet=off", "-count=1", "-timeout", to, "-overlay", ovf, "-run", "^TestVerif"+c.prop+"$", "./"+rel)
		cmd.Dir = c.repo
		cmd.Env = append(os.Environ(), "VERIF_OUT="+outf, "VERIF_SEED="+strconv.Itoa(seed), "VERIF_TIER="+tier)
		out, err := cmd.CombinedOutput()
		res.Packages = append(res.Packages, rel)
		var one replayResult
		b, rerr := os.ReadFile(outf)
		if rerr == nil {
			rerr = json.Unmarshal(b, &one)
		}
		if rerr != nil {
			s := string(out)
			if len(s) > 3000 {
				s = s[len(s)-3000:]
			}
			if err != nil && strings.Contains(s, "panic:") && !strings.Contains(s, "test timed out") {
				// the code under test crashed outside of the harness's reach (another goroutine)
				res.Failures = append(res.Failures, map[string]interface{}{"key": "panic", "what": "the process crashed while running the harness", "output": s})
				if cur, e2 := os.ReadFile(outf + ".cur"); e2 == nil {
					res.Failures[len(res.Failures)-1]["input"] = string(cur)
				}
			} else {
				res.Note += " harness of " + rel + " gave no result: " + firstLines(s, 5)
			}
			continue
		}
		res.Evaluations += one.Evaluations
		res.Distinct += one.Distinct
		if one.Rule != "" {
			res.Rule = strings.TrimSpace(res.Rule + " " + one.Rule)
		}
		res.Samples = append(res.Samples, one.Samples...)
		res.Failures = append(res.Failures, one.Failures...)
	}
	return res
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

var _ = runtime.NumCPU

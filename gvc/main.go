package main

// gvc: contract-based deductive verification of Go functions from their SSA form.
//
//	gvc check  <property>        verify everything the property depends on, write evidence
//	gvc verify <property|-> <function>...   development: verify single functions
//	gvc dump   <function>        print SSA
//	gvc list                     functions and contracts

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "gvc:", err)
		os.Exit(2)
	}
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	ctr := flag.String("contracts", "/verif/contracts", "contract directory")
	verif := flag.String("verif", "/verif", "verification directory")
	noReplay := flag.Bool("noreplay", false, "skip the replay harness")
	verbose := flag.Bool("v", false, "verbose")
	flag.Parse()
	started := time.Now()
	args := flag.Args()
	if len(args) == 0 {
		flag.Usage()
		os.Exit(2)
	}
	e, err := NewEng(*repo)
	fatal(err)
	defer e.solver.closeAll()
	switch args[0] {
	case "dump":
		for _, k := range sortedKeys(e.funcs) {
			if k == args[1] || strings.HasPrefix(k, args[1]+"$") {
				e.funcs[k].WriteTo(os.Stdout)
				for _, a := range e.funcs[k].AnonFuncs {
					a.WriteTo(os.Stdout)
				}
			}
		}
		return
	}
	fatal(e.loadContracts(*ctr))
	switch args[0] {
	case "list":
		for _, k := range sortedKeys(e.funcs) {
			t := ""
			if c := e.contracts[k]; c != nil {
				t = strings.Join(sortedKeys(c.tags()), ",")
			}
			fmt.Printf("%-60s %s\n", k, t)
		}
		return
	}
	e.runInit()
	switch args[0] {
	case "init":
		for _, n := range e.initNotes {
			fmt.Println(n)
		}
		for _, k := range sortedKeys(e.initHeap) {
			fmt.Println(k, "=", head3(e.initHeap[k]))
		}
	case "verify":
		prop := args[1]
		if prop == "-" {
			prop = ""
		}
		bad := false
		for _, k := range args[2:] {
			t0 := time.Now()
			r := e.verify(k, prop)
			if r.Err == "" {
				e.dischargeAll(r.Obls)
			}
			bad = e.report(r, *verbose) || bad
			fmt.Printf("   %.1fs\n", time.Since(t0).Seconds())
		}
		if bad {
			e.solver.closeAll()
			os.Exit(1)
		}
	case "check":
		rc := e.check(&checkRun{e: e, prop: args[1], verif: *verif, contracts: *ctr, repo: *repo, verbose: *verbose, noReplay: *noReplay, start: started})
		e.solver.closeAll()
		os.Exit(rc)
	}
}

func (e *Eng) report(r *FuncResult, verbose bool) bool {
	fmt.Printf("%s: paths %d (return %d) steps %d obligations %d exec %dms %s\n", r.Key, r.Paths, r.RetPaths, r.Steps, len(r.Obls), r.Ms, r.Err)
	n := map[string]int{}
	bad := r.Err != ""
	obls := append([]*Obl{}, r.Obls...)
	sort.SliceStable(obls, func(i, j int) bool { return obls[i].Label < obls[j].Label })
	shown := 0
	for _, o := range obls {
		n[o.Status+" "+o.Solver]++
		if o.Status != "proved" {
			bad = true
			shown++
			if shown <= 6 || verbose {
				fmt.Printf("  FAILED %s %s %v @%s (%dms)\n", o.Kind, o.Label, o.Tags, o.Pos, o.Ms)
				if verbose {
					fmt.Println("   ", strings.ReplaceAll(o.Output, "\n", "\n    "))
					fmt.Println("    pc:")
					for _, c := range o.Pc {
						if os.Getenv("GVC_FULL") != "" {
							fmt.Println("      ", c)
						} else {
							fmt.Println("      ", head3(c))
						}
					}
				}
			}
		} else if verbose {
			fmt.Printf("  ok %s %s %v (%s %dms)\n", o.Kind, o.Label, o.Tags, o.Solver, o.Ms)
		}
	}
	fmt.Println("  ", n)
	for _, s := range r.Notes {
		fmt.Println("  note:", s)
	}
	if len(r.Modular) > 0 {
		fmt.Println("  modular:", r.Modular)
	}
	if len(r.Inlined) > 0 {
		fmt.Println("  inlined:", r.Inlined)
	}
	if len(r.Used) > 0 {
		fmt.Println("  assumed:", r.Used)
	}
	return bad
}

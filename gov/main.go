package main

import (
	"context"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

var bg = context.Background()

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gov check ID [quick|thorough]")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "verify":
		os.Exit(cmdVerify(os.Args[2:]))
	}
	os.Exit(2)
}

// cmdVerify is the debugging aid: verify single functions and print every obligation.
func cmdVerify(args []string) int {
	fs := flag.NewFlagSet("verify", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	dir := fs.String("contracts", "/verif/contracts", "")
	verbose := fs.Bool("v", false, "print every obligation")
	dump := fs.String("dump", "", "directory for the scripts of failed obligations")
	limit := fs.Duration("t", 8*time.Second, "time limit")
	only := fs.String("only", "", "obligations whose name contains this")
	prop := fs.String("p", "", "property")
	names := fs.Bool("names", false, "list functions and loops")
	fs.BoolVar(&vacuity, "vac", false, "list the exits proved unreachable")
	fs.Parse(args)
	w, err := loadWorld(*repo, *dir)
	if err != nil {
		fmt.Println(err)
		return 1
	}
	if vacuity {
		*only = "exit is unreachable"
	}
	if *names {
		var ks []string
		for k := range w.fns {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println(k, len(findLoops(w.fns[k]).all))
		}
		return 0
	}
	keys := fs.Args()
	if *prop != "" {
		keys = append(keys, w.sp.props[*prop]...)
	}
	if len(keys) == 0 {
		for _, k := range w.sp.order {
			c := w.sp.contracts[k]
			if !c.trusted && !c.inline && !c.funtype {
				keys = append(keys, k)
			}
		}
	}
	rc := 0
	for _, k := range keys {
		t0 := time.Now()
		for _, g := range w.sp.globinvs {
			if k == "globinv:"+g.name {
				k = g.pkg + ".init"
				w.sp.contracts[k] = &contract{key: k, pkg: g.pkg, init: true, loops: map[int]*loopSpec{}, ensures: []clause{{label: "package invariant " + g.name, e: g.e}}}
			}
		}
		v, err := w.verifyFunc(k)
		gen := time.Since(t0)
		if v == nil {
			fmt.Println(k, err)
			rc = 1
			continue
		}
		keepScripts = *dump != ""
		obs := v.obs
		if *only != "" {
			obs = nil
			for _, o := range v.obs {
				if strings.Contains(o.name, *only) {
					obs = append(obs, o)
				}
			}
		}
		v.discharge(*limit, obs)
		n, ms := 0, 0.0
		for _, o := range obs {
			ms += o.ms
			if o.verdict == "proved" {
				n++
			}
		}
		if vacuity {
			fmt.Printf("%-50s %d of %d exits unreachable\n", k, n, len(obs))
			continue
		}
		fmt.Printf("%-50s %d/%d proved, paths %d, gen %.1fs, solver %.1fs, total %.1fs\n", k, n, len(obs), v.paths, gen.Seconds(), ms/1000, time.Since(t0).Seconds())
		if err != nil {
			fmt.Println("   ERROR", err)
			rc = 1
		}
		for i, o := range obs {
			if o.verdict != "proved" || *verbose {
				fmt.Printf("   %-7s %6.0fms %-10s %d %s  %s\n", o.verdict, o.ms, o.backend, i, o.name, o.detail)
			}
			if o.verdict != "proved" {
				rc = 1
				if *verbose {
					fmt.Println("      goal:", o.goal)
				}
			}
			if *dump != "" && o.script != "" {
				os.MkdirAll(*dump, 0o755)
				os.WriteFile(filepath.Join(*dump, fmt.Sprintf("%s-%d.smt2", strings.ReplaceAll(k, "/", "_"), i)), []byte(o.script), 0o644)
			}
		}
		if err == nil && *only == "" {
			ok := len(v.exits) == 0
			for _, e := range v.exits {
				if runSolver(bg, 0, v.script(&obligation{goal: tFalse}, e, false), time.Second) != "unsat" {
					ok = true
					break
				}
			}
			if !ok {
				if *dump != "" {
					for i, e := range v.exits {
						os.WriteFile(filepath.Join(*dump, fmt.Sprintf("%s-exit%d.smt2", strings.ReplaceAll(k, "/", "_"), i)), []byte(v.script(&obligation{goal: tFalse}, e, false)), 0o644)
					}
				}
				fmt.Println("   CONTRADICTION: no exit is reachable")
				rc = 1
			}
		}
		if *verbose {
			for _, a := range sortedKeys(v.assume) {
				fmt.Println("   note:", a)
			}
			fmt.Println("   inlined:", sortedKeys(v.inlined))
		}
	}
	return rc
}

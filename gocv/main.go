package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

var verifDir = "/verif"

func overlayFiles() map[string][]byte {
	m := map[string][]byte{}
	fs, _ := filepath.Glob(filepath.Join(verifDir, "contracts", "lemmas", "*.go"))
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		// lemmas/<pkg>__name.go is compiled into /repo/<pkg>
		n := filepath.Base(f)
		i := strings.Index(n, "__")
		if i < 0 {
			continue
		}
		dir := strings.ReplaceAll(n[:i], "_", "/")
		if dir == "d1" {
			dir = "."
		}
		m[filepath.Join(repoDir, dir, "zz_verif_"+n[i+2:])] = b
	}
	return m
}

func load() *Program {
	sp, err := loadSpec(filepath.Join(verifDir, "contracts"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "contracts:", err)
		os.Exit(3)
	}
	theSpec = sp
	P, err := loadProgram(repoDir, overlayFiles())
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(4)
	}
	P.spec = sp
	x := newExec(P, nil)
	x.maxSteps = 0
	P.initGlobals(x)
	sp.registerHooks(newExec(P, nil))
	return P
}

func main() {
	if v := os.Getenv("GOCV_REPO"); v != "" {
		repoDir = v
	}
	if v := os.Getenv("GOCV_VERIF"); v != "" {
		verifDir = v
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gocv worker|unit|check|list")
		os.Exit(2)
	}
	if os.Getenv("GOCV_SLOW") != "" {
		obMS *= 4
		feasMS *= 3
		candMS = 12001
	}
	switch os.Args[1] {
	case "worker":
		P := load()
		fmt.Println("ready")
		sc := bufio.NewScanner(os.Stdin)
		sc.Buffer(make([]byte, 1<<20), 1<<20)
		for sc.Scan() {
			f := strings.Split(sc.Text(), "\t")
			r := verify(P, f[0], f[1])
			b, _ := json.Marshal(r)
			fmt.Println(string(b))
		}
	case "unit":
		P := load()
		prop := ""
		keys := os.Args[2:]
		if len(keys) > 1 && strings.HasPrefix(keys[len(keys)-1], "C") && len(keys[len(keys)-1]) == 3 {
			prop = keys[len(keys)-1]
			keys = keys[:len(keys)-1]
		}
		for _, pat := range keys {
			n := 0
			for _, c := range P.spec.order {
				if c.key == pat || strings.HasSuffix(pat, "*") && strings.HasPrefix(c.key, strings.TrimSuffix(pat, "*")) {
					n++
					show(verify(P, c.key, prop))
				}
			}
			if n == 0 {
				fmt.Println("no contract", pat)
			}
		}
	case "ssa":
		P := load()
		for _, k := range os.Args[2:] {
			if f := P.lookupFn(k); f != nil {
				f.WriteTo(os.Stdout)
			} else {
				fmt.Println("not found", k)
			}
		}
	case "list":
		sp, err := loadSpec(filepath.Join(verifDir, "contracts"))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		for _, c := range sp.order {
			fmt.Println(c.key)
		}
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	}
}

func show(r *UnitResult) {
	fmt.Printf("== %s %s  paths=%d  %dms (solver %dms, %d queries)\n", r.Key, r.Prop, r.Paths, r.MS, r.SolverMS, r.Queries)
	if r.Undecided != "" {
		fmt.Println("   UNDECIDED:", r.Undecided)
	}
	for _, o := range r.Obs {
		m := " "
		if o.Result != "discharged" {
			m = "!"
		}
		fmt.Printf(" %s %-10s %4d %6dms %s\n", m, o.Result, o.Paths, o.MS, o.Name)
		if o.Result != "discharged" && os.Getenv("GOCV_Q") == "" {
			fmt.Println(indent(o.Detail))
		}
	}
	if len(r.Loops) > 0 {
		var ks []string
		for k := range r.Loops {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println("   loop", k, r.Loops[k])
		}
	}
	if os.Getenv("GOCV_ALL") != "" {
		fmt.Println("   inlined:", r.Inlined)
		fmt.Println("   used:", r.Used)
		fmt.Println("   models:", r.Models)
		fmt.Println("   assumptions:", r.Assumptions)
	}
}
func indent(s string) string { return "      " + strings.ReplaceAll(s, "\n", "\n      ") }

var _ = time.Now

package main

// The orchestrator of one property's check: it runs the units that carry obligations of the property
// on parallel workers, writes the evidence, and reports violations.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type worker struct {
	cmd *exec.Cmd
	in  *bufio.Writer
	out *bufio.Reader
	inC interface{ Close() error }
}

func startWorker(env ...string) (*worker, error) {
	w := &worker{}
	w.cmd = exec.Command(os.Args[0], "worker")
	w.cmd.Env = append(os.Environ(), env...)
	w.cmd.Stderr = os.Stderr
	i, err := w.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	o, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.in, w.inC = bufio.NewWriter(i), i
	w.out = bufio.NewReaderSize(o, 1<<20)
	if err := w.cmd.Start(); err != nil {
		return nil, err
	}
	l, err := w.out.ReadString('\n')
	if err != nil || strings.TrimSpace(l) != "ready" {
		err2 := w.cmd.Wait()
		return nil, fmt.Errorf("the program under verification does not load: %v", err2)
	}
	return w, nil
}

func (w *worker) kill() {
	if w == nil {
		return
	}
	w.inC.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

func (w *worker) run(key, prop string, limit time.Duration) (*UnitResult, bool) {
	fmt.Fprintf(w.in, "%s\t%s\n", key, prop)
	w.in.Flush()
	type res struct {
		l   string
		err error
	}
	ch := make(chan res, 1)
	go func() {
		l, err := w.out.ReadString('\n')
		ch <- res{l, err}
	}()
	select {
	case r := <-ch:
		u := &UnitResult{}
		if r.err != nil || json.Unmarshal([]byte(r.l), u) != nil {
			return &UnitResult{Key: key, Prop: prop, Undecided: "the verifier ended without an answer"}, false
		}
		return u, true
	case <-time.After(limit):
		return &UnitResult{Key: key, Prop: prop, MS: limit.Milliseconds(), Undecided: fmt.Sprintf("no answer within %d s", int(limit.Seconds()))}, false
	}
}

// runUnits runs the units on n workers.
func runUnits(keys []string, prop string, n int, deadline time.Time, limit func(string) time.Duration, env ...string) (map[string]*UnitResult, error) {
	out := map[string]*UnitResult{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var loadErr error
	next := 0
	if n > len(keys) {
		n = len(keys)
	}
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *worker
			defer func() { w.kill() }()
			for {
				mu.Lock()
				if next >= len(keys) || loadErr != nil {
					mu.Unlock()
					return
				}
				k := keys[next]
				next++
				mu.Unlock()
				var r *UnitResult
				left := time.Until(deadline)
				if left < 2*time.Second {
					r = &UnitResult{Key: k, Prop: prop, Undecided: "not started within the time of the check"}
				} else {
					if w == nil {
						var err error
						if w, err = startWorker(env...); err != nil {
							mu.Lock()
							loadErr = err
							mu.Unlock()
							return
						}
					}
					l := limit(k)
					if l > left {
						l = left
					}
					var ok bool
					if r, ok = w.run(k, prop, l); !ok {
						w.kill()
						w = nil
					}
				}
				mu.Lock()
				out[k] = r
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return out, loadErr
}

func (r *UnitResult) bad() bool {
	if r.Undecided != "" {
		return true
	}
	for _, o := range r.Obs {
		if o.Result != "discharged" {
			return true
		}
	}
	return false
}

type knownFinding struct {
	prop, text, unit, ob string
}

// known_findings.txt: "finding property=<id> [unit=<key> obligation=<prefix>] :: <what fails>"
// and "fixed: property=<id> <commit> <what failed>" (which suppresses nothing).
func readKnown() []knownFinding {
	var out []knownFinding
	b, _ := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	re := regexp.MustCompile(`^finding property=(\S+)(?: unit=(\S+) obligation="([^"]*)")? :: (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, knownFinding{m[1], m[4], m[2], m[3]})
		}
	}
	return out
}

func checkMain(a []string) int {
	t0 := time.Now()
	if len(a) < 1 {
		fmt.Fprintln(os.Stderr, "usage: gocv check PROPERTY [quick|thorough]")
		return 2
	}
	prop := a[0]
	tier := "quick"
	if v := os.Getenv("VERIF_TIER"); v == "thorough" {
		tier = v
	}
	if len(a) > 1 && (a[1] == "thorough" || a[1] == "quick") {
		tier = a[1]
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	sp, err := loadSpec(filepath.Join(verifDir, "contracts"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "contracts:", err)
		return 3
	}
	// replay needs part of the 900 s
	budget := 560 * time.Second
	if tier == "thorough" {
		budget = 3 * time.Hour
	}
	deadline := t0.Add(budget)
	var keys []string
	for _, c := range sp.order {
		if c.concerns(prop) && (c.opts["tier"] != "thorough" || tier == "thorough") {
			keys = append(keys, c.key)
		}
	}
	// the expensive units first
	sort.SliceStable(keys, func(i, j int) bool {
		return sp.contracts[keys[i]].cost() > sp.contracts[keys[j]].cost()
	})
	limit := func(k string) time.Duration {
		return time.Duration(sp.contracts[k].cost()*6+120) * time.Second
	}
	res, err := runUnits(keys, prop, 8, deadline, limit)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	// Failed units get a second, slower attempt: a verdict must not depend on the load of the machine.
	var again []string
	for _, k := range keys {
		if r := res[k]; (r == nil || r.bad()) && !replaced(sp, res, k) {
			again = append(again, k)
		}
	}
	if len(again) > 0 && len(again) <= 6 {
		res2, err := runUnits(again, prop, 3, deadline, limit, "GOCV_SLOW=1")
		if err == nil {
			for k, r := range res2 {
				if r != nil && (res[k] == nil || !r.bad() || res[k].Undecided != "") {
					res[k] = r
				}
			}
		}
	}
	ev := map[string]any{}
	_ = ev
	var failed []string
	nOb, nDis := 0, 0
	inl, used, mods, asm := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	var units, bounded []any
	var solverMS, queries int64
	known := readKnown()
	suppressed := map[int]bool{}
	var detail strings.Builder
	for _, k := range keys {
		r := res[k]
		if r == nil {
			r = &UnitResult{Key: k, Undecided: "not run"}
		}
		if r.bad() && replaced(sp, res, k) {
			units = append(units, map[string]any{"function": k, "note": "not needed: the alternative contract " + sp.contracts[k].opts["orelse"] + " is discharged"})
			continue
		}
		d := 0
		if r.Undecided != "" {
			failed = append(failed, k+": undecided: "+r.Undecided)
			fmt.Fprintf(&detail, "function %s\n  UNDECIDED: %s\n", k, r.Undecided)
			nOb++
		}
		for _, o := range r.Obs {
			if o.Result == "discharged" {
				d++
				continue
			}
			sup := false
			for i, f := range known {
				if f.prop == prop && f.unit == k && f.ob != "" && strings.HasPrefix(o.Name, f.ob) {
					sup, suppressed[i] = true, true
				}
			}
			if sup {
				continue
			}
			failed = append(failed, k+": "+o.Name)
			fmt.Fprintf(&detail, "function %s\n  failed obligation: %s (%s)\n%s\n", k, o.Name, o.Result, indent(o.Detail))
		}
		c := sp.contracts[k]
		if c.bounded != "" {
			bounded = append(bounded, map[string]any{"function": k, "bound": c.bounded, "obligations": len(r.Obs), "held": d, "ms": r.MS})
		} else {
			nOb += len(r.Obs)
			nDis += d
		}
		var names []string
		for _, o := range r.Obs {
			names = append(names, o.Name+" ["+o.Result+"]")
		}
		units = append(units, map[string]any{"function": k, "obligations": len(r.Obs), "discharged": d, "paths": r.Paths, "ms": r.MS, "solver_ms": r.SolverMS, "queries": r.Queries, "bounded": c.bounded, "loops": r.Loops, "list": names})
		for _, s := range r.Inlined {
			inl[s] = true
		}
		for _, s := range r.Used {
			used[s] = true
		}
		for _, s := range r.Models {
			mods[s] = true
		}
		for _, s := range r.Assumptions {
			asm[s] = true
		}
		solverMS += r.SolverMS
		queries += int64(r.Queries)
	}
	for _, f := range known {
		if f.prop == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.text)
		}
	}
	var viol []map[string]any
	code := 0
	replayInfo := map[string]any{}
	if len(keys) == 0 {
		failed = append(failed, "no function under contract carries an obligation of "+prop)
	}
	var rp *replayResult
	if len(failed) > 0 || tier == "thorough" {
		rp = runReplay(prop, tier, time.Until(t0.Add(budget+280*time.Second)))
		replayInfo["replay"] = rp.summary()
		if len(failed) == 0 && rp.input != "" {
			// the verifier accepted everything but an execution of the real code fails
			failed = append(failed, "an execution of the real code breaks the property although every obligation was discharged (an assumption is wrong)")
			fmt.Fprintln(&detail, failed[len(failed)-1])
		}
	}
	if len(failed) > 0 {
		code = 1
		dir := filepath.Join(verifDir, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, prop+".txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s\nfailed obligations:\n", prop)
		for _, f := range failed {
			fmt.Fprintf(&sb, "  %s\n", f)
		}
		tail := " no-failing-input-found"
		if rp != nil && rp.input != "" {
			tail = ""
			fmt.Fprintf(&sb, "\nfailing input, replayed against the real code:\n%s\nreproduce: %s\n", rp.input, rp.cmd)
		} else {
			fmt.Fprintf(&sb, "\nno failing input found\n")
		}
		if rp != nil {
			fmt.Fprintf(&sb, "\nreplay: %s\n%s\n", rp.cmd, rp.output)
		}
		fmt.Fprintf(&sb, "\nverifier output:\n%s\n", detail.String())
		os.WriteFile(path, []byte(sb.String()), 0o644)
		for i, f := range failed {
			if i < 12 {
				fmt.Println("failed:", f)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, path, tail)
		viol = append(viol, map[string]any{"failed_obligations": failed, "replay": path, "failing_input": rp != nil && rp.input != ""})
	}
	// evidence
	var asl []string
	for _, s := range sorted(asm) {
		asl = append(asl, s)
	}
	for _, l := range sp.standing { // "[C16,C17] text" or "text"
		if strings.HasPrefix(l, "[") {
			i := strings.Index(l, "]")
			if !strings.Contains(","+l[1:i]+",", ","+prop+",") {
				continue
			}
			l = strings.TrimSpace(l[i+1:])
		}
		asl = append(asl, l)
	}
	var trusted, checkedLoops []string
	for _, m := range sorted(mods) {
		if strings.HasPrefix(m, "loop ") {
			checkedLoops = append(checkedLoops, m)
		} else {
			trusted = append(trusted, m)
		}
	}
	cov := map[string]any{
		"obligations":              nOb,
		"discharged":               nDis,
		"checker_cmd":              "gocv (symbolic execution of the Go SSA of /repo, contracts in /verif/contracts) with " + solverVersion(),
		"trusted_base":             append([]string{"gocv's SSA semantics, built by golang.org/x/tools/go/ssa v0.52.0 from /repo's current source", solverVersion()}, prefixAll("model of external function: ", trusted)...),
		"loop_invariants_proved":   append([]string{}, checkedLoops...),
		"functions_under_contract": keys,
		"functions_inlined":        sorted(inl),
		"contracts_used_at_calls":  sorted(used),
		"units":                    units,
		"bounded_standins":         bounded,
		"solver_ms":                solverMS,
		"solver_queries":           queries,
	}
	if bounded == nil {
		cov["bounded_standins"] = []any{}
	}
	for k, v := range replayInfo {
		cov[k] = v
	}
	if viol == nil {
		viol = []map[string]any{}
	}
	level := "proof"
	if l := sp.levels[prop]; l != "" {
		level = l
	}
	e := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": asl, "violations": viol,
		"wall_s": float64(time.Since(t0).Milliseconds()) / 1000}
	b, _ := json.MarshalIndent(e, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("property %s: %d functions, %d obligations, %d discharged, %.1f s\n", prop, len(keys), nOb, nDis, time.Since(t0).Seconds())
	return code
}

func prefixAll(p string, s []string) []string {
	var o []string
	for _, x := range s {
		o = append(o, p+x)
	}
	return o
}

func sorted(m map[string]bool) []string {
	o := []string{}
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func solverVersion() string {
	b, _ := exec.Command(z3Path, "--version").Output()
	return strings.TrimSpace(string(b))
}

func (c *Contract) cost() int {
	n, _ := strconv.Atoi(c.opts["cost"])
	return n
}

func (c *Contract) concerns(prop string) bool {
	if c.trusted != "" {
		return false
	}
	if prop == "C25" && c.opts["noframe"] == "" || prop == "C26" && c.opts["nopanic"] == "" {
		return true
	}
	for _, p := range c.props {
		if p == prop {
			return true
		}
	}
	for _, cl := range c.clauses {
		if cl.kind == "ensures" || cl.kind == "stable" || cl.kind == "each" || cl.kind == "cover" {
			for _, t := range cl.tags {
				if t == prop {
					return true
				}
			}
		}
	}
	return false
}

// replaced tells whether the alternative contract of k (option orelse) is discharged: one of the two suffices.
func replaced(sp *Spec, res map[string]*UnitResult, k string) bool {
	alt := sp.contracts[k].opts["orelse"]
	r := res[alt]
	return alt != "" && r != nil && !r.bad()
}

// ---- replay against the real code ----

type replayResult struct {
	cmd, output, input string
	ran                bool
	note               string
}

func (r *replayResult) summary() map[string]any {
	m := map[string]any{"command": r.cmd, "failing_input_found": r.input != ""}
	if r.note != "" {
		m["note"] = r.note
	}
	return m
}

// The replay drivers are tests in external test packages: /verif/replay/<pkg>__name_test.go, added to
// the package through an overlay. A test that finds a failing input prints lines "FAILING-INPUT …".
func runReplay(prop, tier string, left time.Duration) *replayResult {
	r := &replayResult{}
	fs, _ := filepath.Glob(filepath.Join(verifDir, "replay", "*__*_test.go"))
	byPkg, has := map[string][]string{}, map[string]bool{}
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		n := filepath.Base(f)
		i := strings.Index(n, "__")
		d := strings.ReplaceAll(n[:i], "_", "/")
		if d == "d1" {
			d = "."
		}
		if regexp.MustCompile(`func TestVerif` + prop + `[A-Z_a-z]*\(`).Match(b) {
			has[d] = true
		}
		byPkg[d] = append(byPkg[d], f)
	}
	tmp, err := os.MkdirTemp("", "gocv-replay")
	if err != nil {
		r.note = err.Error()
		return r
	}
	defer os.RemoveAll(tmp)
	if left > 200*time.Second && tier == "quick" {
		left = 200 * time.Second
	}
	var ds []string
	for d := range has {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	if len(ds) == 0 {
		r.note = "no replay driver for this property"
		return r
	}
	end := time.Now().Add(left)
	for _, d := range ds {
		rest := time.Until(end)
		if rest < 5*time.Second {
			break
		}
		rep := map[string]string{}
		for _, f := range byPkg[d] {
			n := filepath.Base(f)
			rep[filepath.Join(repoDir, d, "zz_verif_"+n[strings.Index(n, "__")+2:])] = f
		}
		// the repository's own tests are left out: they may not compile with a changed tree and are not needed
		old, _ := filepath.Glob(filepath.Join(repoDir, d, "*_test.go"))
		for _, f := range old {
			rep[f] = ""
		}
		b, _ := json.Marshal(map[string]any{"Replace": rep})
		ov := filepath.Join(tmp, "overlay.json")
		os.WriteFile(ov, b, 0o644)
		bin := filepath.Join(tmp, "replay.test")
		env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "VERIF_TMP="+tmp, "VERIF_REPLAY_TIER="+tier, "TMPDIR="+tmp, "GOMEMLIMIT=3GiB")
		bcmd := exec.Command("go", "test", "-c", "-o", bin, "-overlay", ov, "-vet=off", "./"+d)
		bcmd.Dir, bcmd.Env = repoDir, env
		r.cmd += fmt.Sprintf("(cd %s && go test -overlay <%s> -vet=off -count=1 -run ^TestVerif%s ./%s) ", repoDir, strings.Join(byPkg[d], ","), prop, d)
		if out, err := bcmd.CombinedOutput(); err != nil {
			r.output += string(out)
			r.note = "the replay drivers do not build against this tree"
			continue
		}
		lcmd := exec.Command(bin, "-test.list", "^TestVerif"+prop)
		lcmd.Dir, lcmd.Env = repoDir, env
		lout, _ := lcmd.CombinedOutput()
		var tests []string
		for _, l := range strings.Split(string(lout), "\n") {
			if strings.HasPrefix(l, "TestVerif") {
				tests = append(tests, l)
			}
		}
		if len(tests) == 0 {
			continue
		}
		shards := 8 / len(tests)
		if shards < 1 {
			shards = 1
		}
		// one process per test and shard: a run is determined by its seed
		type tr struct {
			out string
			err error
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		var all []tr
		sem := make(chan struct{}, 8)
		for sh := 0; sh < shards; sh++ {
			for _, n := range tests {
				wg.Add(1)
				go func(sh int, n string) {
					defer wg.Done()
					sem <- struct{}{}
					defer func() { <-sem }()
					rest := time.Until(end)
					if rest < 3*time.Second {
						return
					}
					wd, err := os.MkdirTemp(tmp, "run")
					if err != nil {
						return
					}
					cmd := exec.Command(bin, "-test.run", "^"+n+"$", "-test.count=1", fmt.Sprintf("-test.timeout=%ds", int(rest.Seconds())))
					cmd.Dir = wd
					cmd.Env = append(append([]string{}, env...), fmt.Sprintf("VERIF_REPLAY_SHARD=%d", sh), "VERIF_TMP="+wd, "TMPDIR="+wd)
					out, err := cmd.CombinedOutput()
					mu.Lock()
					all = append(all, tr{string(out), err})
					mu.Unlock()
				}(sh, n)
			}
		}
		wg.Wait()
		r.ran = true
		o := ""
		var err error
		for _, x := range all {
			if len(x.out) > 8000 {
				x.out = x.out[:8000]
			}
			if x.err != nil {
				err = x.err
				o = x.out + o
			} else {
				o += x.out
			}
		}
		if len(o) > 20000 {
			o = o[:20000]
		}
		r.output += o
		if err != nil {
			for _, l := range strings.Split(o, "\n") {
				if i := strings.Index(l, "FAILING-INPUT"); i >= 0 {
					r.input += strings.TrimSpace(l[i:]) + "\n"
				}
			}
			if r.input == "" && regexp.MustCompile(`(?m)^panic: `).MatchString(o) && !strings.Contains(o, "panic: test timed out") && prop == "C26" {
				r.input = "FAILING-INPUT a panic of the real code, see the output\n"
			}
		}
		if r.input != "" {
			break
		}
	}
	return r
}

package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// failTotal counts failed obligations of the whole run: once a few have
// failed the verdict is settled, and the remaining ones get less solver time.
var failTotal int64

func verifyAll(ld *Loader, cs *Contracts, sel []*FuncSpec, only string, deadline time.Time, thorough bool) []*FuncReport {
	reps := make([]*FuncReport, len(sel))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i, fs := range sel {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			reps[i] = verifyFunc(ld, cs, fs, only, deadline, thorough)
		}()
	}
	wg.Wait()
	sort.SliceStable(reps, func(i, j int) bool { return reps[i].Spec.Name < reps[j].Spec.Name })
	return reps
}

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int            `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

type knownFinding struct{ prop, obl, text string }

// readKnown reads the known-findings file: lines
//
//	finding: property=<id> obligation=<name> <what fails>
//	fixed: property=<id> <commit> <what failed>
//
// Only "finding:" lines have an effect.
func readKnown() []knownFinding {
	f, err := os.Open(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []knownFinding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		r, ok := strings.CutPrefix(l, "finding:")
		if !ok {
			continue
		}
		var k knownFinding
		var rest []string
		for _, w := range strings.Fields(r) {
			if v, ok := strings.CutPrefix(w, "property="); ok && k.prop == "" {
				k.prop = v
			} else if v, ok := strings.CutPrefix(w, "obligation="); ok && k.obl == "" {
				k.obl = v
			} else {
				rest = append(rest, w)
			}
		}
		k.text = strings.Join(rest, " ")
		out = append(out, k)
	}
	return out
}

func runCheck(repo, prop string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	thorough := tier == "thorough"
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := &evidence{Property: prop, Tier: tier, Seed: seed, Level: "proof", Coverage: map[string]any{}, Assumptions: []string{}}
	outDir := filepath.Join(verifDir(), "out")
	_ = os.MkdirAll(outDir, 0o755)
	_ = os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	var failed []*Obl
	var known []string
	fatal := func(msg string) {
		failed = append(failed, &Obl{Name: prop + "/load", Props: []string{prop}, Result: "failed", Reason: msg})
	}
	var reps []*FuncReport
	var cs *Contracts
	var ld *Loader
	ov, err := overlayFiles(repo), error(nil)
	if genWanted(prop) {
		ov, err = genOverlay(repo, ov)
	}
	if err == nil {
		ld, err = Load(repo, ov)
	}
	if err != nil {
		fatal("the code could not be loaded: " + err.Error())
	} else if cs, err = ParseContracts(filepath.Join(verifDir(), "contracts"), genWanted(prop)); err != nil {
		fatal("the contracts could not be parsed: " + err.Error())
	} else {
		for _, m := range cs.Monitors {
			if err := m.resolve(ld); err != nil {
				fatal(err.Error())
			}
		}
		if len(failed) == 0 {
			var sel []*FuncSpec
			for _, fs := range cs.Funcs {
				if contains(fs.allProps(), prop) || contains(cs.monitorProps(fs), prop) {
					sel = append(sel, fs)
				}
			}
			budget := 560 * time.Second
			if thorough {
				budget = 600 * time.Second
			}
			reps = verifyAll(ld, cs, sel, prop, t0.Add(budget), thorough)
		}
	}
	total, ok := 0, 0
	by := map[string]int{}
	perFunc := map[string]any{}
	inl, unm, intr, mod := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	invs, cross, crossSame := 0, 0, 0
	var samples []any
	kf := readKnown()
	for _, r := range reps {
		n := 0
		names := map[string]int{}
		for _, o := range r.Obls {
			total++
			if o.Result == "discharged" {
				ok++
				n++
				by[o.By]++
				names[strings.TrimPrefix(o.Name, r.Spec.Name+"/")]++
				cross += o.Cross
				crossSame += o.CrossOK
				if len(samples) < 8 && o.By != "simplifier" {
					samples = append(samples, map[string]any{"obligation": o.Name, "at": o.Pos, "by": o.By, "ms": o.Ms})
				}
				continue
			}
			isKnown := false
			for _, k := range kf {
				if k.prop == prop && k.obl == o.Name {
					isKnown = true
					s := fmt.Sprintf("KNOWN-FINDING: property=%s %s", prop, k.text)
					if !contains(known, s) {
						known = append(known, s)
					}
				}
			}
			if !isKnown {
				failed = append(failed, o)
			}
		}
		if len(r.Obls) == 0 {
			continue
		}
		perFunc[r.Spec.Name] = map[string]any{"obligations": len(r.Obls), "discharged": n, "returns": r.Returns, "instructions": r.Steps, "wall_s": r.Wall.Seconds(), "labels": names, "bounded": r.Spec.Bounded}
		for _, x := range r.Inlined {
			inl[x] = true
		}
		for _, x := range r.Unmod {
			unm[x] = true
		}
		for _, x := range r.Intr {
			intr[x] = true
		}
		for _, x := range r.Modular {
			mod[x] = true
		}
		invs += len(r.Invs)
	}
	if total == 0 && len(failed) == 0 {
		fatal("no obligation was generated for this property")
	}
	ev.Violations = len(failed)
	if genProps[prop] {
		ev.Level = "translation_validation"
		progs := []string{}
		for n, b := range ov {
			if strings.Contains(n, "_srpc.pb.go") {
				for _, l := range strings.Split(string(b), "\n") {
					if strings.HasPrefix(l, "const SRPC") && strings.Contains(l, "ServiceID = ") {
						progs = append(progs, l)
					}
				}
			}
		}
		sort.Strings(progs)
		ev.Coverage["programs"] = len(progs)
		ev.Coverage["services_generated"] = progs
		ev.Coverage["disagreements_checked"] = total
		ev.Coverage["bounded"] = "service descriptions: the services of gen/proto; everything else is quantified over"
	}
	trusted := []string{
		"gcv, the verification-condition generator in /verif/gcv (Go SSA of the tree built by golang.org/x/tools/go/ssa, executed symbolically)",
		"z3-new 5.x and cvc5 1.1.2 as back ends",
		"the models of the standard library and dependency functions listed under intrinsics",
	}
	ev.Coverage["obligations"] = total
	ev.Coverage["discharged"] = ok
	ev.Coverage["checker_cmd"] = "bin/gcv check " + prop
	ev.Coverage["trusted_base"] = trusted
	ev.Coverage["functions_under_contract"] = perFunc
	ev.Coverage["functions_inlined"] = sortedKeys(inl)
	ev.Coverage["callees_used_by_contract"] = sortedKeys(mod)
	ev.Coverage["intrinsics"] = sortedKeys(intr)
	ev.Coverage["unmodelled_calls_havocked"] = sortedKeys(unm)
	ev.Coverage["loop_invariants_proved_inductive"] = invs
	ev.Coverage["by_back_end"] = by
	ev.Coverage["solver_s"] = float64(atomic.LoadInt64(&solverNanos)) / 1e9
	ev.Coverage["solver_queries"] = atomic.LoadInt64(&solverQueries)
	ev.Coverage["samples"] = samples
	if thorough {
		ev.Coverage["cross_checked_with_cvc5"] = cross
		ev.Coverage["cross_check_confirmed"] = crossSame
	}
	if cs != nil {
		ev.Assumptions = cs.assumptions(reps)
	}
	for _, s := range known {
		fmt.Println(s)
	}
	rc := 0
	if len(failed) > 0 {
		rc = 1
		path := filepath.Join(outDir, "replay_"+prop+".txt")
		var b bytes.Buffer
		fmt.Fprintf(&b, "property %s: %d obligation(s) failed\n", prop, len(failed))
		seen := map[string]bool{}
		for _, o := range failed {
			id := o.Name + o.Pos
			if seen[id] {
				continue
			}
			seen[id] = true
			fmt.Fprintf(&b, "\nfailed obligation: %s\n  at: %s\n  verifier output: %s\n", o.Name, o.Pos, o.Reason)
			for _, t := range o.Trace {
				fmt.Fprintf(&b, "    path: %s\n", t)
			}
			if len(seen) > 40 {
				break
			}
		}
		nm := 0
		for id := range seen {
			if nm < 10 {
				fmt.Println("failed obligation:", id)
			}
			nm++
		}
		found, out := replay(repo, prop, seed)
		fmt.Fprintf(&b, "\n--- replay against the real code ---\n%s\n", out)
		_ = os.WriteFile(path, b.Bytes(), 0o644)
		if found {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, path)
		}
	} else if thorough {
		// the replay programs double as a check of the verifier itself
		found, out := replay(repo, prop, seed)
		if found {
			rc = 1
			path := filepath.Join(outDir, "replay_"+prop+".txt")
			_ = os.WriteFile(path, []byte("all obligations discharged, but the replay program fails (unsound model?)\n"+out), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			ev.Violations++
		}
	}
	ev.WallS = time.Since(t0).Seconds()
	js, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(filepath.Join(verifDir(), "evidence", prop+".json"), append(js, '\n'), 0o644)
	if rc == 0 {
		fmt.Printf("%s: %d of %d obligations discharged over %d functions in %.1fs\n", prop, ok, total, len(perFunc), ev.WallS)
	}
	return rc
}

// assumptions lists what the contracts assume without proof.
func (cs *Contracts) assumptions(reps []*FuncReport) []string {
	m := map[string]bool{}
	for _, r := range reps {
		if len(r.Obls) == 0 {
			continue
		}
		for _, q := range r.Spec.Requires {
			m["precondition of "+r.Spec.Name+": "+q.src] = true
		}
		for _, s := range r.Spec.Assumes() {
			m["assumed in "+r.Spec.Name+": "+s] = true
		}
		for _, u := range r.Unmod {
			m["unmodelled call, result and reachable guarded state arbitrary: "+u] = true
		}
		if r.Spec.Bounded != "" {
			m["BOUNDED "+r.Spec.Name+": "+r.Spec.Bounded] = true
		}
	}
	for _, s := range []string{
		"goroutine scheduling: code outside critical sections may be interleaved arbitrarily; guarded state is re-read under its lock (monitor reasoning), channel operations and callbacks are havoc points; the Go memory model's happens-before for mutexes and channels is trusted",
		"termination and liveness are not proved (partial correctness; blocking calls may return at any time)",
		"strings and byte slices: lengths below 2^48; slices handed to the code do not overlap unless the contract says so",
	} {
		m[s] = true
	}
	return sortedKeys(m)
}

// replay runs the property's replay program (external test package, exported
// API only) against the code in repo.
func replay(repo, prop string, seed int) (bool, string) {
	root := filepath.Join(verifDir(), "replay")
	tmp, err := os.MkdirTemp("", "gcvreplay")
	if err != nil {
		return false, err.Error()
	}
	defer os.RemoveAll(tmp)
	var all strings.Builder
	found := false
	for _, pkg := range []string{"srpc", "rpcstream"} {
		f := filepath.Join(root, pkg, strings.ToLower(prop)+"_test.go")
		if _, err := os.Stat(f); err != nil {
			continue
		}
		rep := map[string]string{filepath.Join(repo, pkg, "zz_verif_replay_test.go"): f}
		if u := filepath.Join(root, pkg, "util_test.go"); fileExists(u) {
			rep[filepath.Join(repo, pkg, "zz_verif_util_test.go")] = u
		}
		if genProps[prop] {
			gov, err := genOverlay(repo, map[string][]byte{})
			if err != nil {
				return true, "the generator fails on gen/proto: " + err.Error() + "\n"
			}
			n := 0
			for name, b := range gov {
				n++
				g := filepath.Join(tmp, fmt.Sprintf("gen%d.go", n))
				_ = os.WriteFile(g, b, 0o644)
				rep[name] = g
			}
		}
		js, _ := json.Marshal(map[string]any{"Replace": rep})
		ov := filepath.Join(tmp, fmt.Sprintf("ov_%s.json", pkg))
		_ = os.WriteFile(ov, js, 0o644)
		src, _ := os.ReadFile(f)
		for _, race := range []bool{false, true} {
			// the race detector widens windows between threads (and reports races)
			if found || (!race && strings.Contains(string(src), "race detector")) {
				continue
			}
			ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
			args := []string{"test", "-overlay", ov, "-vet=off", "-count=1", "-run", "^TestVerifReplay", "-timeout", "90s", "./" + pkg}
			if race {
				args = append(args[:1:1], append([]string{"-race"}, args[1:]...)...)
			}
			c := exec.CommandContext(ctx, "/opt/veriftools/go1.24.13/bin/go", args...)
			c.Dir = repo
			c.Env = append(goEnv(), "VERIF_SEED="+strconv.Itoa(seed))
			c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
			c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
			c.WaitDelay = 2 * time.Second
			var o bytes.Buffer
			c.Stdout, c.Stderr = &o, &o
			err := c.Run()
			cancel()
			out := o.String()
			fmt.Fprintf(&all, "replay program: %s\ncommand: go %s\n", f, strings.Join(args, " "))
			if len(out) > 6000 {
				out = out[:6000] + "\n…"
			}
			all.WriteString(out)
			if err != nil && (strings.Contains(out, "REPLAY-FAIL") || strings.Contains(out, "panic: ") || strings.Contains(out, "WARNING: DATA RACE") || strings.Contains(out, "fatal error: ") || genProps[prop] && strings.Contains(out, "[build failed]")) {
				found = true
			}
		}
	}
	if all.Len() == 0 {
		all.WriteString("no replay program for this property\n")
	}
	if !found {
		all.WriteString("\nno failing input found by the replay program\n")
	}
	return found, all.String()
}

func fileExists(p string) bool { _, err := os.Stat(p); return err == nil }

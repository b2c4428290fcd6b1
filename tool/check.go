package main

// gv check: decide one property.

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

type finding struct{ prop, key, text string }

func readFindings(path string) (fs []finding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		f := finding{}
		m := regexp.MustCompile(`^finding:\s+property=(\S+)\s+key=\[([^\]]*)\]\s*(.*)$`).FindStringSubmatch(l)
		if m == nil {
			continue
		}
		f.prop, f.key, f.text = m[1], m[2], m[3]
		fs = append(fs, f)
	}
	return
}

type checker struct {
	P       *Program
	prop    string
	tier    string
	ms      int
	reps    map[string]*FuncReport
	noSpec  map[string]bool
	roots   map[string]bool
	dropped []string // contracts of helpers that no longer hold and were bypassed
	errs    []string
	verif   string
	seed    string
	pool    *pool
}

// verifyOne runs one function and discharges its obligations.
func (c *checker) verifyHere(k string) *FuncReport {
	s := c.P.spec.funcs[k]
	fn := c.P.funcs[k]
	if fn == nil {
		return &FuncReport{Key: k, Err: "the function under contract does not exist"}
	}
	rep := verifyFunction(c.P, fn, s, c.noSpec)
	discharge(rep.Obls, c.ms)
	return rep
}

func (r *FuncReport) failed(prop string, helper bool) (f []*Obl) {
	for _, o := range r.Obls {
		if o.Res == nil || o.Res.Status != "unsat" {
			if helper || relevantTags(o.Tags, prop) {
				f = append(f, o)
			}
		}
	}
	return
}

func (c *checker) usable(k string) bool {
	s := c.P.spec.funcs[k]
	return s != nil && !s.trusted && !s.fnspec && !s.inline
}

func (c *checker) run() {
	for {
		// closure
		var work []string
		var rs []string
		for k := range c.roots {
			rs = append(rs, k)
		}
		sort.Strings(rs)
		work = append(work, rs...)
		seen := map[string]bool{}
		usedAsCallee := map[string]bool{}
		done := func(r *FuncReport) {
			for _, u := range r.Used {
				if c.usable(u) {
					usedAsCallee[u] = true
					work = append(work, u)
				}
			}
		}
		for len(work) > 0 || c.pool.busy > 0 {
			if len(work) == 0 || !c.pool.free() {
				k, r := c.pool.next()
				c.reps[k] = r
				done(r)
				continue
			}
			k := work[0]
			work = work[1:]
			if seen[k] {
				continue
			}
			seen[k] = true
			if r := c.reps[k]; r != nil {
				done(r)
			} else {
				c.pool.submit(k)
			}
		}
		for k := range c.reps {
			if !seen[k] {
				delete(c.reps, k)
			}
		}
		// helpers whose contract fails are bypassed: their callers see the code instead
		again := false
		var ks []string
		for k := range seen {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			r := c.reps[k]
			if r == nil {
				continue // verified again in the next round
			}
			bad := r.Err != "" || r.Vacuous != "" || len(r.failed(c.prop, true)) > 0
			if !bad || !usedAsCallee[k] || c.noSpec[k] {
				continue
			}
			if c.roots[k] && (len(r.failed(c.prop, false)) > 0 || r.Err != "" || r.Vacuous != "") && !c.P.spec.funcs[k].optional {
				continue // reported anyway
			}
			c.noSpec[k] = true
			c.dropped = append(c.dropped, k)
			again = true
			for k2, r2 := range c.reps {
				for _, u := range r2.Used {
					if u == k {
						delete(c.reps, k2)
					}
				}
			}
			if !c.roots[k] || c.P.spec.funcs[k].optional {
				delete(c.reps, k)
			}
		}
		// optional roots that fail or have disappeared are not roots any more
		for k := range c.roots {
			r := c.reps[k]
			if r != nil && c.P.spec.funcs[k].optional && (r.Err != "" || r.Vacuous != "" || len(r.failed(c.prop, true)) > 0) {
				delete(c.roots, k)
				if !c.noSpec[k] {
					c.noSpec[k] = true
					c.dropped = append(c.dropped, k)
				}
				again = true
			}
		}
		if !again {
			return
		}
	}
}

func shortKey(k string) string { return strings.ReplaceAll(k, modPath, "iproto") }

func oblKey(o *Obl) string { return shortKey(o.Fn) + "|" + o.Kind + "|" + o.Label }

type harnessRun struct {
	Ran     []string
	Cases   int64
	Fail    string // first failing input
	FailKey string
	Err     string
	Secs    float64
	Known   []string
}

// runHarness executes the concrete drivers of the property against the real code.
// all: also those that only run when an obligation failed.
func (c *checker) runHarness(all bool, hints []map[string]string) *harnessRun {
	t0 := time.Now()
	h := &harnessRun{}
	files, _ := filepath.Glob(c.verif + "/harness/*_test.go")
	byPkg := map[string][]string{}
	for _, f := range files {
		b, _ := os.ReadFile(f)
		m := regexp.MustCompile(`(?m)^//verif:pkg (\S+)`).FindSubmatch(b)
		re := regexp.MustCompile(`(?m)^func (Test(Replay|Standin)_` + c.prop + `(_\w+)?)\(`)
		need := false
		for _, x := range re.FindAllSubmatch(b, -1) {
			if all || string(x[2]) == "Standin" {
				need = true
			}
		}
		if m == nil || !need {
			continue
		}
		byPkg[string(m[1])] = append(byPkg[string(m[1])], f)
	}
	var pk []string
	for p := range byPkg {
		pk = append(pk, p)
	}
	sort.Strings(pk)
	tmp, err := os.MkdirTemp("", "gvh")
	if err != nil {
		h.Err = err.Error()
		return h
	}
	defer os.RemoveAll(tmp)
	hb, _ := json.Marshal(hints)
	os.WriteFile(tmp+"/hints.json", hb, 0o644)
	for _, p := range pk {
		repl := map[string]string{}
		for _, f := range byPkg[p] {
			repl[filepath.Join(repoDir, p, strings.TrimSuffix(filepath.Base(f), "_test.go")+"_verif_test.go")] = f
		}
		// hide the repository's own tests: they are not needed and must not get in the way
		own, _ := filepath.Glob(filepath.Join(repoDir, p, "*_test.go"))
		for _, o := range own {
			repl[o] = ""
		}
		ob, _ := json.Marshal(map[string]interface{}{"Replace": repl})
		of := tmp + "/overlay.json"
		os.WriteFile(of, ob, 0o644)
		kind := "(Replay|Standin)"
		if !all {
			kind = "Standin"
		}
		tmo := "240s"
		if c.tier == "thorough" {
			tmo = "600s"
		}
		args := []string{"test", "-vet=off", "-overlay", of, "-count=1", "-timeout", tmo, "-v", "-run", "^Test" + kind + "_" + c.prop + "(_|$)"}
		for _, f := range byPkg[p] {
			b, _ := os.ReadFile(f)
			if strings.Contains(string(b), "//verif:race") {
				args = append(args, "-race")
				break
			}
		}
		cmd := exec.Command("go", append(args, "./"+p)...)
		cmd.Dir = repoDir
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "VERIF_SEED="+c.seed, "VERIF_TIER="+c.tier, "VERIF_HINTS="+tmp+"/hints.json")
		out, err := cmd.CombinedOutput()
		o := string(out)
		for _, m := range regexp.MustCompile(`(?m)^\s*(?:\S+_test\.go:\d+: )?VERIF-CASES (\S+) (\d+)`).FindAllStringSubmatch(o, -1) {
			var n int64
			fmt.Sscan(m[2], &n)
			h.Cases += n
			h.Ran = append(h.Ran, m[1]+":"+m[2])
		}
		fails := regexp.MustCompile(`(?m)^\s*(?:\S+_test\.go:\d+: )?VERIF-FAIL \[([^\]]*)\] (.*)$`).FindAllStringSubmatch(o, -1)
		fnd := readFindings(c.verif + "/known-findings.txt")
		for _, m := range fails {
			known := false
			for _, f := range fnd {
				if f.prop == c.prop && f.key == m[1] {
					known = true
					h.Known = append(h.Known, f.text)
				}
			}
			if !known && h.Fail == "" {
				h.FailKey, h.Fail = m[1], m[2]
			}
		}
		if err != nil && len(fails) == 0 {
			// a crash of the code under test is itself a failing run; a driver that does not compile is not
			if strings.Contains(o, "[build failed]") || strings.Contains(o, "[setup failed]") {
				h.Err = "the driver does not build against this tree: " + tail(o, 1500)
			} else if h.Fail == "" {
				h.FailKey, h.Fail = "crash", "the driver crashed or timed out: "+tail(o, 3000)
			}
		}
	}
	h.Secs = time.Since(t0).Seconds()
	return h
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	tier := fs.String("tier", "", "")
	ms := fs.Int("ms", 0, "")
	alwaysH := fs.Bool("harness", false, "run every driver even if all obligations are discharged")
	fs.StringVar(&repoDir, "repo", "/repo", "")
	fs.Parse(args)
	prop := fs.Arg(0)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	seed := os.Getenv("VERIF_SEED")
	if seed == "" {
		seed = "1"
	}
	if *ms == 0 {
		*ms = 12000
		if *tier == "thorough" {
			*ms = 60000
			houdiniMs = 30000
		}
	}
	t0 := time.Now()
	P, err := loadProgram()
	if err != nil {
		fmt.Println("the tree does not load:", err)
		os.Exit(2)
	}
	P.spec, err = parseSpecs(*verif + "/contracts")
	if err != nil {
		fmt.Println("contracts:", err)
		os.Exit(2)
	}
	P.checkFixed()
	c := &checker{P: P, prop: prop, tier: *tier, ms: *ms, reps: map[string]*FuncReport{}, noSpec: map[string]bool{}, roots: map[string]bool{}, verif: *verif, seed: seed}
	for k, s := range P.spec.funcs {
		if s.trusted || s.fnspec || s.inline {
			continue
		}
		for _, p := range s.props {
			if p == prop {
				c.roots[k] = true
			}
		}
	}
	if len(c.roots) == 0 {
		fmt.Println("no function is under contract for", prop)
		os.Exit(2)
	}
	nRoots := len(c.roots)
	c.pool = newPool(c, 6)
	c.run()
	c.pool.close()

	// collect
	type fail struct {
		key, text string
		obl       *Obl
	}
	var fails []fail
	var ks []string
	for k := range c.reps {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	nObl, nOK := 0, 0
	kinds := map[string]int{}
	by := map[string]int{}
	secs := 0.0
	trusted := map[string]bool{}
	assume := map[string]bool{}
	inl := map[string]bool{}
	var fnl []string
	for _, k := range ks {
		r := c.reps[k]
		root := c.roots[k]
		n := 0
		for _, o := range r.Obls {
			if root && !relevantTags(o.Tags, prop) && !isCallee(c.reps, k) {
				continue
			}
			n++
			kinds[o.Kind]++
			if o.Res != nil && o.Res.Status == "unsat" {
				nOK++
				by[o.Res.Solver]++
				secs += o.Res.Secs
			} else {
				fails = append(fails, fail{oblKey(o), fmt.Sprintf("%s: %s %q at %s is not discharged (%s)", shortKey(o.Fn), o.Kind, o.Label, o.Pos, statusOf(o)), o})
			}
		}
		nObl += n
		if r.Err != "" {
			fails = append(fails, fail{shortKey(k) + "|error|" + r.Err, fmt.Sprintf("%s: %s", shortKey(k), r.Err), nil})
			nObl++
		}
		if r.Vacuous != "" {
			fails = append(fails, fail{shortKey(k) + "|vacuous|" + r.Vacuous, fmt.Sprintf("%s: %s", shortKey(k), r.Vacuous), nil})
			nObl++
		}
		role := "helper"
		if root {
			role = "property"
		}
		fnl = append(fnl, fmt.Sprintf("%s (%s contract, %d obligations, %d paths)", shortKey(k), role, n, r.Paths))
		for _, u := range r.Used {
			if s := P.spec.funcs[u]; s != nil && (s.trusted || s.fnspec) {
				w := "trusted contract"
				if s.fnspec {
					w = "assumed contract of the interface or function value"
				}
				trusted[w+" "+shortKey(u)] = true
			}
		}
		for _, e := range r.Exts {
			trusted["library model "+e] = true
		}
		for _, a := range r.Assume {
			assume[a] = true
		}
		for _, i := range r.Inlined {
			inl[shortKey(i)] = true
		}
	}
	for _, d := range c.dropped {
		fmt.Printf("note: the contract of %s does not hold on this tree, its callers were verified against its code\n", shortKey(d))
	}
	// second opinion in the thorough tier
	cross := 0
	if *tier == "thorough" && len(fails) == 0 {
		for _, r := range c.reps {
			cross += r.Cross
		}
	}
	known := map[string]bool{}
	fnd := readFindings(*verif + "/known-findings.txt")
	var live []fail
	for _, f := range fails {
		hit := false
		for _, k := range fnd {
			if k.prop == prop && k.key == f.key {
				hit = true
				known[k.text] = true
			}
		}
		if !hit {
			live = append(live, f)
		}
	}
	var hints []map[string]string
	for _, f := range live {
		if f.obl != nil && f.obl.Res != nil && len(f.obl.Res.Model) > 0 {
			hints = append(hints, f.obl.Res.Model)
		}
	}
	h := c.runHarness(len(live) > 0 || *tier == "thorough" || *alwaysH, hints)
	for _, k := range h.Known {
		known[k] = true
	}
	viol := len(live)
	if h.Fail != "" {
		viol++
	}
	var kn []string
	for k := range known {
		kn = append(kn, k)
	}
	sort.Strings(kn)
	for _, k := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	cov := map[string]interface{}{
		"obligations":          nObl,
		"discharged":           nOK,
		"checker_cmd":          fmt.Sprintf("/verif/check.sh %s %s", prop, *tier),
		"trusted_base":         append(baseTrust(), keys(trusted)...),
		"functions":            fnl,
		"property_roots":       nRoots,
		"discharged_by":        by,
		"solver_seconds":       round2(secs),
		"solver_calls":         solverCalls,
		"obligation_kinds":     kinds,
		"inlined_functions":    keys(inl),
		"bypassed_helpers":     c.dropped,
		"crosschecked_by_cvc5": cross,
		"samples":              sampleObls(c.reps, prop),
	}
	if len(h.Ran) > 0 {
		cov["bounded_standins_not_counted_as_proved"] = h.Ran
		cov["evaluations"] = h.Cases
		cov["driver_seconds"] = round2(h.Secs)
	}
	if h.Err != "" {
		cov["driver_error"] = tail(h.Err, 600)
	}
	var sd int
	fmt.Sscan(seed, &sd)
	ev := map[string]interface{}{"property": prop, "tier": *tier, "seed": sd, "level": "proof", "coverage": cov,
		"assumptions": append(baseAssumptions(), keys(assume)...), "wall_s": round2(time.Since(t0).Seconds()), "violations": viol}
	os.MkdirAll(*verif+"/evidence", 0o755)
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(*verif+"/evidence/"+prop+".json", eb, 0o644)

	if viol == 0 {
		fmt.Printf("%s holds: %d obligations over %d functions discharged in %.1fs (solver %.1fs)", prop, nOK, len(ks), time.Since(t0).Seconds(), secs)
		if len(h.Ran) > 0 {
			fmt.Printf("; drivers (bounded): %s", strings.Join(h.Ran, " "))
		}
		fmt.Println()
		os.Exit(0)
	}
	// replay file
	rp := filepath.Join(*verif, "evidence", "replay-"+prop+".txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\ntree %s\nre-run: cd /verif && VERIF_SEED=%s ./check.sh %s %s\n\n", prop, repoDir, seed, prop, *tier)
	if h.Fail != "" {
		fmt.Fprintf(&sb, "failing input against the real code [%s]:\n%s\n\n", h.FailKey, h.Fail)
	}
	if h.Err != "" {
		fmt.Fprintf(&sb, "driver: %s\n\n", h.Err)
	}
	for _, f := range live {
		fmt.Fprintf(&sb, "failed: %s\n  key=[%s]\n", f.text, f.key)
		if f.obl != nil {
			fmt.Fprintf(&sb, "  goal: %s\n  path: %s\n", f.obl.GoalS, strings.Join(f.obl.Trace, " "))
			if f.obl.Res != nil {
				fmt.Fprintf(&sb, "  solver: %s %s\n  output: %s\n  model: %v\n", f.obl.Res.Solver, f.obl.Res.Status, tail(f.obl.Res.Raw, 2000), f.obl.Res.Model)
			}
		}
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, f := range live {
		if i == 12 {
			fmt.Printf("... and %d more\n", len(live)-12)
			break
		}
		fmt.Println("failed:", f.text)
	}
	if h.Fail != "" {
		fmt.Println("failing input:", tail(h.Fail, 600))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	} else {
		if h.Err != "" {
			fmt.Println("driver:", tail(h.Err, 600))
		}
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
	}
	os.Exit(1)
}

func statusOf(o *Obl) string {
	if o.Res == nil {
		return "not run"
	}
	return o.Res.Status
}

func round2(f float64) float64 { return float64(int64(f*100)) / 100 }

func isCallee(reps map[string]*FuncReport, k string) bool {
	for k2, r := range reps {
		if k2 == k {
			continue
		}
		for _, u := range r.Used {
			if u == k {
				return true
			}
		}
	}
	return false
}

func sampleObls(reps map[string]*FuncReport, prop string) []string {
	var r []string
	var ks []string
	for k := range reps {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		for _, o := range reps[k].Obls {
			if o.Kind == "post" && relevantTags(o.Tags, prop) {
				r = append(r, shortKey(o.String())+" by "+solverOf(o))
				break
			}
		}
		if len(r) >= 8 {
			break
		}
	}
	return r
}

func solverOf(o *Obl) string {
	if o.Res == nil {
		return "?"
	}
	return o.Res.Solver
}

// crossCheck re-decides every solver-discharged obligation with a different solver.
func crossCheck(obls []*Obl) int {
	var mu sync.Mutex
	n := 0
	var wg sync.WaitGroup
	{
		for _, o := range obls {
			if o.Res == nil || o.Res.Solver == "simplifier" || o.Res.Status != "unsat" {
				continue
			}
			o := o
			wg.Add(1)
			go func() {
				defer wg.Done()
				termMu.Lock()
				ts := planGoal(o.Hyps, o.Goal, 0)
				termMu.Unlock()
				ok := true
				for _, t := range ts {
					s := solvers[2]
					if o.Res.Solver == "cvc5" {
						s = solvers[1]
					}
					if t.small != "" && runSolver(s, t.small, 5000, nil).Status == "unsat" {
						continue
					}
					text, vars := t.full()
					if runSolver(s, text, 5000, vars).Status != "unsat" {
						ok = false
						break
					}
				}
				if ok {
					mu.Lock()
					n++
					mu.Unlock()
				}
			}()
		}
	}
	wg.Wait()
	return n
}

func baseTrust() []string {
	return []string{
		"goverify itself (/verif/tool): symbolic execution of go/ssa, memory model, simplifier, SMT printer",
		"golang.org/x/tools/go/ssa translation of the source to SSA; the Go compiler and runtime",
		"SMT solvers z3 (two releases) and cvc5",
	}
}

func baseAssumptions() []string {
	return []string{
		"termination is not proved (partial correctness); a loop runs fewer than 2^50 iterations",
		"slices and strings are shorter than 2^47 bytes; allocation never fails; stack never overflows",
		"64-bit platform (int is 64 bits), little-endian layout of Go values reinterpreted through unsafe",
		"floating point values are bit patterns; float arithmetic is uninterpreted",
	}
}

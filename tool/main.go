package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	if p := os.Getenv("GVPROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: goverify func|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "func":
		cmdFunc(os.Args[2:])
	case "worker":
		cmdWorker(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	}
}

func cmdFunc(args []string) {
	fs := flag.NewFlagSet("func", flag.ExitOnError)
	specs := fs.String("specs", defaultSpecs(), "")
	ms := fs.Int("ms", 5000, "")
	verb := fs.Bool("v", false, "")
	fs.BoolVar(&debugLoops, "loops", false, "")
	fs.BoolVar(&debugTrace, "t", false, "")
	dump := fs.Bool("dump", false, "")
	fs.StringVar(&repoDir, "repo", "/repo", "")
	fs.Parse(args)
	t0 := time.Now()
	P, err := loadProgram()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	P.spec, err = parseSpecs(*specs)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	P.checkFixed()
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	re := regexp.MustCompile(fs.Arg(0))
	var ks []string
	for k, s := range P.spec.funcs {
		if re.MatchString(k) && !s.fnspec && !s.trusted && !s.inline {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	tot, bad := 0, 0
	for _, k := range ks {
		s := P.spec.funcs[k]
		fn := P.funcs[k]
		if fn == nil {
			fmt.Printf("%s: NO SUCH FUNCTION\n", k)
			bad++
			continue
		}
		if *dump {
			fn.WriteTo(os.Stdout)
		}
		t1 := time.Now()
		rep := verifyFunction(P, fn, s, map[string]bool{})
		discharge(rep.Obls, *ms)
		n, f := 0, 0
		for _, o := range rep.Obls {
			n++
			if g := os.Getenv("GVSHOW"); g != "" && strings.Contains(o.String(), g) {
				fmt.Println("   ", o, o.Res.Secs)
				h2, g2, _ := simplifyQuery(o.Hyps, o.Goal)
				fmt.Println("      SIMP goal:", g2)
				for _, h := range h2 {
					fmt.Println("      SIMP hyp:", h)
				}
			}
			if os.Getenv("GVSLOW") != "" && o.Res.Secs > 0.5 {
				g, qs := prepare(o.Hyps, o.Goal, true)
				fmt.Printf("   slow %.1fs %s ground=%d quants=%d by=%s\n", o.Res.Secs, o, len(g), len(qs), o.Res.Solver)
			}
			if o.Res.Status != "unsat" {
				f++
				fmt.Println("   ", o)
				if os.Getenv("GVSPLIT") != "" && o.Goal.Op == OAnd {
					for _, a := range o.Goal.Args {
						if r := solveGoal(o.Hyps, a, *ms); r.Status != "unsat" {
							fmt.Println("      part", r.Status, a)
						}
					}
				}
				if *verb {
					fmt.Println("      goal:", o.Goal)
					for _, h := range o.Hyps {
						fmt.Println("      hyp:", h)
					}
					h2, g2, _ := simplifyQuery(o.Hyps, o.Goal)
					fmt.Println("      SIMP goal:", g2)
					for _, h := range h2 {
						fmt.Println("      SIMP hyp:", h)
					}
					fmt.Println("      model:", o.Res.Model, o.Res.Raw)
					fmt.Println("      trace:", o.Trace)
				}
			}
		}
		tot += n
		bad += f
		x := ""
		if rep.Err != "" {
			x = " ERROR " + rep.Err
			bad++
		}
		if rep.Vacuous != "" {
			x += " VACUOUS " + rep.Vacuous
			bad++
		}
		fmt.Printf("%-70s %3d obl %d failed, %d paths, %.1fs+%.1fs%s\n", k, n, f, rep.Paths, rep.Secs, time.Since(t1).Seconds()-rep.Secs, x)
		if *verb {
			fmt.Println("   inlined", rep.Inlined, "used", rep.Used, "ext", rep.Exts)
		}
	}
	fmt.Printf("total %d obligations, %d problems, %.1fs\n", tot, bad, time.Since(t0).Seconds())
}

// defaultSpecs: the contracts next to the program.
func defaultSpecs() string {
	if e, err := os.Executable(); err == nil {
		return filepath.Join(filepath.Dir(filepath.Dir(e)), "contracts")
	}
	return "contracts"
}

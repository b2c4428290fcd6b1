package main

// A pool of worker processes: functions of one check are verified in parallel.
// Terms are hash-consed in global tables, so every worker is a process of its own.
// The workers share one pool of solver slots (a pipe holding one byte per slot).

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"sync/atomic"
)

type job struct {
	Key    string
	NoSpec []string
	Cross  bool
}

type wireObl struct {
	Fn, Kind, Label, Pos string
	Tags                 []string
	Goal                 string
	Trace                []string
	Status, Solver, Raw  string
	Model                map[string]string
	Secs                 float64
}

type wireReport struct {
	Key                          string
	Err, Vacuous                 string
	Used, Inlined, Exts, Assumes []string
	Paths                        int
	Secs                         float64
	Obls                         []wireObl
	Cross                        int
	Calls                        int64
}

func toWire(r *FuncReport) *wireReport {
	w := &wireReport{Key: r.Key, Err: r.Err, Vacuous: r.Vacuous, Used: r.Used, Inlined: r.Inlined, Exts: r.Exts, Assumes: r.Assume, Paths: r.Paths, Secs: r.Secs, Cross: r.Cross, Calls: atomic.LoadInt64(&solverCalls)}
	for _, o := range r.Obls {
		x := wireObl{Fn: o.Fn, Kind: o.Kind, Label: o.Label, Pos: o.Pos, Tags: o.Tags, Status: "unknown"}
		if o.Res != nil {
			x.Status, x.Solver, x.Secs = o.Res.Status, o.Res.Solver, o.Res.Secs
		}
		if x.Status != "unsat" {
			x.Goal, x.Trace = tail(o.Goal.String(), 20000), o.Trace
			if o.Res != nil {
				x.Raw, x.Model = tail(o.Res.Raw, 4000), o.Res.Model
			}
		}
		w.Obls = append(w.Obls, x)
	}
	return w
}

func fromWire(w *wireReport) *FuncReport {
	r := &FuncReport{Key: w.Key, Err: w.Err, Vacuous: w.Vacuous, Used: w.Used, Inlined: w.Inlined, Exts: w.Exts, Assume: w.Assumes, Paths: w.Paths, Secs: w.Secs, Cross: w.Cross}
	for _, x := range w.Obls {
		r.Obls = append(r.Obls, &Obl{Fn: x.Fn, Kind: x.Kind, Label: x.Label, Pos: x.Pos, Tags: x.Tags, GoalS: x.Goal, Trace: x.Trace,
			Res: &Result{Status: x.Status, Solver: x.Solver, Raw: x.Raw, Model: x.Model, Secs: x.Secs}})
	}
	return r
}

func cmdWorker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	ms := fs.Int("ms", 0, "")
	fs.StringVar(&repoDir, "repo", "/repo", "")
	fs.Parse(args)
	solverTokens = &tokens{r: os.NewFile(3, "r"), w: os.NewFile(4, "w")}
	if *tier == "thorough" {
		houdiniMs = 30000
	}
	c := &checker{prop: *prop, tier: *tier, ms: *ms, verif: *verif}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	dec, enc := json.NewDecoder(in), json.NewEncoder(out)
	for {
		var j job
		if dec.Decode(&j) != nil {
			return
		}
		if c.P == nil { // loaded with the first job
			P, err := loadProgram()
			if err == nil {
				c.P = P
				P.spec, err = parseSpecs(*verif + "/contracts")
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			P.checkFixed()
		}
		c.noSpec = map[string]bool{}
		for _, k := range j.NoSpec {
			c.noSpec[k] = true
		}
		atomic.StoreInt64(&solverCalls, 0)
		r := c.verifyHere(j.Key)
		if j.Cross && len(r.failed("", true)) == 0 {
			r.Cross = crossCheck(r.Obls)
		}
		enc.Encode(toWire(r))
		out.Flush()
	}
}

type tokens struct{ r, w *os.File }

var solverTokens *tokens

func (t *tokens) get() {
	var b [1]byte
	for {
		n, err := t.r.Read(b[:])
		if n == 1 || err != nil {
			return
		}
	}
}
func (t *tokens) put() { t.w.Write([]byte{1}) }

type worker struct {
	cmd *exec.Cmd
	enc *json.Encoder
	dec *json.Decoder
	in  interface{ Close() error }
}

type pool struct {
	c      *checker
	idle   []*worker
	n, max int
	tr, tw *os.File
	res    chan poolRes
	busy   int
}

type poolRes struct {
	w   *worker
	key string
	rep *FuncReport
}

func newPool(c *checker, n int) *pool {
	p := &pool{c: c, max: n, res: make(chan poolRes, 64)}
	var err error
	p.tr, p.tw, err = os.Pipe()
	if err != nil {
		panic(err)
	}
	p.tw.Write(make([]byte, 8))
	return p
}

func (p *pool) start() (*worker, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(exe, "worker", "-repo", repoDir, "-verif", p.c.verif, "-prop", p.c.prop, "-tier", p.c.tier, "-ms", fmt.Sprint(p.c.ms))
	cmd.ExtraFiles = []*os.File{p.tr, p.tw}
	cmd.Stderr = os.Stderr
	cmd.Env = append(os.Environ(), "GOMAXPROCS=4", "GOGC=300")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &worker{cmd: cmd, enc: json.NewEncoder(in), dec: json.NewDecoder(bufio.NewReaderSize(out, 1<<20)), in: in}, nil
}

// free says whether a job can be started now.
func (p *pool) free() bool { return len(p.idle) > 0 || p.n < p.max }

func (p *pool) submit(key string) {
	var w *worker
	var err error
	if len(p.idle) > 0 {
		w = p.idle[len(p.idle)-1]
		p.idle = p.idle[:len(p.idle)-1]
	} else {
		w, err = p.start()
		p.n++
	}
	p.busy++
	j := job{Key: key, NoSpec: keys(p.c.noSpec), Cross: p.c.tier == "thorough"}
	go func() {
		if err != nil {
			p.res <- poolRes{nil, key, &FuncReport{Key: key, Err: "worker: " + err.Error()}}
			return
		}
		var wr wireReport
		e := w.enc.Encode(j)
		if e == nil {
			e = w.dec.Decode(&wr)
		}
		if e != nil {
			w.in.Close()
			w.cmd.Process.Kill()
			w.cmd.Wait()
			p.res <- poolRes{nil, key, &FuncReport{Key: key, Err: "the verifier process ended early: " + e.Error()}}
			return
		}
		atomic.AddInt64(&solverCalls, wr.Calls)
		p.res <- poolRes{w, key, fromWire(&wr)}
	}()
}

func (p *pool) next() (string, *FuncReport) {
	r := <-p.res
	p.busy--
	if r.w != nil {
		p.idle = append(p.idle, r.w)
	} else {
		p.n--
	}
	return r.key, r.rep
}

func (p *pool) close() {
	for _, w := range p.idle {
		w.in.Close()
		w.cmd.Wait()
	}
	p.idle = nil
}

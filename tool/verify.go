package main

// Verification of one function against its contract.

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FuncReport struct {
	Key     string
	Obls    []*Obl
	Err     string // the function could not be processed
	Used    []string
	Inlined []string
	Exts    []string
	Assume  []string
	Paths   int
	Secs    float64
	Vacuous string
	Cross   int
}

func newExec(P *Program, fn *ssa.Function, s *FuncSpec) *Exec {
	return &Exec{prog: P, root: fn, spec: s, fnInfo: map[*Term]*FnInfo{}, inlined: map[string]bool{}, used: map[string]bool{},
		exts: map[string]bool{}, assume: map[string]bool{}, noSpec: map[string]bool{}}
}

func newState() *State {
	return &State{mem: map[string]*Mem{}, env: map[envKey]Val{}, defers: map[int][]deferred{}, visits: map[blkKey]int{}, cuts: map[blkKey]*cutCtx{}, ghost: map[string]Val{}}
}

func (ex *Exec) rootEnv() map[string]SV {
	s := ex.spec
	env := map[string]SV{}
	ps := ex.root.Params
	off := 0
	if ex.root.Signature.Recv() != nil {
		if s.recv != "" {
			env[s.recv] = ex.asImpl(s, SV{ex.params[0], ps[0].Type()})
			env["this"] = SV{ex.params[0], ps[0].Type()}
		}
		off = 1
	}
	for i := off; i < len(ps) && i-off < len(s.params); i++ {
		env[s.params[i-off]] = SV{ex.params[i], ps[i].Type()}
	}
	for i, f := range ex.root.FreeVars { // closures: captured variables by name (addresses)
		env[f.Name()] = SV{ex.bindRoot[i], f.Type()}
	}
	return env
}

func (ex *Exec) rootMods() *modSet {
	if ex.spec == nil {
		return nil
	}
	if ex.rmods == nil {
		cx := &Ctx{ex: ex, st: ex.entry, old: ex.entry, env: ex.rootEnv(), pkg: ex.spec.pkg, ceil: 0}
		ex.rmods = cx.modifies(ex.spec.modifies)
	}
	return ex.rmods
}

// stripEnv removes the layers by which other threads changed the memory.
// guardedElems: l is an array inside an object, guarded by a lock not held at entry.
func (ex *Exec) guardedElems(l *Term) bool {
	if l == nil {
		return false
	}
	key, base, _, ok := ex.fieldKey(l)
	if !ok {
		return false
	}
	d := ex.guardOf(key)
	if d == nil {
		return false
	}
	for _, h := range ex.entryHeld {
		if h.decl == d || h.base == base {
			return false
		}
	}
	return true
}

func (ex *Exec) stripEnv(m *Mem) *Mem {
	if m == nil || m.kind == MSym {
		return m
	}
	if m.stripped != nil {
		return m.stripped
	}
	p := ex.stripEnv(m.prev)
	r := m
	if m.env || m.kind == MStore && ex.guardedElems(m.l) {
		r = p
	} else if m.kind == MHavoc && len(m.regs) == 1 && m.regs[0].loc != nil && ex.guardedElems(m.regs[0].loc) {
		r = p
	} else if p != m.prev {
		c := *m
		c.prev = p
		c.memo = nil
		r = &c
	}
	m.stripped = r
	return r
}

// frameGoal: everything of memory n that existed at entry and is outside the modifies
// clause still has its value.
func (ex *Exec) frameGoal(s *State, n string, ms *modSet, _ bool) *Term {
	m := ex.stripEnv(s.mem[n])
	e := ex.entry.mem[n]
	for m != nil && m.kind == MStore && m.l != nil { // objects made here
		if r, ok := concRoot(m.l); !ok || r >= 0 {
			break
		}
		m = m.prev
	}
	if m == nil || e == nil || m == e || n == "S:byte" {
		return True
	}
	l := BoundVar("l?"+shortName(n), SLoc)
	var j *Term
	vars := []*Term{l}
	if m.info.elem {
		j = BoundVar("j?"+shortName(n), SInt)
		vars = append(vars, j)
	}
	in := False
	for _, r := range ms.regs[n] {
		in = Or(in, r.in(l, j))
	}
	in = Or(in, ex.exempt(n, l))
	return Forall(vars, Or(Lt(rootBound(l), I(0)), in, Eq(m.read(l, j), e.read(l, j))))
}

func verifyFunction(P *Program, fn *ssa.Function, s *FuncSpec, noSpec map[string]bool) (rep *FuncReport) {
	t0 := time.Now()
	rep = &FuncReport{Key: s.key}
	ex := newExec(P, fn, s)
	ex.noSpec = noSpec
	defer func() {
		rep.Secs = time.Since(t0).Seconds()
		rep.Obls = ex.obls
		rep.Paths = ex.paths
		rep.Used, rep.Inlined, rep.Exts, rep.Assume = keys(ex.used), keys(ex.inlined), keys(ex.exts), keys(ex.assume)
		if r := recover(); r != nil {
			switch e := r.(type) {
			case abortErr:
				rep.Err = e.msg
			case evalErr:
				rep.Err = e.msg
			default:
				rep.Err = fmt.Sprintf("internal: %v", r)
				if debugTrace {
					debug.PrintStack()
				}
			}
		}
	}()
	if fn.Blocks == nil {
		ex.abort("no body")
	}
	sig := fn.Signature
	np := sig.Params().Len()
	if len(s.params) > np {
		ex.abort("contract has %d parameters, the function has %d", len(s.params), np)
	}
	st := newState()
	for i, p := range fn.Params {
		name := p.Name()
		off := 0
		if sig.Recv() != nil {
			off = 1
		}
		if i >= off && i-off < len(s.params) {
			name = s.params[i-off]
		} else if off == 1 && i == 0 && s.recv != "" {
			name = s.recv
		}
		v := ex.fresh(st, "p:"+name, p.Type(), 0)
		ex.params = append(ex.params, v)
		if off == 1 && i == 0 {
			if t, ok := v.(*Term); ok && t.Sort == SLoc {
				st.assume(Ne(t, Null))
			}
		}
	}
	for _, f := range fn.FreeVars {
		v := ex.fresh(st, "fv:"+f.Name(), f.Type(), 0)
		if t, ok := v.(*Term); ok && t.Sort == SLoc {
			if _, isP := f.Type().Underlying().(*types.Pointer); isP {
				st.assume(Ne(t, Null))
			}
		}
		ex.bindRoot = append(ex.bindRoot, v)
	}
	ex.entry = newState()
	ex.entry.mem = map[string]*Mem{}
	cx := &Ctx{ex: ex, st: st, old: ex.entry, env: ex.rootEnv(), pkg: s.pkg, ceil: 0}
	ex.takeHeld(st)
	for _, c := range s.requires {
		st.assume(cx.boolean(c.e))
	}
	for _, c := range s.assumes {
		ex.assume["assumed at entry of "+shortKey(s.key)+": "+c.label] = true
		st.assume(cx.boolean(c.e))
	}
	for n, m := range st.mem {
		ex.entry.mem[n] = m
	}
	ex.entry.pc = st.pc[:len(st.pc):len(st.pc)]
	ms := ex.rootMods()
	for n, m := range ex.entry.mem {
		if st.mem[n] == nil {
			st.mem[n] = m
		}
	}
	for _, f := range ex.entry.pc {
		st.assume(f)
	}
	if !feasible(st.pc, 2000) {
		rep.Vacuous = "the preconditions are contradictory"
	}
	ex.startHook(st)
	returned := 0
	ex.callBody(fn, ex.params, ex.bindRoot, nil, st, func(s2 *State, res []Val) {
		returned++
		ex.endHook(s2)
		env := ex.rootEnv()
		for i, r := range res {
			if i < len(s.results) {
				env[s.results[i]] = SV{r, sig.Results().At(i).Type()}
			}
		}
		c2 := &Ctx{ex: ex, st: s2, old: ex.entry, env: env, pkg: s.pkg, ceil: 0}
		for _, c := range s.update {
			ex.ghostAssign(c2, c)
		}
		for _, c := range s.ensures {
			g := c2.boolean(c.e)
			if ex.silent == 0 {
				ex.record(s2, "post", c.label, fn.Pos(), c.tags, g)
			}
		}
		if s.flags["recovers"] && !s2.recovered && ex.silent == 0 {
			ex.record(s2, "recovers", "stops a panic", fn.Pos(), nil, False)
		}
		if ex.didYield && !s.flags["yields"] && ex.silent == 0 {
			ex.record(s2, "yields", "a function that takes locks has a contract that says so", fn.Pos(), nil, False)
		}
		if ms != nil && !ms.all && !s.flags["noframe"] {
			for _, n := range sortedKeys(s2.mem) {
				g := ex.frameGoal(s2, n, ms, true)
				if g != True {
					ex.record(s2, "frame", "modifies only what the contract lists ("+shortName(n)+")", fn.Pos(), s.frameTags(), g)
				}
			}
		}
	})
	if returned == 0 && !s.flags["noreturn"] {
		rep.Vacuous = "no path reaches a return"
	}
	return rep
}

func (s *FuncSpec) frameTags() []string { return nil }

func keys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sortStrings(r)
	return r
}

var debugTrace = false

// discharge decides the obligations in parallel.
func discharge(obls []*Obl, ms int) {
	type k struct {
		g *Term
		h string
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, 12)
	for _, o := range obls {
		if o.Res != nil {
			continue
		}
		o := o
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			o.Res = solveGoal(o.Hyps, o.Goal, ms)
		}()
	}
	wg.Wait()
}

func (o *Obl) String() string {
	st := "?"
	if o.Res != nil {
		st = o.Res.Status
	}
	return fmt.Sprintf("[%s] %s %s: %s (%s)", st, o.Fn, o.Kind, o.Label, o.Pos)
}

func relevantTags(tags []string, prop string) bool {
	if len(tags) == 0 || prop == "" {
		return true
	}
	for _, t := range tags {
		if t == prop {
			return true
		}
	}
	return false
}

var _ = strings.TrimSpace

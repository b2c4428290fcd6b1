package main

// Printing of verification conditions as SMT-LIB, ground instantiation of
// quantified hypotheses, and the solver portfolio.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"math/big"
	"os/exec"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// skolemize t (which is asserted) : negative foralls become fresh constants.
func skolem(t *Term, pos bool) *Term {
	switch t.Op {
	case ONot:
		return Not(skolem(t.Args[0], !pos))
	case OAnd, OOr:
		if !hasForall(t) {
			return t
		}
		as := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			as[i] = skolem(a, pos)
		}
		if t.Op == OAnd {
			return And(as...)
		}
		return Or(as...)
	case OIte:
		if t.Sort == SBool && hasForall(t) {
			return skolem(And(Or(Not(t.Args[0]), t.Args[1]), Or(t.Args[0], t.Args[2])), pos)
		}
	case OEq:
		if t.Args[0].Sort == SBool && hasForall(t) {
			a, b := t.Args[0], t.Args[1]
			return skolem(And(Or(Not(a), b), Or(a, Not(b))), pos)
		}
	case OForall:
		if !pos {
			m := map[*Term]*Term{}
			for _, v := range t.Args[:len(t.Args)-1] {
				if v.Sort == SLoc {
					n := freshName("sk")
					declare(n, nil, SLoc)
					m[v] = hashcons(&Term{Op: OVar, Sort: SLoc, Name: n})
				} else {
					m[v] = Var(freshName("sk"), v.Sort, nil, nil)
				}
			}
			return skolem(Subst(t.Args[len(t.Args)-1], m, map[*Term]*Term{}), pos)
		}
		b := skolemBody(t.Args[len(t.Args)-1])
		return Forall(t.Args[:len(t.Args)-1], b)
	}
	return t
}

// inside a kept forall we leave nested quantifiers alone
func skolemBody(t *Term) *Term { return t }

var hfMemo = map[*Term]bool{}

func hasForall(t *Term) bool {
	if t.Op == OForall {
		return true
	}
	if len(t.Args) == 0 || t.Sort != SBool {
		return false
	}
	if v, ok := hfMemo[t]; ok {
		return v
	}
	r := false
	for _, a := range t.Args {
		if hasForall(a) {
			r = true
			break
		}
	}
	hfMemo[t] = r
	return r
}

type quant struct {
	guard *Term // nil or the proxy that implies it
	vars  []*Term
	body  *Term
	trigs []trigger
	seeds []*Term // values the body singles out for its only variable
}
type trigger struct {
	app *Term
	sol []solveFor // one per variable
}
type solveFor struct {
	v    *Term
	argi int
	path []int // for Loc args: descend el/emb constructor path
	coef *big.Int
	rest *Term // arg = coef*v + rest  (rest ground), or nil if the argument is the variable itself
	fld  []*big.Int
}

// splitQuants turns an asserted formula into ground assertions and quantifiers.
func splitQuants(t *Term, ground *[]*Term, qs *[]*quant) {
	if t == True {
		return
	}
	if !hasForall(t) {
		*ground = append(*ground, t)
		return
	}
	switch t.Op {
	case OAnd:
		for _, a := range t.Args {
			splitQuants(a, ground, qs)
		}
		return
	case OForall:
		*qs = append(*qs, mkQuant(nil, t))
		return
	case OOr:
		var g []*Term
		for _, a := range t.Args {
			if !hasForall(a) {
				g = append(g, a)
				continue
			}
			p := FreshBool("qp")
			var sub []*Term
			var sq []*quant
			splitQuants(a, &sub, &sq)
			for _, s := range sub {
				*ground = append(*ground, Implies(p, s))
			}
			for _, q := range sq {
				if q.guard == nil {
					q.guard = p
				} else {
					*ground = append(*ground, Implies(p, q.guard))
				}
				*qs = append(*qs, q)
			}
			g = append(g, p)
		}
		*ground = append(*ground, Or(g...))
		return
	}
	// a quantifier somewhere we cannot reach: dropping a hypothesis is sound
}

func mkQuant(g, t *Term) *quant {
	n := len(t.Args) - 1
	q := &quant{guard: g, vars: t.Args[:n], body: t.Args[n]}
	// nested positive forall: merge
	seen := map[*Term]bool{}
	var apps []*Term
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] || !x.bound {
			return
		}
		seen[x] = true
		if x.Op == OForall { // instantiated one quantifier after the other
			rec(x.Args[len(x.Args)-1])
			return
		}
		if x.Op == OApp {
			apps = append(apps, x)
		}
		if x.Op == OEq && x.Args[0].Sort == SInt && len(q.vars) == 1 && q.vars[0].Sort == SInt && len(q.seeds) < 4 {
			l := toLin(Sub(x.Args[0], x.Args[1]))
			if k := l.m[q.vars[0]]; k != nil && k.CmpAbs(bOne) == 0 {
				delete(l.m, q.vars[0])
				v := l.term()
				if k.Sign() > 0 {
					v = Neg(v)
				}
				if !v.bound {
					q.seeds = append(q.seeds, v)
				}
			}
		}
		for _, a := range x.Args {
			rec(a)
		}
	}
	rec(q.body)
	sort.Slice(apps, func(i, j int) bool { return apps[i].id < apps[j].id })
	for _, a := range apps {
		tr := trigger{app: a}
		ok := true
		for _, v := range q.vars {
			found := false
			for i, x := range a.Args {
				if s, good := solveArg(v, i, x); good {
					tr.sol = append(tr.sol, s)
					found = true
					break
				}
			}
			if !found {
				ok = false
				break
			}
		}
		if ok {
			q.trigs = append(q.trigs, tr)
		}
	}
	return q
}

func solveArg(v *Term, argi int, x *Term) (solveFor, bool) {
	s := solveFor{v: v, argi: argi}
	for {
		if !x.bound {
			return s, false
		}
		if x == v {
			s.coef, s.rest = bOne, nil
			return s, true
		}
		switch x.Op {
		case OEmb:
			s.path = append(s.path, 0)
			x = x.Args[0]
			continue
		case OEl:
			if x.Args[1].bound && !x.Args[0].bound {
				s.path = append(s.path, 1)
				x = x.Args[1]
			} else if x.Args[0].bound && v.Sort == SLoc {
				s.path = append(s.path, 0)
				x = x.Args[0]
			} else if x.Args[1].bound {
				s.path = append(s.path, 1)
				x = x.Args[1]
			} else {
				return s, false
			}
			continue
		case OLin:
			for i, a := range x.Args {
				if a == v {
					l := toLin(x)
					delete(l.m, v)
					rest := l.term()
					if rest.bound {
						return s, false
					}
					s.coef, s.rest = x.Coefs[i], rest
					return s, true
				}
			}
		}
		return s, false
	}
}

func (s solveFor) solve(g *Term) *Term {
	x := g
	for _, p := range s.path {
		if p >= len(x.Args) || (x.Op != OEmb && x.Op != OEl) {
			return nil
		}
		x = x.Args[p]
	}
	if x.Sort != s.v.Sort || x.bound {
		return nil
	}
	if s.rest == nil {
		return x
	}
	d := Sub(x, s.rest)
	if s.coef.Sign() < 0 {
		return Div(Neg(d), new(big.Int).Neg(s.coef))
	}
	return Div(d, s.coef)
}

type Query struct {
	hyps []*Term
	goal *Term
}

type groundIndex struct {
	seen map[*Term]bool
	apps map[string][]*Term
	all  []*Term
}

func (gi *groundIndex) add(t *Term) {
	if gi.seen[t] {
		return
	}
	gi.seen[t] = true
	for _, a := range t.Args {
		gi.add(a)
	}
	if !t.bound {
		gi.all = append(gi.all, t)
		if t.Op == OApp {
			gi.apps[t.Name] = append(gi.apps[t.Name], t)
		}
	}
}

const maxInst = 4000

// prepare produces the ground assertions of a query (hyps and negated goal).
func prepare(hyps []*Term, goal *Term, directed bool) (ground []*Term, qs []*quant) {
	var gs []*Term
	asserts := append([]*Term{}, hyps...)
	asserts = append(asserts, Not(goal))
	nh := 0
	for i, h := range asserts {
		if i == len(hyps) {
			nh = len(gs)
		}
		splitQuants(skolem(h, true), &gs, &qs)
	}
	gi := &groundIndex{map[*Term]bool{}, map[string][]*Term{}, nil}
	if directed {
		// only terms the goal mentions (and then the instances made from them) instantiate
		for _, g := range gs[nh:] {
			gi.add(g)
		}
	} else {
		for _, g := range gs {
			gi.add(g)
		}
		for _, q := range qs {
			gi.add(q.body) // ground subterms of bodies
		}
	}
	done := map[*Term]bool{}
	for _, g := range gs {
		done[g] = true
	}
	type ik struct {
		q *quant
		k string
	}
	doneInst := map[ik]bool{}
	seeded := map[*quant]bool{}
	n := 0
	for round := 0; round < 3 && n < maxInst; round++ {
		var newG []*Term
		for qi := 0; qi < len(qs); qi++ {
			q := qs[qi]
			if round == 0 || !seeded[q] {
				seeded[q] = true
				for _, v := range q.seeds {
					k := ik{q, fmt.Sprintf("%d,", v.id)}
					if doneInst[k] {
						continue
					}
					doneInst[k] = true
					inst := Subst(q.body, map[*Term]*Term{q.vars[0]: v}, map[*Term]*Term{})
					if q.guard != nil {
						inst = Implies(q.guard, inst)
					}
					if inst == True || done[inst] {
						continue
					}
					done[inst] = true
					var g2 []*Term
					splitQuants(skolem(inst, true), &g2, &qs)
					newG = append(newG, g2...)
				}
			}
			for _, tr := range q.trigs {
				for _, g := range gi.apps[tr.app.Name] {
					m := map[*Term]*Term{}
					ok := true
					key := ""
					for _, s := range tr.sol {
						v := s.solve(g.Args[s.argi])
						if v == nil {
							ok = false
							break
						}
						m[s.v] = v
						key += fmt.Sprintf("%d,", v.id)
					}
					if !ok {
						continue
					}
					// skip if another argument is certainly different
					for i, x := range tr.app.Args {
						if Eq(Subst(x, m, map[*Term]*Term{}), g.Args[i]) == False {
							ok = false
							break
						}
					}
					if !ok {
						continue
					}
					k := ik{q, key}
					if doneInst[k] {
						continue
					}
					doneInst[k] = true
					inst := Subst(q.body, m, map[*Term]*Term{})
					if q.guard != nil {
						inst = Implies(q.guard, inst)
					}
					if inst == True || done[inst] {
						continue
					}
					done[inst] = true
					n++
					inst = skolem(inst, true)
					var g2 []*Term
					splitQuants(inst, &g2, &qs)
					newG = append(newG, g2...)
					if n >= maxInst {
						break
					}
				}
			}
		}
		if len(newG) == 0 {
			break
		}
		gs = append(gs, newG...)
		for _, g := range newG {
			gi.add(g)
		}
	}
	// range and root facts
	var facts []*Term
	if directed {
		for _, g := range gs {
			gi.add(g)
		}
	}
	for _, t := range gi.all {
		facts = append(facts, termFacts(t)...)
	}
	return append(gs, facts...), qs
}

func rootOf(t *Term) *Term { return App("root", SInt, nil, nil, nil, t) }

func termFacts(t *Term) (fs []*Term) {
	raw := func(t *Term) { fs = append(fs, t) }
	switch t.Sort {
	case SInt:
		switch t.Op {
		case OVar, OApp:
			// build the comparison without interval simplification
			if t.lo != nil {
				raw(rawLe(Num(t.lo), t))
			}
			if t.hi != nil {
				raw(rawLe(t, Num(t.hi)))
			}
		case OAnd2:
			raw(rawLe(I(0), t))
			raw(rawLe(t, t.Args[0]))
			raw(rawLe(t, t.Args[1]))
		case OMul:
			if t.lo != nil {
				raw(rawLe(Num(t.lo), t))
			}
			if t.hi != nil {
				raw(rawLe(t, Num(t.hi)))
			}
		case OLin:
			if ab, ok := orBounds[t]; ok {
				raw(rawLe(ab[0], t))
				raw(rawLe(ab[1], t))
				raw(rawLe(t, Num(t.hi)))
			}
		}
	case SLoc:
		switch t.Op {
		case OEmb, OEl:
			raw(hashcons(&Term{Op: OEq, Sort: SBool, Args: []*Term{rootOf(t), rootOf(t.Args[0])}}))
		case OObj:
			raw(hashcons(&Term{Op: OEq, Sort: SBool, Args: []*Term{rootOf(t), t.Args[0]}}))
		case ONull:
			raw(hashcons(&Term{Op: OEq, Sort: SBool, Args: []*Term{rootOf(t), I(0)}}))
		case OVar, OApp:
			if t.Op == OApp && strings.HasPrefix(t.Name, "embof:") {
				raw(Or(Ne(t.Args[0], I(0)), Eq(t, Null)))
			}
			if t.hasMR {
				raw(rawLe(I(int64(t.minRoot)), rootOf(t)))
			}
		}
	}
	return
}

// rawLe builds a<=b keeping it even when intervals decide it.
func rawLe(a, b *Term) *Term {
	l := Sub(a, b)
	return hashcons(&Term{Op: OLe0, Sort: SBool, Args: []*Term{l}})
}

// ---- printing ----
var identRe = regexp.MustCompile(`^[A-Za-z_!][A-Za-z0-9_!.]*$`)

func sym(n string) string {
	if identRe.MatchString(n) {
		return n
	}
	return "|" + strings.ReplaceAll(n, "|", "!") + "|"
}
func numStr(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}

type printer struct {
	buf    bytes.Buffer
	names  map[*Term]string
	decl   map[string]bool
	cnt    map[*Term]int
	letN   int
	vars   []string
	inQ    int
	qterms map[*Term]string
}

func (p *printer) count(t *Term, top bool) {
	p.cnt[t]++
	if p.cnt[t] > 1 {
		return
	}
	for _, a := range t.Args {
		p.count(a, false)
	}
}

func (p *printer) declare(t *Term) {
	if t.Op == OVar || t.Op == OApp {
		if !p.decl[t.Name] {
			p.decl[t.Name] = true
			s := symTab[t.Name]
			var as []string
			for _, a := range s.args {
				as = append(as, a.String())
			}
			fmt.Fprintf(&p.buf, "(declare-fun %s (%s) %s)\n", sym(t.Name), strings.Join(as, " "), s.ret)
			if len(s.args) == 0 && s.ret != SLoc {
				p.vars = append(p.vars, t.Name)
			}
		}
	}
}

// def makes sure every shared ground subterm has a define-fun.
func (p *printer) def(t *Term) {
	if _, ok := p.names[t]; ok {
		return
	}
	p.names[t] = ""
	for _, a := range t.Args {
		p.def(a)
	}
	p.declare(t)
	if !t.bound && len(t.Args) > 0 && p.cnt[t] > 1 && t.Op != OForall {
		p.letN++
		n := fmt.Sprintf("$d%d", p.letN)
		s := p.str(t)
		fmt.Fprintf(&p.buf, "(define-fun %s () %s %s)\n", n, t.Sort, s)
		p.names[t] = n
	}
}
func (p *printer) ref(t *Term) string {
	if n := p.names[t]; n != "" {
		return n
	}
	return p.str(t)
}
func (p *printer) str(t *Term) string {
	var sb strings.Builder
	w := func(op string) {
		sb.WriteByte('(')
		sb.WriteString(op)
		for _, a := range t.Args {
			sb.WriteByte(' ')
			sb.WriteString(p.ref(a))
		}
		sb.WriteByte(')')
	}
	switch t.Op {
	case OConst:
		return numStr(t.K)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OVar, OBound:
		return sym(t.Name)
	case OApp:
		w(sym(t.Name))
	case OLin:
		n := len(t.Args)
		if t.K.Sign() != 0 {
			n++
		}
		if n > 1 {
			sb.WriteString("(+")
		}
		for i, a := range t.Args {
			if n > 1 {
				sb.WriteByte(' ')
			}
			if t.Coefs[i].Cmp(bOne) == 0 {
				sb.WriteString(p.ref(a))
			} else {
				sb.WriteString("(* " + numStr(t.Coefs[i]) + " " + p.ref(a) + ")")
			}
		}
		if t.K.Sign() != 0 {
			if n > 1 {
				sb.WriteByte(' ')
			}
			sb.WriteString(numStr(t.K))
		}
		if n > 1 {
			sb.WriteByte(')')
		}
	case OMul:
		w("*")
	case ODiv:
		sb.WriteString("(div " + p.ref(t.Args[0]) + " " + t.K.String() + ")")
	case OMod:
		sb.WriteString("(mod " + p.ref(t.Args[0]) + " " + t.K.String() + ")")
	case ODivT:
		w("div")
	case OModT:
		w("mod")
	case OAnd2:
		if !p.decl["bitand"] {
			panic("bitand not declared")
		}
		w("bitand")
	case OIte:
		w("ite")
	case ONot:
		w("not")
	case OAnd:
		w("and")
	case OOr:
		w("or")
	case OEq:
		w("=")
	case OLe0:
		sb.WriteString("(<= " + p.ref(t.Args[0]) + " 0)")
	case OForall:
		sb.WriteString("(forall (")
		for _, v := range t.Args[:len(t.Args)-1] {
			sb.WriteString("(" + sym(v.Name) + " " + v.Sort.String() + ")")
		}
		sb.WriteString(") " + p.ref(t.Args[len(t.Args)-1]) + ")")
	case ONull:
		return "null"
	case OObj:
		w("obj")
	case OEmb:
		sb.WriteString("(emb " + p.ref(t.Args[0]) + " " + t.K.String() + ")")
	case OEl:
		w("el")
	default:
		panic("print")
	}
	return sb.String()
}

func script(ground []*Term, qs []*quant, withQ bool) (string, []string) {
	p := &printer{names: map[*Term]string{}, decl: map[string]bool{}, cnt: map[*Term]int{}}
	p.buf.WriteString("(declare-datatypes ((Loc 0)) (((null) (obj (oid Int)) (emb (ebase Loc) (efld Int)) (el (lbase Loc) (lidx Int)))))\n")
	p.buf.WriteString("(declare-fun bitand (Int Int) Int)\n")
	p.decl["bitand"] = true
	var body []*Term
	body = append(body, ground...)
	if withQ {
		for _, q := range qs {
			f := Forall(q.vars, q.body)
			if q.guard != nil {
				f = Implies(q.guard, f)
			}
			body = append(body, f)
		}
	}
	for _, t := range body {
		p.count(t, true)
	}
	for _, t := range body {
		p.def(t)
		fmt.Fprintf(&p.buf, "(assert %s)\n", p.ref(t))
	}
	return p.buf.String(), p.vars
}

// ---- solving ----
type Result struct {
	tried  int    // milliseconds given
	Status string // unsat, sat, unknown
	Solver string
	Model  map[string]string
	Raw    string
	Secs   float64
}

type solverCfg struct {
	name string
	cmd  func(ms int) []string
}

var solvers = []solverCfg{
	{"z3-new", func(ms int) []string { return []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", ms)} }},
	{"z3", func(ms int) []string { return []string{"z3", "-in", "-smt2", fmt.Sprintf("-t:%d", ms)} }},
	{"cvc5", func(ms int) []string {
		return []string{"cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", ms), "-"}
	}},
}

var (
	solverSem   = make(chan struct{}, 8)
	solverNanos int64
	solverCalls int64
	useCount    = map[string]int{}
	useMu       sync.Mutex
	cacheMu     sync.Mutex
	resCache    = map[[32]byte]*Result{}
)

func runSolver(s solverCfg, text string, ms int, vars []string) *Result {
	return runSolverCtx(context.Background(), s, text, ms, vars)
}

func runSolverCtx(ctx context.Context, s solverCfg, text string, ms int, vars []string) *Result {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if ctx.Err() != nil {
		return &Result{Solver: s.name, Status: "unknown"}
	}
	if solverTokens != nil {
		solverTokens.get()
		defer solverTokens.put()
	}
	t0 := time.Now()
	full := text
	if s.name == "cvc5" {
		full = "(set-logic ALL)\n" + full
	}
	full += "(check-sat)\n"
	if len(vars) > 0 {
		var ns []string
		for i, v := range vars {
			if i > 60 {
				break
			}
			ns = append(ns, sym(v))
		}
		full += "(get-value (" + strings.Join(ns, " ") + "))\n"
	}
	var out []byte
	if s.name == "cvc5" {
		ctx, cancel := context.WithTimeout(ctx, time.Duration(ms+1500)*time.Millisecond)
		defer cancel()
		a := s.cmd(ms)
		cmd := exec.CommandContext(ctx, a[0], a[1:]...)
		cmd.Stdin = strings.NewReader(full)
		out, _ = cmd.Output()
	} else if p, err := getProc(s.name); err == nil {
		o, ok := p.ask(ctx, full, ms)
		out = []byte(o)
		if ok {
			putProc(s.name, p)
		} else {
			p.kill()
		}
	}
	d := time.Since(t0)
	atomic.AddInt64(&solverNanos, int64(d))
	atomic.AddInt64(&solverCalls, 1)
	r := &Result{Solver: s.name, Secs: d.Seconds(), Raw: string(out), Status: "unknown"}
	line := strings.TrimSpace(string(out))
	if i := strings.IndexByte(line, '\n'); i >= 0 {
		line = strings.TrimSpace(line[:i])
	}
	switch line {
	case "unsat", "sat":
		r.Status = line
	}
	if strings.Contains(string(out), "error") && r.Status != "unsat" && r.Status != "sat" {
		r.Raw = string(out)
	}
	if r.Status == "sat" {
		r.Model = parseModel(string(out))
	}
	return r
}

var modelRe = regexp.MustCompile(`\(\s*(\|[^|]*\||[^\s()|]+)\s+(true|false|-?[0-9]+|\(-\s*[0-9]+\))\s*\)`)

func parseModel(s string) map[string]string {
	m := map[string]string{}
	for _, x := range modelRe.FindAllStringSubmatch(s, -1) {
		v := x[2]
		v = strings.NewReplacer("(", "", ")", "", " ", "").Replace(v)
		m[strings.Trim(x[1], "|")] = v
	}
	return m
}

// dischargeText decides one ground script with the portfolio.
func dischargeText(text string, vars []string, ms int) *Result {
	h := sha256.Sum256([]byte(canonNames(text)))
	cacheMu.Lock()
	if r, ok := resCache[h]; ok && (r.Status != "unknown" || r.tried >= ms) {
		cacheMu.Unlock()
		return r
	}
	cacheMu.Unlock()
	first := ms / 4
	if first < 500 {
		first = ms
	}
	r := runSolver(solvers[0], text, first, vars)
	if r.Status == "unknown" && first < ms {
		ch := make(chan *Result, 3)
		cc, stop := context.WithCancel(context.Background())
		defer stop()
		for _, s := range solvers {
			s := s
			go func() { ch <- runSolverCtx(cc, s, text, ms, vars) }()
		}
		for range solvers {
			r2 := <-ch
			if r2.Status != "unknown" {
				r = r2
				break
			}
		}
	}
	r.tried = ms
	cacheMu.Lock()
	resCache[h] = r
	cacheMu.Unlock()
	return r
}

var freshRe = regexp.MustCompile(`![0-9]+`)

// canonNames renumbers the generated names in the order in which they occur.
func canonNames(s string) string {
	m := map[string]string{}
	return freshRe.ReplaceAllStringFunc(s, func(x string) string {
		r, ok := m[x]
		if !ok {
			r = "!" + strconv.Itoa(len(m))
			m[x] = r
		}
		return r
	})
}

// Valid: hyps |- goal ?   (term construction is single threaded: callers hold termMu)
var termMu sync.Mutex

func solveGoal(hyps []*Term, goal *Term, ms int) *Result {
	if goal == True {
		return &Result{Status: "unsat", Solver: "simplifier"}
	}
	for _, h := range hyps {
		if h == False || h == goal {
			return &Result{Status: "unsat", Solver: "simplifier"}
		}
	}
	termMu.Lock()
	tasks := planGoal(hyps, goal, 0)
	termMu.Unlock()
	last := &Result{Status: "unsat", Solver: "simplifier"}
	for _, t := range tasks {
		r := t.run(ms)
		if r.Status != "unsat" {
			return r
		}
		r2 := *r
		r2.Secs += last.Secs
		last = &r2
	}
	return last
}

// task is one script that must be unsatisfiable.  The small script (a subset of the
// assertions of the full one, instantiated from the terms of the goal) is tried first.
type task struct {
	small string
	text  string
	vars  []string
	more  func() (string, []string)
}

// full is the complete script.
func (t *task) full() (string, []string) {
	if t.more != nil {
		termMu.Lock()
		t.text, t.vars = t.more()
		t.more = nil
		termMu.Unlock()
	}
	return t.text, t.vars
}

func (t *task) run(ms int) *Result {
	var secs float64
	if t.small != "" {
		m := ms / 2
		if m < 500 {
			m = ms
		}
		r := dischargeText(t.small, nil, m)
		if r.Status == "unsat" {
			return r
		}
		secs = r.Secs
	}
	text, vars := t.full()
	r := *dischargeText(text, vars, ms)
	r.Secs += secs
	return &r
}

// planGoal simplifies a query and splits it into the scripts that must all be unsatisfiable.
func planGoal(hyps []*Term, goal *Term, depth int) []task {
	hyps, goal, done := simplifyQuery(hyps, goal)
	if done {
		return nil
	}
	for _, h := range hyps {
		if h == False || h == goal {
			return nil
		}
	}
	if depth < 5 {
		switch goal.Op {
		case OForall:
			m := map[*Term]*Term{}
			for _, v := range goal.Args[:len(goal.Args)-1] {
				if v.Sort == SLoc {
					n := freshName("sk")
					declare(n, nil, SLoc)
					m[v] = hashcons(&Term{Op: OVar, Sort: SLoc, Name: n})
				} else {
					m[v] = Var(freshName("sk"), v.Sort, nil, nil)
				}
			}
			return planGoal(hyps, Subst(goal.Args[len(goal.Args)-1], m, map[*Term]*Term{}), depth+1)
		case OOr:
			var main *Term
			for _, d := range goal.Args {
				if main == nil || termSize(d) > termSize(main) {
					main = d
				}
			}
			hs := append([]*Term{}, hyps...)
			for _, d := range goal.Args {
				if d != main {
					hs = append(hs, Not(d))
				}
			}
			return planGoal(hs, main, depth+1)
		case OAnd:
			if len(goal.Args) <= 12 {
				var r []task
				for _, d := range goal.Args {
					r = append(r, planGoal(hyps, d, depth+1)...)
				}
				return r
			}
		}
		if c := splitCond(goal); c != nil {
			a := planGoal(append(append([]*Term{}, hyps...), c), goal, depth+1)
			return append(a, planGoal(append(append([]*Term{}, hyps...), Not(c)), goal, depth+1)...)
		}
	}
	g, qs := prepare(hyps, goal, true)
	for _, t := range g {
		if t == False {
			return nil
		}
	}
	if len(qs) == 0 {
		text, vars := script(g, qs, false)
		return []task{{text: text, vars: vars}}
	}
	small, _ := script(g, qs, false)
	return []task{{small: small, more: func() (string, []string) {
		g, qs := prepare(hyps, goal, false)
		return script(g, qs, false)
	}}}
}

func termSize(t *Term) int {
	seen := map[*Term]bool{}
	var f func(*Term)
	f = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			f(a)
		}
	}
	f(t)
	return len(seen)
}

// splitCond picks the literal that guards most integer if-then-else terms of the goal
// (at least two of them).
func splitCond(goal *Term) *Term {
	cnt := map[*Term]int{}
	seen := map[*Term]bool{}
	var f func(*Term)
	f = func(t *Term) {
		if seen[t] || t.Op == OForall {
			return
		}
		seen[t] = true
		if t.Op == OIte && t.Sort == SInt {
			c := t.Args[0]
			if c.Op == ONot {
				c = c.Args[0]
			}
			if isLit(c) && !c.bound {
				cnt[c]++
			}
		}
		for _, a := range t.Args {
			f(a)
		}
	}
	f(goal)
	var best *Term
	for c, n := range cnt {
		if n >= 2 && (best == nil || n > cnt[best] || n == cnt[best] && c.id < best.id) {
			best = c
		}
	}
	return best
}

// slice drops ground assertions that share no symbol (transitively) with the rest of
// the problem.  Currently the identity: kept as a hook for very large queries.
func slice(g []*Term) []*Term { return g }

// feasible reports whether the path condition may be satisfiable (unknown counts as yes).
func feasible(hyps []*Term, ms int) bool {
	r := solveGoal(hyps, False, ms)
	return r.Status != "unsat"
}

// feasibleQuick is used to prune paths: quantified hypotheses are only instantiated
// from the ground terms of the others.
func feasibleQuick(hyps []*Term, ms int) bool {
	for _, h := range hyps {
		if h == False {
			return false
		}
	}
	termMu.Lock()
	g, qs := prepare(hyps, False, true)
	text, _ := script(g, qs, false)
	termMu.Unlock()
	for _, t := range g {
		if t == False {
			return false
		}
	}
	return dischargeText(text, nil, ms).Status != "unsat"
}

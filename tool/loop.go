package main

// Loops: complete unwinding, or a cut with inferred and given invariants (Houdini).

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"

	"go/constant"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type cutCtx struct {
	loop   *loop
	infer  bool
	n      *Term // its iterations so far
	onBack func(from *ssa.BasicBlock, st *State)
}

func sortStrings(s []string) { sort.Strings(s) }

func (ex *Exec) unrollLimit() int {
	if ex.spec != nil && ex.spec.unroll > 0 {
		return ex.spec.unroll
	}
	return 130
}

// shouldCut decides between unwinding and cutting.
func (ex *Exec) shouldCut(fr *Frame, from, to *ssa.BasicBlock, lp *loop, st *State) bool {
	if ex.spec != nil && ex.spec.unroll > 0 {
		return false
	}
	// a loop whose condition is decided by constants on entry is unwound
	t := st.clone()
	decided := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abortErr); !ok {
					panic(r)
				}
			}
		}()
		ex.silent++
		defer func() { ex.silent-- }()
		ex.phis(fr, from, to, t)
		for i := numPhis(to); i < len(to.Instrs); i++ {
			switch x := to.Instrs[i].(type) {
			case *ssa.BinOp:
				t.env[envKey{fr.id, x}] = ex.binop(t, x.Op, ex.val(t, fr, x.X), ex.val(t, fr, x.Y), x.X.Type(), x.Y.Type(), x.Type(), x.Pos())
			case *ssa.UnOp:
				t.env[envKey{fr.id, x}] = ex.unop(t, fr, x)
			case *ssa.Convert:
				t.env[envKey{fr.id, x}] = ex.convert(t, ex.val(t, fr, x.X), x.X.Type(), x.Type(), x.Pos())
			case *ssa.If:
				if b, ok := x.Cond.(*ssa.BinOp); ok {
					for _, y := range []ssa.Value{b.X, b.Y} {
						if k, ok := y.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int && k.Int64() > int64(ex.unrollLimit()) {
							return // too many iterations to unwind
						}
					}
				}
				c := ex.val(t, fr, x.Cond).(*Term)
				decided = c == True || c == False
				return
			default:
				return
			}
		}
	}()
	return !decided
}

type phiPlan struct {
	phi   *ssa.Phi
	init  Val
	steps []*Term // per leaf: constant step or nil (havoc)
	hav   []*Term // per leaf variable when havocked
	priv  []bool  // per leaf: always an object made here that nobody else knows
	leafN int
}

type candidate struct {
	text string
	cl   *Clause
	env  map[string]SV
	pkg  string
	f    func(st *State, n *Term, phis []Val) *Term
	key  string
}

func (ex *Exec) phiLeaves(v Val) []*Term {
	switch x := v.(type) {
	case *Term, *SliceV, *StrV, *IfaceV:
		return toLeaves(x)
	case *StructV:
		return flatVal(x)
	case *TupleV:
		var r []*Term
		for _, y := range x.V {
			r = append(r, ex.phiLeaves(y)...)
		}
		return r
	}
	return nil
}
func withLeaves(v Val, xs *[]*Term) Val {
	take := func(n int) []*Term { r := (*xs)[:n]; *xs = (*xs)[n:]; return r }
	switch x := v.(type) {
	case *Term:
		return take(1)[0]
	case *SliceV:
		t := take(4)
		return &SliceV{t[0], t[1], t[2], t[3]}
	case *StrV:
		t := take(3)
		return &StrV{t[0], t[1], t[2]}
	case *IfaceV:
		t := take(2)
		return &IfaceV{t[0], t[1]}
	case *StructV:
		r := &StructV{T: x.T}
		for _, f := range x.F {
			r.F = append(r.F, withLeaves(f, xs))
		}
		return r
	}
	return v
}

// cutLoop abstracts the loop at header to.
func (ex *Exec) cutLoop(fr *Frame, from, to *ssa.BasicBlock, lp *loop, st *State) {
	k := blkKey{fr.id, to}
	// initial phi values
	t0 := st.clone()
	ex.phis(fr, from, to, t0)
	var plans []*phiPlan
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := t0.env[envKey{fr.id, p}]
		pl := &phiPlan{phi: p, init: v}
		for _, l := range ex.phiLeaves(v) {
			ok := l.Sort == SLoc && (ex.private(st, l) || st.isPrivSym(l))
			if r, conc := concRoot(l); conc && ok {
				for k := range st.ghost {
					ok = ok && !(strings.HasPrefix(k, "edge") && strings.HasSuffix(k, fmt.Sprintf(">%d", r)))
				}
			}
			pl.priv = append(pl.priv, ok)
		}
		plans = append(plans, pl)
	}
	nv := Var(freshName("$n"), SInt, bZero, pow2(50))
	mods := newModSet()
	startAlloc := ex.nalloc
	reacq := map[*Term]bool{} // locks held here that an iteration releases and takes again
	lost := map[*Term]bool{}
	extra := map[string]Val{} // objects that become known to others in the loop
	ex.nalloc += 1000
	symFloor := freshCnt
	termFloor := termCnt
	_ = symFloor

	type backSt struct {
		st   *State
		from *ssa.BasicBlock
	}
	mkHeader := func() *State {
		h := st.clone()
		h.dropPriv(func(p privT) bool { return lost[p.t] })
		for k, v := range extra {
			if strings.HasPrefix(k, "edge") {
				h.ghost[k] = v
			}
		}
		for k := range extra {
			if strings.HasPrefix(k, "esc") {
				var r int
				fmt.Sscan(k[3:], &r)
				ex.escapeRoot(h, r)
			}
		}
		ex.havocLoopMods(h, mods)
		if len(reacq) > 0 {
			h.held = append([]heldLock{}, h.held...)
			for i := range h.held {
				if reacq[h.held[i].base] {
					h.held[i].snap = h.clone()
					h.held[i].ceil = -ex.nalloc
				}
			}
		}
		for _, pl := range plans {
			ls := ex.phiLeaves(pl.init)
			if pl.hav == nil {
				pl.hav = make([]*Term, len(ls))
				for i, l := range ls {
					n := freshName("phi." + pl.phi.Name())
					if l.Sort == SLoc {
						declare(n, nil, SLoc)
						pl.hav[i] = hashcons(&Term{Op: OVar, Sort: SLoc, Name: n, hasMR: true, minRoot: -ex.nalloc})
					} else {
						lo, hi := phiRange(pl.phi, i, l)
						pl.hav[i] = Var(n, l.Sort, lo, hi)
					}
				}
			}
			xs := make([]*Term, len(ls))
			for i, l := range ls {
				if pl.priv[i] {
					r, _ := concRoot(l)
					h.priv = append(h.priv[:len(h.priv):len(h.priv)], privT{pl.hav[i], r})
				}
				if pl.steps != nil && pl.steps[i] != nil {
					if l.Sort == SInt {
						xs[i] = Add(l, Mul(pl.steps[i], nv))
					} else {
						xs[i] = l
					}
				} else {
					xs[i] = pl.hav[i]
				}
			}
			v := withLeaves(pl.init, &xs)
			ex.wfAssume(h, v)
			h.env[envKey{fr.id, pl.phi}] = v
		}
		return h
	}
	runBody := func(h *State) []backSt {
		var backs []backSt
		ex.silent++
		saveP := ex.paths
		h.cuts[k] = &cutCtx{loop: lp, n: nv, infer: true, onBack: func(f *ssa.BasicBlock, s *State) {
			backs = append(backs, backSt{s, f})
		}}
		h.visits[k] = 0
		ex.run(fr, to, numPhis(to), h)
		ex.silent--
		ex.paths = saveP
		return backs
	}
	nextPhis := func(b backSt) []Val {
		s := b.st.clone()
		ex.phis(fr, b.from, to, s)
		var r []Val
		for _, pl := range plans {
			r = append(r, s.env[envKey{fr.id, pl.phi}])
		}
		return r
	}

	// 1. which memories change, and where
	for round := 0; ; round++ {
		if round > 12 {
			ex.abort("loop effects do not stabilise")
		}
		h := mkHeader()
		hav0 := len(h.allHav)
		grown := false
		ex.effectsOnly++
		backs := runBody(h.clone())
		ex.effectsOnly--
		for _, b := range backs {
			for i, x := range b.st.held {
				if i < len(h.held) && x.decl != nil && x.snap != h.held[i].snap && !reacq[x.base] {
					reacq[x.base] = true
					grown = true
				}
			}
			nx := nextPhis(b)
			for pi, pl := range plans {
				for i, l := range ex.phiLeaves(nx[pi]) {
					if !pl.priv[i] {
						continue
					}
					keep := l == pl.hav[i] && b.st.isPrivSym(l)
					if r, conc := concRoot(l); conc && ex.private(b.st, l) && r < -startAlloc {
						keep = true
						for k := range b.st.ghost {
							keep = keep && !(strings.HasPrefix(k, "edge") && strings.HasSuffix(k, fmt.Sprintf(">%d", r)))
						}
					}
					if !keep {
						pl.priv[i], grown = false, true
					}
				}
			}
			for _, p := range st.priv {
				if !b.st.isPrivSym(p.t) && !lost[p.t] {
					lost[p.t], grown = true, true
				}
			}
			if loopEscapes(h, b.st, extra, startAlloc) {
				grown = true
			}
			if len(b.st.allHav) > hav0 && !mods.all {
				mods.all = true
				grown = true
			}
			for n, m := range b.st.mem {
				base := ex.memOf(h, n, m.info.elem, leaf{"", m.info.sort, m.info.lo, m.info.hi})
				if base == m {
					continue
				}
				if round > 10 && debugLoops {
					fmt.Println("   unstable:", n, m.kind, m.env, m.yield, m.l, m.regs)
				}
				if ex.collectMods(mods, n, m, base, termFloor, startAlloc, len(h.held) > 0) {
					grown = true
				}
			}
		}
		if !grown && ex.effectsOnly > 0 {
			h := mkHeader()
			h.cuts[k] = &cutCtx{loop: lp, n: nv, onBack: func(*ssa.BasicBlock, *State) {}}
			h.visits[k] = 0
			ex.run(fr, to, numPhis(to), h)
			return
		}
		if !grown {
			// 2. affine phis
			bs := runBody(mkHeader())
			for _, pl := range plans {
				ls := ex.phiLeaves(pl.init)
				pl.steps = make([]*Term, len(ls))
			}
			for pi, pl := range plans {
				for i, l := range ex.phiLeaves(pl.init) {
					var step *Term
					ok := len(bs) > 0
					for _, b := range bs {
						nx := ex.phiLeaves(nextPhis(b)[pi])[i]
						var d *Term
						if l.Sort == SInt {
							d = Sub(nx, pl.hav[i])
							d = unwrapStep(nx, pl.hav[i], d)
							if !d.isConst() && d.id > termFloor && mentions(d, termFloorSyms(pl.hav, nv)) {
								d = nil
							}
							if d != nil && !invariantTerm(d, plans, nv, mods, symFloor) {
								d = nil
							}
						} else if nx == pl.hav[i] {
							d = True
						}
						if d == nil || (step != nil && step != d) {
							ok = false
							break
						}
						step = d
					}
					if ok {
						pl.steps[i] = step
					}
				}
			}
			break
		}
	}
	// check the affine hypotheses, dropping those that fail
	var cands []*candidate
	var bounds []*Term
	for {
		h := mkHeader()
		bounds = ex.loopConds(fr, lp, h, to, k)
		bs := runBody(h.clone())
		dropped := false
		for _, b := range bs {
			nx := nextPhis(b)
			for pi, pl := range plans {
				ls := ex.phiLeaves(pl.init)
				nl := ex.phiLeaves(nx[pi])
				for i := range ls {
					if pl.steps[i] == nil {
						continue
					}
					want := ls[i]
					if ls[i].Sort == SInt {
						want = Add(ls[i], Mul(pl.steps[i], Add(nv, I(1))))
					}
					g := Eq(nl[i], want)
					if g == True {
						continue
					}
					if r := solveGoal(b.st.pc, g, 2000); r.Status != "unsat" {
						pl.steps[i] = nil
						dropped = true
					}
				}
			}
		}
		if !dropped {
			break
		}
	}

	// 3. candidate invariants
	phiVars := func() []*Term {
		var r []*Term
		for _, pl := range plans {
			for i := range pl.hav {
				if pl.steps[i] == nil {
					r = append(r, pl.hav[i])
				}
			}
		}
		return r
	}()
	substPhi := func(t *Term, n *Term, phis []Val) *Term {
		m := map[*Term]*Term{nv: n}
		for pi, pl := range plans {
			for i, x := range ex.phiLeaves(phis[pi]) {
				if pl.steps[i] == nil {
					m[pl.hav[i]] = x
				}
			}
		}
		return Subst(t, m, map[*Term]*Term{})
	}
	_ = phiVars
	seenB := map[*Term]bool{}
	addTerm := func(t *Term) {
		if t == True || t == False || seenB[t] {
			return
		}
		seenB[t] = true
		tt := t
		cands = append(cands, &candidate{text: "auto: " + t.String(), f: func(s *State, n *Term, phis []Val) *Term { return substPhi(tt, n, phis) }})
	}
	for _, b := range bounds {
		if !invariantTerm(b, nil, nil, mods, symFloor) {
			continue
		}
		addTerm(b)
		if b.Op == OLe0 {
			l := b.Args[0]
			for d := int64(1); d <= 8; d *= 2 {
				addTerm(Le0(Sub(l, I(d))))
			}
			addTerm(Le0(Neg(l)))
		}
		if b.Op == OEq && b.Args[0].Sort == SInt {
			addTerm(Le0(Sub(b.Args[0], b.Args[1])))
			addTerm(Le0(Sub(b.Args[1], b.Args[0])))
		}
	}
	// havocked integer phis: stay on their side of the initial value, and of the constants
	// that they (or their successors) are compared with in the loop
	for _, pl := range plans {
		ls := ex.phiLeaves(pl.init)
		if len(ls) == 1 && ls[0].Sort == SInt && pl.steps[0] == nil {
			for _, k := range comparedWith(pl.phi, lp) {
				addTerm(Le(pl.hav[0], Num(k)))
				addTerm(Le(pl.hav[0], Sub(Num(k), I(1))))
			}
		}
		for i, l := range ls {
			if pl.steps[i] == nil && l.Sort == SInt {
				addTerm(Le(pl.hav[i], l))
				addTerm(Le(l, pl.hav[i]))
				addTerm(Le(I(0), pl.hav[i]))
			}
			if pl.steps[i] == nil && l.Sort == SLoc {
				addTerm(Eq(pl.hav[i], l))
				addTerm(Ne(pl.hav[i], Null))
			}
			if pl.steps[i] == nil && l.Sort == SBool {
				addTerm(Eq(pl.hav[i], l))
			}
		}
		if _, ok := pl.init.(*SliceV); ok && pl.steps != nil {
			h := mkHeader()
			if sv, ok := h.env[envKey{fr.id, pl.phi}].(*SliceV); ok {
				i0 := pl.init.(*SliceV)
				addTerm(Eq(Add(sv.Off, sv.Len), Add(i0.Off, i0.Len)))
				addTerm(Eq(Add(sv.Off, sv.Cap), Add(i0.Off, i0.Cap)))
			}
		}
	}
	var it *Term // the iteration this loop runs
	for _, in := range to.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if iv, ok := ex.val(st, fr, nx.Iter).(*IterV); ok {
				it = iv.vis
			}
		}
	}
	var curKey *SV
	if it == nil { // inside the body of an iteration over a map: that one, at its current key
		var best *ssa.Next
		for ek, v := range st.env {
			nx, ok := ek.v.(*ssa.Next)
			if !ok || ek.f != fr.id || !nx.Block().Dominates(to) || best != nil && nx.Block().Dominates(best.Block()) {
				continue
			}
			iv, ok := ex.val(st, fr, nx.Iter).(*IterV)
			if tv, isT := v.(*TupleV); ok && isT && !nx.IsString && len(tv.V) == 3 {
				best, it = nx, iv.vis
				curKey = &SV{tv.V[1], nx.Type().(*types.Tuple).At(1).Type()}
			}
		}
	}
	// the iterations of the loop around this one
	var outerN *Term
	outerB := 0
	for kk, cc := range st.cuts {
		if kk.f == fr.id && cc.n != nil && cc.loop != lp && cc.loop.blocks[to] && (outerN == nil || len(cc.loop.blocks) < outerB) {
			outerN, outerB = cc.n, len(cc.loop.blocks)
		}
	}
	addClauses := func(cl []*Clause, env map[string]SV, pkg string) {
		for _, c := range cl {
			c := c
			accs := []int{-1}
			if strings.Contains(c.label, "$acc") || usesName(c.e, "$acc") {
				accs = nil
				for i, pl := range plans {
					if _, ok := pl.init.(*Term); ok {
						accs = append(accs, i)
					}
				}
			}
			ifs := []int{-1}
			if usesName(c.e, "$if") {
				ifs = nil
				for i, pl := range plans {
					if _, ok := pl.init.(*IfaceV); ok {
						ifs = append(ifs, i)
					}
				}
			}
			type slot struct {
				v  Val
				t  types.Type
				pl int
			}
			sls := []slot{{pl: -2}}
			if usesName(c.e, "$sl") {
				sls = nil
				for i, pl := range plans {
					if sv, ok := pl.init.(*SliceV); ok {
						sls = append(sls, slot{sv, pl.phi.Type(), i})
					}
				}
				seen := map[string]bool{}
				for ek, v := range st.env {
					in, isIn := ek.v.(ssa.Instruction)
					sv, ok := v.(*SliceV)
					if !ok || ek.f != fr.id || isIn && (in.Block() == to || !in.Block().Dominates(to)) {
						continue
					}
					key := fmt.Sprint(sv.Arr.id, ",", sv.Off.id, ",", sv.Len.id, ",", sv.Cap.id)
					if !seen[key] {
						seen[key] = true
						sls = append(sls, slot{sv, ek.v.Type(), -1})
					}
				}
				sort.Slice(sls, func(i, j int) bool {
					a, b := sls[i].v.(*SliceV), sls[j].v.(*SliceV)
					if a.Arr.id != b.Arr.id {
						return a.Arr.id < b.Arr.id
					}
					return a.Len.id < b.Len.id
				})
			}
			for _, sl := range sls {
				sl := sl
				for _, ai := range accs {
					for _, fi := range ifs {
						acc, fi := ai, fi
						cands = append(cands, &candidate{text: c.label, cl: c, f: func(s *State, n *Term, phis []Val) (res *Term) {
							defer func() {
								if r := recover(); r != nil {
									if er, ok := r.(evalErr); ok {
										if debugLoops {
											fmt.Println("   cannot evaluate:", c.label, er)
										}
										res = nil
										return
									}
									panic(r)
								}
							}()
							e := map[string]SV{"$n": {n, nil}}
							if outerN != nil {
								e["$m"] = SV{outerN, nil}
							}
							for k, v := range env {
								e[k] = v
							}
							if it != nil {
								e["$it"] = SV{it, nil}
							}
							if curKey != nil {
								e["$key"] = *curKey
							}
							if fi >= 0 {
								e["$if"] = SV{phis[fi], plans[fi].phi.Type()}
							}
							if acc >= 0 {
								e["$acc"] = SV{phis[acc], plans[acc].phi.Type()}
							}
							if sl.pl >= 0 {
								e["$sl"] = SV{phis[sl.pl], sl.t}
							} else if sl.pl == -1 {
								e["$sl"] = SV{sl.v, sl.t}
							}
							cx := &Ctx{ex: ex, st: s, old: ex.entry, pre: st, env: e, pkg: pkg, ceil: 0}
							return cx.boolean(c.e)
						}})
					}
				}
			}
		}
	}
	if ex.spec != nil {
		addClauses(ex.spec.invs, ex.rootEnv(), ex.spec.pkg)
	}
	for _, hl := range st.held {
		if hl.decl == nil {
			continue
		}
		env, _ := ex.selfEnv(hl.decl.pkg, hl.decl.styp, hl.decl.self, hl.base)
		addClauses(hl.decl.inv, env, hl.decl.pkg)
		if ex.spec == nil || reacq[hl.base] || hl.snap == nil {
			continue
		}
		if self, ok := ex.rootEnv()[ex.spec.recv]; ok && self.v == Val(hl.base) {
			snap, ceil := hl.snap, hl.ceil
			for _, cl := range ex.spec.sections {
				cl := cl
				cands = append(cands, &candidate{text: "section " + cl.label, cl: cl, f: func(s *State, n *Term, phis []Val) *Term {
					cx := &Ctx{ex: ex, st: s, old: snap, env: ex.rootEnv(), pkg: ex.spec.pkg, ceil: ceil}
					return cx.boolean(cl.e)
				}})
			}
		}
	}
	for f := fr; f != nil; f = f.parent {
		if s := ex.prog.spec.funcs[f.fn.RelString(nil)]; s != nil && s.inline && len(s.invs) > 0 {
			env := map[string]SV{}
			ps := f.fn.Params
			off := 0
			if f.fn.Signature.Recv() != nil {
				env[s.recv] = SV{st.env[envKey{f.id, ps[0]}], ps[0].Type()}
				off = 1
			}
			for i := off; i < len(ps) && i-off < len(s.params); i++ {
				env[s.params[i-off]] = SV{st.env[envKey{f.id, ps[i]}], ps[i].Type()}
			}
			addClauses(s.invs, env, s.pkg)
		}
	}
	// frame of the whole function for havocked memories
	if ex.spec != nil {
		ms := ex.rootMods()
		if ms != nil && !ms.all {
			var nms []string
			for n := range mods.regs {
				nms = append(nms, n)
			}
			sortStrings(nms)
			for _, n := range nms {
				n := n
				cands = append(cands, &candidate{text: "auto frame " + n, f: func(s *State, _ *Term, _ []Val) *Term {
					return ex.frameGoal(s, n, ms, true)
				}})
			}
		}
	}

	initPhis := func() []Val {
		var r []Val
		for _, pl := range plans {
			r = append(r, pl.init)
		}
		return r
	}()
	phisAt := func(s *State) []Val {
		var r []Val
		for _, pl := range plans {
			r = append(r, s.env[envKey{fr.id, pl.phi}])
		}
		return r
	}
	// entry filter
	type job struct {
		c    *candidate
		hyps []*Term
		goal *Term
		ok   bool
	}
	solveAll := func(js []*job) {
		var wg sync.WaitGroup
		for _, j := range js {
			j := j
			if j.goal == nil {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				ms := houdiniMs
				if j.c.cl == nil {
					ms = houdiniMs / 4
				}
				r := solveGoal(j.hyps, j.goal, ms)
				j.ok = r.Status == "unsat"
			}()
		}
		wg.Wait()
	}
	var js []*job
	for _, c := range cands {
		js = append(js, &job{c: c, hyps: st.pc, goal: c.f(st, I(0), initPhis)})
	}
	solveAll(js)
	var live []*candidate
	for _, j := range js {
		if j.ok {
			live = append(live, j.c)
		} else if debugLoops {
			fmt.Printf("   [loop %s] not initial: %s\n", ex.pos(to.Instrs[0].Pos()), j.c.text)
			if debugLoops2 && !strings.HasPrefix(j.c.text, "auto") && j.goal != nil {
				h2, g2, _ := simplifyQuery(j.hyps, j.goal)
				fmt.Println("      SIMP goal:", g2)
				for _, h := range h2 {
					fmt.Println("      SIMP hyp:", h)
				}
			}
		}
	}
	assumeAll := func(h *State) {
		ph := phisAt(h)
		for _, c := range live {
			if g := c.f(h, nv, ph); g != nil {
				h.assume(g)
			}
		}
	}
	for round := 0; ; round++ {
		h := mkHeader()
		assumeAll(h)
		bs := runBody(h)
		js = js[:0]
		for _, c := range live {
			for _, b := range bs {
				js = append(js, &job{c: c, hyps: b.st.pc, goal: c.f(b.st, Add(nv, I(1)), nextPhis(b))})
			}
		}
		solveAll(js)
		bad := map[*candidate]bool{}
		for _, j := range js {
			if !j.ok {
				bad[j.c] = true
			}
		}
		if len(bad) == 0 {
			break
		}
		var nl []*candidate
		for _, c := range live {
			if !bad[c] {
				nl = append(nl, c)
			} else if debugLoops {
				fmt.Printf("   [loop %s] not preserved: %s\n", ex.pos(to.Instrs[0].Pos()), c.text)
				if debugLoops2 && !strings.HasPrefix(c.text, "auto") {
					for _, j := range js {
						if j.c == c && !j.ok && j.goal != nil {
							h2, g2, _ := simplifyQuery(j.hyps, j.goal)
							fmt.Println("      SIMP goal:", g2)
							for _, h := range h2 {
								fmt.Println("      SIMP hyp:", h)
							}
						}
					}
				}
			}
		}
		live = nl
		if round > 40 {
			live = nil
		}
	}
	if debugLoops {
		for _, c := range live {
			fmt.Printf("   [loop %s] invariant: %s\n", ex.pos(to.Instrs[0].Pos()), c.text)
		}
	}
	// 4. the real run
	mods.fixed = true
	for _, c := range live {
		if g := c.f(st, I(0), initPhis); g != nil && ex.silent == 0 {
			ex.record(st, "loop-entry", c.text, to.Instrs[0].Pos(), nil, g)
		}
	}
	for _, x := range st.held {
		if reacq[x.base] && x.decl != nil {
			ex.checkSections(st, x, to.Instrs[0].Pos())
		}
	}
	h := mkHeader()
	assumeAll(h)
	head := h.clone()
	h.cuts[k] = &cutCtx{loop: lp, n: nv, onBack: func(f *ssa.BasicBlock, s *State) {
		nx := nextPhis(backSt{s, f})
		// what this iteration changed must be among the effects the header state allows for
		for n, m := range s.mem {
			base := ex.memOf(head, n, m.info.elem, leaf{"", m.info.sort, m.info.lo, m.info.hi})
			if base != m && ex.collectMods(mods, n, m, base, termFloor, startAlloc, len(head.held) > 0) {
				if debugLoops2 {
					for x := m; x != base && x != nil; x = x.prev {
						fmt.Println("  UNF", x.kind, x.env, x.yield, x.l, x.regs)
					}
					fmt.Println("  BASE", base.kind, base.env, base.yield, base.l, base.regs, base.prev == nil)
				}
				ex.abort("the effects of the loop at %s on %s were not foreseen", ex.pos(to.Instrs[0].Pos()), n)
			}
		}
		if len(s.allHav) > len(head.allHav) && !mods.all {
			ex.abort("the effects of the loop at %s were not foreseen", ex.pos(to.Instrs[0].Pos()))
		}
		if ex.silent > 0 {
			return
		}
		for _, x := range s.held {
			if reacq[x.base] && x.decl != nil {
				ex.checkSections(s, x, to.Instrs[0].Pos())
			}
		}
		for _, c := range live {
			if g := c.f(s, Add(nv, I(1)), nx); g != nil {
				ex.record(s, "loop-step", c.text, to.Instrs[0].Pos(), nil, g)
			}
		}
		for pi, pl := range plans {
			ls := ex.phiLeaves(pl.init)
			nl := ex.phiLeaves(nx[pi])
			for i := range ls {
				if pl.steps[i] != nil {
					want := ls[i]
					if ls[i].Sort == SInt {
						want = Add(ls[i], Mul(pl.steps[i], Add(nv, I(1))))
					}
					ex.record(s, "loop-step", "induction variable "+pl.phi.Name(), to.Instrs[0].Pos(), nil, Eq(nl[i], want))
				}
			}
		}
	}}
	h.visits[k] = 0
	ex.run(fr, to, numPhis(to), h)
}

var debugLoops2 = os.Getenv("GVLOOPS") != ""
var debugLoops = false
var houdiniMs = 10000

func phiRange(p *ssa.Phi, i int, l *Term) (lo, hi *bigInt) {
	if l.Sort != SInt {
		return nil, nil
	}
	lo, hi, _, _, ok := intRange(p.Type())
	if ok {
		// keep away from the extremes so that wrap-around does not hide the step; the
		// affine hypothesis is checked afterwards without this restriction
		return lo, hi
	}
	if _, ok := isFloat(p.Type()); ok {
		return nil, nil
	}
	ls := phiTypeLeaves(p)
	if i < len(ls) {
		return ls[i].lo, ls[i].hi
	}
	return nil, nil
}
func phiTypeLeaves(p *ssa.Phi) (ls []leaf) {
	defer func() { recover() }()
	return leaves(p.Type())
}

// unwrapStep recognises wrap(phi+c)-phi as the step c.
func unwrapStep(nx, phi, d *Term) *Term {
	if d.isConst() {
		return d
	}
	// signed: Mod(phi+c+h, m)-h ; unsigned: Mod(phi+c, m)
	l := toLin(nx)
	for a, c := range l.m {
		if a.Op == OMod && c.Cmp(bOne) == 0 && len(l.m) == 1 {
			in := Add(a.Args[0], Num(l.k))
			s := Sub(in, phi)
			h := new(bigInt).Rsh(a.K, 1)
			if s.isConst() {
				// undo the modulus if the constant is large (negative steps)
				v := s.K
				if v.Cmp(h) > 0 {
					v = new(bigInt).Sub(v, a.K)
				}
				return Num(v)
			}
			return s
		}
	}
	return d
}

func termFloorSyms(hav []*Term, n *Term) map[*Term]bool {
	m := map[*Term]bool{n: true}
	for _, h := range hav {
		m[h] = true
	}
	return m
}
func mentions(t *Term, s map[*Term]bool) bool {
	if s[t] {
		return true
	}
	for _, a := range t.Args {
		if mentions(a, s) {
			return true
		}
	}
	return false
}

// invariantTerm: t does not mention symbols created inside the loop (fresh names above
// the floor), unless they are phi variables of the plans (when plans is nil).
func invariantTerm(t *Term, plans []*phiPlan, nv *Term, mods *modSet, floor int) bool {
	ok := true
	seen := map[*Term]bool{}
	phis := map[*Term]bool{}
	for _, p := range plans {
		for _, h := range p.hav {
			phis[h] = true
		}
	}
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] || !ok {
			return
		}
		seen[x] = true
		if phis[x] || x == nv {
			ok = false
			return
		}
		if x.Op == OVar || x.Op == OApp {
			if n := freshNum(x.Name); n > floor && !isPhiVar(x.Name) && !isNVar(x.Name) {
				ok = false
				return
			}
		}
		for _, a := range x.Args {
			rec(a)
		}
	}
	rec(t)
	return ok
}
func isPhiVar(n string) bool { return len(n) > 4 && n[:4] == "phi." }
func isNVar(n string) bool   { return len(n) > 2 && n[:2] == "$n" }

func freshNum(n string) int {
	for i := len(n) - 1; i >= 0; i-- {
		if n[i] == '!' {
			v := 0
			if i+1 == len(n) {
				return 0
			}
			for _, c := range n[i+1:] {
				if c < '0' || c > '9' {
					return 1 << 30
				}
				v = v*10 + int(c-'0')
			}
			return v
		}
	}
	return 0
}

// collectMods adds the locations written between base and m.
func (ex *Exec) collectMods(ms *modSet, name string, m, base *Mem, termFloor, startAlloc int, held bool) bool {
	grown := false
	lf := leaf{"", m.info.sort, m.info.lo, m.info.hi}
	add := func(r Region) {
		for _, o := range ms.regs[name] {
			if o.all || (o.elOf != nil && r.loc != nil && r.loc.Op == OEl && r.loc.Args[0] == o.elOf) || (r.envAll && o.envAll) || (o.loc != nil && o.loc == r.loc) || (o.elOf != nil && o.elOf == r.elOf) || (o.root != nil && o.root == r.root) {
				return
			}
		}
		if r.all {
			ms.regs[name] = nil
		}
		ms.add(name, m.info.elem, lf, r)
		grown = true
	}
	addEnv := func(r Region) {
		for _, o := range ms.regs[name] {
			if o.envAll {
				return
			}
		}
		add(r)
	}
	addLoc := func(l *Term) {
		// objects allocated inside the loop do not exist at the header
		if r, ok := concRoot(l); ok && r < -startAlloc-1000 {
			return
		}
		switch {
		case stable(l, termFloor):
			add(Region{loc: l})
		case l.Op == OEl && stable(l.Args[0], termFloor):
			add(Region{elOf: l.Args[0]})
		case l.Op == OEmb && l.Args[0].Op == OEl && stable(l.Args[0].Args[0], termFloor):
			add(Region{elOf: l.Args[0].Args[0]})
		default:
			add(Region{all: true})
		}
	}
	for x := m; x != base; x = x.prev {
		if x == nil {
			add(Region{all: true})
			break
		}
		if x.yield {
			if !ms.yield {
				ms.yield, grown = true, true
			}
			continue
		}
		if x.env && x.kind == MHavoc {
			for _, r := range x.regs {
				switch {
				case r.loc != nil && stable(r.loc, termFloor):
					addEnv(Region{loc: r.loc})
				case r.elOf != nil && stable(r.elOf, termFloor):
					addEnv(Region{elOf: r.elOf})
				case r.pred == nil || held:
					addEnv(Region{envAll: true})
				case !ms.yield:
					ms.yield, grown = true, true
				}
			}
			continue
		}
		if x.env && x.kind == MStore {
			if stable(x.l, termFloor) {
				addEnv(Region{loc: x.l})
			} else {
				addEnv(Region{envAll: true})
			}
			continue
		}
		switch x.kind {
		case MStore:
			addLoc(x.l)
		case MCopy:
			addLoc(x.l)
		case MCopyEl:
			if stable(x.l, termFloor) {
				add(Region{elOf: x.l})
			} else if r, ok := concRoot(x.l); !ok || r >= -startAlloc-1000 {
				add(Region{all: true})
			}
		case MHavoc:
			for _, r := range x.regs {
				switch {
				case r.star && ms.all && ms.fixed && ms.regs[name] == nil:
					// a memory first met after the effects were found: the header state gave
					// it the effects of such calls when it was made
				case r.loc != nil:
					addLoc(r.loc)
				case r.elOf != nil && stable(r.elOf, termFloor):
					add(Region{elOf: r.elOf})
				case r.root != nil && stable(r.root, termFloor):
					add(Region{root: r.root})
				default:
					add(Region{all: true})
				}
			}
		}
	}
	return grown
}

// stable: the term existed before the loop was entered.
func stable(t *Term, floor int) bool {
	if t.id <= floor {
		return true
	}
	// structurally over older symbols only
	switch t.Op {
	case OVar, OBound:
		return false
	case OApp:
		if freshNum(t.Name) > 0 && symBorn[t.Name] > floor {
			return false
		}
	}
	if len(t.Args) == 0 {
		return t.Op == OConst || t.Op == ONull || t.Op == OTrue || t.Op == OFalse
	}
	for _, a := range t.Args {
		if !stable(a, floor) {
			return false
		}
	}
	return true
}

var symBorn = map[string]int{}

func (ex *Exec) havocLoopMods(h *State, ms *modSet) {
	if ms.yield {
		ex.yieldAll(h)
	}
	if ms.all {
		one := newModSet()
		one.all = true
		ex.havocMods(h, one)
	}
	var ns []string
	for n := range ms.regs {
		ns = append(ns, n)
	}
	sortStrings(ns)
	for _, n := range ns {
		m := ex.memOf(h, n, ms.isEl[n], ms.elem[n])
		var regs []Region
		for _, r := range ms.regs[n] {
			if r.envAll {
				sh := ex.shared(h)
				r.pred = func(l, _ *Term) *Term { return sh(l) }
			}
			regs = append(regs, r)
		}
		h.mem[n] = m.havoc(regs, -ex.nalloc, -ex.nalloc)
	}
}

// loopEscapes records in extra what an iteration makes known to other threads, among the
// objects that exist before the loop.
func loopEscapes(h, b *State, extra map[string]Val, startAlloc int) bool {
	grown := false
	put := func(k string) {
		if h.ghost[k] == nil && extra[k] == nil {
			extra[k] = True
			grown = true
		}
	}
	for k := range b.ghost {
		var x, y int
		if strings.HasPrefix(k, "esc") {
			fmt.Sscan(k[3:], &x)
			if x >= -startAlloc {
				put(k)
			}
		}
		if strings.HasPrefix(k, "edge") {
			fmt.Sscanf(k[4:], "%d>%d", &x, &y)
			if y < -startAlloc {
				continue
			}
			if x >= -startAlloc {
				put(k)
			} else {
				put(escKey(y)) // held by an object made in the loop
			}
		}
	}
	return grown
}

// loopConds collects the branch conditions inside the loop in terms of the header state.
func (ex *Exec) loopConds(fr *Frame, lp *loop, h *State, to *ssa.BasicBlock, k blkKey) []*Term {
	var out []*Term
	s := h.clone()
	n0 := len(s.pc)
	ex.silent++
	s.cuts[k] = &cutCtx{loop: lp, infer: true, onBack: func(_ *ssa.BasicBlock, b *State) {
		for _, t := range b.pc[n0:] {
			if t.Op == OLe0 || t.Op == OEq {
				out = append(out, t)
			}
		}
	}}
	s.visits[k] = 0
	ex.run(fr, to, numPhis(to), s)
	ex.silent--
	if len(out) > 40 {
		out = out[:40]
	}
	return out
}

func usesName(e *Expr, n string) bool {
	if e == nil {
		return false
	}
	if e.op == "id" && e.name == n {
		return true
	}
	for _, a := range e.args {
		if usesName(a, n) {
			return true
		}
	}
	return false
}

// comparedWith: constants that v, or v plus a constant, is compared with inside the loop.
func comparedWith(v ssa.Value, lp *loop) []*big.Int {
	var ks []*big.Int
	seen := map[ssa.Value]bool{}
	var walk func(x ssa.Value, d int)
	walk = func(x ssa.Value, d int) {
		if seen[x] || d > 3 || x.Referrers() == nil {
			return
		}
		seen[x] = true
		for _, r := range *x.Referrers() {
			b, ok := r.(*ssa.BinOp)
			if !ok || !lp.blocks[b.Block()] {
				continue
			}
			k, isC := b.Y.(*ssa.Const)
			if !isC || b.X != x || k.Value == nil || k.Value.Kind() != constant.Int {
				continue
			}
			switch b.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				if n, ok := new(big.Int).SetString(k.Value.ExactString(), 10); ok {
					ks = append(ks, n)
				}
			case token.ADD:
				walk(b, d+1)
			}
		}
	}
	walk(v, 0)
	return ks
}

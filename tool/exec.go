package main

// Path-based symbolic execution of go/ssa functions, generating obligations.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Fn     string
	Kind   string
	Label  string
	Pos    string
	Tags   []string
	Hyps   []*Term
	Goal   *Term
	GoalS  string
	Trace  []string
	Res    *Result
	Helper bool
}

type envKey struct {
	f int
	v ssa.Value
}
type blkKey struct {
	f int
	b *ssa.BasicBlock
}
type deferred struct {
	call *ssa.CallCommon
	args []Val
	fnv  Val
	pos  token.Pos
}
type heldLock struct {
	base *Term
	decl *LockDecl
	rd   bool
	snap *State // right after it was taken
	ceil int    // objects made since have smaller roots
}

type State struct {
	pc                 []*Term
	pcSet              map[*Term]bool
	mem                map[string]*Mem
	env                map[envKey]Val
	defers             map[int][]deferred
	visits             map[blkKey]int
	cuts               map[blkKey]*cutCtx
	held               []heldLock
	trace              []string
	panicV             Val  // non-nil while panicking
	dfrCall, recovered bool // a deferred call is being made; recover was called
	ghost              map[string]Val
	priv               []privT    // values of loop variables that denote private objects
	allHav             []allHavoc // havocs that also apply to memories not touched yet
}

type allHavoc struct {
	id            int
	minRoot, ceil int
	sh            func(l, j *Term) *Term // the locations others can reach
	made          map[*Mem]*Mem          // memories first touched after it, by what they were before
}

func (s *State) clone() *State {
	n := &State{mem: make(map[string]*Mem, len(s.mem)), env: make(map[envKey]Val, len(s.env)), panicV: s.panicV, recovered: s.recovered, dfrCall: s.dfrCall}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	n.held = s.held[:len(s.held):len(s.held)]
	n.priv = s.priv[:len(s.priv):len(s.priv)]
	n.allHav = s.allHav[:len(s.allHav):len(s.allHav)]
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	n.defers = map[int][]deferred{}
	for k, v := range s.defers {
		n.defers[k] = v[:len(v):len(v)]
	}
	n.visits = map[blkKey]int{}
	for k, v := range s.visits {
		n.visits[k] = v
	}
	n.cuts = map[blkKey]*cutCtx{}
	for k, v := range s.cuts {
		n.cuts[k] = v
	}
	n.ghost = map[string]Val{}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	return n
}

func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	if t.Op == OAnd {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	for i := len(s.pc) - 1; i >= 0 && i > len(s.pc)-400; i-- {
		if s.pc[i] == t {
			return
		}
	}
	s.pc = append(s.pc, t)
}
func (s *State) dead() bool {
	for _, p := range s.pc {
		if p == False {
			return true
		}
	}
	return false
}
func (s *State) holds(t *Term) bool {
	for _, p := range s.pc {
		if p == t {
			return true
		}
	}
	return false
}

type Frame struct {
	id     int
	fn     *ssa.Function
	parent *Frame
	cont   func(st *State, res []Val)
	depth  int
	bind   []Val
	loops  *loopInfo
	dfr    bool // called by a defer statement
}

type Exec struct {
	prog        *Program
	root        *ssa.Function
	spec        *FuncSpec
	obls        []*Obl
	silent      int
	locals      map[string]*Term // variables declared at the top of the function, by type
	nalloc      int
	nframe      int
	fnInfo      map[*Term]*FnInfo
	entry       *State // state at entry of the root, for old()
	params      []Val
	paths       int
	forks       int
	helper      bool
	inlined     map[string]bool
	used        map[string]bool // contracts used
	exts        map[string]bool // external models used
	assume      map[string]bool // free text assumptions made
	onBack      func()
	stop        bool
	steps       int
	returns     []*retInfo
	noSpec      map[string]bool // contracts switched off (inlined instead)
	inferN      int
	reach       []*State
	spawn       []string
	bindRoot    []Val
	rmods       *modSet
	entryHeld   []heldLock
	exemptN     map[string][]func(l *Term) *Term
	didYield    bool
	once        map[string]bool
	loopHeld    map[blkKey][]heldLock
	effectsOnly int // only what loops change is wanted
	mapLens     map[domLen]*Term
}

type retInfo struct {
	st  *State
	res []Val
}

type abortErr struct{ msg string }

func (ex *Exec) abort(f string, a ...interface{}) { panic(abortErr{fmt.Sprintf(f, a...)}) }

func (ex *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := ex.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, repoDir+"/"), q.Line)
}

func (ex *Exec) newObj() *Term {
	ex.nalloc++
	return Obj(int64(-ex.nalloc))
}
func (ex *Exec) minRoot() int { return -ex.nalloc }

// oblige records an obligation and then assumes it.
func (ex *Exec) oblige(st *State, kind, label string, pos token.Pos, tags []string, goal *Term) {
	if goal == True {
		if ex.silent == 0 && kind != "safety" {
			// count trivially true functional obligations too
			ex.record(st, kind, label, pos, tags, goal)
		}
		return
	}
	if st.holds(goal) {
		return
	}
	if ex.silent == 0 {
		ex.record(st, kind, label, pos, tags, goal)
	}
	st.assume(goal)
}

func (ex *Exec) record(st *State, kind, label string, pos token.Pos, tags []string, goal *Term) {
	ex.obls = append(ex.obls, &Obl{Fn: ex.root.RelString(nil), Kind: kind, Label: label, Pos: ex.pos(pos), Tags: tags,
		Hyps: st.pc[:len(st.pc):len(st.pc)], Goal: goal, Trace: st.trace[:len(st.trace):len(st.trace)], Helper: ex.helper})
}

func (ex *Exec) safety(st *State, label string, pos token.Pos, goal *Term) {
	if (label == "index out of range" || label == "make: length out of range") && ex.spec != nil && ex.spec.flags["nobounds"] {
		ex.assume["the indexes and lengths used by "+shortKey(ex.spec.key)+" are in range"] = true
		st.assume(goal)
		return
	}
	ex.oblige(st, "safety", label, pos, nil, goal)
}

// ---- memory access by Go type ----
func (ex *Exec) memOf(st *State, name string, elem bool, l leaf) *Mem {
	if m, ok := st.mem[name]; ok {
		return m
	}
	info := &MemInfo{name: name, elem: elem, sort: l.sort, lo: l.lo, hi: l.hi}
	m := newSym(info, name, 0)
	if ex.entry != nil && ex.entry != st {
		if e, ok := ex.entry.mem[name]; ok {
			m = e
		} else {
			ex.entry.mem[name] = m
		}
	}
	for _, h := range st.allHav {
		if ex.survives(name) {
			break
		}
		if h.made[m] == nil {
			h.made[m] = &Mem{kind: MHavoc, info: info, prev: m, sym: fmt.Sprintf("%s!all%d", name, h.id), regs: []Region{{pred: h.sh, star: true}}, minRoot: h.minRoot, ceil: h.ceil}
		}
		m = h.made[m]
	}
	st.mem[name] = m
	return m
}

func structKey(t types.Type) string { return typeKey(t) }

func fieldMemName(st types.Type, i int) string {
	s := st.Underlying().(*types.Struct)
	return "F:" + structKey(st) + "." + s.Field(i).Name()
}

func (ex *Exec) wfAssume(st *State, v Val) {
	switch x := v.(type) {
	case *SliceV:
		if x.Arr.bound || x.Len.bound || x.Cap.bound || x.Off.bound {
			return
		}
		st.assume(Le(x.Len, x.Cap))
		st.assume(Le(Add(x.Off, x.Cap), Num(maxLen)))
		st.assume(Implies(Eq(x.Arr, Null), Eq(x.Cap, I(0))))
	case *StrV:
		if x.Arr.bound || x.Len.bound || x.Off.bound {
			return
		}
		st.assume(Le(Add(x.Off, x.Len), Num(maxLen)))
	case *IfaceV:
		if x.Typ.bound || x.Data.bound {
			return
		}
		st.assume(Implies(Eq(x.Typ, I(0)), Eq(x.Data, Null)))
	case *StructV:
		for _, f := range x.F {
			ex.wfAssume(st, f)
		}
	}
}

// loadField reads field i of the struct of type sty at p.
func (ex *Exec) loadField(st *State, p *Term, sty types.Type, i int) Val {
	ft := sty.Underlying().(*types.Struct).Field(i).Type()
	switch u := ft.Underlying().(type) {
	case *types.Struct:
		return ex.loadStruct(st, ex.prog.emb(p, sty, i), ft)
	case *types.Array:
		return ex.arrVal(st, ex.prog.emb(p, sty, i), u)
	}
	ls := leaves(ft)
	xs := make([]*Term, len(ls))
	n := fieldMemName(sty, i)
	for k, l := range ls {
		xs[k] = ex.memOf(st, n+l.suf, false, l).read(p, nil)
	}
	v := fromLeaves(ft, xs)
	ex.wfAssume(st, v)
	return v
}
func (ex *Exec) loadStruct(st *State, p *Term, t types.Type) Val {
	s := t.Underlying().(*types.Struct)
	v := &StructV{T: t}
	for i := 0; i < s.NumFields(); i++ {
		v.F = append(v.F, ex.loadField(st, p, t, i))
	}
	return v
}
func (ex *Exec) arrVal(st *State, l *Term, a *types.Array) Val {
	v := &ArrV{T: a, Loc: l, Mem: map[string]*Mem{}}
	for k, m := range st.mem {
		v.Mem[k] = m
	}
	return v
}
func (ex *Exec) storeField(st *State, p *Term, sty types.Type, i int, v Val) {
	ft := sty.Underlying().(*types.Struct).Field(i).Type()
	switch u := ft.Underlying().(type) {
	case *types.Struct:
		ex.storeStruct(st, ex.prog.emb(p, sty, i), ft, v)
		return
	case *types.Array:
		ex.storeArr(st, ex.prog.emb(p, sty, i), u, v)
		return
	}
	ls := leaves(ft)
	xs := toLeaves(v)
	n := fieldMemName(sty, i)
	for k, l := range ls {
		st.mem[n+l.suf] = ex.memOf(st, n+l.suf, false, l).store(p, nil, xs[k])
	}
}
func (ex *Exec) storeStruct(st *State, p *Term, t types.Type, v Val) {
	sv, ok := v.(*StructV)
	if !ok {
		ex.abort("struct store of %T", v)
	}
	for i := range sv.F {
		ex.storeField(st, p, t, i, sv.F[i])
	}
}
func (ex *Exec) storeArr(st *State, l *Term, a *types.Array, v Val) {
	av := v.(*ArrV)
	et := a.Elem()
	if _, isS := et.Underlying().(*types.Struct); isS || isArray(et) {
		if av.Loc == Null {
			if _, ok := concRoot(l); ok {
				return // freshly allocated, still zero: approximated
			}
		}
		if a.Len() <= 16 {
			var xs []Val
			for i := int64(0); i < a.Len(); i++ {
				xs = append(xs, ex.arrElem(st, av, I(i)))
			}
			for i := range xs {
				ex.store(st, El(l, I(int64(i))), et, xs[i])
			}
			return
		}
		ex.abort("array of aggregates stored as a value")
	}
	for _, lf := range leaves(et) {
		n := "E:" + elemKey(et) + lf.suf
		m := ex.memOf(st, n, true, lf)
		src := av.Mem[n]
		if av.Loc == Null || src == nil {
			info := m.info
			src = newSym(info, n, 0)
			if av.Loc == Null {
				z := &Mem{kind: MSym, info: info, sym: n}
				zl := Obj(-1 << 40)
				st.mem[n] = m.copyRange(l, I(0), I(a.Len()), z, zl, I(0))
				continue
			}
		}
		st.mem[n] = m.copyRange(l, I(0), I(a.Len()), src, av.Loc, I(0))
	}
}
func isArray(t types.Type) bool { _, ok := t.Underlying().(*types.Array); return ok }

// fieldOf finds which struct field a syntactic emb location denotes.
// load reads a value of type t at address p.
func (ex *Exec) load(st *State, p *Term, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return ex.loadStruct(st, p, t)
	case *types.Array:
		return ex.arrVal(st, p, u)
	}
	if p.Op == OIte {
		// load through each alternative
		a := ex.load(st, p.Args[1], t)
		b := ex.load(st, p.Args[2], t)
		return iteVal(p.Args[0], a, b)
	}
	if p.Op == OEmb {
		if f, ok := ex.prog.embField(p, t); ok {
			return ex.loadField(st, p.Args[0], f.styp, f.idx)
		}
	}
	ls := leaves(t)
	xs := make([]*Term, len(ls))
	if p.Op == OEl {
		for k, l := range ls {
			xs[k] = ex.memOf(st, "E:"+elemKey(t)+l.suf, true, l).read(p.Args[0], p.Args[1])
		}
	} else {
		for k, l := range ls {
			xs[k] = ex.memOf(st, "C:"+typeKey(t)+l.suf, false, l).read(p, nil)
		}
	}
	v := fromLeaves(t, xs)
	ex.wfAssume(st, v)
	return v
}

func iteVal(c *Term, a, b Val) Val {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	switch x := a.(type) {
	case *StructV:
		y := b.(*StructV)
		r := &StructV{T: x.T}
		for i := range x.F {
			r.F = append(r.F, iteVal(c, x.F[i], y.F[i]))
		}
		return r
	case *TupleV:
		y := b.(*TupleV)
		r := &TupleV{}
		for i := range x.V {
			r.V = append(r.V, iteVal(c, x.V[i], y.V[i]))
		}
		return r
	case *SliceV:
		y := b.(*SliceV)
		return &SliceV{Ite(c, x.Arr, y.Arr), Ite(c, x.Off, y.Off), Ite(c, x.Len, y.Len), Ite(c, x.Cap, y.Cap)}
	case *StrV:
		y := b.(*StrV)
		return &StrV{Ite(c, x.Arr, y.Arr), Ite(c, x.Off, y.Off), Ite(c, x.Len, y.Len)}
	case *IfaceV:
		y := b.(*IfaceV)
		return &IfaceV{Ite(c, x.Typ, y.Typ), Ite(c, x.Data, y.Data)}
	case *Term:
		return Ite(c, x, b.(*Term))
	}
	panic(fmt.Sprintf("iteVal %T", a))
}

func (ex *Exec) store(st *State, p *Term, t types.Type, v Val) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		ex.storeStruct(st, p, t, v)
		return
	case *types.Array:
		ex.storeArr(st, p, u, v)
		return
	}
	for p.Op == OIte && st.holds(p.Args[0]) {
		p = p.Args[1]
	}
	for p.Op == OIte && st.holds(Not(p.Args[0])) {
		p = p.Args[2]
	}
	if p.Op == OIte {
		ex.abort("store through a conditional address")
	}
	if p.Op == OEmb {
		if f, ok := ex.prog.embField(p, t); ok {
			ex.storeField(st, p.Args[0], f.styp, f.idx, v)
			return
		}
	}
	ls := leaves(t)
	xs := toLeaves(v)
	if p.Op == OEl {
		for k, l := range ls {
			n := "E:" + elemKey(t) + l.suf
			st.mem[n] = ex.memOf(st, n, true, l).store(p.Args[0], p.Args[1], xs[k])
		}
		return
	}
	for k, l := range ls {
		n := "C:" + typeKey(t) + l.suf
		st.mem[n] = ex.memOf(st, n, false, l).store(p, nil, xs[k])
	}
}

// ---- fresh symbolic values ----
func (ex *Exec) fresh(st *State, name string, t types.Type, minRoot int) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			v.F = append(v.F, ex.fresh(st, name+"."+u.Field(i).Name(), u.Field(i).Type(), minRoot))
		}
		return v
	case *types.Array:
		l := FreshLoc(name, minRoot)
		return ex.arrVal(st, l, u)
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.V = append(tv.V, ex.fresh(st, fmt.Sprintf("%s.%d", name, i), u.At(i).Type(), minRoot))
		}
		return tv
	}
	ls := leaves(t)
	xs := make([]*Term, len(ls))
	for i, l := range ls {
		n := freshName(name + l.suf)
		if l.sort == SLoc {
			declare(n, nil, SLoc)
			xs[i] = hashcons(&Term{Op: OVar, Sort: SLoc, Name: n, hasMR: true, minRoot: minRoot})
		} else {
			xs[i] = Var(n, l.sort, l.lo, l.hi)
		}
	}
	v := fromLeaves(t, xs)
	ex.wfAssume(st, v)
	return v
}

// ---- arithmetic ----
func wrap(t *Term, w uint, signed bool) *Term {
	if signed {
		h := pow2(w - 1)
		if inRange(t, new(big.Int).Neg(h), h) {
			return t
		}
		return Sub(Mod(Add(t, Num(h)), pow2(w)), Num(h))
	}
	return Mod(t, pow2(w))
}

func (ex *Exec) binop(st *State, op token.Token, x, y Val, xt, yt, rt types.Type, pos token.Pos) Val {
	switch op {
	case token.EQL:
		return ex.eqVal(st, x, y, xt)
	case token.NEQ:
		return Not(ex.eqVal(st, x, y, xt))
	}
	if isString(xt) {
		a, b := x.(*StrV), y.(*StrV)
		switch op {
		case token.ADD:
			o := ex.newObj()
			r := &StrV{o, I(0), Add(a.Len, b.Len)}
			l := leaf{"", SInt, bZero, bi(255)}
			m := ex.memOf(st, "S:byte", true, l)
			m2 := m.copyRange(o, I(0), a.Len, m, a.Arr, a.Off)
			st.mem["S:byte"] = m2.copyRange(o, a.Len, Add(a.Len, b.Len), m, b.Arr, b.Off)
			return r
		}
		return FreshBool("strcmp")
	}
	a, aok := x.(*Term)
	b, bok := y.(*Term)
	if !aok || !bok {
		ex.abort("binop %s on %T", op, x)
	}
	if _, ok := isFloat(xt); ok {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return App("f"+op.String(), SBool, nil, nil, nil, a, b)
		}
		w, _ := isFloat(rt)
		return App(fmt.Sprintf("f%s%d", op, w), SInt, bZero, new(big.Int).Sub(pow2(w), bOne), nil, a, b)
	}
	if a.Sort == SBool {
		switch op {
		case token.AND, token.LAND:
			return And(a, b)
		case token.OR, token.LOR:
			return Or(a, b)
		}
		ex.abort("bool op %s", op)
	}
	_, _, w, signed, ok := intRange(rt)
	switch op {
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Gt(a, b)
	case token.GEQ:
		return Ge(a, b)
	}
	if !ok {
		ex.abort("binop %s on %s", op, rt)
	}
	u := func(t *Term) *Term { return Mod(t, pow2(w)) }
	switch op {
	case token.ADD:
		return wrap(Add(a, b), w, signed)
	case token.SUB:
		return wrap(Sub(a, b), w, signed)
	case token.MUL:
		return wrap(Mul(a, b), w, signed)
	case token.QUO, token.REM:
		ex.safety(st, "division by zero", pos, Ne(b, I(0)))
		nonneg := a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() >= 0
		if op == token.QUO {
			if nonneg {
				return DivT(a, b)
			}
			if b.isConst() && b.K.Sign() > 0 {
				return Ite(Ge(a, I(0)), Div(a, b.K), Neg(Div(Neg(a), b.K)))
			}
			q := App("tdiv", SInt, nil, nil, nil, a, b)
			st.assume(Implies(And(Ge(a, I(0)), Gt(b, I(0))), And(Ge(q, I(0)), Le(q, a))))
			return q
		}
		if nonneg {
			return ModT(a, b)
		}
		if b.isConst() && b.K.Sign() > 0 {
			return Ite(Ge(a, I(0)), Mod(a, b.K), Neg(Mod(Neg(a), b.K)))
		}
		return App("tmod", SInt, nil, nil, nil, a, b)
	case token.AND:
		return wrap(BitAnd(u(a), u(b)), w, signed)
	case token.OR:
		return wrap(BitOr(u(a), u(b)), w, signed)
	case token.XOR:
		return wrap(BitXor(u(a), u(b)), w, signed)
	case token.AND_NOT:
		return wrap(Sub(u(a), BitAnd(u(a), u(b))), w, signed)
	case token.SHL, token.SHR:
		if _, _, _, ysigned, _ := intRange(yt); ysigned {
			ex.safety(st, "negative shift", pos, Ge(b, I(0)))
		}
		if b.isConst() {
			n := uint(b.K.Uint64())
			if b.K.Cmp(bi(200)) > 0 {
				n = 200
			}
			if op == token.SHL {
				return wrap(MulC(a, pow2(n)), w, signed)
			}
			return Div(a, pow2(n))
		}
		lo, hi, _, _, _ := intRange(rt)
		return App("sh"+op.String()+fmt.Sprint(w, signed), SInt, lo, hi, nil, a, b)
	}
	ex.abort("binop %s", op)
	return nil
}

func (ex *Exec) eqVal(st *State, x, y Val, t types.Type) *Term {
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		if _, ok := isFloat(t); ok {
			return App("feq", SBool, nil, nil, nil, a, b)
		}
		return Eq(a, b)
	case *IfaceV:
		b := y.(*IfaceV)
		if b.Typ == I(0) {
			return Eq(a.Typ, I(0))
		}
		if a.Typ == I(0) {
			return Eq(b.Typ, I(0))
		}
		return And(Eq(a.Typ, b.Typ), Eq(a.Data, b.Data))
	case *SliceV: // only nil comparison is legal
		b := y.(*SliceV)
		if b.Arr == Null {
			return Eq(a.Arr, Null)
		}
		return Eq(b.Arr, Null)
	case *StrV:
		b := y.(*StrV)
		if a.Arr == b.Arr && a.Off == b.Off && a.Len == b.Len {
			return True
		}
		if b.Len.isConst() && b.Len.K.Sign() == 0 || a.Len.isConst() && a.Len.K.Sign() == 0 {
			return Eq(a.Len, b.Len)
		}
		return And(Eq(a.Len, b.Len), FreshBool("streq"))
	case *StructV:
		b := y.(*StructV)
		c := True
		s := a.T.Underlying().(*types.Struct)
		for i := range a.F {
			c = And(c, ex.eqVal(st, a.F[i], b.F[i], s.Field(i).Type()))
		}
		return c
	}
	ex.abort("comparison of %T", x)
	return nil
}

func (ex *Exec) convert(st *State, v Val, from, to types.Type, pos token.Pos) Val {
	fu, tu := from.Underlying(), to.Underlying()
	if types.Identical(fu, tu) {
		if s, ok := v.(*StructV); ok {
			return &StructV{T: to, F: s.F}
		}
		return v
	}
	if _, _, w, s, ok := intRange(to); ok {
		if _, _, _, _, ok2 := intRange(from); ok2 {
			return wrap(v.(*Term), w, s)
		}
		if fw, ok := isFloat(from); ok {
			lo, hi, _, _, _ := intRange(to)
			return App(fmt.Sprintf("f2i%d_%d%v", fw, w, s), SInt, lo, hi, nil, v.(*Term))
		}
		if t, ok := v.(*Term); ok && t.Sort == SLoc { // unsafe.Pointer -> uintptr
			return App("addr", SInt, bZero, bMax64, nil, t)
		}
	}
	if tw, ok := isFloat(to); ok {
		hi := new(big.Int).Sub(pow2(tw), bOne)
		if fw, ok := isFloat(from); ok {
			if fw == tw {
				return v
			}
			return App(fmt.Sprintf("f2f%d_%d", fw, tw), SInt, bZero, hi, nil, v.(*Term))
		}
		if _, _, w, s, ok := intRange(from); ok {
			return App(fmt.Sprintf("i2f%d%v_%d", w, s, tw), SInt, bZero, hi, nil, v.(*Term))
		}
	}
	if isString(to) {
		if sl, ok := v.(*SliceV); ok {
			o := ex.newObj()
			l := leaf{"", SInt, bZero, bi(255)}
			m := ex.memOf(st, "S:byte", true, l)
			e := ex.memOf(st, "E:uint8", true, l)
			st.mem["S:byte"] = m.copyRange(o, I(0), sl.Len, e, sl.Arr, sl.Off)
			return &StrV{o, I(0), sl.Len}
		}
		if isString(from) {
			return v
		}
		r := ex.fresh(st, "str", to, ex.minRoot())
		return r
	}
	if sv, ok := v.(*StrV); ok {
		if _, ok := tu.(*types.Slice); ok {
			o := ex.newObj()
			l := leaf{"", SInt, bZero, bi(255)}
			m := ex.memOf(st, "E:uint8", true, l)
			s := ex.memOf(st, "S:byte", true, l)
			st.mem["E:uint8"] = m.copyRange(o, I(0), sv.Len, s, sv.Arr, sv.Off)
			c := FreshInt("cap", bZero, maxLen)
			st.assume(Le(sv.Len, c))
			return &SliceV{o, I(0), sv.Len, c}
		}
	}
	if t, ok := v.(*Term); ok && t.Sort == SLoc {
		return v // pointer reinterpretations keep the location
	}
	ex.abort("conversion %s -> %s", from, to)
	return nil
}

// ---- constants and operands ----
func (ex *Exec) constVal(st *State, c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	if w, ok := isFloat(t); ok {
		return floatBits(c.Value, w)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return B(constant.BoolVal(c.Value))
	case constant.Int:
		if i, ok := constant.Val(constant.ToInt(c.Value)).(*big.Int); ok {
			return Num(i)
		}
		i, _ := constant.Int64Val(c.Value)
		return I(i)
	case constant.String:
		return ex.strLit(st, constant.StringVal(c.Value))
	case constant.Float:
		iv := constant.ToInt(c.Value)
		if iv.Kind() == constant.Int {
			if i, ok := constant.Val(iv).(*big.Int); ok {
				return Num(i)
			}
			i, _ := constant.Int64Val(iv)
			return I(i)
		}
	}
	ex.abort("constant %s", c)
	return nil
}

func (ex *Exec) strLit(st *State, s string) Val {
	if s == "" {
		return &StrV{Null, I(0), I(0)}
	}
	id := ex.prog.strID(s)
	return &StrV{Obj(int64(5000000 + id)), I(0), I(int64(len(s)))}
}

func (ex *Exec) val(st *State, fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(st, x)
	case *ssa.Global:
		return ex.prog.globalLoc(x)
	case *ssa.Function:
		return ex.fnLoc(x)
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.bind[i]
			}
		}
	}
	r, ok := st.env[envKey{fr.id, v}]
	if !ok {
		ex.abort("no value for %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (ex *Exec) fnLoc(f *ssa.Function) *Term {
	l := ex.prog.fnLoc(f)
	if ex.fnInfo[l] == nil {
		ex.fnInfo[l] = &FnInfo{loc: l, fn: f}
	}
	return l
}

// ---- running ----
func (ex *Exec) newFrame(fn *ssa.Function, parent *Frame, cont func(*State, []Val)) *Frame {
	ex.nframe++
	f := &Frame{id: ex.nframe, fn: fn, parent: parent, cont: cont, loops: ex.prog.loopsOf(fn)}
	if parent != nil {
		f.depth = parent.depth + 1
	}
	return f
}

func (ex *Exec) callBody(fn *ssa.Function, args []Val, bind []Val, parent *Frame, st *State, cont func(*State, []Val)) {
	if fn.Blocks == nil {
		ex.abort("no body for %s", fn)
	}
	fr := ex.newFrame(fn, parent, cont)
	fr.dfr, st.dfrCall = st.dfrCall, false
	if fr.depth > 24 {
		ex.abort("call depth exceeded at %s (recursive function without contract)", fn)
	}
	fr.bind = bind
	for i, p := range fn.Params {
		if i < len(args) {
			st.env[envKey{fr.id, p}] = args[i]
		}
	}
	ex.jump(fr, nil, fn.Blocks[0], st)
}

func (ex *Exec) jump(fr *Frame, from, to *ssa.BasicBlock, st *State) {
	if ex.stop {
		return
	}
	// leaving cut loops
	for k, c := range st.cuts {
		if k.f == fr.id && !c.loop.blocks[to] {
			if c.infer {
				return
			}
			delete(st.cuts, k)
		}
	}
	if lp := fr.loops.byHeader[to]; lp != nil {
		back := from != nil && lp.blocks[from]
		k := blkKey{fr.id, to}
		if c := st.cuts[k]; c != nil && back {
			if !sameHeld(st.held, ex.loopHeld[k]) && !c.infer {
				ex.oblige(st, "lock", "the locks held are the same at every iteration", to.Instrs[0].Pos(), nil, False)
			}
			c.onBack(from, st)
			return
		}
		if !back {
			st.visits[k] = 0
			if ex.shouldCut(fr, from, to, lp, st) {
				if ex.loopHeld == nil {
					ex.loopHeld = map[blkKey][]heldLock{}
				}
				ex.loopHeld[k] = st.held
				ex.cutLoop(fr, from, to, lp, st)
				return
			}
		} else {
			st.visits[k]++
			lim := ex.unrollLimit()
			if st.visits[k] > lim {
				ex.oblige(st, "unwind", fmt.Sprintf("loop unwinding beyond %d", lim), to.Instrs[0].Pos(), nil, False)
				return
			}
			if st.visits[k] > 1 && !ex.feasible(st) {
				return
			}
		}
	}
	ex.phis(fr, from, to, st)
	ex.run(fr, to, numPhis(to), st)
}

func numPhis(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func (ex *Exec) phis(fr *Frame, from, to *ssa.BasicBlock, st *State) {
	if from == nil {
		return
	}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	type asg struct {
		p *ssa.Phi
		v Val
	}
	var as []asg
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		as = append(as, asg{p, ex.val(st, fr, p.Edges[pi])})
	}
	for _, a := range as {
		st.env[envKey{fr.id, a.p}] = a.v
	}
}

func (ex *Exec) feasible(st *State) bool {
	if st.dead() {
		return false
	}
	ex.forks++
	return feasibleQuick(st.pc, 200)
}

func (ex *Exec) run(fr *Frame, b *ssa.BasicBlock, i int, st *State) {
	for ; i < len(b.Instrs); i++ {
		if ex.stop {
			return
		}
		ex.steps++
		if ex.steps > 4000000 {
			ex.abort("too many steps")
		}
		in := b.Instrs[i]
		set := func(v ssa.Value, x Val) { st.env[envKey{fr.id, v}] = x }
		switch x := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Alloc:
			o := ex.newObj()
			set(x, o)
			ex.prog.noteAlloc(o, x.Type().Underlying().(*types.Pointer).Elem())
			et := x.Type().Underlying().(*types.Pointer).Elem()
			if x.Heap && fr.parent == nil {
				st.ghost["made:"+et.String()] = o
			}
			if x.Block().Index == 0 {
				if ex.locals == nil {
					ex.locals = map[string]*Term{}
				}
				ex.locals[et.String()] = o
			}
		case *ssa.BinOp:
			set(x, ex.binop(st, x.Op, ex.val(st, fr, x.X), ex.val(st, fr, x.Y), x.X.Type(), x.Y.Type(), x.Type(), x.Pos()))
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				ii := i
				ex.chanRecv(fr, x, st, func(st2 *State, v Val) {
					st2.env[envKey{fr.id, x}] = v
					ex.run(fr, b, ii+1, st2)
				})
				return
			}
			set(x, ex.unop(st, fr, x))
		case *ssa.ChangeType:
			v := ex.val(st, fr, x.X)
			if s, ok := v.(*StructV); ok {
				v = &StructV{T: x.Type(), F: s.F}
			}
			set(x, v)
		case *ssa.ChangeInterface:
			set(x, ex.val(st, fr, x.X))
		case *ssa.Convert:
			set(x, ex.convert(st, ex.val(st, fr, x.X), x.X.Type(), x.Type(), x.Pos()))
		case *ssa.MultiConvert:
			set(x, ex.convert(st, ex.val(st, fr, x.X), x.X.Type(), x.Type(), x.Pos()))
		case *ssa.MakeInterface:
			set(x, ex.makeIface(st, ex.val(st, fr, x.X), x.X.Type()))
		case *ssa.Extract:
			t := ex.val(st, fr, x.Tuple).(*TupleV)
			set(x, t.V[x.Index])
		case *ssa.Field:
			set(x, ex.val(st, fr, x.X).(*StructV).F[x.Field])
		case *ssa.FieldAddr:
			p := ex.val(st, fr, x.X).(*Term)
			ex.nilCheck(st, p, x.Pos())
			sty := x.X.Type().Underlying().(*types.Pointer).Elem()
			set(x, ex.prog.emb(p, sty, x.Field))
		case *ssa.IndexAddr:
			set(x, ex.indexAddr(st, fr, x))
		case *ssa.Index:
			set(x, ex.index(st, fr, x))
		case *ssa.Slice:
			set(x, ex.sliceOp(st, fr, x))
		case *ssa.SliceToArrayPointer:
			s := ex.val(st, fr, x.X).(*SliceV)
			ex.abort("slice to array pointer %v", s)
		case *ssa.Lookup:
			set(x, ex.lookup(st, fr, x))
		case *ssa.MakeSlice:
			n := ex.val(st, fr, x.Len).(*Term)
			c := ex.val(st, fr, x.Cap).(*Term)
			es := ex.prog.elemSize(x.Type().Underlying().(*types.Slice).Elem())
			ex.safety(st, "make: length out of range", x.Pos(), And(Le(I(0), n), Le(n, c), Le(c, Num(floorDiv(maxLen, bi(es))))))
			o := ex.newObj()
			ex.prog.noteAlloc(o, x.Type())
			set(x, &SliceV{o, I(0), clampLen(n), clampLen(c)})
		case *ssa.MakeMap:
			set(x, ex.makeMap(st, x.Type()))
		case *ssa.MakeChan:
			set(x, ex.makeChan(st, fr, x))
		case *ssa.MakeClosure:
			o := ex.newObj()
			fi := &FnInfo{loc: o, fn: x.Fn.(*ssa.Function)}
			for _, bnd := range x.Bindings {
				fi.bind = append(fi.bind, ex.val(st, fr, bnd))
			}
			ex.fnInfo[o] = fi
			set(x, o)
		case *ssa.MapUpdate:
			ex.mapUpdate(st, fr, x)
		case *ssa.Range:
			iv := &IterV{x: ex.val(st, fr, x.X), t: x.X.Type(), index: I(0)}
			if mt, isM := iv.t.Underlying().(*types.Map); isM {
				ex.mapAccess(st, fr, x.X, iv.x.(*Term), false, x.Pos())
				iv.vis = ex.newObj()
				iv.dom, _ = ex.mapDom(st, mt)
			}
			set(x, iv)
		case *ssa.Next:
			set(x, ex.next(st, fr, x))
		case *ssa.TypeAssert:
			set(x, ex.typeAssert(st, ex.val(st, fr, x.X).(*IfaceV), x.AssertedType, x.CommaOk, x.Pos()))
		case *ssa.Store:
			p := ex.val(st, fr, x.Addr).(*Term)
			ex.nilCheck(st, p, x.Pos())
			t := x.Addr.Type().Underlying().(*types.Pointer).Elem()
			ex.accessCheck(st, p, t, true, x.Pos())
			v := ex.val(st, fr, x.Val)
			ex.beforeStore(st, fr, p, t, v, x.Pos())
			ex.store(st, p, t, v)
		case *ssa.Send:
			ii := i
			ex.chanSend(st, fr, x, func(st2 *State) { ex.run(fr, b, ii+1, st2) })
			return
		case *ssa.Select:
			ii := i
			ex.selectOp(fr, x, st, func(st2 *State, v Val) {
				st2.env[envKey{fr.id, x}] = v
				ex.run(fr, b, ii+1, st2)
			})
			return
		case *ssa.Go:
			ex.goStmt(st, fr, x)
		case *ssa.Defer:
			d := deferred{call: &x.Call, pos: x.Pos()}
			for _, a := range x.Call.Args {
				d.args = append(d.args, ex.val(st, fr, a))
			}
			if _, isB := x.Call.Value.(*ssa.Builtin); !isB {
				d.fnv = ex.val(st, fr, x.Call.Value)
			}
			st.defers[fr.id] = append(st.defers[fr.id], d)
		case *ssa.RunDefers:
			ii := i
			ex.runDefers(fr, st, func(st2 *State) { ex.run(fr, b, ii+1, st2) })
			return
		case *ssa.Call:
			ii := i
			xx := x
			ex.call(fr, &x.Call, x, st, func(st2 *State, res []Val) {
				var v Val
				switch xx.Call.Signature().Results().Len() {
				case 0:
				case 1:
					v = res[0]
				default:
					v = &TupleV{res}
				}
				if _, isB := xx.Call.Value.(*ssa.Builtin); isB && len(res) == 1 {
					v = res[0]
				}
				if v != nil {
					st2.env[envKey{fr.id, xx}] = v
				}
				ex.run(fr, b, ii+1, st2)
			})
			return
		case *ssa.Panic:
			ex.doPanic(fr, st, ex.val(st, fr, x.X), x.Pos())
			return
		case *ssa.Return:
			var res []Val
			for _, r := range x.Results {
				res = append(res, ex.val(st, fr, r))
			}
			fr.cont(st, res)
			return
		case *ssa.Jump:
			ex.jump(fr, b, b.Succs[0], st)
			return
		case *ssa.If:
			c := ex.val(st, fr, x.Cond).(*Term)
			ex.branch(st, c, x.Pos(), func(s *State) { ex.jump(fr, b, b.Succs[0], s) }, func(s *State) { ex.jump(fr, b, b.Succs[1], s) })
			return
		default:
			ex.abort("instruction %T", in)
		}
	}
}

// clampLen gives a length term the interval of a length (it has just been checked).
func clampLen(n *Term) *Term { return n }

func (ex *Exec) branch(st *State, c *Term, pos token.Pos, a, b func(*State)) {
	if c == True || st.holds(c) {
		a(st)
		return
	}
	if c == False || st.holds(Not(c)) {
		b(st)
		return
	}
	ex.paths++
	if ex.paths > 30000 {
		ex.abort("too many paths")
	}
	s2 := st.clone()
	st.assume(c)
	p := ex.pos(pos)
	st.trace = append(st.trace, p+" true")
	s2.assume(Not(c))
	s2.trace = append(s2.trace, p+" false")
	prune := ex.paths%1 == 0
	if !prune || ex.feasible(st) {
		a(st)
	}
	if !prune || ex.feasible(s2) {
		b(s2)
	}
}

func (ex *Exec) nilCheck(st *State, p *Term, pos token.Pos) {
	ex.safety(st, "nil dereference", pos, Ne(p, Null))
}

func (ex *Exec) unop(st *State, fr *Frame, x *ssa.UnOp) Val {
	v := ex.val(st, fr, x.X)
	switch x.Op {
	case token.MUL:
		p := v.(*Term)
		if g, ok := x.X.(*ssa.Global); ok {
			if cv := ex.constGlobal(st, g); cv != nil {
				return cv
			}
		} else if ia, ok := x.X.(*ssa.IndexAddr); ok && ex.isTable(ia.X) {
			return ex.tableLoad(x, ex.val(st, fr, ia.Index).(*Term))
		} else {
			ex.nilCheck(st, p, x.Pos())
		}
		ex.accessCheck(st, p, x.Type(), false, x.Pos())
		return ex.load(st, p, x.Type())
	case token.NOT:
		return Not(v.(*Term))
	case token.SUB:
		if w, ok := isFloat(x.Type()); ok {
			return App(fmt.Sprintf("fneg%d", w), SInt, bZero, new(big.Int).Sub(pow2(w), bOne), nil, v.(*Term))
		}
		_, _, w, s, _ := intRange(x.Type())
		return wrap(Neg(v.(*Term)), w, s)
	case token.XOR:
		_, _, w, s, _ := intRange(x.Type())
		if s {
			return Sub(I(-1), v.(*Term))
		}
		return Sub(Num(new(big.Int).Sub(pow2(w), bOne)), v.(*Term))
	}
	ex.abort("unop %s", x.Op)
	return nil
}

func (ex *Exec) indexAddr(st *State, fr *Frame, x *ssa.IndexAddr) Val {
	i := ex.val(st, fr, x.Index).(*Term)
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := ex.val(st, fr, x.X).(*SliceV)
		ex.safety(st, "index out of range", x.Pos(), And(Le(I(0), i), Lt(i, s.Len)))
		return El(s.Arr, Add(s.Off, i))
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		p := ex.val(st, fr, x.X).(*Term)
		ex.nilCheck(st, p, x.Pos())
		ex.safety(st, "index out of range", x.Pos(), And(Le(I(0), i), Lt(i, I(a.Len()))))
		return El(p, i)
	}
	ex.abort("indexaddr %s", x.X.Type())
	return nil
}

func (ex *Exec) index(st *State, fr *Frame, x *ssa.Index) Val {
	i := ex.val(st, fr, x.Index).(*Term)
	switch v := ex.val(st, fr, x.X).(type) {
	case *StrV:
		ex.safety(st, "index out of range", x.Pos(), And(Le(I(0), i), Lt(i, v.Len)))
		return ex.strByte(st, v, i)
	case *ArrV:
		ex.safety(st, "index out of range", x.Pos(), And(Le(I(0), i), Lt(i, I(v.T.Len()))))
		return ex.arrElem(st, v, i)
	}
	ex.abort("index")
	return nil
}
func (ex *Exec) arrElem(st *State, v *ArrV, i *Term) Val {
	if v.Loc == Null {
		return zeroVal(v.T.Elem())
	}
	tmp := st.clone()
	tmp.mem = v.Mem
	return ex.load(tmp, El(v.Loc, i), v.T.Elem())
}
func (ex *Exec) strByte(st *State, s *StrV, i *Term) *Term {
	l := leaf{"", SInt, bZero, bi(255)}
	if s.Arr.Op == OObj && s.Arr.Args[0].isConst() && i.isConst() && s.Off.isConst() {
		if lit, ok := ex.prog.strByID(int(s.Arr.Args[0].K.Int64()) - 5000000); ok {
			k := int(i.K.Int64() + s.Off.K.Int64())
			if k >= 0 && k < len(lit) {
				return I(int64(lit[k]))
			}
		}
	}
	return ex.memOf(st, "S:byte", true, l).read(s.Arr, Add(s.Off, i))
}

func (ex *Exec) sliceOp(st *State, fr *Frame, x *ssa.Slice) Val {
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return ex.val(st, fr, v).(*Term)
	}
	lo, hi, max := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = I(0)
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := ex.val(st, fr, x.X).(*SliceV)
		if hi == nil {
			hi = s.Len
		}
		m := s.Cap
		if max != nil {
			m = max
			ex.safety(st, "slice bounds out of range", x.Pos(), And(Le(I(0), lo), Le(lo, hi), Le(hi, m), Le(m, s.Cap)))
		} else {
			ex.safety(st, "slice bounds out of range", x.Pos(), And(Le(I(0), lo), Le(lo, hi), Le(hi, m)))
		}
		return ex.bounded(st, &SliceV{s.Arr, Add(s.Off, lo), Sub(hi, lo), Sub(m, lo)})
	case *types.Basic:
		s := ex.val(st, fr, x.X).(*StrV)
		if hi == nil {
			hi = s.Len
		}
		ex.safety(st, "slice bounds out of range", x.Pos(), And(Le(I(0), lo), Le(lo, hi), Le(hi, s.Len)))
		return &StrV{s.Arr, Add(s.Off, lo), Sub(hi, lo)}
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		p := ex.val(st, fr, x.X).(*Term)
		ex.nilCheck(st, p, x.Pos())
		if hi == nil {
			hi = I(a.Len())
		}
		m := I(a.Len())
		if max != nil {
			m = max
		}
		ex.safety(st, "slice bounds out of range", x.Pos(), And(Le(I(0), lo), Le(lo, hi), Le(hi, m), Le(m, I(a.Len()))))
		return ex.bounded(st, &SliceV{p, lo, Sub(hi, lo), Sub(m, lo)})
	}
	ex.abort("slice of %s", x.X.Type())
	return nil
}

// bounded gives the components of a new slice value length intervals, introducing
// named variables when the interval of the expression is not known to be a length.
func (ex *Exec) bounded(st *State, s *SliceV) *SliceV {
	nm := func(t *Term, n string) *Term {
		if t.lo != nil && t.lo.Sign() >= 0 && t.hi != nil && t.hi.Cmp(maxLen) <= 0 {
			return t
		}
		v := FreshInt(n, bZero, maxLen)
		st.assume(hashcons(&Term{Op: OEq, Sort: SBool, Args: []*Term{Sub(v, t), I(0)}}))
		return v
	}
	return &SliceV{s.Arr, nm(s.Off, "off"), nm(s.Len, "len"), nm(s.Cap, "cap")}
}

func (ex *Exec) makeIface(st *State, v Val, t types.Type) Val {
	if iv, ok := v.(*IfaceV); ok {
		return iv
	}
	id := I(int64(ex.prog.typeID(t)))
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return &IfaceV{id, v.(*Term)}
	}
	o := ex.newObj()
	ex.store(st, o, t, v)
	return &IfaceV{id, o}
}

func (ex *Exec) unbox(st *State, iv *IfaceV, t types.Type) Val {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return iv.Data
	}
	return ex.load(st, iv.Data, t)
}

func (ex *Exec) typeAssert(st *State, iv *IfaceV, t types.Type, commaOk bool, pos token.Pos) Val {
	if _, isI := t.Underlying().(*types.Interface); isI {
		ok := ex.prog.implements(iv.Typ, t)
		ok = And(Ne(iv.Typ, I(0)), ok)
		if !commaOk {
			ex.safety(st, "type assertion", pos, ok)
			return iv
		}
		return &TupleV{[]Val{&IfaceV{Ite(ok, iv.Typ, I(0)), Ite(ok, iv.Data, Null)}, ok}}
	}
	ok := Eq(iv.Typ, I(int64(ex.prog.typeID(t))))
	if !commaOk {
		ex.safety(st, "type assertion", pos, ok)
		return ex.unbox(st, iv, t)
	}
	if ok == False {
		return &TupleV{[]Val{zeroVal(t), False}}
	}
	v := ex.unbox(st, iv, t)
	if ok != True {
		if _, isArr := v.(*ArrV); !isArr {
			v = iteVal(ok, v, zeroVal(t))
		}
	}
	return &TupleV{[]Val{v, ok}}
}

// ---- maps: keys are compared by their leaves ----
func mapNames(t *types.Map) string { return typeKey(t.Key()) + "=>" + typeKey(t.Elem()) }

func (ex *Exec) mapKey(st *State, k Val) *Term {
	switch x := k.(type) {
	case *Term:
		if x.Sort == SInt {
			return x
		}
		if x.Sort == SBool {
			return Ite(x, I(1), I(0))
		}
		return App("locKey", SInt, nil, nil, nil, x)
	case *IfaceV:
		return App("ifaceKey", SInt, nil, nil, nil, x.Typ, x.Data)
	case *StrV:
		return App("strKey", SInt, nil, nil, nil, x.Arr, x.Off, x.Len)
	}
	return FreshInt("mapkey", nil, nil)
}
func (ex *Exec) mapDom(st *State, t *types.Map) (*Mem, string) {
	n := "M:" + mapNames(t) + ":dom"
	return ex.memOf(st, n, true, leaf{"", SBool, nil, nil}), n
}
func (ex *Exec) makeMap(st *State, t types.Type) Val { return ex.newObj() }
func (ex *Exec) mapValLeaves(t types.Type) []leaf {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var ls []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range ex.mapValLeaves(u.Field(i).Type()) {
				l.suf = "." + u.Field(i).Name() + l.suf
				ls = append(ls, l)
			}
		}
		return ls
	case *types.Array:
		return nil
	}
	return leaves(t)
}
func (ex *Exec) rebuildVal(t types.Type, xs *[]*Term) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, ex.rebuildVal(u.Field(i).Type(), xs))
		}
		return s
	}
	n := len(leaves(t))
	v := fromLeaves(t, (*xs)[:n])
	*xs = (*xs)[n:]
	return v
}
func flatVal(v Val) []*Term {
	if s, ok := v.(*StructV); ok {
		var r []*Term
		for _, f := range s.F {
			r = append(r, flatVal(f)...)
		}
		return r
	}
	return toLeaves(v)
}
func (ex *Exec) mapGet(st *State, m *Term, t *types.Map, k *Term) (Val, *Term) {
	d, _ := ex.mapDom(st, t)
	in := And(Ne(m, Null), d.read(m, k))
	var xs []*Term
	for _, l := range ex.mapValLeaves(t.Elem()) {
		mm := ex.memOf(st, "M:"+mapNames(t)+":val"+l.suf, true, l)
		xs = append(xs, Ite(in, mm.read(m, k), zeroTerm(l.sort)))
	}
	v := ex.rebuildVal(t.Elem(), &xs)
	ex.wfAssume(st, v)
	return v, in
}
func (ex *Exec) mapSet(st *State, m *Term, t *types.Map, k *Term, v Val) {
	d, n := ex.mapDom(st, t)
	st.mem[n] = d.store(m, k, True)
	xs := flatVal(v)
	for i, l := range ex.mapValLeaves(t.Elem()) {
		nn := "M:" + mapNames(t) + ":val" + l.suf
		st.mem[nn] = ex.memOf(st, nn, true, l).store(m, k, xs[i])
	}
}
func (ex *Exec) lookup(st *State, fr *Frame, x *ssa.Lookup) Val {
	if s, ok := ex.val(st, fr, x.X).(*StrV); ok {
		i := ex.val(st, fr, x.Index).(*Term)
		ex.safety(st, "index out of range", x.Pos(), And(Le(I(0), i), Lt(i, s.Len)))
		return ex.strByte(st, s, i)
	}
	t := x.X.Type().Underlying().(*types.Map)
	m := ex.val(st, fr, x.X).(*Term)
	ex.mapAccess(st, fr, x.X, m, false, x.Pos())
	v, in := ex.mapGet(st, m, t, ex.mapKey(st, ex.val(st, fr, x.Index)))
	if x.CommaOk {
		return &TupleV{[]Val{v, in}}
	}
	return v
}
func (ex *Exec) mapUpdate(st *State, fr *Frame, x *ssa.MapUpdate) {
	t := x.Map.Type().Underlying().(*types.Map)
	m := ex.val(st, fr, x.Map).(*Term)
	ex.safety(st, "assignment to nil map", x.Pos(), Ne(m, Null))
	ex.mapAccess(st, fr, x.Map, m, true, x.Pos())
	kv, vv := ex.val(st, fr, x.Key), ex.val(st, fr, x.Value)
	ex.stored(st, m, kv)
	ex.stored(st, m, vv)
	ex.mapSet(st, m, t, ex.mapKey(st, kv), vv)
}
func (ex *Exec) mapDelete(st *State, m *Term, t *types.Map, k *Term) {
	d, n := ex.mapDom(st, t)
	st.mem[n] = d.store(m, k, False)
}

// next: the iteration order and the keys visited are arbitrary members of the map.
func (ex *Exec) next(st *State, fr *Frame, x *ssa.Next) Val {
	it := ex.val(st, fr, x.Iter).(*IterV)
	ok := FreshBool("more")
	if mt, isM := it.t.Underlying().(*types.Map); isM {
		k := ex.fresh(st, "key", mt.Key(), ex.minRoot())
		v, in := ex.mapGet(st, it.x.(*Term), mt, ex.mapKey(st, k))
		ok = And(ok, Ne(it.x.(*Term), Null))
		st.assume(Implies(ok, in))
		kt := ex.mapKey(st, k)
		d, _ := ex.mapDom(st, mt)
		vm := ex.memOf(st, "V:visited", true, leaf{"", SBool, nil, nil})
		st.assume(Implies(ok, Not(vm.read(it.vis, kt))))
		// as long as the map has the keys it began with, there is one key per round
		if c := st.cuts[blkKey{fr.id, x.Block()}]; c != nil && c.n != nil && d == it.dom {
			if rg, isR := x.Iter.(*ssa.Range); isR && !c.loop.blocks[rg.Block()] {
				l := ex.lenOfDom(st, d, it.x.(*Term))
				st.assume(Or(Eq(it.x.(*Term), Null), Ite(ok, Lt(c.n, l), Eq(c.n, l))))
			}
		}
		// at the end every key there from the beginning was visited
		bv := BoundVar(freshName("vk"), SInt)
		st.assume(Or(ok, Eq(it.x.(*Term), Null), Forall([]*Term{bv}, Or(Not(d.read(it.x.(*Term), bv)), Not(it.dom.read(it.x.(*Term), bv)), vm.read(it.vis, bv)))))
		st.mem["V:visited"] = vm.store(it.vis, kt, Or(ok, vm.read(it.vis, kt)))
		return &TupleV{[]Val{ok, k, v}}
	}
	tt := x.Type().(*types.Tuple)
	tv := &TupleV{[]Val{ok}}
	for i := 1; i < tt.Len(); i++ {
		tv.V = append(tv.V, ex.fresh(st, "rng", tt.At(i).Type(), ex.minRoot()))
	}
	return tv
}

// ---- panics and defers ----
func (ex *Exec) doPanic(fr *Frame, st *State, v Val, pos token.Pos) {
	if ex.panicking(fr, st, v, pos) {
		return
	}
	if ex.spec != nil && ex.spec.mayPanic {
		ex.panicExit(st, pos)
		return
	}
	ex.oblige(st, "safety", "explicit panic reachable", pos, nil, False)
}

// panicking unwinds to the nearest frame with pending deferred calls; it reports
// whether some deferred function may recover (then the paths have been explored).
func (ex *Exec) panicking(fr *Frame, st *State, v Val, pos token.Pos) bool {
	for f := fr; f != nil; f = f.parent {
		if len(st.defers[f.id]) == 0 {
			continue
		}
		if f.fn.Recover == nil && !hasRecover(f.fn) {
			continue
		}
		st.panicV = v
		if st.panicV == nil {
			st.panicV = True
		}
		ff := f
		ex.runDefers(ff, st, func(s *State) {
			if s.panicV != nil {
				// still panicking: continue to the callers
				if ff.parent == nil {
					ex.panicExit(s, pos)
					return
				}
				if !ex.panicking(ff.parent, s, v, pos) {
					ex.panicExit(s, pos)
				}
				return
			}
			// recovered: return through the recover block
			if ff.fn.Recover != nil {
				ex.jump(ff, nil, ff.fn.Recover, s)
				return
			}
			var res []Val
			rt := ff.fn.Signature.Results()
			for i := 0; i < rt.Len(); i++ {
				res = append(res, zeroVal(rt.At(i).Type()))
			}
			ff.cont(s, res)
		})
		return true
	}
	return false
}
func (ex *Exec) panicExit(st *State, pos token.Pos) {
	if ex.spec != nil && ex.spec.mayPanic {
		s := ex.spec
		guardEval(ex, s.key, func() {
			c := &Ctx{ex: ex, st: st, old: ex.entry, env: ex.rootEnv(), pkg: s.pkg, ceil: 0}
			for _, cl := range s.panics {
				ex.oblige(st, "panic", "panics only when: "+cl.label, pos, cl.tags, c.boolean(cl.e))
			}
		})
		return
	}
	ex.oblige(st, "safety", "panic escapes", pos, nil, False)
}

func hasRecover(fn *ssa.Function) bool { return fn.Recover != nil }

func (ex *Exec) runDefers(fr *Frame, st *State, k func(*State)) {
	ds := st.defers[fr.id]
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	st.defers[fr.id] = ds[: len(ds)-1 : len(ds)-1]
	st.dfrCall = true
	ex.callWith(fr, d.call, d.fnv, d.args, d.pos, st, func(s *State, _ []Val) {
		s.dfrCall = false
		ex.runDefers(fr, s, k)
	})
}

func sortedKeys(m map[string]*Mem) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

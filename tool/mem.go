package main

// Values and memory.  Memory is split by struct field and by element type; a memory is
// a stack of layers (stores, copies, havocs) over a base symbol, and reading it
// produces an if-then-else term, so solvers never see arrays.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

type Val interface{}

type StructV struct {
	T types.Type
	F []Val
}
type SliceV struct{ Arr, Off, Len, Cap *Term }
type StrV struct{ Arr, Off, Len *Term }
type IfaceV struct{ Typ, Data *Term }
type TupleV struct{ V []Val }

// ArrV is a whole array value: its elements are those found at Loc in the given memories.
type ArrV struct {
	T   *types.Array
	Loc *Term
	Mem map[string]*Mem
}

// FnV is a function value known at verification time (kept next to its Loc).
type FnInfo struct {
	loc  *Term
	fn   interface{} // *ssa.Function or *ssa.Builtin
	bind []Val
}

// IterV is a map/string range iterator.
type IterV struct {
	vis   *Term // ghost object: the keys visited
	dom   *Mem  // the keys when the iteration began
	x     Val
	t     types.Type
	index *Term
}

type leaf struct {
	suf    string
	sort   Sort
	lo, hi *big.Int
}

var (
	maxLen = pow2(47)
	bMax64 = new(big.Int).Sub(pow2(64), bOne)
)

func intRange(t types.Type) (lo, hi *big.Int, w uint, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return
	}
	s := func(w uint) (*big.Int, *big.Int, uint, bool, bool) {
		return new(big.Int).Neg(pow2(w - 1)), new(big.Int).Sub(pow2(w-1), bOne), w, true, true
	}
	u := func(w uint) (*big.Int, *big.Int, uint, bool, bool) {
		return bZero, new(big.Int).Sub(pow2(w), bOne), w, false, true
	}
	switch b.Kind() {
	case types.Int8:
		return s(8)
	case types.Int16:
		return s(16)
	case types.Int32:
		return s(32)
	case types.Int64, types.Int, types.UntypedInt, types.UntypedRune:
		return s(64)
	case types.Uint8:
		return u(8)
	case types.Uint16:
		return u(16)
	case types.Uint32:
		return u(32)
	case types.Uint64, types.Uint, types.Uintptr:
		return u(64)
	}
	return
}

func isFloat(t types.Type) (uint, bool) {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Float32:
			return 32, true
		case types.Float64, types.UntypedFloat:
			return 64, true
		}
	}
	return 0, false
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// leaves lists the scalar components of a non-struct, non-array type.
func leaves(t types.Type) []leaf {
	if lo, hi, _, _, ok := intRange(t); ok {
		return []leaf{{"", SInt, lo, hi}}
	}
	if w, ok := isFloat(t); ok {
		return []leaf{{"", SInt, bZero, new(big.Int).Sub(pow2(w), bOne)}}
	}
	if isBool(t) {
		return []leaf{{"", SBool, nil, nil}}
	}
	if isString(t) {
		return []leaf{{":arr", SLoc, nil, nil}, {":off", SInt, bZero, maxLen}, {":len", SInt, bZero, maxLen}}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		_ = u
		return []leaf{{":arr", SLoc, nil, nil}, {":off", SInt, bZero, maxLen}, {":len", SInt, bZero, maxLen}, {":cap", SInt, bZero, maxLen}}
	case *types.Interface:
		return []leaf{{":typ", SInt, bZero, nil}, {":data", SLoc, nil, nil}}
	case *types.Basic: // unsafe.Pointer, complex, nil
		return []leaf{{"", SLoc, nil, nil}}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []leaf{{"", SLoc, nil, nil}}
	}
	panic(fmt.Sprintf("leaves of %s", t))
}

func fromLeaves(t types.Type, x []*Term) Val {
	if isString(t) {
		return &StrV{x[0], x[1], x[2]}
	}
	switch t.Underlying().(type) {
	case *types.Slice:
		return &SliceV{x[0], x[1], x[2], x[3]}
	case *types.Interface:
		return &IfaceV{x[0], x[1]}
	}
	return x[0]
}
func toLeaves(v Val) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *SliceV:
		return []*Term{x.Arr, x.Off, x.Len, x.Cap}
	case *StrV:
		return []*Term{x.Arr, x.Off, x.Len}
	case *IfaceV:
		return []*Term{x.Typ, x.Data}
	}
	panic(fmt.Sprintf("toLeaves %T", v))
}

func basicName(b *types.Basic) string {
	switch b.Name() {
	case "byte":
		return "uint8"
	case "rune":
		return "int32"
	}
	return b.Name()
}

func qual(p *types.Package) string { return p.Path() }

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	if b, ok := t.Underlying().(*types.Basic); ok {
		return basicName(b)
	}
	switch u := t.(type) {
	case *types.Named:
		return tstr(u)
	}
	return tstr(t)
}

// elemKey normalises []T element keys: named slices share memory with their underlying type.
func elemKey(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return basicName(u)
	case *types.Struct:
		return typeKey(t)
	}
	return tstr(t.Underlying())
}

func zeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, zeroVal(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		return &ArrV{T: u, Loc: Null}
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.V = append(tv.V, zeroVal(u.At(i).Type()))
		}
		return tv
	}
	ls := leaves(t)
	xs := make([]*Term, len(ls))
	for i, l := range ls {
		xs[i] = zeroTerm(l.sort)
	}
	return fromLeaves(t, xs)
}
func zeroTerm(s Sort) *Term {
	switch s {
	case SInt:
		return I(0)
	case SBool:
		return False
	}
	return Null
}

// ---- memories ----
type MemKind uint8

const (
	MSym MemKind = iota
	MStore
	MCopy
	MHavoc
	MCopyEl // elements [lo,hi) of aggregate array l come from src array srcL at srcOff
)

type MemInfo struct {
	name   string
	elem   bool // indexed by (Loc, Int)
	sort   Sort
	lo, hi *big.Int
}

type Region struct {
	all    bool
	loc    *Term // exact location
	elOf   *Term // locations el(elOf, _)
	root   *Term // every location with the same allocation root (obj)
	lo, hi *Term // index window for element memories (nil: all)
	pred   func(l, j *Term) *Term
	star   bool // of a call that may change everything
	envAll bool // whatever other threads can reach (resolved where it is applied)
}

func (r Region) in(l, j *Term) *Term {
	if r.pred != nil {
		return r.pred(l, j)
	}
	if r.all {
		return True
	}
	var c *Term
	switch {
	case r.loc != nil:
		c = Eq(l, r.loc)
	case r.elOf != nil:
		c = isElOf(l, r.elOf)
	case r.root != nil:
		c = sameRoot(l, r.root)
	}
	if j != nil && r.lo != nil {
		c = And(c, Le(r.lo, j))
	}
	if j != nil && r.hi != nil {
		c = And(c, Lt(j, r.hi))
	}
	return c
}

func isElOf(l, base *Term) *Term {
	switch l.Op {
	case OEl:
		return Eq(l.Args[0], base)
	case OEmb:
		return isElOf(l.Args[0], base) // fields of embedded structs of elements
	case OObj, ONull:
		return False
	case OIte:
		return Ite(l.Args[0], isElOf(l.Args[1], base), isElOf(l.Args[2], base))
	}
	if r, ok := concRoot(base); ok && l.hasMR && r < l.minRoot {
		return False
	}
	return App("isElOf", SBool, nil, nil, nil, l, base)
}

func sameRoot(l, o *Term) *Term {
	ro, ok := concRoot(o)
	if !ok {
		return Eq(rootOf(l), rootOf(o))
	}
	if rl, ok := concRoot(l); ok {
		return B(rl == ro)
	}
	if l.Op == ONull {
		return False
	}
	if l.hasMR && ro < l.minRoot {
		return False
	}
	if l.Op == OIte {
		return Ite(l.Args[0], sameRoot(l.Args[1], o), sameRoot(l.Args[2], o))
	}
	b := l
	for b.Op == OEmb || b.Op == OEl {
		b = b.Args[0]
	}
	return Eq(rootOf(b), I(int64(ro)))
}

type Mem struct {
	kind     MemKind
	info     *MemInfo
	sym      string // MSym, MHavoc
	minRoot  int    // Loc valued symbols: lower bound of what can be stored
	ceil     int    // MHavoc "all": objects with root < ceil did not exist yet
	prev     *Mem
	l, j, v  *Term
	lo, hi   *Term
	src      *Mem
	srcL     *Term
	srcOff   *Term // element index k of dst in [lo,hi) comes from src[srcL][k-lo+srcOff]
	regs     []Region
	memo     map[[2]*Term]*Term
	depth    int
	env      bool // change made by other threads
	yield    bool // ... to everything this thread does not hold
	stripped *Mem
}

func newSym(info *MemInfo, sym string, minRoot int) *Mem {
	return &Mem{kind: MSym, info: info, sym: sym, minRoot: minRoot}
}
func (m *Mem) symApp(l, j *Term) *Term {
	var mr *int
	if m.info.sort == SLoc {
		r := m.minRoot
		mr = &r
	}
	if m.info.elem {
		return App(m.sym, m.info.sort, m.info.lo, m.info.hi, mr, l, j)
	}
	return App(m.sym, m.info.sort, m.info.lo, m.info.hi, mr, l)
}

func (m *Mem) read(l, j *Term) *Term {
	if l.Op == OIte && !(m.kind == MSym) {
		return Ite(l.Args[0], m.read(l.Args[1], j), m.read(l.Args[2], j))
	}
	k := [2]*Term{l, j}
	if r, ok := m.memo[k]; ok {
		return r
	}
	r := m.read1(l, j)
	if m.memo == nil {
		m.memo = map[[2]*Term]*Term{}
	}
	m.memo[k] = r
	return r
}

func (m *Mem) read1(l, j *Term) *Term {
	switch m.kind {
	case MSym:
		if r, ok := concRoot(l); ok && r < 0 && m.ceil == 0 {
			return zeroTerm(m.info.sort) // a new object, as allocated
		}
		if l.Op == OIte {
			return Ite(l.Args[0], m.read(l.Args[1], j), m.read(l.Args[2], j))
		}
		return m.symApp(l, j)
	case MStore:
		c := Eq(l, m.l)
		if m.info.elem {
			c = And(c, Eq(j, m.j))
		}
		if c == True {
			return m.v
		}
		return Ite(c, m.v, m.prev.read(l, j))
	case MCopy:
		c := And(Eq(l, m.l), Le(m.lo, j), Lt(j, m.hi))
		if c == False {
			return m.prev.read(l, j)
		}
		s := m.src.read(m.srcL, Add(Sub(j, m.lo), m.srcOff))
		return Ite(c, s, m.prev.read(l, j))
	case MHavoc:
		c := False
		if r, ok := concRoot(l); ok && r < m.ceil {
			return m.prev.read(l, j)
		}
		for _, g := range m.regs {
			c = Or(c, g.in(l, j))
		}
		if c == False {
			return m.prev.read(l, j)
		}
		return Ite(c, m.symApp(l, j), m.prev.read(l, j))
	}
	if m.kind == MCopyEl {
		var path []*Term
		b := l
		for b.Op == OEmb {
			path = append(path, b)
			b = b.Args[0]
		}
		if b.Op == OEl {
			c := And(Eq(b.Args[0], m.l), Le(m.lo, b.Args[1]), Lt(b.Args[1], m.hi))
			if c == False {
				return m.prev.read(l, j)
			}
			n := El(m.srcL, Add(Sub(b.Args[1], m.lo), m.srcOff))
			for i := len(path) - 1; i >= 0; i-- {
				n = Emb(n, int(path[i].K.Int64()))
			}
			return Ite(c, m.src.read(n, j), m.prev.read(l, j))
		}
		if b.Op == OObj || b.Op == ONull {
			return m.prev.read(l, j)
		}
		c := isElOf(l, m.l)
		if c == False {
			return m.prev.read(l, j)
		}
		return Ite(c, m.symApp(l, j), m.prev.read(l, j))
	}
	panic("mem")
}

func (m *Mem) store(l, j, v *Term) *Mem {
	if v.Sort != m.info.sort {
		panic(fmt.Sprintf("store of %s into %s", v.Sort, m.info.name))
	}
	if m.kind == MStore && m.l == l && m.j == j {
		m = m.prev
	}
	return &Mem{kind: MStore, info: m.info, prev: m, l: l, j: j, v: v}
}
func (m *Mem) copyRange(l, lo, hi *Term, src *Mem, srcL, srcOff *Term) *Mem {
	return &Mem{kind: MCopy, info: m.info, prev: m, l: l, lo: lo, hi: hi, src: src, srcL: srcL, srcOff: srcOff}
}
func (m *Mem) havoc(regs []Region, minRoot int, ceil int) *Mem {
	return &Mem{kind: MHavoc, info: m.info, prev: m, sym: freshName(m.info.name), regs: regs, minRoot: minRoot, ceil: ceil}
}

func shortName(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}

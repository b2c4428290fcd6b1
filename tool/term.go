package main

// Hash-consed first-order terms over Int, Bool and Loc, with the simplifications
// that keep verification conditions small: linear sums are canonical, every
// integer term carries an interval, and byte extraction / recombination cancels.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort uint8

const (
	SInt Sort = iota
	SBool
	SLoc
)

func (s Sort) String() string { return [...]string{"Int", "Bool", "Loc"}[s] }

type Op uint8

const (
	OConst Op = iota // Int
	OTrue
	OFalse
	OVar
	OBound // bound variable
	OApp   // uninterpreted function
	OLin   // K + sum Coefs[i]*Args[i]
	OMul   // nonlinear product
	ODiv   // Args[0] div K   (K>0, floor)
	OMod   // Args[0] mod K
	ODivT  // floor division by a term
	OModT
	OAnd2 // bitwise and of two non-constant terms (non negative)
	OIte
	ONot
	OAnd
	OOr
	OEq  // same sort
	OLe0 // Args[0] <= 0
	OForall
	ONull
	OObj // obj(Args[0])
	OEmb // emb(Args[0], K)
	OEl  // el(Args[0], Args[1])
)

type Term struct {
	Op      Op
	Sort    Sort
	Args    []*Term
	Coefs   []*big.Int
	K       *big.Int
	Name    string
	id      int
	lo, hi  *big.Int // Int interval, nil means unbounded
	bound   bool     // mentions a bound variable
	minRoot int      // Loc: lower bound of the allocation root
	hasMR   bool
	tz      uint // known trailing zero bits (Int)
}

var termTab = map[string]*Term{}
var termCnt int

func bi(i int64) *big.Int { return big.NewInt(i) }

var (
	bZero = bi(0)
	bOne  = bi(1)
)

func pow2(n uint) *big.Int { return new(big.Int).Lsh(bOne, n) }

func (t *Term) isConst() bool { return t.Op == OConst }

func hashcons(t *Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d.%d", t.Op, t.Sort)
	for i, a := range t.Args {
		sb.WriteByte(',')
		fmt.Fprintf(&sb, "%d", a.id)
		if t.Coefs != nil {
			sb.WriteByte('*')
			sb.WriteString(t.Coefs[i].String())
		}
	}
	if t.K != nil {
		sb.WriteByte('#')
		sb.WriteString(t.K.String())
	}
	if t.Name != "" {
		sb.WriteByte('@')
		sb.WriteString(t.Name)
	}
	k := sb.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	termCnt++
	t.id = termCnt
	for _, a := range t.Args {
		if a.bound {
			t.bound = true
		}
	}
	if t.Op == OBound {
		t.bound = true
	}
	termTab[k] = t
	if t.Sort == SInt {
		t.tz = trailing(t)
	}
	return t
}

func tzBig(b *big.Int) uint {
	if b.Sign() == 0 {
		return 200
	}
	return b.TrailingZeroBits()
}

func trailing(t *Term) uint {
	switch t.Op {
	case OConst:
		return tzBig(t.K)
	case OLin:
		m := tzBig(t.K)
		for i, a := range t.Args {
			if z := tzBig(t.Coefs[i]) + a.tz; z < m {
				m = z
			}
		}
		return m
	case OMod:
		z := t.Args[0].tz
		if k := tzBig(t.K); k < z {
			z = k
		}
		return z
	case OIte:
		a, b := t.Args[1].tz, t.Args[2].tz
		if a < b {
			return a
		}
		return b
	}
	return 0
}

var (
	True  = hashcons(&Term{Op: OTrue, Sort: SBool})
	False = hashcons(&Term{Op: OFalse, Sort: SBool})
	Null  = hashcons(&Term{Op: ONull, Sort: SLoc, hasMR: true, minRoot: 0})
)

func B(b bool) *Term {
	if b {
		return True
	}
	return False
}
func Num(b *big.Int) *Term {
	return hashcons(&Term{Op: OConst, Sort: SInt, K: new(big.Int).Set(b), lo: b, hi: b})
}
func I(i int64) *Term { return Num(bi(i)) }

// symInfo is kept per variable / function symbol.
type symInfo struct {
	name string
	args []Sort
	ret  Sort
}

var symTab = map[string]*symInfo{}

func declare(name string, args []Sort, ret Sort) {
	if s, ok := symTab[name]; ok {
		if len(s.args) != len(args) || s.ret != ret {
			panic("symbol redeclared with another sort: " + name)
		}
		return
	}
	if _, ok := symBorn[name]; !ok {
		symBorn[name] = termCnt
		if i := strings.LastIndex(name, "!all"); i >= 0 {
			symBorn[name] = symBorn[name[i:]]
		}
	}
	symTab[name] = &symInfo{name, append([]Sort(nil), args...), ret}
}

var freshCnt int

func freshName(p string) string {
	freshCnt++
	n := fmt.Sprintf("%s!%d", p, freshCnt)
	symBorn[n] = termCnt
	return n
}

func Var(name string, s Sort, lo, hi *big.Int) *Term {
	declare(name, nil, s)
	t := &Term{Op: OVar, Sort: s, Name: name, lo: lo, hi: hi}
	return hashcons(t)
}
func FreshInt(p string, lo, hi *big.Int) *Term { return Var(freshName(p), SInt, lo, hi) }
func FreshBool(p string) *Term                 { return Var(freshName(p), SBool, nil, nil) }
func FreshLoc(p string, minRoot int) *Term {
	n := freshName(p)
	declare(n, nil, SLoc)
	return hashcons(&Term{Op: OVar, Sort: SLoc, Name: n, hasMR: true, minRoot: minRoot})
}
func BoundVar(name string, s Sort) *Term {
	return hashcons(&Term{Op: OBound, Sort: s, Name: name})
}

func App(name string, ret Sort, lo, hi *big.Int, minRoot *int, args ...*Term) *Term {
	ss := make([]Sort, len(args))
	for i, a := range args {
		ss[i] = a.Sort
	}
	declare(name, ss, ret)
	t := &Term{Op: OApp, Sort: ret, Name: name, Args: args, lo: lo, hi: hi}
	if minRoot != nil {
		t.hasMR, t.minRoot = true, *minRoot
	}
	return hashcons(t)
}

// ---- Loc ----
func Obj(i int64) *Term {
	return hashcons(&Term{Op: OObj, Sort: SLoc, Args: []*Term{I(i)}, hasMR: true, minRoot: int(i)})
}
func Emb(b *Term, f int) *Term {
	return hashcons(&Term{Op: OEmb, Sort: SLoc, Args: []*Term{b}, K: bi(int64(f)), hasMR: b.hasMR, minRoot: b.minRoot})
}
func El(b, i *Term) *Term {
	return hashcons(&Term{Op: OEl, Sort: SLoc, Args: []*Term{b, i}, hasMR: b.hasMR, minRoot: b.minRoot})
}

// ---- Linear arithmetic ----
type lin struct {
	k *big.Int
	m map[*Term]*big.Int
}

func toLin(t *Term) lin {
	l := lin{new(big.Int), map[*Term]*big.Int{}}
	l.add(t, bOne)
	return l
}
func (l *lin) add(t *Term, c *big.Int) {
	switch t.Op {
	case OConst:
		l.k.Add(l.k, new(big.Int).Mul(c, t.K))
	case OLin:
		l.k.Add(l.k, new(big.Int).Mul(c, t.K))
		for i, a := range t.Args {
			l.addAtom(a, new(big.Int).Mul(c, t.Coefs[i]))
		}
	default:
		l.addAtom(t, c)
	}
}
func (l *lin) addAtom(a *Term, c *big.Int) {
	if o, ok := l.m[a]; ok {
		n := new(big.Int).Add(o, c)
		if n.Sign() == 0 {
			delete(l.m, a)
		} else {
			l.m[a] = n
		}
	} else if c.Sign() != 0 {
		l.m[a] = new(big.Int).Set(c)
	}
}

// recombine: k*Mod(Div(x,a),m) + k*m*Div(x,a*m)  ->  k*Div(x,a)
func (l *lin) recombine() {
	for {
		changed := false
		var ats []*Term
		for a := range l.m {
			if a.Op == OMod {
				ats = append(ats, a)
			}
		}
		sort.Slice(ats, func(i, j int) bool { return ats[i].id < ats[j].id })
		for _, a := range ats {
			c, ok := l.m[a]
			if !ok {
				continue
			}
			d := Div(a.Args[0], a.K)
			// d may itself be a linear sum; require it to be a single atom
			if d.Op == OConst || d.Op == OLin {
				continue
			}
			c2, ok := l.m[d]
			if !ok {
				// Mod(x,m) + m*Mod(Div(x,m),m2)  ->  Mod(x,m*m2)
				cm := new(big.Int).Mul(c, a.K)
				for _, b := range ats {
					if b.Args[0] == d && l.m[b] != nil && l.m[b].Cmp(cm) == 0 {
						cc := new(big.Int).Set(c)
						delete(l.m, a)
						delete(l.m, b)
						l.add(Mod(a.Args[0], new(big.Int).Mul(a.K, b.K)), cc)
						changed = true
						break
					}
				}
				if changed {
					break
				}
				continue
			}
			if new(big.Int).Mul(c, a.K).Cmp(c2) != 0 {
				continue
			}
			delete(l.m, a)
			delete(l.m, d)
			l.add(a.Args[0], c)
			changed = true
			break
		}
		if !changed {
			return
		}
	}
}

func (l *lin) term() *Term {
	if len(l.m) >= 2 {
		l.recombine()
	}
	if len(l.m) == 0 {
		return Num(l.k)
	}
	if len(l.m) == 1 && l.k.Sign() == 0 {
		for a, c := range l.m {
			if c.Cmp(bOne) == 0 {
				return a
			}
		}
	}
	ats := make([]*Term, 0, len(l.m))
	for a := range l.m {
		ats = append(ats, a)
	}
	sort.Slice(ats, func(i, j int) bool { return ats[i].id < ats[j].id })
	t := &Term{Op: OLin, Sort: SInt, K: new(big.Int).Set(l.k)}
	lo, hi := new(big.Int).Set(l.k), new(big.Int).Set(l.k)
	for _, a := range ats {
		c := l.m[a]
		t.Args = append(t.Args, a)
		t.Coefs = append(t.Coefs, c)
		al, ah := a.lo, a.hi
		if c.Sign() < 0 {
			al, ah = ah, al
		}
		if lo != nil {
			if al == nil {
				lo = nil
			} else {
				lo.Add(lo, new(big.Int).Mul(c, al))
			}
		}
		if hi != nil {
			if ah == nil {
				hi = nil
			} else {
				hi.Add(hi, new(big.Int).Mul(c, ah))
			}
		}
	}
	t.lo, t.hi = lo, hi
	return hashcons(t)
}

func Add(ts ...*Term) *Term {
	l := lin{new(big.Int), map[*Term]*big.Int{}}
	for _, t := range ts {
		l.add(t, bOne)
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := toLin(a)
	l.add(b, bi(-1))
	return l.term()
}
func MulC(a *Term, c *big.Int) *Term {
	l := lin{new(big.Int), map[*Term]*big.Int{}}
	l.add(a, c)
	return l.term()
}
func Neg(a *Term) *Term { return MulC(a, bi(-1)) }
func Mul(a, b *Term) *Term {
	if a.isConst() {
		return MulC(b, a.K)
	}
	if b.isConst() {
		return MulC(a, b.K)
	}
	if a.id > b.id {
		a, b = b, a
	}
	t := &Term{Op: OMul, Sort: SInt, Args: []*Term{a, b}}
	if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
		for i, x := range []*big.Int{a.lo, a.hi} {
			for j, y := range []*big.Int{b.lo, b.hi} {
				p := new(big.Int).Mul(x, y)
				if i+j == 0 || p.Cmp(t.lo) < 0 {
					t.lo = p
				}
				if i+j == 0 || p.Cmp(t.hi) > 0 {
					t.hi = p
				}
			}
		}
	} else if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		t.lo = bZero
	}
	return hashcons(t)
}

func floorDiv(a, b *big.Int) *big.Int {
	q, r := new(big.Int).QuoRem(a, b, new(big.Int))
	if r.Sign() != 0 && (r.Sign() < 0) != (b.Sign() < 0) {
		q.Sub(q, bOne)
	}
	return q
}
func floorMod(a, b *big.Int) *big.Int {
	return new(big.Int).Sub(a, new(big.Int).Mul(floorDiv(a, b), b))
}
func inRange(t *Term, lo, hi *big.Int) bool { // lo <= t < hi
	return t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) < 0
}

// Div is floor division by a positive constant.
func Div(a *Term, k *big.Int) *Term {
	if k.Cmp(bOne) == 0 {
		return a
	}
	if a.isConst() {
		return Num(floorDiv(a.K, k))
	}
	if inRange(a, bZero, k) {
		return I(0)
	}
	if a.Op == ODiv {
		return Div(a.Args[0], new(big.Int).Mul(a.K, k))
	}
	if a.Op == OMod { // (x mod m) div k with k | m -> (x div k) mod (m/k)
		q, r := new(big.Int).QuoRem(a.K, k, new(big.Int))
		if r.Sign() == 0 {
			return Mod(Div(a.Args[0], k), q)
		}
	}
	if a.Op == OIte {
		return Ite(a.Args[0], Div(a.Args[1], k), Div(a.Args[2], k))
	}
	if a.Op == OLin {
		in := lin{new(big.Int), map[*Term]*big.Int{}}
		out := lin{new(big.Int), map[*Term]*big.Int{}}
		q := floorDiv(a.K, k)
		out.k.Add(out.k, q)
		in.k.Sub(a.K, new(big.Int).Mul(q, k))
		for i, x := range a.Args {
			q, r := new(big.Int).QuoRem(a.Coefs[i], k, new(big.Int))
			if r.Sign() == 0 {
				out.addAtom(x, q)
			} else {
				in.addAtom(x, a.Coefs[i])
			}
		}
		if len(out.m) > 0 || out.k.Sign() != 0 {
			return Add(out.term(), Div(in.term(), k))
		}
	}
	t := &Term{Op: ODiv, Sort: SInt, Args: []*Term{a}, K: k}
	if a.lo != nil {
		t.lo = floorDiv(a.lo, k)
	}
	if a.hi != nil {
		t.hi = floorDiv(a.hi, k)
	}
	return hashcons(t)
}

func Mod(a *Term, m *big.Int) *Term {
	if m.Cmp(bOne) == 0 {
		return I(0)
	}
	if a.isConst() {
		return Num(floorMod(a.K, m))
	}
	if inRange(a, bZero, m) {
		return a
	}
	switch a.Op {
	case OMod:
		if new(big.Int).Rem(a.K, m).Sign() == 0 {
			return Mod(a.Args[0], m)
		}
	case OIte:
		return Ite(a.Args[0], Mod(a.Args[1], m), Mod(a.Args[2], m))
	case OLin:
		n := lin{floorMod(a.K, m), map[*Term]*big.Int{}}
		ch := n.k.Cmp(a.K) != 0
		for i, x := range a.Args {
			c := a.Coefs[i]
			if new(big.Int).Rem(c, m).Sign() == 0 {
				ch = true
				continue
			}
			if x.Op == OMod && new(big.Int).Rem(new(big.Int).Mul(c, x.K), m).Sign() == 0 {
				n.add(x.Args[0], c)
				ch = true
				continue
			}
			if c.Cmp(m) >= 0 || new(big.Int).Neg(c).Cmp(m) >= 0 {
				c = floorMod(c, m)
				ch = true
			}
			n.addAtom(x, c)
		}
		if ch {
			return Mod(n.term(), m)
		}
	}
	t := &Term{Op: OMod, Sort: SInt, Args: []*Term{a}, K: m, lo: bZero, hi: new(big.Int).Sub(m, bOne)}
	// interval shift: a in [q*m, (q+1)*m)
	if a.lo != nil && a.hi != nil {
		q := floorDiv(a.lo, m)
		if floorDiv(a.hi, m).Cmp(q) == 0 {
			return Sub(a, Num(new(big.Int).Mul(q, m)))
		}
	}
	return hashcons(t)
}

func DivT(a, b *Term) *Term {
	if b.isConst() && b.K.Sign() > 0 {
		return Div(a, b.K)
	}
	return hashcons(&Term{Op: ODivT, Sort: SInt, Args: []*Term{a, b}})
}
func ModT(a, b *Term) *Term {
	if b.isConst() && b.K.Sign() > 0 {
		return Mod(a, b.K)
	}
	return hashcons(&Term{Op: OModT, Sort: SInt, Args: []*Term{a, b}})
}

// ---- Bits (operands are non negative) ----
func maskAnd(x *Term, m *big.Int) *Term {
	// sum over the runs of one bits in m
	res := I(0)
	n := uint(m.BitLen())
	for i := uint(0); i < n; {
		if m.Bit(int(i)) == 0 {
			i++
			continue
		}
		j := i
		for j < n && m.Bit(int(j)) == 1 {
			j++
		}
		res = Add(res, MulC(Mod(Div(x, pow2(i)), pow2(j-i)), pow2(i)))
		i = j
	}
	return res
}
func BitAnd(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isConst() {
		return maskAnd(b, a.K)
	}
	if b.isConst() {
		return maskAnd(a, b.K)
	}
	// disjoint ranges by trailing zeros
	if a.hi != nil && a.hi.Sign() >= 0 && uint(a.hi.BitLen()) <= b.tz {
		return I(0)
	}
	if b.hi != nil && b.hi.Sign() >= 0 && uint(b.hi.BitLen()) <= a.tz {
		return I(0)
	}
	if a.Op == OIte && (a.Args[1].isConst() || a.Args[2].isConst()) {
		return Ite(a.Args[0], BitAnd(a.Args[1], b), BitAnd(a.Args[2], b))
	}
	if b.Op == OIte && (b.Args[1].isConst() || b.Args[2].isConst()) {
		return Ite(b.Args[0], BitAnd(a, b.Args[1]), BitAnd(a, b.Args[2]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	t := &Term{Op: OAnd2, Sort: SInt, Args: []*Term{a, b}, lo: bZero}
	if a.hi != nil {
		t.hi = a.hi
	}
	if b.hi != nil && (t.hi == nil || b.hi.Cmp(t.hi) < 0) {
		t.hi = b.hi
	}
	return hashcons(t)
}
func BitOr(a, b *Term) *Term {
	if a == b {
		return a
	}
	r := Sub(Add(a, b), BitAnd(a, b))
	// x|y stays below the next power of two of both
	if r.Op == OLin && a.hi != nil && b.hi != nil && a.hi.Sign() >= 0 && b.hi.Sign() >= 0 {
		n := a.hi.BitLen()
		if m := b.hi.BitLen(); m > n {
			n = m
		}
		lim := new(big.Int).Sub(pow2(uint(n)), bOne)
		if r.hi == nil || r.hi.Cmp(lim) > 0 {
			r.hi = lim
		}
		if r.lo == nil || r.lo.Sign() < 0 {
			r.lo = bZero
		}
		orBounds[r] = [2]*Term{a, b}
	}
	return r
}

// orBounds remembers or-terms so that the printer can add x|y >= x, x|y < 2^k.
var orBounds = map[*Term][2]*Term{}

func BitXor(a, b *Term) *Term {
	if a == b {
		return I(0)
	}
	return Sub(Add(a, b), MulC(BitAnd(a, b), bi(2)))
}

// ---- Bool ----
func Not(a *Term) *Term {
	switch a.Op {
	case OTrue:
		return False
	case OFalse:
		return True
	case ONot:
		return a.Args[0]
	case OLe0: // not (l<=0)  ->  1-l <= 0
		return Le0(Sub(I(1), a.Args[0]))
	}
	return hashcons(&Term{Op: ONot, Sort: SBool, Args: []*Term{a}})
}
func nary(op Op, ts []*Term) *Term {
	unit, zero := True, False
	if op == OOr {
		unit, zero = False, True
	}
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == unit || seen[t] {
			return true
		}
		if t == zero {
			return false
		}
		if t.Op == op {
			for _, a := range t.Args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !rec(t) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return hashcons(&Term{Op: op, Sort: SBool, Args: out})
}
func And(ts ...*Term) *Term       { return nary(OAnd, ts) }
func Or(ts ...*Term) *Term        { return nary(OOr, ts) }
func Implies(a, b *Term) *Term    { return Or(Not(a), b) }
func Iff(a, b *Term) *Term        { return Eq(a, b) }
func Lt(a, b *Term) *Term         { return Le0(Add(Sub(a, b), I(1))) }
func Le(a, b *Term) *Term         { return Le0(Sub(a, b)) }
func Ge(a, b *Term) *Term         { return Le(b, a) }
func Gt(a, b *Term) *Term         { return Lt(b, a) }
func Ne(a, b *Term) *Term         { return Not(Eq(a, b)) }
func Range(lo, x, hi *Term) *Term { return And(Le(lo, x), Lt(x, hi)) }

func gcdAll(cs []*big.Int) *big.Int {
	g := new(big.Int)
	for _, c := range cs {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	return g
}

func Le0(l *Term) *Term {
	if l.hi != nil && l.hi.Sign() <= 0 {
		return True
	}
	if l.lo != nil && l.lo.Sign() > 0 {
		return False
	}
	if l.Op == OIte && l.Args[1].isConst() && l.Args[2].isConst() {
		return Ite(l.Args[0], Le0(l.Args[1]), Le0(l.Args[2]))
	}
	if l.Op == OLin {
		g := gcdAll(l.Coefs)
		if g.Cmp(bOne) > 0 {
			n := lin{new(big.Int), map[*Term]*big.Int{}}
			// sum + k <= 0  <=>  sum/g <= floor(-k/g)
			fl := floorDiv(new(big.Int).Neg(l.K), g)
			n.k.Neg(fl)
			for i, a := range l.Args {
				n.addAtom(a, new(big.Int).Quo(l.Coefs[i], g))
			}
			return Le0(n.term())
		}
	}
	return hashcons(&Term{Op: OLe0, Sort: SBool, Args: []*Term{l}})
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq of different sorts: %s vs %s", a, b))
	}
	switch a.Sort {
	case SInt:
		return eqInt(a, b)
	case SBool:
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if a == Not(b) {
			return False
		}
		if a.id > b.id {
			a, b = b, a
		}
		return hashcons(&Term{Op: OEq, Sort: SBool, Args: []*Term{a, b}})
	}
	return eqLoc(a, b)
}

func eqInt(a, b *Term) *Term {
	if a.Op == OIte && b.isConst() && (a.Args[1].isConst() || a.Args[2].isConst() || a.Args[1].Op == OIte || a.Args[2].Op == OIte) {
		return Ite(a.Args[0], eqInt2(a.Args[1], b), eqInt2(a.Args[2], b))
	}
	if b.Op == OIte && a.isConst() {
		return eqInt(b, a)
	}
	return eqInt2(a, b)
}
func eqInt2(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Op == OIte && b.isConst() && (a.Args[1].isConst() || a.Args[2].isConst()) {
		return eqInt(a, b)
	}
	if a.Op == OApp && b.Op == OApp && a.Name == b.Name && (a.Name == "locKey" || a.Name == "ifaceKey") {
		r := True
		for i := range a.Args {
			r = And(r, Eq(a.Args[i], b.Args[i]))
		}
		return r
	}
	l := Sub(a, b)
	if l.isConst() {
		return B(l.K.Sign() == 0)
	}
	if (l.lo != nil && l.lo.Sign() > 0) || (l.hi != nil && l.hi.Sign() < 0) {
		return False
	}
	if l.Op == OLin {
		g := gcdAll(l.Coefs)
		if new(big.Int).Rem(l.K, g).Sign() != 0 {
			return False
		}
		neg := l.Coefs[0].Sign() < 0
		if g.Cmp(bOne) > 0 || neg {
			d := new(big.Int).Set(g)
			if neg {
				d.Neg(d)
			}
			n := lin{new(big.Int).Quo(l.K, d), map[*Term]*big.Int{}}
			for i, x := range l.Args {
				n.addAtom(x, new(big.Int).Quo(l.Coefs[i], d))
			}
			l = n.term()
		}
	}
	return hashcons(&Term{Op: OEq, Sort: SBool, Args: []*Term{l, I(0)}})
}

func eqLoc(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Op == OIte {
		return Ite(a.Args[0], eqLoc(a.Args[1], b), eqLoc(a.Args[2], b))
	}
	if b.Op == OIte {
		return Ite(b.Args[0], eqLoc(a, b.Args[1]), eqLoc(a, b.Args[2]))
	}
	ctor := func(t *Term) bool { return t.Op == ONull || t.Op == OObj || t.Op == OEmb || t.Op == OEl }
	if ctor(a) && ctor(b) {
		if a.Op != b.Op {
			return False
		}
		switch a.Op {
		case OObj:
			return Eq(a.Args[0], b.Args[0])
		case OEmb:
			if a.K.Cmp(b.K) != 0 {
				return False
			}
			return Eq(a.Args[0], b.Args[0])
		case OEl:
			return And(Eq(a.Args[0], b.Args[0]), Eq(a.Args[1], b.Args[1]))
		}
	}
	// a freshly allocated object differs from anything that existed before
	for _, p := range [2][2]*Term{{a, b}, {b, a}} {
		if r, ok := concRoot(p[0]); ok && p[1].hasMR && r < p[1].minRoot {
			return False
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return hashcons(&Term{Op: OEq, Sort: SBool, Args: []*Term{a, b}})
}

func concRoot(t *Term) (int, bool) {
	for t.Op == OEmb || t.Op == OEl {
		t = t.Args[0]
	}
	if t.Op == OObj && t.Args[0].isConst() {
		return int(t.Args[0].K.Int64()), true
	}
	return 0, false
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Ite of different sorts: %s / %s", a, b))
	}
	if a.Sort == SBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if c.Op == ONot {
		return Ite(c.Args[0], b, a)
	}
	if a.Op == OIte && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == OIte && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	t := &Term{Op: OIte, Sort: a.Sort, Args: []*Term{c, a, b}}
	if a.Sort == SInt {
		if a.lo != nil && b.lo != nil {
			t.lo = a.lo
			if b.lo.Cmp(a.lo) < 0 {
				t.lo = b.lo
			}
		}
		if a.hi != nil && b.hi != nil {
			t.hi = a.hi
			if b.hi.Cmp(a.hi) > 0 {
				t.hi = b.hi
			}
		}
	}
	if a.Sort == SLoc && a.hasMR && b.hasMR {
		t.hasMR = true
		t.minRoot = a.minRoot
		if b.minRoot < t.minRoot {
			t.minRoot = b.minRoot
		}
	}
	return hashcons(t)
}

func Forall(vars []*Term, body *Term) *Term {
	if !body.bound {
		return body
	}
	used := map[*Term]bool{}
	collectBound(body, used, map[*Term]bool{})
	var vs []*Term
	for _, v := range vars {
		if used[v] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	args := append(append([]*Term{}, vs...), body)
	t := &Term{Op: OForall, Sort: SBool, Args: args}
	t = hashcons(t)
	// bound only if a variable of an outer quantifier remains
	t.bound = false
	for u := range used {
		inner := false
		for _, v := range vs {
			if u == v {
				inner = true
			}
		}
		if !inner {
			t.bound = true
		}
	}
	return t
}

func collectBound(t *Term, out, seen map[*Term]bool) {
	if seen[t] || !t.bound && t.Op != OForall {
		return
	}
	seen[t] = true
	if t.Op == OBound {
		out[t] = true
		return
	}
	if t.Op == OForall {
		in := map[*Term]bool{}
		collectBound(t.Args[len(t.Args)-1], in, map[*Term]bool{})
		for _, v := range t.Args[:len(t.Args)-1] {
			delete(in, v)
		}
		for v := range in {
			out[v] = true
		}
		return
	}
	for _, a := range t.Args {
		collectBound(a, out, seen)
	}
}

// Subst replaces terms (variables) by terms, re-simplifying.
func Subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		if t.Op == OForall && i < len(t.Args)-1 {
			args[i] = a
			continue
		}
		args[i] = Subst(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case OApp:
		var mr *int
		if t.hasMR {
			mr = &t.minRoot
		}
		return App(t.Name, t.Sort, t.lo, t.hi, mr, a...)
	case OLin:
		l := lin{new(big.Int).Set(t.K), map[*Term]*big.Int{}}
		for i, x := range a {
			l.add(x, t.Coefs[i])
		}
		return l.term()
	case OMul:
		return Mul(a[0], a[1])
	case ODiv:
		return Div(a[0], t.K)
	case OMod:
		return Mod(a[0], t.K)
	case ODivT:
		return DivT(a[0], a[1])
	case OModT:
		return ModT(a[0], a[1])
	case OAnd2:
		return BitAnd(a[0], a[1])
	case OIte:
		return Ite(a[0], a[1], a[2])
	case ONot:
		return Not(a[0])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case OEq:
		return Eq(a[0], a[1])
	case OLe0:
		return Le0(a[0])
	case OForall:
		return Forall(a[:len(a)-1], a[len(a)-1])
	case OObj:
		return hashcons(&Term{Op: OObj, Sort: SLoc, Args: a, hasMR: t.hasMR, minRoot: t.minRoot})
	case OEmb:
		return Emb(a[0], int(t.K.Int64()))
	case OEl:
		return El(a[0], a[1])
	}
	panic("rebuild")
}

func (t *Term) String() string {
	s := termStr(t, 0)
	if len(s) > 600 {
		s = s[:600] + "…"
	}
	return s
}
func termStr(t *Term, d int) string {
	if d > 14 {
		return "…"
	}
	as := func(sep string) string {
		var p []string
		for _, a := range t.Args {
			p = append(p, termStr(a, d+1))
		}
		return strings.Join(p, sep)
	}
	switch t.Op {
	case OConst:
		return t.K.String()
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OVar, OBound:
		return t.Name
	case OApp:
		return t.Name + "(" + as(",") + ")"
	case OLin:
		var p []string
		for i, a := range t.Args {
			if t.Coefs[i].Cmp(bOne) == 0 {
				p = append(p, termStr(a, d+1))
			} else {
				p = append(p, t.Coefs[i].String()+"*"+termStr(a, d+1))
			}
		}
		if t.K.Sign() != 0 {
			p = append(p, t.K.String())
		}
		return "(" + strings.Join(p, " + ") + ")"
	case OMul:
		return "(" + as("*") + ")"
	case ODiv:
		return "(" + as("") + "/" + t.K.String() + ")"
	case OMod:
		return "(" + as("") + "%" + t.K.String() + ")"
	case ODivT:
		return "(" + as("/") + ")"
	case OModT:
		return "(" + as("%") + ")"
	case OAnd2:
		return "(" + as("&") + ")"
	case OIte:
		return "(if " + termStr(t.Args[0], d+1) + " then " + termStr(t.Args[1], d+1) + " else " + termStr(t.Args[2], d+1) + ")"
	case ONot:
		return "!" + as("")
	case OAnd:
		return "(" + as(" && ") + ")"
	case OOr:
		return "(" + as(" || ") + ")"
	case OEq:
		return "(" + as(" == ") + ")"
	case OLe0:
		return "(" + as("") + " <= 0)"
	case OForall:
		return "forall(" + as(", ") + ")"
	case ONull:
		return "nil"
	case OObj:
		return "obj" + as("")
	case OEmb:
		return "(" + as("") + ").#" + t.K.String()
	case OEl:
		return "(" + termStr(t.Args[0], d+1) + ")[" + termStr(t.Args[1], d+1) + "]"
	}
	return "?"
}

type bigInt = big.Int

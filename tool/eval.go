package main

// Evaluation of contract expressions over symbolic states.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"
)

type SV struct {
	v Val
	t types.Type // nil for mathematical integers / booleans
}

type Ctx struct {
	ex    *Exec
	st    *State // current state
	old   *State
	pre   *State // state at loop entry
	env   map[string]SV
	pkg   string
	depth int
	ceil  int // objects with root < ceil are fresh
}

func (c *Ctx) with(env map[string]SV) *Ctx {
	n := *c
	n.env = env
	return &n
}
func (c *Ctx) bindVar(name string, v SV) *Ctx {
	n := *c
	n.env = make(map[string]SV, len(c.env)+1)
	for k, x := range c.env {
		n.env[k] = x
	}
	n.env[name] = v
	return &n
}

type evalErr struct{ msg string }

func (c *Ctx) fail(e *Expr, f string, a ...interface{}) {
	panic(evalErr{e.pos + ": " + fmt.Sprintf(f, a...)})
}

func (c *Ctx) boolean(e *Expr) *Term {
	s := c.eval(e)
	t, ok := s.v.(*Term)
	if !ok || t.Sort != SBool {
		c.fail(e, "boolean expected")
	}
	return t
}
func (c *Ctx) integer(e *Expr) *Term {
	s := c.eval(e)
	t, ok := s.v.(*Term)
	if !ok || t.Sort != SInt {
		c.fail(e, "integer expected, got %T", s.v)
	}
	return t
}
func (c *Ctx) loc(e *Expr) *Term {
	s := c.eval(e)
	switch x := s.v.(type) {
	case *Term:
		if x.Sort == SLoc {
			return x
		}
	case *IfaceV:
		return x.Data
	case *SliceV:
		return x.Arr
	}
	c.fail(e, "location expected")
	return nil
}

func (c *Ctx) lookupType(pkg, name string) types.Type {
	if strings.HasPrefix(name, "*") {
		return types.NewPointer(c.lookupType(pkg, name[1:]))
	}
	if strings.HasPrefix(name, "[]") {
		return types.NewSlice(c.lookupType(pkg, name[2:]))
	}
	if name == "interface{}" {
		return types.NewInterfaceType(nil, nil).Complete()
	}
	var t types.Type
	if o := types.Universe.Lookup(name); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			t = tn.Type()
		}
	}
	if t == nil {
		full := expandType(pkg, name)
		if j := strings.Index(full, "#"); j >= 0 {
			full = full[:j]
		}
		i := strings.LastIndexByte(full, '.')
		if i < 0 {
			panic(evalErr{"unknown type " + name})
		}
		p := c.ex.prog.tpkgs[full[:i]]
		if p == nil {
			panic(evalErr{"unknown package " + full[:i]})
		}
		o := p.Scope().Lookup(full[i+1:])
		if o == nil {
			panic(evalErr{"unknown type " + full})
		}
		t = o.Type()
	}
	return t
}

func (c *Ctx) ident(e *Expr) (SV, bool) {
	if v, ok := c.env[e.name]; ok {
		return v, true
	}
	switch e.name {
	case "true":
		return SV{True, nil}, true
	case "false":
		return SV{False, nil}, true
	case "nil":
		return SV{Null, types.Typ[types.UntypedNil]}, true
	}
	return c.pkgMember(c.pkg, e.name)
}

func (c *Ctx) pkgMember(pkg, name string) (SV, bool) {
	p := c.ex.prog.tpkgs[pkg]
	if p == nil {
		return SV{}, false
	}
	o := p.Scope().Lookup(name)
	switch x := o.(type) {
	case *types.Const:
		switch x.Val().Kind() {
		case constant.Int:
			if i, ok := constant.Val(x.Val()).(*big.Int); ok {
				return SV{Num(i), nil}, true
			}
			i, _ := constant.Int64Val(x.Val())
			return SV{I(i), nil}, true
		case constant.Bool:
			return SV{B(constant.BoolVal(x.Val())), nil}, true
		}
	case *types.Var:
		if sp := c.ex.prog.prog.ImportedPackage(pkg); sp != nil {
			if g := sp.Var(name); g != nil {
				if v := c.ex.constGlobal(c.st, g); v != nil {
					return SV{v, x.Type()}, true
				}
				return SV{c.ex.load(c.st, c.ex.prog.globalLoc(g), x.Type()), x.Type()}, true
			}
		}
	}
	return SV{}, false
}

func ptrElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (c *Ctx) atState(st *State) *Ctx {
	n := *c
	n.st = st
	return &n
}

// evalIn evaluates e in another state, moving well-formedness facts to the current one.
func (c *Ctx) evalIn(st *State, e *Expr) SV {
	if st == nil {
		c.fail(e, "no such state")
	}
	n := len(st.pc)
	r := c.atState(st).eval(e)
	if st != c.st {
		for _, f := range st.pc[n:] {
			c.st.assume(f)
		}
		st.pc = st.pc[:n:n]
	}
	return r
}

// fieldAddr resolves x.name, following embedded structs, to an address and field.
func (c *Ctx) findField(base *Term, t types.Type, name string) (addr *Term, sty types.Type, idx int, ok bool) {
	s, isS := t.Underlying().(*types.Struct)
	if !isS {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return base, t, i, true
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Embedded() {
			continue
		}
		ft := f.Type()
		if pe := ptrElem(ft); pe != nil {
			if _, isS := pe.Underlying().(*types.Struct); !isS {
				continue
			}
			if hasFieldDeep(pe, name) {
				p := c.ex.loadField(c.st, base, t, i).(*Term)
				return c.findField(p, pe, name)
			}
			continue
		}
		if hasFieldDeep(ft, name) {
			return c.findField(c.ex.prog.emb(base, t, i), ft, name)
		}
	}
	return
}
func hasFieldDeep(t types.Type, name string) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return true
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Embedded() {
			ft := f.Type()
			if pe := ptrElem(ft); pe != nil {
				ft = pe
			}
			if hasFieldDeep(ft, name) {
				return true
			}
		}
	}
	return false
}

func ghostLeaf(typ string) leaf {
	switch typ {
	case "bool":
		return leaf{"", SBool, nil, nil}
	case "loc":
		return leaf{"", SLoc, nil, nil}
	case "nat":
		return leaf{"", SInt, bZero, nil}
	}
	return leaf{"", SInt, nil, nil}
}

func (c *Ctx) ghost(e *Expr, base *Term, t types.Type, name string) (SV, bool) {
	k := ""
	if t != nil {
		k = structKey(t)
	}
	g := c.ex.prog.spec.ghosts[k+"."+name]
	if g == nil {
		return SV{}, false
	}
	if strings.HasPrefix(g.typ, "[]") { // ghost sequence: a slice view over ghost element memory
		return SV{&SliceV{c.ex.prog.ghostEmb(k+"."+name, base), I(0), Num(maxLen), Num(maxLen)}, nil}, true
	}
	m := c.ex.memOf(c.st, "G:"+k+"."+name, false, ghostLeaf(g.typ))
	return SV{m.read(base, nil), nil}, true
}

func (c *Ctx) field(e *Expr) SV {
	// package-qualified names
	if e.args[0].op == "id" {
		if _, ok := c.env[e.args[0].name]; !ok {
			if _, ok := c.pkgMember(c.pkg, e.args[0].name); !ok {
				p := e.args[0].name
				full := expandType(c.pkg, p+".x")
				full = full[:len(full)-2]
				if v, ok := c.pkgMember(full, e.name); ok {
					return v
				}
			}
		}
	}
	x := c.eval(e.args[0])
	if strings.HasPrefix(e.name, "$") {
		switch v := x.v.(type) {
		case *Term:
			t := x.t
			if pe := ptrElem(x.t); pe != nil {
				t = pe
			}
			if r, ok := c.ghost(e, v, t, e.name); ok {
				return r
			}
		case *IfaceV:
			if r, ok := c.ghost(e, v.Data, x.t, e.name); ok {
				return r
			}
		}
		c.fail(e, "no ghost field %s", e.name)
	}
	switch v := x.v.(type) {
	case *StructV:
		s := v.T.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == e.name {
				return SV{v.F[i], s.Field(i).Type()}
			}
		}
	case *Term:
		pe := ptrElem(x.t)
		if pe == nil && x.t != nil {
			if _, ok := x.t.Underlying().(*types.Struct); ok {
				pe = x.t // address of a struct
			}
		}
		if pe != nil {
			base, sty, i, ok := c.findField(v, pe, e.name)
			if ok {
				ft := sty.Underlying().(*types.Struct).Field(i).Type()
				switch ft.Underlying().(type) {
				case *types.Struct: // keep as address
					return SV{c.ex.prog.emb(base, sty, i), ft}
				case *types.Array:
					return SV{c.ex.prog.emb(base, sty, i), ft}
				}
				return SV{c.ex.loadField(c.st, base, sty, i), ft}
			}
		}
	case *IfaceV, *SliceV:
	}
	c.fail(e, "no field %s in %v", e.name, x.t)
	return SV{}
}

func (c *Ctx) index(e *Expr) SV {
	x := c.eval(e.args[0])
	switch v := x.v.(type) {
	case *SliceV:
		i := c.integer(e.args[1])
		if x.t == nil {
			m := c.ex.memOf(c.st, "G:seq", true, leaf{"", SInt, nil, nil})
			return SV{m.read(v.Arr, Add(v.Off, i)), nil}
		}
		et := x.t.Underlying().(*types.Slice).Elem()
		if _, ok := et.Underlying().(*types.Struct); ok {
			return SV{El(v.Arr, Add(v.Off, i)), et}
		}
		return SV{c.ex.load(c.st, El(v.Arr, Add(v.Off, i)), et), et}
	case *StrV:
		i := c.integer(e.args[1])
		return SV{c.ex.strByte(c.st, v, i), nil}
	case *Term:
		if x.t != nil {
			switch u := x.t.Underlying().(type) {
			case *types.Array:
				i := c.integer(e.args[1])
				if _, ok := u.Elem().Underlying().(*types.Struct); ok {
					return SV{El(v, i), u.Elem()}
				}
				return SV{c.ex.load(c.st, El(v, i), u.Elem()), u.Elem()}
			case *types.Map:
				k := c.ex.mapKey(c.st, c.eval(e.args[1]).v)
				r, _ := c.ex.mapGet(c.st, v, u, k)
				return SV{r, u.Elem()}
			case *types.Pointer:
				if a, ok := u.Elem().Underlying().(*types.Array); ok {
					i := c.integer(e.args[1])
					if _, ok := a.Elem().Underlying().(*types.Struct); ok {
						return SV{El(v, i), a.Elem()}
					}
					return SV{c.ex.load(c.st, El(v, i), a.Elem()), a.Elem()}
				}
			}
		}
	case *ArrV:
		i := c.integer(e.args[1])
		return SV{c.ex.arrElem(c.st, v, i), v.T.Elem()}
	}
	c.fail(e, "cannot index %T", x.v)
	return SV{}
}

var bvCnt int

func (c *Ctx) eval(e *Expr) SV {
	switch e.op {
	case "num":
		return SV{Num(e.num), nil}
	case "str":
		return SV{c.ex.strLit(c.st, e.name), types.Typ[types.String]}
	case "id":
		v, ok := c.ident(e)
		if !ok {
			c.fail(e, "unknown name %s", e.name)
		}
		return v
	case "field":
		return c.field(e)
	case "index":
		return c.index(e)
	case "slice":
		x := c.eval(e.args[0])
		var lo, hi *Term
		lo = I(0)
		if e.args[1] != nil {
			lo = c.integer(e.args[1])
		}
		switch v := x.v.(type) {
		case *SliceV:
			hi = v.Len
			if e.args[2] != nil {
				hi = c.integer(e.args[2])
			}
			return SV{&SliceV{v.Arr, Add(v.Off, lo), Sub(hi, lo), Sub(v.Cap, lo)}, x.t}
		case *StrV:
			hi = v.Len
			if e.args[2] != nil {
				hi = c.integer(e.args[2])
			}
			return SV{&StrV{v.Arr, Add(v.Off, lo), Sub(hi, lo)}, x.t}
		}
		c.fail(e, "slice of %T", x.v)
	case "un":
		if e.name == "!" {
			return SV{Not(c.boolean(e.args[0])), nil}
		}
		if e.name == "*" {
			x := c.eval(e.args[0])
			pe := ptrElem(x.t)
			if pe == nil {
				c.fail(e, "dereference of a non pointer")
			}
			return SV{c.ex.load(c.st, x.v.(*Term), pe), pe}
		}
		return SV{Neg(c.integer(e.args[0])), nil}
	case "if":
		k := c.boolean(e.args[0])
		a, b := c.eval(e.args[1]), c.eval(e.args[2])
		return SV{iteVal(k, a.v, b.v), a.t}
	case "forall", "exists":
		bvCnt++
		n := fmt.Sprintf("%s?%d", e.name, bvCnt)
		var body, bv *Term
		if e.typ != "" {
			if e.typ == "int" {
				bv = BoundVar(n, SInt)
				body = c.bindVar(e.name, SV{bv, nil}).boolean(e.args[0])
			} else {
				t := c.lookupType(c.pkg, e.typ)
				if _, isI := t.Underlying().(*types.Interface); isI {
					tv, dv := BoundVar(n+"t", SInt), BoundVar(n+"d", SLoc)
					body = c.bindVar(e.name, SV{&IfaceV{tv, dv}, t}).boolean(e.args[0])
					if e.op == "exists" {
						return SV{Not(Forall([]*Term{tv, dv}, Not(body))), nil}
					}
					return SV{Forall([]*Term{tv, dv}, body), nil}
				}
				if lo, hi, _, _, isInt := intRange(t); isInt {
					bv = BoundVar(n, SInt)
					rng := And(Le(Num(lo), bv), Le(bv, Num(hi)))
					b := c.bindVar(e.name, SV{bv, t}).boolean(e.args[0])
					if e.op == "exists" {
						return SV{Not(Forall([]*Term{bv}, Or(Not(rng), Not(b)))), nil}
					}
					return SV{Forall([]*Term{bv}, Or(Not(rng), b)), nil}
				}
				bv = BoundVar(n, SLoc)
				body = c.bindVar(e.name, SV{bv, t}).boolean(e.args[0])
			}
			if e.op == "exists" {
				return SV{Not(Forall([]*Term{bv}, Not(body))), nil}
			}
			return SV{Forall([]*Term{bv}, body), nil}
		}
		bv = BoundVar(n, SInt)
		lo, hi := c.integer(e.args[0]), c.integer(e.args[1])
		if lo.isConst() && hi.isConst() {
			d := new(big.Int).Sub(hi.K, lo.K)
			if d.Cmp(bi(24)) <= 0 {
				var ts []*Term
				for i := new(big.Int).Set(lo.K); i.Cmp(hi.K) < 0; i = new(big.Int).Add(i, bOne) {
					ts = append(ts, c.bindVar(e.name, SV{Num(i), nil}).boolean(e.args[2]))
				}
				if e.op == "forall" {
					return SV{And(ts...), nil}
				}
				return SV{Or(ts...), nil}
			}
		}
		body = c.bindVar(e.name, SV{bv, nil}).boolean(e.args[2])
		rng := And(Le(lo, bv), Lt(bv, hi))
		if e.op == "exists" {
			return SV{Not(Forall([]*Term{bv}, Not(And(rng, body)))), nil}
		}
		return SV{Forall([]*Term{bv}, Implies(rng, body)), nil}
	case "bin":
		return c.bin(e)
	case "call":
		return c.call(e)
	}
	c.fail(e, "cannot evaluate %s", e.op)
	return SV{}
}

func (c *Ctx) bin(e *Expr) SV {
	switch e.name {
	case "&&":
		return SV{And(c.boolean(e.args[0]), c.boolean(e.args[1])), nil}
	case "||":
		return SV{Or(c.boolean(e.args[0]), c.boolean(e.args[1])), nil}
	case "==>":
		return SV{Implies(c.boolean(e.args[0]), c.boolean(e.args[1])), nil}
	case "<==>":
		return SV{Iff(c.boolean(e.args[0]), c.boolean(e.args[1])), nil}
	case "==", "!=":
		a, b := c.eval(e.args[0]), c.eval(e.args[1])
		t := c.equal(e, a, b)
		if e.name == "!=" {
			t = Not(t)
		}
		return SV{t, nil}
	}
	a, b := c.integer(e.args[0]), c.integer(e.args[1])
	switch e.name {
	case "<":
		return SV{Lt(a, b), nil}
	case "<=":
		return SV{Le(a, b), nil}
	case ">":
		return SV{Gt(a, b), nil}
	case ">=":
		return SV{Ge(a, b), nil}
	case "+":
		return SV{Add(a, b), nil}
	case "-":
		return SV{Sub(a, b), nil}
	case "*":
		return SV{Mul(a, b), nil}
	case "/":
		return SV{DivT(a, b), nil}
	case "%":
		return SV{ModT(a, b), nil}
	case "<<":
		if b.isConst() {
			return SV{MulC(a, pow2(uint(b.K.Uint64()))), nil}
		}
	case ">>":
		if b.isConst() {
			return SV{Div(a, pow2(uint(b.K.Uint64()))), nil}
		}
	case "&":
		return SV{BitAnd(a, b), nil}
	case "|":
		return SV{BitOr(a, b), nil}
	}
	c.fail(e, "operator %s", e.name)
	return SV{}
}

func isNilSV(s SV) bool {
	b, ok := s.t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (c *Ctx) equal(e *Expr, a, b SV) *Term {
	if isNilSV(a) {
		a, b = b, a
	}
	if isNilSV(b) {
		switch x := a.v.(type) {
		case *Term:
			if x.Sort != SLoc {
				c.fail(e, "comparison with nil")
			}
			return Eq(x, Null)
		case *IfaceV:
			return Eq(x.Typ, I(0))
		case *SliceV:
			return Eq(x.Arr, Null)
		}
		c.fail(e, "comparison with nil")
	}
	return c.deepEq(e, a.v, b.v)
}

// deepEq is identity of representation: same slice window, same pointers.
func (c *Ctx) deepEq(e *Expr, a, b Val) *Term {
	switch x := a.(type) {
	case *StructV:
		y, ok := b.(*StructV)
		if !ok {
			break
		}
		r := True
		for i := range x.F {
			r = And(r, c.deepEq(e, x.F[i], y.F[i]))
		}
		return r
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			break
		}
		if x.Sort != y.Sort {
			c.fail(e, "comparison of different sorts")
		}
		return Eq(x, y)
	default:
		xl := toLeaves(a)
		yl := toLeaves(b)
		if len(xl) != len(yl) {
			break
		}
		r := True
		for i := range xl {
			r = And(r, Eq(xl[i], yl[i]))
		}
		return r
	}
	c.fail(e, "comparison of %T and %T", a, b)
	return nil
}

func (c *Ctx) call(e *Expr) SV {
	arg := func(i int) SV { return c.eval(e.args[i]) }
	need := func(n int) {
		if len(e.args) != n {
			c.fail(e, "%s needs %d arguments", e.name, n)
		}
	}
	switch e.name {
	case "old":
		need(1)
		return c.evalIn(c.old, e.args[0])
	case "pre":
		need(1)
		return c.evalIn(c.pre, e.args[0])
	case "len", "cap", "off", "arr":
		need(1)
		switch x := arg(0).v.(type) {
		case *SliceV:
			return SV{map[string]*Term{"len": x.Len, "cap": x.Cap, "off": x.Off, "arr": x.Arr}[e.name], nil}
		case *StrV:
			return SV{map[string]*Term{"len": x.Len, "cap": x.Len, "off": x.Off, "arr": x.Arr}[e.name], nil}
		case *Term:
			if e.name == "arr" {
				return SV{x, nil}
			}
			if a := arg(0); a.t != nil && e.name == "cap" {
				if _, ok := a.t.Underlying().(*types.Chan); ok {
					return SV{App("chancap", SInt, bZero, maxLen, nil, x), nil}
				}
			}
		}
		if a := arg(0); a.t != nil {
			if u, ok := a.t.Underlying().(*types.Array); ok {
				return SV{I(u.Len()), nil}
			}
		}
		c.fail(e, "%s of %T", e.name, arg(0).v)
	case "le": // le(s, off, nbytes): little-endian value
		need(3)
		n := c.integer(e.args[2])
		s := e.args[0]
		sum := I(0)
		o := c.integer(e.args[1])
		if !n.isConst() {
			c.fail(e, "constant width expected")
		}
		sv := c.eval(s)
		for k := int64(0); k < n.K.Int64(); k++ {
			b := c.byteAt(e, sv, Add(o, I(k)))
			sum = Add(sum, MulC(b, pow2(uint(8*k))))
		}
		return SV{sum, nil}
	case "byteof": // byteof(x, k)
		need(2)
		x := c.integer(e.args[0])
		k := c.integer(e.args[1])
		if k.isConst() {
			return SV{Mod(Div(x, pow2(uint(8*k.K.Int64()))), bi(256)), nil}
		}
		c.fail(e, "constant byte number expected")
	case "mod2":
		need(2)
		n := c.integer(e.args[1])
		return SV{Mod(c.integer(e.args[0]), pow2(uint(n.K.Uint64()))), nil}
	case "sext": // sext(x, bits): x mod 2^bits as signed
		need(2)
		n := c.integer(e.args[1])
		return SV{wrap(c.integer(e.args[0]), uint(n.K.Uint64()), true), nil}
	case "fresh": // allocated during the call
		need(1)
		l := c.loc(e.args[0])
		return SV{And(Ne(l, Null), Lt(rootBound(l), I(int64(c.ceil)))), nil}
	case "root":
		need(1)
		return SV{rootBound(c.loc(e.args[0])), nil}
	case "oldobj": // existed before the call
		need(1)
		l := c.loc(e.args[0])
		return SV{Ge(rootBound(l), I(int64(c.ceil))), nil}
	case "dataof": // the pointer inside an interface value
		need(1)
		iv, ok := arg(0).v.(*IfaceV)
		if !ok {
			c.fail(e, "interface expected")
		}
		return SV{iv.Data, nil}
	case "typeis":
		need(2)
		iv, ok := arg(0).v.(*IfaceV)
		if !ok {
			c.fail(e, "interface expected")
		}
		t := c.lookupType(c.pkg, e.args[1].name)
		return SV{Eq(iv.Typ, I(int64(c.ex.prog.typeID(t)))), nil}
	case "implements":
		need(2)
		iv := arg(0).v.(*IfaceV)
		t := c.lookupType(c.pkg, e.args[1].name)
		return SV{And(Ne(iv.Typ, I(0)), c.ex.prog.implements(iv.Typ, t)), nil}
	case "made": // the object of that type made last by the function being verified
		need(1)
		t := c.lookupType(c.pkg, e.args[0].name)
		l, ok := c.st.ghost["made:"+t.String()].(*Term)
		if !ok {
			c.fail(e, "no such object yet")
		}
		return SV{l, types.NewPointer(t)}
	case "local": // the variable of that type declared at the top of the function being verified
		need(1)
		t := c.lookupType(c.pkg, e.args[0].name)
		l := c.ex.locals[t.String()]
		if l == nil {
			c.fail(e, "no such variable yet")
		}
		return SV{l, types.NewPointer(t)}
	case "cast": // cast(iface, "T"): the concrete value assuming the dynamic type
		need(2)
		t := c.lookupType(c.pkg, e.args[1].name)
		switch x := arg(0).v.(type) {
		case *IfaceV:
			if _, isI := t.Underlying().(*types.Interface); isI {
				return SV{x, t}
			}
			return SV{c.ex.unbox(c.st, x, t), t}
		case *Term:
			return SV{x, t}
		}
		c.fail(e, "cast")
	case "data":
		need(1)
		return SV{arg(0).v.(*IfaceV).Data, nil}
	case "dyntype":
		need(1)
		return SV{arg(0).v.(*IfaceV).Typ, nil}
	case "addr": // address of a field path
		need(1)
		a, t := c.addrOf(e.args[0])
		if t != nil {
			return SV{a, types.NewPointer(t)}
		}
		return SV{a, nil}
	case "haskey":
		need(2)
		m := arg(0)
		mt := m.t.Underlying().(*types.Map)
		k := c.ex.mapKey(c.st, arg(1).v)
		_, in := c.ex.mapGet(c.st, m.v.(*Term), mt, k)
		return SV{in, nil}
	case "visited": // visited(k): the enclosing map iteration has been at k
		need(1)
		x, ok := c.env["$it"]
		if !ok {
			c.fail(e, "visited outside an iteration")
		}
		vm := c.ex.memOf(c.st, "V:visited", true, leaf{"", SBool, nil, nil})
		return SV{vm.read(x.v.(*Term), c.ex.mapKey(c.st, arg(0).v)), nil}
	case "unchanged":
		r := True
		for _, a := range e.args {
			x := c.eval(a)
			y := c.evalIn(c.old, a)
			r = And(r, c.deepEq(e, x.v, y.v))
		}
		return SV{r, nil}
	case "held": // held(lockaddr owner expression): this thread holds a lock of this object
		need(1)
		l := c.loc(e.args[0])
		r := False
		for _, h := range c.st.held {
			r = Or(r, Eq(h.base, l))
		}
		return SV{r, nil}
	case "private": // an object made by this function which no other thread can reach yet
		need(1)
		return SV{B(c.ex.private(c.st, c.loc(e.args[0]))), nil}
	case "lockinv": // lockinv(x): the invariant of the lock of x
		need(1)
		return SV{c.ex.lockInv(c, arg(0)), nil}
	case "elof", "elix": // of the address of an element of an array field: the struct, the index
		need(map[string]int{"elof": 2, "elix": 1}[e.name])
		l := c.loc(e.args[0])
		var rec func(l *Term) *Term
		rec = func(l *Term) *Term {
			if l.Op == OIte {
				return Ite(l.Args[0], rec(l.Args[1]), rec(l.Args[2]))
			}
			if l.Op != OEl || l.Args[0].Op != OEmb {
				c.fail(e, "not an element of an array of a struct")
			}
			if e.name == "elix" {
				return l.Args[1]
			}
			return l.Args[0].Args[0]
		}
		if e.name == "elix" {
			return SV{rec(l), nil}
		}
		return SV{rec(l), types.NewPointer(c.lookupType(c.pkg, e.args[1].name))}
	case "embof": // embof(iface, "T"): the T embedded in the dynamic value
		need(2)
		t := c.lookupType(c.pkg, e.args[1].name)
		x := arg(0)
		iv, ok := x.v.(*IfaceV)
		if !ok {
			if l, ok := x.v.(*Term); ok && x.t != nil {
				if r := c.ex.embPath(l, x.t, t); r != nil {
					return SV{r, t}
				}
			}
			c.fail(e, "interface expected")
		}
		return SV{c.ex.embOf(iv, t), t}
	case "str":
		need(1)
		return arg(0)
	case "min", "max":
		need(2)
		a, b := c.integer(e.args[0]), c.integer(e.args[1])
		if e.name == "min" {
			return SV{Ite(Le(a, b), a, b), nil}
		}
		return SV{Ite(Le(a, b), b, a), nil}
	case "ghostv":
		need(1)
		if v, ok := c.st.ghost[e.args[0].name]; ok {
			return SV{v, nil}
		}
		return SV{I(0), nil}
	case "isfn": // isfn(f, "name"): the function value is this function
		need(2)
		t := arg(0).v.(*Term)
		if fi := c.ex.fnInfo[t]; fi != nil {
			return SV{B(strings.HasSuffix(strings.TrimSuffix(fmt.Sprint(fi.fn), "$thunk"), e.args[1].name)), nil}
		}
		if fn := c.ex.prog.fnOf(t); fn != nil {
			return SV{B(strings.HasSuffix(strings.TrimSuffix(fn.String(), "$thunk"), "."+e.args[1].name)), nil}
		}
		return SV{FreshBool("isfn"), nil}
	}
	if strings.HasPrefix(e.name, "refl_") {
		var as []SV
		for i := range e.args {
			as = append(as, arg(i))
		}
		return c.reflCall(e, e.name[5:], as)
	}
	if strings.HasPrefix(e.name, "uf_") || strings.HasPrefix(e.name, "up_") || strings.HasPrefix(e.name, "ur_") { // uninterpreted specification function
		var as []*Term
		for i := range e.args {
			switch x := arg(i).v.(type) {
			case *StructV:
				as = append(as, flatVal(x)...)
			default:
				as = append(as, toLeaves(x)...)
			}
		}
		if e.name[1] == 'p' {
			return SV{App(e.name, SBool, nil, nil, nil, as...), nil}
		}
		if e.name[1] == 'r' {
			return SV{App(e.name, SLoc, nil, nil, nil, as...), nil}
		}
		return SV{App(e.name, SInt, nil, nil, nil, as...), nil}
	}
	if p := c.ex.prog.spec.preds[e.name]; p != nil {
		if len(p.params) != len(e.args) {
			c.fail(e, "predicate %s needs %d arguments", e.name, len(p.params))
		}
		if c.depth > 30 {
			c.fail(e, "predicate recursion")
		}
		env := map[string]SV{}
		for i, n := range p.params {
			env[n] = c.eval(e.args[i])
		}
		n := *c
		n.env = env
		n.pkg = p.pkg
		n.depth++
		return n.eval(p.body)
	}
	c.fail(e, "unknown function %s", e.name)
	return SV{}
}

func rootBound(l *Term) *Term {
	switch l.Op {
	case OEmb, OEl:
		return rootBound(l.Args[0])
	case OObj:
		return l.Args[0]
	case ONull:
		return I(0)
	case OIte:
		return Ite(l.Args[0], rootBound(l.Args[1]), rootBound(l.Args[2]))
	}
	var lo *big.Int
	if l.hasMR {
		lo = bi(int64(l.minRoot))
	}
	return App("root", SInt, lo, nil, nil, l)
}

func (c *Ctx) byteAt(e *Expr, s SV, i *Term) *Term {
	switch v := s.v.(type) {
	case *SliceV:
		if s.t == nil {
			m := c.ex.memOf(c.st, "G:seq", true, leaf{"", SInt, nil, nil})
			return m.read(v.Arr, Add(v.Off, i))
		}
		m := c.ex.memOf(c.st, "E:uint8", true, leaf{"", SInt, bZero, bi(255)})
		return m.read(v.Arr, Add(v.Off, i))
	case *StrV:
		return c.ex.strByte(c.st, v, i)
	}
	c.fail(e, "bytes expected")
	return nil
}

// addrOf gives the address and type of an lvalue expression.
func (c *Ctx) addrOf(e *Expr) (*Term, types.Type) {
	switch e.op {
	case "field":
		x := c.eval(e.args[0])
		if v, ok := x.v.(*Term); ok {
			pe := ptrElem(x.t)
			if pe == nil {
				pe = x.t
			}
			base, sty, i, ok := c.findField(v, pe, e.name)
			if ok {
				return c.ex.prog.emb(base, sty, i), sty.Underlying().(*types.Struct).Field(i).Type()
			}
		}
	case "index":
		x := c.eval(e.args[0])
		if v, ok := x.v.(*Term); ok && x.t != nil {
			if at, isA := x.t.Underlying().(*types.Array); isA {
				return El(v, c.integer(e.args[1])), at.Elem()
			}
		}
		if v, ok := x.v.(*ArrV); ok && x.t != nil {
			if at, isA := x.t.Underlying().(*types.Array); isA {
				return El(v.Loc, c.integer(e.args[1])), at.Elem()
			}
		}
		if v, ok := x.v.(*SliceV); ok {
			return El(v.Arr, Add(v.Off, c.integer(e.args[1]))), x.t.Underlying().(*types.Slice).Elem()
		}
		if v, ok := x.v.(*Term); ok {
			if pe := ptrElem(x.t); pe != nil {
				if at, isA := pe.Underlying().(*types.Array); isA {
					return El(v, c.integer(e.args[1])), at.Elem()
				}
			}
		}
	case "un":
		if e.name == "*" {
			x := c.eval(e.args[0])
			return x.v.(*Term), ptrElem(x.t)
		}
	case "id":
		x := c.eval(e)
		if pe := ptrElem(x.t); pe != nil {
			return x.v.(*Term), pe
		}
	}
	c.fail(e, "not an lvalue")
	return nil, nil
}

// ---- modifies clauses ----
type modSet struct {
	all    bool
	shield bool // the data under locks of this thread stay as they are
	yield  bool
	fixed  bool // no more regions are added
	regs   map[string][]Region
	elem   map[string]leaf // memories and their leaf (to materialise them)
	isEl   map[string]bool
}

func newModSet() *modSet {
	return &modSet{regs: map[string][]Region{}, elem: map[string]leaf{}, isEl: map[string]bool{}}
}
func (m *modSet) add(name string, el bool, l leaf, r Region) {
	m.regs[name] = append(m.regs[name], r)
	m.elem[name] = l
	m.isEl[name] = el
}

// addLoc adds everything stored at address a of type t (deep into embedded structs).
func (m *modSet) addLoc(c *Ctx, a *Term, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			m.addField(c, a, t, i)
		}
		return
	case *types.Array:
		m.addElems(c, a, u.Elem(), I(0), I(u.Len()))
		return
	}
	if a.Op == OEmb {
		f, _ := c.ex.prog.embField(a, t)
		m.addField(c, a.Args[0], f.styp, f.idx)
		return
	}
	if a.Op == OEl {
		m.addElems(c, a.Args[0], t, a.Args[1], Add(a.Args[1], I(1)))
		return
	}
	for _, l := range leaves(t) {
		m.add("C:"+typeKey(t)+l.suf, false, l, Region{loc: a})
	}
}
func (m *modSet) addField(c *Ctx, base *Term, sty types.Type, i int) {
	ft := sty.Underlying().(*types.Struct).Field(i).Type()
	switch ft.Underlying().(type) {
	case *types.Struct, *types.Array:
		m.addLoc(c, c.ex.prog.emb(base, sty, i), ft)
		return
	}
	n := fieldMemName(sty, i)
	for _, l := range leaves(ft) {
		m.add(n+l.suf, false, l, Region{loc: base})
	}
}

// addElems adds elements [lo,hi) of the array at arr.
func (m *modSet) addElems(c *Ctx, arr *Term, et types.Type, lo, hi *Term) {
	switch et.Underlying().(type) {
	case *types.Struct:
		m.addStructElems(c, arr, et, lo, hi)
		return
	case *types.Array:
		panic(evalErr{"modifies: array of arrays"})
	}
	for _, l := range leaves(et) {
		m.add("E:"+elemKey(et)+l.suf, true, l, Region{loc: arr, lo: lo, hi: hi})
	}
}
func (m *modSet) addStructElems(c *Ctx, arr *Term, et types.Type, lo, hi *Term) {
	s := et.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		switch ft.Underlying().(type) {
		case *types.Struct:
			// fields of embedded structs: located at emb(el(arr,_),i)
			m.addStructElems(c, arr, ft, lo, hi)
			continue
		case *types.Array:
			continue
		}
		n := fieldMemName(et, i)
		for _, l := range leaves(ft) {
			m.add(n+l.suf, false, l, Region{elOf: arr})
		}
	}
}

func (c *Ctx) modifies(cls []*Clause) *modSet {
	m := newModSet()
	for _, cl := range cls {
		for _, e := range cl.list {
			c.modExpr(m, e)
		}
	}
	return m
}

func (c *Ctx) modExpr(m *modSet, e *Expr) {
	switch e.op {
	case "all":
		m.all = true
		return
	case "call":
		switch e.name {
		case "elems", "spare", "buffer":
			x := c.eval(e.args[0])
			s, ok := x.v.(*SliceV)
			if !ok {
				c.fail(e, "slice expected")
			}
			et := types.Type(types.Typ[types.Uint8])
			if x.t != nil {
				et = x.t.Underlying().(*types.Slice).Elem()
			} else {
				m.add("G:seq", true, leaf{"", SInt, nil, nil}, Region{loc: s.Arr})
				return
			}
			lo, hi := s.Off, Add(s.Off, s.Len)
			if e.name == "spare" {
				lo, hi = Add(s.Off, s.Len), Add(s.Off, s.Cap)
			}
			if e.name == "buffer" {
				hi = Add(s.Off, s.Cap)
			}
			if len(e.args) == 3 {
				lo, hi = Add(s.Off, c.integer(e.args[1])), Add(s.Off, c.integer(e.args[2]))
			}
			m.addElems(c, s.Arr, et, lo, hi)
			return
		case "allof": // allof("pkg.Type.field"): that field of every object
			n := e.args[0].name
			i := strings.LastIndexByte(n, '.')
			t := c.lookupType(c.pkg, n[:i])
			if strings.HasPrefix(n[i+1:], "$") {
				g := c.ex.prog.spec.ghosts[structKey(t)+"."+n[i+1:]]
				if strings.HasPrefix(g.typ, "[]") {
					m.add("G:seq", true, leaf{"", SInt, nil, nil}, Region{all: true})
					return
				}
				m.add("G:"+structKey(t)+"."+n[i+1:], false, ghostLeaf(g.typ), Region{all: true})
				return
			}
			s := t.Underlying().(*types.Struct)
			for k := 0; k < s.NumFields(); k++ {
				if s.Field(k).Name() == n[i+1:] || n[i+1:] == "all" {
					ft := s.Field(k).Type()
					switch ft.Underlying().(type) {
					case *types.Struct, *types.Array:
						continue
					}
					for _, l := range leaves(ft) {
						m.add(fieldMemName(t, k)+l.suf, false, l, Region{all: true})
					}
				}
			}
			return
		case "allelems": // allelems("T")
			t := c.lookupType(c.pkg, e.args[0].name)
			for _, l := range leaves(t) {
				m.add("E:"+elemKey(t)+l.suf, true, l, Region{all: true})
			}
			return
		case "mapof": // the contents of a map
			x := c.eval(e.args[0])
			mt := x.t.Underlying().(*types.Map)
			c.ex.mapDom(c.st, mt)
			m.add("M:"+mapNames(mt)+":dom", true, leaf{"", SBool, nil, nil}, Region{loc: x.v.(*Term)})
			for _, l := range c.ex.mapValLeaves(mt.Elem()) {
				m.add("M:"+mapNames(mt)+":val"+l.suf, true, l, Region{loc: x.v.(*Term)})
			}
			return
		case "object": // everything allocated together with it
			l := c.loc(e.args[0])
			for n, mm := range c.st.mem {
				m.add(n, mm.info.elem, leaf{"", mm.info.sort, mm.info.lo, mm.info.hi}, Region{root: l})
			}
			return
		case "ghostvar":
			return
		}
	case "field":
		if e.name == "all" {
			x := c.eval(e.args[0])
			t := x.t
			if pe := ptrElem(t); pe != nil {
				t = pe
			}
			m.addLoc(c, x.v.(*Term), t)
			return
		}
		if strings.HasPrefix(e.name, "$") {
			x := c.eval(e.args[0])
			t := x.t
			var l *Term
			switch v := x.v.(type) {
			case *Term:
				l = v
				if pe := ptrElem(t); pe != nil {
					t = pe
				}
			case *IfaceV:
				l = v.Data
			}
			g := c.ex.prog.spec.ghosts[structKey(t)+"."+e.name]
			if g == nil {
				c.fail(e, "no ghost field %s on %s", e.name, structKey(t))
			}
			if strings.HasPrefix(g.typ, "[]") {
				m.add("G:seq", true, leaf{"", SInt, nil, nil}, Region{loc: c.ex.prog.ghostEmb(structKey(t)+"."+e.name, l)})
				return
			}
			m.add("G:"+structKey(t)+"."+e.name, false, ghostLeaf(g.typ), Region{loc: l})
			return
		}
	}
	a, t := c.addrOf(e)
	m.addLoc(c, a, t)
}

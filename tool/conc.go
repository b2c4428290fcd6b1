package main

// Concurrency: thread-modular reasoning. A function is verified for one thread against
// everything the other threads may do: data guarded by a lock may be anything its invariant
// (and rely) allows at each acquisition, atomic fields may move along their rely relation
// between any two accesses, and what this thread writes must stay inside its guarantee.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- privacy: objects made here that no other thread can reach yet ----

func escKey(r int) string { return fmt.Sprintf("esc%d", r) }

func (ex *Exec) private(st *State, l *Term) bool {
	r, ok := concRoot(l)
	return ok && r < 0 && st.ghost[escKey(r)] == nil
}

// privT: t is some object made here and not known to others; root is the object it was
// before the loop (0: none).
type privT struct {
	t    *Term
	root int
}

func (st *State) dropPriv(f func(p privT) bool) {
	var n []privT
	for _, p := range st.priv {
		if !f(p) {
			n = append(n, p)
		}
	}
	st.priv = n
}

// privSym: a value that is, or was read from, such an object.
func (st *State) isPrivSym(l *Term) bool {
	for _, p := range st.priv {
		if p.t == l {
			return true
		}
	}
	return false
}

func baseOf(l *Term) *Term {
	for l.Op == OEmb || l.Op == OEl {
		l = l.Args[0]
	}
	return l
}

func (ex *Exec) escapeRoot(st *State, r int) {
	if r >= 0 || st.ghost[escKey(r)] != nil {
		return
	}
	st.dropPriv(func(p privT) bool { return p.root == r })
	st.ghost[escKey(r)] = True
	ex.escapeEdges(st, r)
}

// escapeEdges: what object r holds becomes known to others.
func (ex *Exec) escapeEdges(st *State, r int) {
	pre := fmt.Sprintf("edge%d>", r)
	for k := range st.ghost {
		if strings.HasPrefix(k, pre) {
			var n int
			fmt.Sscan(k[len(pre):], &n)
			ex.escapeRoot(st, n)
		}
	}
}

func (ex *Exec) escape(st *State, v Val) {
	switch x := v.(type) {
	case *Term:
		if x.Sort != SLoc {
			return
		}
		if x.Op == OIte {
			ex.escape(st, x.Args[1])
			ex.escape(st, x.Args[2])
			return
		}
		if _, ok := concRoot(x); !ok && x.Op != ONull && len(st.priv) > 0 {
			b := baseOf(x)
			st.dropPriv(func(p privT) bool { return p.t == b })
		}
		if r, ok := concRoot(x); ok {
			ex.escapeRoot(st, r)
			if fi := ex.fnInfo[x]; fi != nil {
				for _, b := range fi.bind {
					ex.escape(st, b)
				}
			}
		}
	case *ArrV, nil, *IterV:
	default:
		for _, t := range flatVal(v) {
			ex.escape(st, t)
		}
	}
}
func (ex *Exec) escapeAll(st *State, vs []Val) {
	for _, v := range vs {
		ex.escape(st, v)
	}
}

// stored: v has been written at p.
func (ex *Exec) stored(st *State, p *Term, v Val) {
	if !ex.private(st, p) {
		ex.escape(st, v)
		return
	}
	d, _ := concRoot(p)
	var rec func(v Val)
	rec = func(v Val) {
		switch x := v.(type) {
		case *Term:
			if x.Sort != SLoc {
				return
			}
			if x.Op == OIte {
				rec(x.Args[1])
				rec(x.Args[2])
				return
			}
			if b := baseOf(x); st.isPrivSym(b) {
				// not followed into what holds it
				st.dropPriv(func(p privT) bool { return p.t == b })
			}
			if r, ok := concRoot(x); ok && r < 0 && r != d {
				st.ghost[fmt.Sprintf("edge%d>%d", d, r)] = True
			}
		case *ArrV, nil, *IterV:
		default:
			for _, t := range flatVal(v) {
				rec(t)
			}
		}
	}
	rec(v)
}

// shared returns the condition that l is reachable by other threads now.
func (ex *Exec) shared(st *State) func(l *Term) *Term {
	priv := st.priv
	esc := map[int]bool{}
	for k := range st.ghost {
		var n int
		if strings.HasPrefix(k, "esc") {
			fmt.Sscan(k[3:], &n)
			esc[n] = true
		}
	}
	return func(l *Term) *Term {
		r, ok := concRoot(l)
		if ok {
			return B(!(r < 0 && !esc[r]))
		}
		c := True
		b := baseOf(l)
		for _, p := range priv {
			c = And(c, Ne(b, p.t))
		}
		return c
	}
}

// ---- declarations ----

func (ex *Exec) fieldKey(p *Term) (key string, base *Term, f fieldRef, ok bool) {
	if p.Op != OEmb {
		return
	}
	f, ok = ex.prog.embField(p, nil)
	if !ok || f.styp == nil {
		return "", nil, f, false
	}
	s, isS := f.styp.Underlying().(*types.Struct)
	if !isS {
		return "", nil, f, false
	}
	return structKey(f.styp) + "." + s.Field(f.idx).Name(), p.Args[0], f, true
}

// guardOf finds the lock guarding a field of a struct.
func (ex *Exec) guardOf(key string) *LockDecl {
	for _, d := range ex.prog.spec.locks {
		if strings.HasPrefix(key, d.styp+".") && d.guards[key[len(d.styp)+1:]] {
			return d
		}
	}
	return nil
}

func (ex *Exec) heldDecl(st *State, d *LockDecl, base *Term) *Term {
	r := False
	for _, h := range st.held {
		if h.decl == d {
			r = Or(r, Eq(h.base, base))
		}
	}
	return r
}

func (ex *Exec) selfEnv(pkg, styp, self string, base *Term) (map[string]SV, types.Type) {
	c := &Ctx{ex: ex, pkg: pkg}
	t := c.lookupType(pkg, styp)
	return map[string]SV{self: {base, types.NewPointer(t)}}, t
}

func (ex *Exec) lockInv(c *Ctx, x SV) *Term {
	t := x.t
	if pe := ptrElem(t); pe != nil {
		t = pe
	}
	r := True
	for _, k := range sortedStr(ex.prog.spec.locks) {
		d := ex.prog.spec.locks[k]
		if d.styp != structKey(t) {
			continue
		}
		env, _ := ex.selfEnv(d.pkg, d.styp, d.self, x.v.(*Term))
		n := *c
		n.env = env
		n.pkg = d.pkg
		n.depth++
		for _, cl := range d.inv {
			r = And(r, n.boolean(cl.e))
		}
	}
	return r
}

func sortedStr(m map[string]*LockDecl) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sortStrings(r)
	return r
}

// embPath: the location of the struct of type t embedded in the value at l of pointer type pt.
func (ex *Exec) embPath(l *Term, pt types.Type, t types.Type) *Term {
	pe := ptrElem(pt)
	if pe == nil {
		pe = pt
	}
	if types.Identical(pe, t) {
		return l
	}
	s, ok := pe.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Embedded() {
			if _, isS := f.Type().Underlying().(*types.Struct); isS {
				if r := ex.embPath(ex.prog.emb(l, pe, i), types.NewPointer(f.Type()), t); r != nil {
					return r
				}
			}
		}
	}
	return nil
}

func (ex *Exec) embOf(iv *IfaceV, t types.Type) *Term {
	if iv.Typ.Op == OIte {
		c := iv.Typ.Args[0]
		pick := func(x *Term, k int) *Term {
			if x.Op == OIte && x.Args[0] == c {
				return x.Args[k]
			}
			return x
		}
		return Ite(c, ex.embOf(&IfaceV{pick(iv.Typ, 1), pick(iv.Data, 1)}, t), ex.embOf(&IfaceV{pick(iv.Typ, 2), pick(iv.Data, 2)}, t))
	}
	if iv.Typ.isConst() {
		id := int(iv.Typ.K.Int64())
		if id == 0 {
			return Null
		}
		if id < len(ex.prog.typeBy) {
			if r := ex.embPath(iv.Data, ex.prog.typeBy[id], t); r != nil {
				return r
			}
		}
	}
	lo := 0
	if iv.Data.hasMR {
		lo = iv.Data.minRoot
	} else if r, ok := concRoot(iv.Data); ok {
		lo = r
	} else {
		lo = ex.minRoot()
	}
	return App("embof:"+typeKey(t), SLoc, nil, nil, &lo, iv.Typ, iv.Data)
}

// ---- ghost assignment ----

func (ex *Exec) ghostAssign(c *Ctx, cl *Clause) {
	lhs, rhs := cl.list[0], c.eval(cl.list[1])
	v, ok := rhs.v.(*Term)
	if !ok {
		if iv, isI := rhs.v.(*IfaceV); isI {
			v = iv.Data
		} else {
			c.fail(lhs, "ghost values are scalars")
		}
	}
	if lhs.op == "index" {
		x := c.eval(lhs.args[0])
		s, ok := x.v.(*SliceV)
		if !ok || x.t != nil {
			c.fail(lhs, "ghost sequence expected")
		}
		m := ex.memOf(c.st, "G:seq", true, leaf{"", SInt, nil, nil})
		c.st.mem["G:seq"] = m.store(s.Arr, c.integer(lhs.args[1]), v)
		return
	}
	if lhs.op != "field" || !strings.HasPrefix(lhs.name, "$") {
		c.fail(lhs, "only ghost fields can be assigned")
	}
	x := c.eval(lhs.args[0])
	t := x.t
	var l *Term
	switch b := x.v.(type) {
	case *Term:
		l = b
		if pe := ptrElem(t); pe != nil {
			t = pe
		}
	case *IfaceV:
		l = b.Data
	}
	g := ex.prog.spec.ghosts[structKey(t)+"."+lhs.name]
	if g == nil {
		c.fail(lhs, "no ghost field %s on %s", lhs.name, structKey(t))
	}
	n := "G:" + structKey(t) + "." + lhs.name
	c.st.mem[n] = ex.memOf(c.st, n, false, ghostLeaf(g.typ)).store(l, nil, v)
}

// ---- atomics ----

func (ex *Exec) atomicName(d *AtomicDecl) (string, leaf) {
	c := &Ctx{ex: ex, pkg: d.pkg}
	t := c.lookupType(d.pkg, d.styp)
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == d.field {
			l := leaves(s.Field(i).Type())[0]
			return fieldMemName(t, i) + l.suf, l
		}
	}
	ex.abort("no field %s.%s", d.styp, d.field)
	return "", leaf{}
}

func (ex *Exec) atomicHeld(st *State, d *AtomicDecl, base *Term) *Term {
	r := False
	for _, h := range st.held {
		if h.decl != nil && h.decl.styp == d.styp {
			r = Or(r, Eq(h.base, base))
		}
	}
	return r
}

func (ex *Exec) atomicCtx(st *State, d *AtomicDecl, base, old, nv *Term, held *Term) *Ctx {
	env, _ := ex.selfEnv(d.pkg, d.styp, d.self, base)
	env["$old"] = SV{old, nil}
	env["$new"] = SV{nv, nil}
	env["$held"] = SV{held, nil}
	return &Ctx{ex: ex, st: st, old: st, env: env, pkg: d.pkg, ceil: -ex.nalloc}
}

// atomicStep lets the other threads change the atomic field of base.
func (ex *Exec) atomicStep(st *State, d *AtomicDecl, base *Term) {
	if ex.private(st, base) {
		return
	}
	n, l := ex.atomicName(d)
	m := ex.memOf(st, n, false, l)
	old := m.read(base, nil)
	nv := Var(freshName("env:"+d.field), l.sort, l.lo, l.hi)
	guardEval(ex, "atomic "+d.styp+"."+d.field, func() {
		c := ex.atomicCtx(st, d, base, old, nv, ex.atomicHeld(st, d, base))
		st.assume(c.boolean(d.rely))
		if d.writer != nil {
			ex.assume["only one thread at a time is the writer of "+shortField(d.styp+"."+d.field)+" ("+d.writerText+")"] = true
			st.assume(Implies(c.boolean(d.writer), Eq(nv, old)))
		}
	})
	st.mem[n] = &Mem{kind: MStore, info: m.info, prev: m, l: base, v: nv, env: true}
}

// ---- accesses ----

func (ex *Exec) accessCheck(st *State, p *Term, t types.Type, write bool, pos token.Pos) {
	key, base, f, ok := ex.fieldKey(p)
	if !ok || ex.private(st, p) {
		return
	}
	if d := ex.prog.spec.atomics[key]; d != nil {
		if ex.spec != nil && ex.spec.flags["exclusive"] {
			ex.assume["no other thread uses "+shortField(key)+" while "+shortKey(ex.spec.key)+" runs"] = true
			return
		}
		ex.atomicStep(st, d, base)
		if !write {
			ex.atomicRead(st, d, base)
		}
		return
	}
	if d := ex.guardOf(key); d != nil {
		if ex.spec != nil && ex.spec.flags["exclusive"] {
			ex.assume[shortKey(ex.spec.key)+" runs when no other thread uses what "+d.styp+" guards"] = true
			return
		}
		ex.oblige(st, "lock", "access to "+shortField(key)+" under "+d.field, pos, nil, ex.heldDecl(st, d, base))
		return
	}
	for _, k := range sortedStr(ex.prog.spec.locks) {
		d := ex.prog.spec.locks[k]
		for _, h := range d.havocs {
			for _, nm := range h.tags {
				if nm == key && h.e != nil {
					if !write && ex.spec != nil && ex.spec.flags["racyread"] {
						// any value others may have put there
						pre := st.clone()
						n := fieldMemName(f.styp, f.idx)
						for _, l := range leaves(f.styp.Underlying().(*types.Struct).Field(f.idx).Type()) {
							m := ex.memOf(st, n+l.suf, false, l)
							hm := m.havoc([]Region{{loc: base}}, -ex.nalloc, -ex.nalloc)
							hm.env = true
							st.mem[n+l.suf] = hm
						}
						ex.assumeRely(st, pre, d, base)
						if gd := ex.prog.spec.ghosts[structKey(f.styp)+".$read"]; gd != nil && !ex.spec.flags["exclusive"] {
							gn := "G:" + structKey(f.styp) + ".$read"
							gm := ex.memOf(st, gn, false, ghostLeaf(gd.typ))
							st.mem[gn] = gm.store(base, nil, ex.memOf(st, n, false, leaf{"", SLoc, nil, nil}).read(base, nil))
						}
						continue
					}
					guardEval(ex, "lock "+d.styp, func() {
						c := &Ctx{ex: ex, st: st, old: st, pkg: d.pkg, env: map[string]SV{"$l": {base, f.styp}}}
						ex.oblige(st, "lock", "access to "+shortField(key)+" by its owner: "+h.text, pos, nil, c.boolean(h.e))
					})
				}
			}
		}
	}
	if ex.prog.spec.vols[key] && !write {
		n := fieldMemName(f.styp, f.idx)
		ft := f.styp.Underlying().(*types.Struct).Field(f.idx).Type()
		for _, l := range leaves(ft) {
			m := ex.memOf(st, n+l.suf, false, l)
			h := m.havoc([]Region{{loc: base}}, -ex.nalloc, -ex.nalloc)
			h.env = true
			st.mem[n+l.suf] = h
		}
	}
}

func shortField(k string) string {
	if i := strings.LastIndexByte(k, '/'); i >= 0 {
		k = k[i+1:]
	}
	return k
}

func (ex *Exec) beforeStore(st *State, fr *Frame, p *Term, t types.Type, v Val, pos token.Pos) {
	ex.stored(st, p, v)
	key, base, _, ok := ex.fieldKey(p)
	if !ok {
		return
	}
	if d := ex.prog.spec.atomics[key]; d != nil {
		if nv, ok := v.(*Term); ok {
			ex.atomicWrite(st, d, base, nv, pos)
		}
	}
	d := ex.guardOf(key)
	if d == nil || len(d.keeps)+len(d.onstore) == 0 || ex.private(st, p) {
		return
	}
	fld := key[len(d.styp)+1:]
	guardEval(ex, "lock "+d.styp, func() {
		env, _ := ex.selfEnv(d.pkg, d.styp, d.self, base)
		c := &Ctx{ex: ex, st: st, old: st, env: env, pkg: d.pkg, ceil: -ex.nalloc}
		env["$new"] = SV{v, t}
		env["$old"] = c.eval(&Expr{op: "field", name: fld, args: []*Expr{{op: "id", name: d.self}}})
		for _, k := range d.keeps {
			if k.name == fld {
				ex.oblige(st, "store", "of "+shortField(key)+": "+k.cl.label, pos, k.cl.tags, c.boolean(k.cl.e))
			}
		}
		for _, k := range d.onstore {
			if k.name == fld {
				ex.ghostAssign(c, k.cl)
			}
		}
	})
}

// atomicRead: this thread looks at the field.
func (ex *Exec) atomicRead(st *State, d *AtomicDecl, base *Term) {
	if len(d.reads) == 0 {
		return
	}
	n, l := ex.atomicName(d)
	v := ex.memOf(st, n, false, l).read(base, nil)
	guardEval(ex, "atomic "+d.styp+"."+d.field, func() {
		c := ex.atomicCtx(st, d, base, v, v, False)
		for _, u := range d.reads {
			ex.ghostAssign(c, u)
		}
	})
}

func (ex *Exec) atomicWrite(st *State, d *AtomicDecl, base, nv *Term, pos token.Pos) {
	n, l := ex.atomicName(d)
	old := ex.memOf(st, n, false, l).read(base, nil)
	if ex.private(st, base) || ex.spec != nil && ex.spec.flags["exclusive"] {
		return
	}
	guardEval(ex, "atomic "+d.styp+"."+d.field, func() {
		c := ex.atomicCtx(st, d, base, old, nv, ex.atomicHeld(st, d, base))
		for _, g := range d.grants {
			ex.assume["assumed of "+shortField(d.styp+"."+d.field)+": "+g.label] = true
			st.assume(c.boolean(g.e))
		}
		if d.writer != nil {
			ex.oblige(st, "guarantee", "change of "+shortField(d.styp+"."+d.field)+" by its writer: "+d.writerText, pos, nil, c.boolean(d.writer))
		}
		if d.guar != nil {
			ex.oblige(st, "guarantee", "change of "+shortField(d.styp+"."+d.field)+": "+d.text, pos, nil, c.boolean(d.guar))
		}
		if s := ex.spec; s != nil && len(s.steps) > 0 && strings.HasPrefix(s.key, "(*"+d.styp+")") {
			for _, cl := range s.steps {
				ex.oblige(st, "step", cl.label, pos, cl.tags, c.boolean(cl.e))
			}
		}
		for _, u := range d.update {
			ex.ghostAssign(c, u)
		}
	})
}

// relyAll: between pre and now, other threads and unknown code changed the atomic fields
// along their rely relations, which describe any number of steps of anyone.
func (ex *Exec) relyAll(st *State, pre map[string]*Mem, locked bool) {
	var ks []string
	for k := range ex.prog.spec.atomics {
		ks = append(ks, k)
	}
	sortStrings(ks)
	for _, k := range ks {
		d := ex.prog.spec.atomics[k]
		n, l := ex.atomicName(d)
		m0, m1 := pre[n], st.mem[n]
		if m0 == nil || m1 == nil || m0 == m1 {
			continue
		}
		ex.relyLemmas(st, d, l)
		bvCnt++
		x := BoundVar(fmt.Sprintf("at?%d", bvCnt), SLoc)
		held := False
		if locked {
			held = ex.atomicHeld(st, d, x)
		}
		guardEval(ex, "atomic "+d.styp+"."+d.field, func() {
			st.assume(Forall([]*Term{x}, ex.atomicCtx(st, d, x, m0.read(x, nil), m1.read(x, nil), held).boolean(d.rely)))
		})
	}
}

// shield: unknown code that does not ask for a lock does not change what the locks of this
// thread guard.
func (ex *Exec) shield(st, old *State, ms *modSet) {
	called := ms
	for _, h := range st.held {
		d := h.decl
		if d == nil {
			continue
		}
		_, t := ex.selfEnv(d.pkg, d.styp, d.self, Null)
		keep := func(n string, l leaf) {
			if ms != nil && ms.regs[n] == nil {
				return
			}
			m := ex.memOf(st, n, false, l)
			v := ex.memOf(old, n, false, l).read(h.base, nil)
			st.mem[n] = &Mem{kind: MStore, info: m.info, prev: m, l: h.base, v: v, env: true}
		}
		for _, g := range sortedBool(d.guards) {
			if strings.HasPrefix(g, "$") {
				if gd := ex.prog.spec.ghosts[d.styp+"."+g]; gd != nil && !strings.HasPrefix(gd.typ, "[]") {
					keep("G:"+d.styp+"."+g, ghostLeaf(gd.typ))
				}
				continue
			}
			s := t.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() != g {
					continue
				}
				if _, isA := s.Field(i).Type().Underlying().(*types.Array); isA {
					continue
				}
				for _, l := range leaves(s.Field(i).Type()) {
					keep(fieldMemName(t, i)+l.suf, l)
				}
			}
		}
		for _, hv := range d.havocs {
			if hv.e == nil {
				continue
			}
			for _, nm := range hv.tags {
				if strings.Contains(nm, "(") {
					continue
				}
				guardEval(ex, "lock "+d.styp, func() {
					c := &Ctx{ex: ex, st: old, old: old, pkg: d.pkg, env: map[string]SV{}}
					ft := c.lookupType(d.pkg, nm[:strings.LastIndexByte(nm, '.')])
					ms := newModSet()
					c.modExpr(ms, &Expr{op: "call", name: "allof", args: []*Expr{{op: "str", name: nm}}, pos: hv.pos})
					for _, n := range sortedKeys2(ms.regs) {
						if ms.isEl[n] || called != nil && called.regs[n] == nil {
							continue
						}
						bvCnt++
						x := BoundVar(fmt.Sprintf("kept?%d", bvCnt), SLoc)
						m0, m1 := ex.memOf(old, n, false, ms.elem[n]), ex.memOf(st, n, false, ms.elem[n])
						c2 := &Ctx{ex: ex, st: old, old: old, pkg: d.pkg, env: map[string]SV{"$l": {x, ft}, d.self: {h.base, types.NewPointer(t)}}}
						st.assume(Forall([]*Term{x}, Implies(c2.boolean(hv.e), Eq(m0.read(x, nil), m1.read(x, nil)))))
					}
				})
			}
		}
	}
}

func sortedKeys2(m map[string][]Region) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sortStrings(r)
	return r
}

// relyRegs: the same for the atomic fields a callee names.
func (ex *Exec) relyRegs(st *State, pre map[string]*Mem, ms *modSet) {
	var ks []string
	for k := range ex.prog.spec.atomics {
		ks = append(ks, k)
	}
	sortStrings(ks)
	for _, k := range ks {
		d := ex.prog.spec.atomics[k]
		n, l := ex.atomicName(d)
		if len(ms.regs[n]) == 0 || st.mem[n] == pre[n] {
			continue
		}
		single := true
		for _, r := range ms.regs[n] {
			single = single && r.loc != nil
		}
		if !single {
			ex.relyAll(st, map[string]*Mem{n: pre[n]}, ms.shield)
			continue
		}
		ex.relyLemmas(st, d, l)
		guardEval(ex, "atomic "+d.styp+"."+d.field, func() {
			for _, r := range ms.regs[n] {
				held := False
				if ms.shield {
					held = ex.atomicHeld(st, d, r.loc)
				}
				st.assume(ex.atomicCtx(st, d, r.loc, pre[n].read(r.loc, nil), st.mem[n].read(r.loc, nil), held).boolean(d.rely))
			}
		})
	}
}

// relyLemmas: the rely relation covers any sequence of steps of any thread.
func (ex *Exec) relyLemmas(st *State, d *AtomicDecl, l leaf) {
	k := "relylemma:" + d.styp + "." + d.field
	if ex.silent > 0 || ex.once[k] {
		return
	}
	if ex.once == nil {
		ex.once = map[string]bool{}
	}
	ex.once[k] = true
	e := st.clone()
	e.pc = nil
	v := func(n string) *Term { return Var(freshName("lemma:"+n), l.sort, l.lo, l.hi) }
	a, b, c3 := v("a"), v("b"), v("c")
	x := Var(freshName("lemma:x"), SLoc, nil, nil)
	guardEval(ex, "atomic "+d.styp+"."+d.field, func() {
		rely := func(o, n, h *Term) *Term { return ex.atomicCtx(e, d, x, o, n, h).boolean(d.rely) }
		nm := shortField(d.styp + "." + d.field)
		ob := func(what string, g *Term) { ex.oblige(e, "lemma", nm+": "+what, token.NoPos, nil, g) }
		zero := I(0)
		if l.sort == SLoc {
			zero = Null
		}
		ob("starts well", rely(zero, zero, False))
		ob("no step is a step", Implies(rely(a, b, False), rely(b, b, False)))
		ob("steps compose", Implies(And(rely(a, b, False), rely(b, c3, False)), rely(a, c3, False)))
		ob("steps of others are steps", Implies(rely(a, b, True), rely(a, b, False)))
		ob("steps of others compose", Implies(And(rely(a, b, True), rely(b, c3, True)), rely(a, c3, True)))
		if d.guar != nil {
			ob("steps without the lock are steps of others", Implies(ex.atomicCtx(e, d, x, a, b, False).boolean(d.guar), rely(a, b, True)))
			for _, h := range []*Term{False, True} {
				ob("own steps are steps", Implies(ex.atomicCtx(e, d, x, a, b, h).boolean(d.guar), rely(a, b, False)))
			}
		}
	})
}

func (ex *Exec) mapAccess(st *State, fr *Frame, x ssa.Value, m *Term, write bool, pos token.Pos) {
	u, ok := x.(*ssa.UnOp)
	if !ok {
		return
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return
	}
	p, ok := ex.val(st, fr, fa).(*Term)
	if !ok {
		return
	}
	key, base, _, ok := ex.fieldKey(p)
	if !ok || ex.private(st, p) {
		return
	}
	if d := ex.guardOf(key); d != nil {
		if ex.spec != nil && ex.spec.flags["exclusive"] {
			return
		}
		ex.oblige(st, "lock", "use of map "+shortField(key)+" under "+d.field, pos, nil, ex.heldDecl(st, d, base))
	}
}
func (ex *Exec) copied(st *State, fr *Frame, d *SliceV, n *Term, pos token.Pos)      {}
func (ex *Exec) afterCall(fr *Frame, s *FuncSpec, st, pre *State, env map[string]SV) {}

// yield: while a callee that synchronises runs, other threads run too.
func (ex *Exec) yield(st *State, fr *Frame, s *FuncSpec) {
	if !s.flags["yields"] {
		return
	}
	ex.didYield = true
	ex.yieldAll(st)
}

func (ex *Exec) yieldAll(st *State) {
	relies := ex.spec != nil && ex.spec.flags["relies"]
	var pre *State
	if relies {
		pre = st.clone()
	}
	for _, k := range sortedStr(ex.prog.spec.locks) {
		ex.envHavoc(st, ex.prog.spec.locks[k], nil, true)
	}
	if !relies {
		return
	}
	// what holds of any number of steps of others, whichever object they work on
	for _, k := range sortedStr(ex.prog.spec.locks) {
		d := ex.prog.spec.locks[k]
		guardEval(ex, "lock "+d.styp, func() {
			c := &Ctx{ex: ex, st: st, old: pre, env: map[string]SV{}, pkg: d.pkg, ceil: -ex.nalloc}
			for _, cl := range d.rely {
				if !namesVar(cl.e, d.self) {
					st.assume(c.boolean(cl.e))
				}
			}
		})
	}
}

// envHavoc: the data guarded by lock d of base (nil: of every object whose lock this
// thread does not hold) takes unknown values.
func (ex *Exec) envHavoc(st *State, d *LockDecl, base *Term, env bool) {
	_, t := ex.selfEnv(d.pkg, d.styp, d.self, Null)
	sh := ex.shared(st)
	var heldB []*Term
	for _, h := range st.held {
		if h.decl == d {
			heldB = append(heldB, h.base)
		}
	}
	reg := Region{loc: base}
	if base == nil {
		reg = Region{pred: func(l, _ *Term) *Term {
			r := sh(l)
			for _, b := range heldB {
				r = And(r, Ne(l, b))
			}
			return r
		}}
	}
	put := func(n string, el bool, l leaf, r Region) {
		m := ex.memOf(st, n, el, l)
		h := m.havoc([]Region{r}, -ex.nalloc, -ex.nalloc)
		h.env = env
		h.yield = base == nil
		st.mem[n] = h
	}
	for _, g := range sortedBool(d.guards) {
		if strings.HasPrefix(g, "$") {
			gd := ex.prog.spec.ghosts[d.styp+"."+g]
			if gd == nil {
				ex.abort("lock %s guards unknown ghost %s", d.styp, g)
			}
			if strings.HasPrefix(gd.typ, "[]") {
				if base != nil {
					put("G:seq", true, leaf{"", SInt, nil, nil}, Region{loc: ex.prog.ghostEmb(d.styp+"."+g, base)})
				} else {
					k := d.styp + "." + g
					put("G:seq", true, leaf{"", SInt, nil, nil}, Region{pred: func(l, _ *Term) *Term {
						if l.Op == OEmb && ex.prog.ghostEmb(k, l.Args[0]) == l {
							return reg.pred(l.Args[0], nil)
						}
						return False
					}})
				}
				continue
			}
			put("G:"+d.styp+"."+g, false, ghostLeaf(gd.typ), reg)
			continue
		}
		s := t.Underlying().(*types.Struct)
		found := false
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() != g {
				continue
			}
			found = true
			ft := s.Field(i).Type()
			if a, isA := ft.Underlying().(*types.Array); isA {
				if base == nil {
					continue
				}
				for _, l := range leaves(a.Elem()) {
					put("E:"+elemKey(a.Elem())+l.suf, true, l, Region{loc: ex.prog.emb(base, t, i)})
				}
				continue
			}
			for _, l := range leaves(ft) {
				put(fieldMemName(t, i)+l.suf, false, l, reg)
			}
		}
		if !found {
			ex.abort("lock %s guards unknown field %s", d.styp, g)
		}
	}
	snap := st.clone()
	defer func() {
		// others do not hand over what they change to this thread
		for _, h := range d.havocs {
			h := h
			if h.e == nil {
				continue
			}
			guardEval(ex, "lock "+d.styp, func() {
				c := &Ctx{ex: ex, pkg: d.pkg}
				nm := h.tags[0]
				ft := c.lookupType(d.pkg, nm[:strings.LastIndexByte(nm, '.')])
				l := BoundVar(freshName("own"), SLoc)
				own := func(s *State) *Term {
					c2 := &Ctx{ex: ex, st: s, old: s, pkg: d.pkg, env: map[string]SV{"$l": {l, ft}}}
					if base != nil {
						c2.env[d.self] = SV{base, types.NewPointer(t)}
					}
					k := len(s.pc)
					r := c2.boolean(h.e)
					s.pc = s.pc[:k:k]
					return r
				}
				f := Forall([]*Term{l}, Or(own(snap), Not(own(st))))
				st.assume(f)
			})
		}
	}()
	for _, h := range d.havocs {
		h := h
		guardEval(ex, "lock "+d.styp, func() {
			for _, nm := range h.tags {
				c := &Ctx{ex: ex, st: snap, old: snap, pkg: d.pkg, env: map[string]SV{}}
				if strings.HasPrefix(nm, "mapof(") || strings.HasPrefix(nm, "elems(") || strings.HasPrefix(nm, "buffer(") {
					if base == nil {
						continue // reachable only through a guarded field
					}
					c.env, _ = ex.selfEnv(d.pkg, d.styp, d.self, base)
					cl := parseClause(line{"modifies", nm, h.pos})
					ms := c.modifies([]*Clause{cl})
					for n, rs := range ms.regs {
						m := ex.memOf(st, n, ms.isEl[n], ms.elem[n])
						hm := m.havoc(rs, -ex.nalloc, -ex.nalloc)
						hm.env = env
						st.mem[n] = hm
					}
					continue
				}
				i := strings.LastIndexByte(nm, '.')
				ft := c.lookupType(d.pkg, nm[:i])
				ms := newModSet()
				c.modExpr(ms, &Expr{op: "call", name: "allof", args: []*Expr{{op: "str", name: nm}}, pos: h.pos})
				for n := range ms.regs {
					pr := func(l, _ *Term) *Term {
						if h.e == nil || sh(l) == False {
							return sh(l)
						}
						c2 := &Ctx{ex: ex, st: snap, old: snap, pkg: d.pkg, env: map[string]SV{"$l": {l, ft}}}
						if base != nil {
							c2.env[d.self] = SV{base, types.NewPointer(t)}
						}
						k := len(snap.pc)
						r := And(sh(l), Not(c2.boolean(h.e)))
						snap.pc = snap.pc[:k:k]
						return r
					}
					put(n, ms.isEl[n], ms.elem[n], Region{pred: pr})
				}
			}
		})
	}
}

func sortedBool(m map[string]bool) []string { return keys(m) }

// ---- locks ----

func (ex *Exec) lockOf(p *Term) (*LockDecl, *Term) {
	key, base, _, ok := ex.fieldKey(p)
	if !ok {
		return nil, p
	}
	if d := ex.prog.spec.locks[key]; d != nil {
		return d, base
	}
	return nil, p
}

func (ex *Exec) acquire(st *State, p *Term, pos token.Pos) {
	d, base := ex.lockOf(p)
	for _, h := range st.held {
		if h.base == base && h.decl == d {
			ex.oblige(st, "lock", "lock taken twice by the same thread", pos, nil, False)
		}
	}
	if d == nil {
		st.held = append(st.held[:len(st.held):len(st.held)], heldLock{base: base})
		return
	}
	pre := st.clone()
	if !ex.private(st, base) {
		if ex.spec == nil || !ex.spec.flags["exclusive"] {
			ex.didYield = true
		}
		ex.lockEnv(st, d, base, pre, true)
	}
	st.held = append(st.held[:len(st.held):len(st.held)], heldLock{base: base, decl: d})
	defer func() {
		st.held[len(st.held)-1].snap = st.clone()
		st.held[len(st.held)-1].ceil = -ex.nalloc
	}()
	guardEval(ex, "lock "+d.styp, func() {
		env, _ := ex.selfEnv(d.pkg, d.styp, d.self, base)
		c := &Ctx{ex: ex, st: st, old: pre, env: env, pkg: d.pkg, ceil: -ex.nalloc}
		for _, a := range d.acquire {
			ex.ghostAssign(c, a)
		}
	})
}

func (ex *Exec) lockEnv(st *State, d *LockDecl, base *Term, pre *State, envFlag bool) {
	for _, a := range ex.prog.spec.atomics {
		if a.styp == d.styp {
			ex.atomicStep(st, a, base)
		}
	}
	if ex.spec != nil && ex.spec.flags["exclusive"] {
		ex.assume["no other thread uses the data guarded by "+shortField(d.styp+"."+d.field)+" while "+shortKey(ex.spec.key)+" runs"] = true
	} else {
		ex.envHavoc(st, d, base, envFlag)
	}
	guardEval(ex, "lock "+d.styp, func() {
		env, _ := ex.selfEnv(d.pkg, d.styp, d.self, base)
		c := &Ctx{ex: ex, st: st, old: pre, env: env, pkg: d.pkg, ceil: -ex.nalloc}
		for _, cl := range d.rely {
			st.assume(c.boolean(cl.e))
		}
		for _, cl := range d.inv {
			st.assume(c.boolean(cl.e))
		}
	})
}

func (ex *Exec) assumeRely(st, pre *State, d *LockDecl, base *Term) {
	guardEval(ex, "lock "+d.styp, func() {
		env, _ := ex.selfEnv(d.pkg, d.styp, d.self, base)
		c := &Ctx{ex: ex, st: st, old: pre, env: env, pkg: d.pkg, ceil: -ex.nalloc}
		for _, cl := range d.rely {
			st.assume(c.boolean(cl.e))
		}
	})
}

func (ex *Exec) checkInv(st *State, d *LockDecl, base *Term, pos token.Pos, what string) {
	for _, a := range ex.prog.spec.atomics {
		if a.styp == d.styp {
			ex.atomicStep(st, a, base)
		}
	}
	guardEval(ex, "lock "+d.styp, func() {
		env, _ := ex.selfEnv(d.pkg, d.styp, d.self, base)
		c := &Ctx{ex: ex, st: st, old: st, env: env, pkg: d.pkg, ceil: -ex.nalloc}
		for _, cl := range d.inv {
			ex.oblige(st, "lockinv", "invariant of "+shortField(d.styp+"."+d.field)+" at "+what+": "+cl.label, pos, cl.tags, c.boolean(cl.e))
		}
	})
}

func (ex *Exec) release(st *State, p *Term, pos token.Pos) {
	d, base := ex.lockOf(p)
	for i := len(st.held) - 1; i >= 0; i-- {
		h := st.held[i]
		if h.decl != d || h.base != base {
			continue
		}
		if d != nil {
			ex.checkInv(st, d, base, pos, "unlock")
			ex.checkSections(st, h, pos)
		}
		n := append([]heldLock{}, st.held[:i]...)
		st.held = append(n, st.held[i+1:]...)
		return
	}
	ex.oblige(st, "lock", "unlock of a lock this thread holds", pos, nil, False)
}

// checkSections: what the contract says about each critical section on its receiver.
func (ex *Exec) checkSections(st *State, h heldLock, pos token.Pos) {
	s := ex.spec
	if s == nil || len(s.sections) == 0 || ex.silent > 0 {
		return
	}
	env := ex.rootEnv()
	self, ok := env[s.recv]
	if !ok || self.v != Val(h.base) {
		return
	}
	snap, ceil := h.snap, h.ceil
	if snap == nil {
		snap, ceil = ex.entry, 0
	}
	guardEval(ex, s.key, func() {
		c := &Ctx{ex: ex, st: st, old: snap, env: env, pkg: s.pkg, ceil: ceil}
		for _, cl := range s.sections {
			ex.oblige(st, "section", cl.label, pos, cl.tags, c.boolean(cl.e))
		}
	})
}

func (ex *Exec) condWait(st *State, p *Term, pos token.Pos) {
	if len(st.held) == 0 {
		ex.oblige(st, "lock", "Wait with its lock held", pos, nil, False)
		return
	}
	h := st.held[len(st.held)-1]
	if h.decl == nil {
		return
	}
	ex.checkInv(st, h.decl, h.base, pos, "Wait")
	ex.checkSections(st, h, pos)
	pre := st.clone()
	held := st.held
	st.held = st.held[: len(held)-1 : len(held)-1]
	entry := false
	for _, e := range ex.entryHeld {
		if e.base == h.base && e.decl == h.decl {
			entry = true
		}
	}
	if !ex.private(st, h.base) {
		ex.lockEnv(st, h.decl, h.base, pre, !entry)
	}
	st.held = append([]heldLock{}, held...)
	defer func() {
		st.held[len(st.held)-1].snap = st.clone()
		st.held[len(st.held)-1].ceil = -ex.nalloc
	}()
	guardEval(ex, "lock "+h.decl.styp, func() {
		env, _ := ex.selfEnv(h.decl.pkg, h.decl.styp, h.decl.self, h.base)
		c := &Ctx{ex: ex, st: st, old: pre, env: env, pkg: h.decl.pkg, ceil: -ex.nalloc}
		for _, a := range h.decl.acquire {
			ex.ghostAssign(c, a)
		}
	})
}

func init() {
	lock := func(ex *Exec, c *extCall) { ex.acquire(c.st, c.t(0), c.pos); c.cont(c.st, nil) }
	unlock := func(ex *Exec, c *extCall) { ex.release(c.st, c.t(0), c.pos); c.cont(c.st, nil) }
	for _, t := range []string{"Mutex", "RWMutex"} {
		extModels["(*sync."+t+").Lock"] = lock
		extModels["(*sync."+t+").Unlock"] = unlock
	}
	// contracts of a condition variable: "<field>$wait" (after the wait), "<field>$signal"
	cond := func(op string) func(ex *Exec, c *extCall) {
		return func(ex *Exec, c *extCall) {
			if op == "$wait" {
				ex.condWait(c.st, c.t(0), c.pos)
			}
			if key, base, f, ok := ex.fieldKey(c.t(0)); ok {
				i := strings.LastIndexByte(key, '.')
				if s := ex.prog.spec.funcs["("+key[:i]+")"+key[i:]+op]; s != nil {
					ex.used[s.key] = true
					ex.applySpec(c.fr, s, types.NewSignatureType(nil, nil, nil, nil, nil, false), &SV{base, types.NewPointer(f.styp)}, nil, c.pos, c.st, func(s2 *State, _ []Val) { c.cont(s2, nil) })
					return
				}
			}
			c.cont(c.st, nil)
		}
	}
	extModels["(*sync.Cond).Wait"] = cond("$wait")
	extModels["(*sync.Cond).Signal"] = cond("$signal")
	extModels["(*sync.Cond).Broadcast"] = cond("$signal")
	// a pointer kept for whoever takes it first: what is taken belongs to the one who took it
	up := types.Typ[types.UnsafePointer]
	extModels["sync/atomic.LoadPointer"] = freshResults
	extModels["sync/atomic.StorePointer"] = func(ex *Exec, c *extCall) {
		ex.nilCheck(c.st, c.t(0), c.pos)
		ex.store(c.st, c.t(0), up, c.t(1))
		c.cont(c.st, nil)
	}
	extModels["sync/atomic.CompareAndSwapPointer"] = func(ex *Exec, c *extCall) {
		ex.nilCheck(c.st, c.t(0), c.pos)
		b := ex.fresh(c.st, "cas", types.Typ[types.Bool], ex.minRoot()).(*Term)
		ex.branch(c.st, b, c.pos, func(s *State) {
			ex.assume["an object taken from a shared pointer with compare-and-swap belongs to whoever took it"] = true
			ex.store(s, c.t(0), up, c.t(2))
			c.cont(s, []Val{True})
		}, func(s *State) { c.cont(s, []Val{False}) })
	}
	for _, w := range []uint{32, 64} {
		for _, sg := range []bool{false, true} {
			w, sg := w, sg
			n := fmt.Sprintf("Uint%d", w)
			var bt types.Type = types.Typ[types.Uint32]
			switch {
			case sg && w == 32:
				n, bt = "Int32", types.Typ[types.Int32]
			case sg:
				n, bt = "Int64", types.Typ[types.Int64]
			case w == 64:
				bt = types.Typ[types.Uint64]
			}
			rd := func(ex *Exec, c *extCall) *Term {
				p := c.t(0)
				ex.nilCheck(c.st, p, c.pos)
				ex.accessCheck(c.st, p, bt, false, c.pos)
				return ex.load(c.st, p, bt).(*Term)
			}
			wr := func(ex *Exec, c *extCall, st *State, v *Term) {
				ex.beforeStore(st, c.fr, c.t(0), bt, v, c.pos)
				ex.store(st, c.t(0), bt, v)
			}
			extModels["sync/atomic.Load"+n] = func(ex *Exec, c *extCall) { c.cont(c.st, []Val{rd(ex, c)}) }
			extModels["sync/atomic.Store"+n] = func(ex *Exec, c *extCall) {
				rd(ex, c)
				wr(ex, c, c.st, c.t(1))
				c.cont(c.st, nil)
			}
			extModels["sync/atomic.Swap"+n] = func(ex *Exec, c *extCall) {
				o := rd(ex, c)
				wr(ex, c, c.st, c.t(1))
				c.cont(c.st, []Val{o})
			}
			extModels["sync/atomic.Add"+n] = func(ex *Exec, c *extCall) {
				o := rd(ex, c)
				v := wrap(Add(o, c.t(1)), w, sg)
				wr(ex, c, c.st, v)
				c.cont(c.st, []Val{v})
			}
			extModels["sync/atomic.CompareAndSwap"+n] = func(ex *Exec, c *extCall) {
				o := rd(ex, c)
				ex.branch(c.st, Eq(o, c.t(1)), c.pos, func(s *State) {
					wr(ex, c, s, c.t(2))
					c.cont(s, []Val{True})
				}, func(s *State) { c.cont(s, []Val{False}) })
			}
		}
	}
}

// ---- entry and exit ----

// takeHeld: the locks the contract says are held at entry.
func (ex *Exec) takeHeld(st *State) {
	s := ex.spec
	if s == nil {
		return
	}
	c := &Ctx{ex: ex, st: st, old: ex.entry, env: ex.rootEnv(), pkg: s.pkg, ceil: 0}
	var scan func(e *Expr)
	scan = func(e *Expr) {
		if e.op == "bin" && e.name == "&&" {
			scan(e.args[0])
			scan(e.args[1])
			return
		}
		if e.op == "call" && e.name == "held" {
			x := c.eval(e.args[0])
			base, ok := x.v.(*Term)
			if !ok {
				return
			}
			t := x.t
			if pe := ptrElem(t); pe != nil {
				t = pe
			}
			for _, k := range sortedStr(ex.prog.spec.locks) {
				if d := ex.prog.spec.locks[k]; d.styp == structKey(t) {
					st.held = append(st.held, heldLock{base: base, decl: d})
				}
			}
		}
	}
	for _, r := range s.requires {
		scan(r.e)
	}
	ex.entryHeld = st.held
	ex.entry.held = st.held
}

func (ex *Exec) startHook(st *State) {
	s := ex.spec
	if s == nil {
		return
	}
	c := &Ctx{ex: ex, st: st, old: ex.entry, env: ex.rootEnv(), pkg: s.pkg, ceil: 0}
	for _, cl := range s.setup {
		ex.ghostAssign(c, cl)
	}
}

func (ex *Exec) endHook(st *State) {
	if !sameHeld(st.held, ex.entryHeld) {
		ex.oblige(st, "lock", "locks held at return are those held at entry", ex.root.Pos(), nil, False)
	}
}

// ---- origins ----

// originSpec finds the contract of an operation on the value of a field.
func (ex *Exec) originSpec(st *State, fr *Frame, v ssa.Value, op string) (*FuncSpec, *SV) {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if g, ok := x.X.(*ssa.Global); ok {
					if s := ex.prog.spec.funcs[g.RelString(nil)+op]; s != nil {
						return s, nil
					}
				}
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					sty := fa.X.Type().Underlying().(*types.Pointer).Elem()
					k := "(" + typeKey(sty) + ")." + sty.Underlying().(*types.Struct).Field(fa.Field).Name() + op
					if s := ex.prog.spec.funcs[k]; s != nil {
						return s, &SV{ex.val(st, fr, fa.X), fa.X.Type()}
					}
				}
			}
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil {
				if s := ex.prog.spec.funcs[f.RelString(nil)+op]; s != nil {
					if f.Signature.Recv() != nil {
						return s, &SV{ex.val(st, fr, x.Call.Args[0]), f.Signature.Recv().Type()}
					}
					return s, nil
				}
			}
		case *ssa.MakeChan:
			if s := ex.prog.spec.funcs[fr.fn.RelString(nil)+"$make"+op]; s != nil {
				if fr.fn.Signature.Recv() != nil {
					return s, &SV{ex.val(st, fr, fr.fn.Params[0]), fr.fn.Params[0].Type()}
				}
				return s, nil
			}
		case *ssa.Parameter:
			if s := ex.prog.spec.funcs[fr.fn.RelString(nil)+"."+x.Name()+op]; s != nil {
				return s, nil
			}
		}
		break
	}
	if s := ex.prog.spec.funcs["("+typeKeyFull(v.Type())+")."+op]; s != nil {
		return s, &SV{ex.val(st, fr, v), v.Type()}
	}
	return nil, nil
}

func tupleOf(ts ...types.Type) *types.Tuple {
	var vs []*types.Var
	for _, t := range ts {
		vs = append(vs, types.NewVar(token.NoPos, nil, "", t))
	}
	return types.NewTuple(vs...)
}

func chanElem(t types.Type) types.Type { return t.Underlying().(*types.Chan).Elem() }

// recvFrom receives from channel value v (ssa).
func (ex *Exec) recvFrom(st *State, fr *Frame, v ssa.Value, pos token.Pos, k func(*State, Val, *Term)) {
	et := chanElem(v.Type())
	if s, owner := ex.originSpec(st, fr, v, "$recv"); s != nil {
		ex.used[s.key] = true
		sig := types.NewSignatureType(nil, nil, nil, nil, tupleOf(et, types.Typ[types.Bool]), false)
		ex.applySpec(fr, s, sig, owner, nil, pos, st, func(s2 *State, res []Val) {
			k(s2, res[0], res[1].(*Term))
		})
		return
	}
	ex.assume["values received from "+chanName(v)+" are unconstrained"] = true
	r := ex.fresh(st, "recv", et, ex.minRoot())
	k(st, r, FreshBool("recvok"))
}

func chanName(v ssa.Value) string { return typeKey(v.Type()) }

func (ex *Exec) sendTo(st *State, fr *Frame, v ssa.Value, x Val, pos token.Pos, k func(*State)) {
	ex.escape(st, x)
	if s, owner := ex.originSpec(st, fr, v, "$send"); s != nil {
		ex.used[s.key] = true
		sig := types.NewSignatureType(nil, nil, nil, tupleOf(chanElem(v.Type())), nil, false)
		ex.applySpec(fr, s, sig, owner, []Val{x}, pos, st, func(s2 *State, _ []Val) { k(s2) })
		return
	}
	k(st)
}

func (ex *Exec) chanRecv(fr *Frame, x *ssa.UnOp, st *State, k func(*State, Val)) {
	ex.recvFrom(st, fr, x.X, x.Pos(), func(s *State, v Val, ok *Term) {
		if x.CommaOk {
			k(s, &TupleV{[]Val{v, ok}})
			return
		}
		k(s, v)
	})
}

func (ex *Exec) chanSend(st *State, fr *Frame, x *ssa.Send, k func(*State)) {
	ex.sendTo(st, fr, x.Chan, ex.val(st, fr, x.X), x.Pos(), k)
}

func (ex *Exec) chanClose(st *State, fr *Frame, x ssa.Value, ch *Term, pos token.Pos, k func(*State)) {
	ex.safety(st, "close of nil channel", pos, Ne(ch, Null))
	if s, owner := ex.originSpec(st, fr, x, "$close"); s != nil {
		ex.used[s.key] = true
		ex.applySpec(fr, s, types.NewSignatureType(nil, nil, nil, nil, nil, false), owner, nil, pos, st, func(s2 *State, _ []Val) { k(s2) })
		return
	}
	k(st)
}

func (ex *Exec) selectOp(fr *Frame, x *ssa.Select, st *State, k func(*State, Val)) {
	nrecv := 0
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	build := func(idx int, ok *Term, at int, v Val) Val {
		t := &TupleV{[]Val{I(int64(idx)), ok}}
		n := 0
		for _, s := range x.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			if n == at {
				t.V = append(t.V, v)
			} else {
				t.V = append(t.V, zeroVal(chanElem(s.Chan.Type())))
			}
			n++
		}
		return t
	}
	total := len(x.States)
	if !x.Blocking {
		total++
	}
	at := 0
	for i, s := range x.States {
		i, s, me := i, s, at
		if s.Dir == types.RecvOnly {
			at++
		}
		st2 := st
		if i < total-1 {
			st2 = st.clone()
		}
		st2.trace = append(st2.trace[:len(st2.trace):len(st2.trace)], fmt.Sprintf("%s select case %d", ex.pos(x.Pos()), i))
		ex.paths++
		if s.Dir == types.RecvOnly {
			ex.recvFrom(st2, fr, s.Chan, s.Pos, func(s2 *State, v Val, ok *Term) { k(s2, build(i, ok, me, v)) })
		} else {
			ex.sendTo(st2, fr, s.Chan, ex.val(st2, fr, s.Send), s.Pos, func(s2 *State) { k(s2, build(i, False, -1, nil)) })
		}
	}
	if !x.Blocking {
		st.trace = append(st.trace[:len(st.trace):len(st.trace)], ex.pos(x.Pos())+" select default")
		// a sender that gave up: contract "<field>$full"
		if len(x.States) == 1 && x.States[0].Dir == types.SendOnly {
			if s, owner := ex.originSpec(st, fr, x.States[0].Chan, "$full"); s != nil {
				ex.used[s.key] = true
				ex.applySpec(fr, s, types.NewSignatureType(nil, nil, nil, nil, nil, false), owner, nil, x.Pos(), st, func(s2 *State, _ []Val) { k(s2, build(-1, False, -1, nil)) })
				return
			}
		}
		k(st, build(-1, False, -1, nil))
	}
}

func (ex *Exec) goStmt(st *State, fr *Frame, x *ssa.Go) {
	var args []Val
	for _, a := range x.Call.Args {
		args = append(args, ex.val(st, fr, a))
	}
	ex.escapeAll(st, args)
	if x.Call.IsInvoke() {
		ex.assume["started goroutine "+x.Call.Method.Name()+" is not followed"] = true
		return
	}
	fnv := ex.val(st, fr, x.Call.Value)
	ex.escape(st, fnv)
	f := x.Call.StaticCallee()
	if f == nil {
		ex.assume["a started goroutine is not followed ("+typeKey(x.Call.Value.Type())+")"] = true
		return
	}
	key := f.RelString(nil)
	s := ex.prog.spec.funcs[key]
	if s == nil {
		ex.assume["started goroutine "+key+" is not followed"] = true
		return
	}
	ex.used[key] = true
	var recv *SV
	if f.Signature.Recv() != nil {
		recv = &SV{args[0], f.Signature.Recv().Type()}
		args = args[1:]
	}
	guardEval(ex, key, func() {
		cx := &Ctx{ex: ex, st: st, old: st, env: ex.specEnv(s, f.Signature, recv, args), pkg: s.pkg, ceil: -ex.nalloc}
		for _, c := range s.requires {
			ex.oblige(st, "pre", "go "+s.shortKey()+": "+c.label, x.Pos(), c.tags, cx.boolean(c.e))
		}
		for _, cl := range s.spawn {
			ex.ghostAssign(cx, cl)
		}
	})
}

func (ex *Exec) makeChan(st *State, fr *Frame, x *ssa.MakeChan) Val {
	n := ex.val(st, fr, x.Size).(*Term)
	ex.safety(st, "the size of a channel is not negative", x.Pos(), Le(I(0), n))
	o := ex.newObj()
	st.assume(Eq(App("chancap", SInt, bZero, maxLen, nil, o), n))
	return o
}

func (ex *Exec) mapLen(st *State, fr *Frame, x ssa.Value, m *Term, u *types.Map, pos token.Pos) Val {
	ex.mapAccess(st, fr, x, m, false, pos)
	d, _ := ex.mapDom(st, u)
	n := ex.lenOfDom(st, d, m)
	// every key takes room
	st.assume(Le(n, Num(floorDiv(maxLen, bi(ex.prog.elemSize(u.Key())+ex.prog.elemSize(u.Elem()))))))
	return Ite(Eq(m, Null), I(0), n)
}

type domLen struct {
	d *Mem
	m *Term
}

// lenOfDom: the number of keys of a map.
func (ex *Exec) lenOfDom(st *State, d *Mem, m *Term) *Term {
	if d.kind == MStore {
		p := ex.lenOfDom(st, d.prev, m)
		was := d.prev.read(m, d.j)
		diff := Ite(d.v, Ite(was, I(0), I(1)), Ite(was, I(-1), I(0)))
		return Add(p, Ite(Eq(m, d.l), diff, I(0)))
	}
	if r, ok := concRoot(m); ok && r < 0 && d.kind == MSym {
		return I(0)
	}
	if ex.mapLens == nil {
		ex.mapLens = map[domLen]*Term{}
	}
	k := domLen{d, m}
	n := ex.mapLens[k]
	if n == nil {
		n = FreshInt("maplen", bZero, maxLen)
		ex.mapLens[k] = n
	}
	if !m.bound {
		bv := BoundVar(freshName("lk"), SInt)
		w := FreshInt("somekey", nil, nil)
		st.assume(Implies(Eq(n, I(0)), Forall([]*Term{bv}, Not(d.read(m, bv)))))
		st.assume(Implies(Ne(n, I(0)), d.read(m, w)))
	}
	return n
}

// exempt: the condition that the value of memory n at location l may change at any time
// anyway (guarded by a lock not held at entry, or atomic), so that the frame says nothing.
func (ex *Exec) exempt(n string, l *Term) *Term {
	if ex.exemptN == nil {
		ex.exemptN = map[string][]func(l *Term) *Term{}
		notHeld := func(styp string) func(l *Term) *Term {
			return func(l *Term) *Term {
				r := True
				for _, h := range ex.entryHeld {
					if h.decl != nil && h.decl.styp == styp {
						r = And(r, Ne(l, h.base))
					}
				}
				return r
			}
		}
		add := func(c *Ctx, what string, f func(l *Term) *Term) {
			ms := newModSet()
			c.modExpr(ms, &Expr{op: "call", name: "allof", args: []*Expr{{op: "str", name: what}}})
			for k := range ms.regs {
				if k != "G:seq" {
					ex.exemptN[k] = append(ex.exemptN[k], f)
				}
			}
		}
		for _, k := range sortedStr(ex.prog.spec.locks) {
			d := ex.prog.spec.locks[k]
			c := &Ctx{ex: ex, st: ex.entry, old: ex.entry, pkg: d.pkg, env: map[string]SV{}}
			for g := range d.guards {
				add(c, d.styp+"."+g, notHeld(d.styp))
			}
			for _, h := range d.havocs {
				h := h
				for _, nm := range h.tags {
					if strings.HasPrefix(nm, "mapof(") {
						// the map may have been replaced since: all maps of its type are guarded
						guardEval(ex, "lock "+d.styp, func() {
							env, _ := ex.selfEnv(d.pkg, d.styp, d.self, FreshLoc("any", 0))
							c2 := &Ctx{ex: ex, st: ex.entry.clone(), old: ex.entry, pkg: d.pkg, env: env}
							for k := range c2.modifies([]*Clause{parseClause(line{"modifies", nm, h.pos})}).regs {
								ex.exemptN[k] = append(ex.exemptN[k], func(*Term) *Term { return True })
							}
						})
						continue
					}
					if strings.Contains(nm, "(") {
						continue
					}
					ft := c.lookupType(d.pkg, nm[:strings.LastIndexByte(nm, '.')])
					add(c, nm, func(l *Term) *Term {
						if h.e == nil {
							return True
						}
						e := ex.entry.clone()
						e.held = ex.entryHeld
						c2 := &Ctx{ex: ex, st: e, old: e, pkg: d.pkg, env: map[string]SV{"$l": {l, ft}}}
						return Not(c2.boolean(h.e))
					})
				}
			}
		}
		for _, d := range ex.prog.spec.atomics {
			nm, _ := ex.atomicName(d)
			ex.exemptN[nm] = append(ex.exemptN[nm], notHeld(d.styp))
		}
	}
	r := False
	for v := range ex.prog.spec.vols {
		if strings.HasPrefix(n, "F:"+v) && (len(n) == len(v)+2 || n[len(v)+2] == ':') {
			return True
		}
	}
	for _, f := range ex.exemptN[n] {
		r = Or(r, f(l))
	}
	return r
}

func sameHeld(a, b []heldLock) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].base != b[i].base || a[i].decl != b[i].decl {
			return false
		}
	}
	return true
}

// asksLock: the expression speaks of held locks.
func (sp *SpecSet) asksLock(e *Expr) bool {
	if e == nil {
		return false
	}
	if e.op == "call" {
		if e.name == "held" {
			return true
		}
		if p := sp.preds[e.name]; p != nil && sp.asksLock(p.body) {
			return true
		}
	}
	for _, a := range e.args {
		if sp.asksLock(a) {
			return true
		}
	}
	return false
}

// namesVar: the variable occurs in e.
func namesVar(e *Expr, n string) bool {
	if e == nil {
		return false
	}
	if e.op == "id" && e.name == n {
		return true
	}
	for _, a := range e.args {
		if namesVar(a, n) {
			return true
		}
	}
	return false
}

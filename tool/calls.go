package main

// Calls: contracts, inlining, builtins and models of external functions.

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type contFn func(*State, []Val)

func (ex *Exec) call(fr *Frame, c *ssa.CallCommon, site ssa.Instruction, st *State, cont contFn) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, ex.val(st, fr, a))
	}
	var fnv Val
	if _, ok := c.Value.(*ssa.Builtin); !ok {
		fnv = ex.val(st, fr, c.Value)
	}
	ex.callWith(fr, c, fnv, args, c.Pos(), st, cont)
}

func (ex *Exec) callWith(fr *Frame, c *ssa.CallCommon, fnv Val, args []Val, pos token.Pos, st *State, cont contFn) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		ex.builtin(fr, b, c, args, pos, st, cont)
		return
	}
	if c.IsInvoke() {
		iv := fnv.(*IfaceV)
		if s, owner := ex.originSpec(st, fr, c.Value, "$"+c.Method.Name()); s != nil {
			ex.safety(st, "method call on nil interface", pos, Ne(iv.Typ, I(0)))
			ex.used[s.key] = true
			ex.escapeAll(st, args)
			ex.applySpecX(fr, s, c.Method.Type().(*types.Signature), owner, args, map[string]SV{"$iface": {iv, c.Value.Type()}}, pos, st, cont)
			return
		}
		ex.invoke(fr, c.Value.Type(), iv, c.Method, args, pos, st, cont)
		return
	}
	if f := c.StaticCallee(); f != nil {
		var bind []Val
		if fv, ok := fnv.(*Term); ok {
			if fi := ex.fnInfo[fv]; fi != nil {
				bind = fi.bind
			}
		}
		ex.callFn(fr, f, args, bind, pos, st, cont)
		return
	}
	ex.callValue(fr, c, fnv.(*Term), args, pos, st, cont)
}

// callValue calls a function value.
func (ex *Exec) callValue(fr *Frame, c *ssa.CallCommon, f *Term, args []Val, pos token.Pos, st *State, cont contFn) {
	if f.Op == OIte {
		ex.branch(st, f.Args[0], pos,
			func(s *State) { ex.callValue(fr, c, f.Args[1], args, pos, s, cont) },
			func(s *State) { ex.callValue(fr, c, f.Args[2], args, pos, s, cont) })
		return
	}
	if fi := ex.fnInfo[f]; fi != nil {
		ex.callFn(fr, fi.fn.(*ssa.Function), args, fi.bind, pos, st, cont)
		return
	}
	if fn := ex.prog.fnOf(f); fn != nil {
		ex.callFn(fr, fn, args, nil, pos, st, cont)
		return
	}
	ex.safety(st, "call of nil function", pos, Ne(f, Null))
	// a contract for the named function type, or for the field it was loaded from
	keys := []string{}
	var owner map[string]SV
	if c != nil {
		if u, ok := c.Value.(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				sty := fa.X.Type().Underlying().(*types.Pointer).Elem()
				keys = append(keys, "("+typeKey(sty)+")."+sty.Underlying().(*types.Struct).Field(fa.Field).Name())
				owner = map[string]SV{"owner": {ex.val(st, fr, fa.X), fa.X.Type()}}
			}
		}
		if fa, ok := c.Value.(*ssa.Field); ok {
			sty := fa.X.Type()
			keys = append(keys, "("+typeKey(sty)+")."+sty.Underlying().(*types.Struct).Field(fa.Field).Name())
		}
		t := c.Value.Type()
		keys = append(keys, "("+typeKeyFull(t)+").call")
		keys = append(keys, "functype."+tstr(t.Underlying()))
		keys = append(keys, "(functype."+sigName(t)+").call")
	}
	for _, k := range keys {
		if s := ex.prog.spec.funcs[k]; s != nil {
			ex.used[k] = true
			ex.applySpecX(fr, s, c.Signature(), &SV{f, c.Value.Type()}, args, owner, pos, st, cont)
			return
		}
	}
	ex.abort("call of an unknown function value (%s) at %s", strings.Join(keys, " / "), ex.pos(pos))
}

// sigName names an unnamed function type: func(*marshal.Writer, int) is func_marshal_Writer_int.
func sigName(t types.Type) string {
	s := types.TypeString(t.Underlying(), func(p *types.Package) string { return p.Name() })
	return strings.Trim(sigRe.ReplaceAllString(s, "_"), "_")
}

var sigRe = regexp.MustCompile(`[^A-Za-z0-9]+`)

func (ex *Exec) callFn(fr *Frame, f *ssa.Function, args []Val, bind []Val, pos token.Pos, st *State, cont contFn) {
	key := f.RelString(nil)
	if f.Origin() != nil {
		key = f.Origin().RelString(nil)
	}
	if s := ex.prog.spec.funcs[key]; s != nil && !s.inline && !ex.noSpec[key] {
		ex.used[key] = true
		var recv *SV
		a := args
		if f.Signature.Recv() != nil {
			recv = &SV{args[0], f.Signature.Recv().Type()}
			a = args[1:]
			if p, ok := args[0].(*Term); ok && p.Sort == SLoc && ptrElem(f.Signature.Recv().Type()) != nil {
				ex.nilCheck(st, p, pos)
			}
		}
		ex.applySpec(fr, s, f.Signature, recv, a, pos, st, cont)
		return
	}
	if m := extModels[key]; m != nil {
		ex.exts[key] = true
		m(ex, &extCall{fr: fr, fn: f, args: args, pos: pos, st: st, cont: cont})
		return
	}
	if f.Blocks != nil && f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) || f.Blocks != nil && f.Synthetic != "" || f.Parent() != nil {
		ex.inlined[key] = true
		ex.callBody(f, args, bind, fr, st, cont)
		return
	}
	if strings.HasPrefix(key, "reflect.") || strings.HasPrefix(key, "(reflect.Value).") {
		ex.exts["reflect.*"] = true
		reflModel(ex, &extCall{fr: fr, fn: f, args: args, pos: pos, st: st, cont: cont})
		return
	}
	for _, p := range extPrefixes {
		if strings.HasPrefix(key, p.prefix) {
			ex.exts[p.prefix+"*"] = true
			p.m(ex, &extCall{fr: fr, fn: f, args: args, pos: pos, st: st, cont: cont})
			return
		}
	}
	ex.abort("call of %s: no body, contract or model (%s)", key, ex.pos(pos))
}

func (ex *Exec) invoke(fr *Frame, it types.Type, iv *IfaceV, m *types.Func, args []Val, pos token.Pos, st *State, cont contFn) {
	if iv.Typ.Op == OIte {
		c := iv.Typ.Args[0]
		pick := func(t *Term, k int) *Term {
			if t.Op == OIte && t.Args[0] == c {
				return t.Args[k]
			}
			return t
		}
		ex.branch(st, c, pos,
			func(s *State) { ex.invoke(fr, it, &IfaceV{pick(iv.Typ, 1), pick(iv.Data, 1)}, m, args, pos, s, cont) },
			func(s *State) { ex.invoke(fr, it, &IfaceV{pick(iv.Typ, 2), pick(iv.Data, 2)}, m, args, pos, s, cont) })
		return
	}
	ex.safety(st, "method call on nil interface", pos, Ne(iv.Typ, I(0)))
	if reflInvoke(ex, it, iv, m, args, pos, st, cont) {
		return
	}
	if iv.Typ.isConst() {
		id := int(iv.Typ.K.Int64())
		if id > 0 && id < len(ex.prog.typeBy) {
			t := ex.prog.typeBy[id]
			if f := ex.prog.prog.LookupMethod(t, m.Pkg(), m.Name()); f != nil && f.Blocks != nil {
				recv := ex.unbox(st, iv, t)
				ex.callFn(fr, f, append([]Val{recv}, args...), nil, pos, st, cont)
				return
			}
		}
	}
	keys := []string{"(" + typeKey(it) + ")." + m.Name()}
	if r := m.Type().(*types.Signature).Recv(); r != nil {
		keys = append(keys, "("+typeKey(r.Type())+")."+m.Name())
	}
	for _, key := range keys {
		if s := ex.prog.spec.funcs[key]; s != nil {
			ex.used[key] = true
			ex.applySpec(fr, s, m.Type().(*types.Signature), &SV{iv, it}, args, pos, st, cont)
			return
		}
	}
	if types.TypeString(m.Type().(*types.Signature).Recv().Type(), nil) == "error" {
		ex.exts["(error).Error"] = true
		cont(st, []Val{ex.fresh(st, "errstr", types.Typ[types.String], ex.minRoot())})
		return
	}
	ex.abort("call of interface method %s without contract (%s)", keys[0], ex.pos(pos))
}

func (ex *Exec) specEnv(s *FuncSpec, sig *types.Signature, recv *SV, args []Val) map[string]SV {
	env := map[string]SV{}
	if recv != nil && s.recv != "" {
		env[s.recv] = ex.asImpl(s, *recv)
		env["this"] = *recv
	}
	for i := 0; i < sig.Params().Len() && i < len(s.params); i++ {
		env[s.params[i]] = SV{args[i], sig.Params().At(i).Type()}
	}
	return env
}

// asImpl: in a contract shared with an interface the receiver is the interface value.
func (ex *Exec) asImpl(s *FuncSpec, v SV) SV {
	if s.impl == "" {
		return v
	}
	if _, ok := v.v.(*IfaceV); ok {
		return v
	}
	i := strings.LastIndexByte(s.impl, '.')
	c := &Ctx{ex: ex, pkg: s.impl[:i]}
	return SV{&IfaceV{I(int64(ex.prog.typeID(v.t))), v.v.(*Term)}, c.lookupType(s.impl[:i], s.impl[i+1:])}
}

func guardEval(ex *Exec, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(evalErr); ok {
				ex.abort("contract %s: %s", what, e.msg)
			}
			panic(r)
		}
	}()
	f()
}

func (ex *Exec) havocMods(st *State, ms *modSet) {
	if !ms.all {
		pre, hit := map[string]*Mem{}, false
		for n := range ms.regs {
			pre[n] = ex.memOf(st, n, ms.isEl[n], ms.elem[n])
			hit = true
		}
		if hit {
			old := st.clone()
			defer func() {
				ex.relyRegs(st, pre, ms)
				if ms.shield {
					ex.shield(st, old, ms)
				}
			}()
		}
	}
	if ms.all {
		pre := map[string]*Mem{}
		for n, m := range st.mem {
			pre[n] = m
		}
		old := st.clone()
		defer func() {
			ex.relyAll(st, pre, ms.shield)
			if ms.shield {
				ex.shield(st, old, nil)
			}
		}()
		ex.nalloc++
		sh0 := ex.shared(st)
		symBorn[fmt.Sprintf("!all%d", ex.nalloc)] = termCnt
		h := allHavoc{ex.nalloc, -ex.nalloc, -ex.nalloc, func(l, _ *Term) *Term { return sh0(l) }, map[*Mem]*Mem{}}
		for _, n := range sortedKeys(st.mem) {
			if ex.survives(n) {
				continue
			}
			m := st.mem[n]
			st.mem[n] = &Mem{kind: MHavoc, info: m.info, prev: m, sym: fmt.Sprintf("%s!all%d", n, h.id), regs: []Region{{pred: h.sh, star: true}}, minRoot: h.minRoot, ceil: h.ceil}
		}
		st.allHav = append(st.allHav[:len(st.allHav):len(st.allHav)], h)
	}
	var ns []string
	for n := range ms.regs {
		ns = append(ns, n)
	}
	sortStrings(ns)
	for _, n := range ns {
		m := ex.memOf(st, n, ms.isEl[n], ms.elem[n])
		st.mem[n] = m.havoc(ms.regs[n], -ex.nalloc, -ex.nalloc)
	}
}

func (ex *Exec) applySpec(fr *Frame, s *FuncSpec, sig *types.Signature, recv *SV, args []Val, pos token.Pos, st *State, cont contFn) {
	ex.applySpecX(fr, s, sig, recv, args, nil, pos, st, cont)
}

func (ex *Exec) applySpecX(fr *Frame, s *FuncSpec, sig *types.Signature, recv *SV, args []Val, extra map[string]SV, pos token.Pos, st *State, cont contFn) {
	env := ex.specEnv(s, sig, recv, args)
	if st.dfrCall && s.flags["recovers"] {
		st.panicV = nil
	}
	st.dfrCall = false
	for k, v := range extra {
		env[k] = v
	}
	ceil0 := -ex.nalloc
	pre := st.clone()
	guardEval(ex, s.key, func() {
		cx := &Ctx{ex: ex, st: st, old: st, env: env, pkg: s.pkg, ceil: ceil0}
		for _, c := range s.requires {
			ex.oblige(st, "pre", s.shortKey()+": "+c.label, pos, c.tags, cx.boolean(c.e))
		}
		ex.checkCalls(st, s, env, pos)
		ex.escapeArgs(st, s, recv, args)
		pre = st.clone()
		ms := cx.modifies(s.modifies)
		ms.shield = true
		for _, c := range s.requires {
			if ex.prog.spec.asksLock(c.e) {
				ms.shield = false // works under a lock of this thread
			}
		}
		ex.nalloc += 50
		ex.yield(st, fr, s)
		ex.havocMods(st, ms)
		var res []Val
		for i := 0; i < sig.Results().Len(); i++ {
			r := ex.fresh(st, "ret", sig.Results().At(i).Type(), ex.minRoot())
			res = append(res, r)
			if i < len(s.results) {
				env[s.results[i]] = SV{r, sig.Results().At(i).Type()}
			}
		}
		if s.mayPanic {
			s2 := st.clone()
			cq := &Ctx{ex: ex, st: s2, old: pre, env: env, pkg: s.pkg, ceil: ceil0}
			for _, c := range s.panics {
				s2.assume(cq.boolean(c.e))
			}
			ex.panickingCall(fr, s2, pos)
		}
		cp := &Ctx{ex: ex, st: st, old: pre, env: env, pkg: s.pkg, ceil: ceil0}
		for _, c := range s.ensures {
			if c.local {
				continue
			}
			st.assume(cp.boolean(c.e))
		}
		if ex.spec != nil {
			for i := range ex.spec.retains {
				rc := &ex.spec.retains[i]
				if rc.matches(s) {
					renv := ex.rootEnv()
					for n, v := range env {
						if !strings.HasPrefix(n, "$") {
							renv["$"+n] = v
						}
					}
					ex.assume["assumed of "+rc.name+" in "+shortKey(ex.spec.key)+": "+rc.cl.label] = true
					cr := &Ctx{ex: ex, st: st, old: pre, env: renv, pkg: ex.spec.pkg, ceil: ceil0}
					st.assume(cr.boolean(rc.cl.e))
				}
			}
		}
		ex.afterCall(fr, s, st, pre, env)
		cont(st, res)
	})
}

// checkCalls: what the contract being verified says about calls of s; the parameters of
// the callee are named with a leading $.
func (ex *Exec) checkCalls(st *State, s *FuncSpec, cenv map[string]SV, pos token.Pos) {
	if ex.spec == nil || len(ex.spec.calls) == 0 || ex.silent > 0 {
		return
	}
	if ex.spec.flags["checkpoint"] {
		defer ex.checkpoint(st, s, cenv)
	}
	for i := range ex.spec.calls {
		cc := ex.spec.calls[i]
		if !cc.matches(s) {
			continue
		}
		guardEval(ex, ex.spec.key, func() {
			env := ex.rootEnv()
			for n, v := range cenv {
				if !strings.HasPrefix(n, "$") {
					env["$"+n] = v
				}
			}
			c := &Ctx{ex: ex, st: st, old: ex.entry, env: env, pkg: ex.spec.pkg, ceil: -ex.nalloc}
			g := c.boolean(cc.cl.e)
			ex.oblige(st, "call", cc.name+": "+cc.cl.label, pos, cc.cl.tags, g)
			st.assume(g)
		})
	}
}

// mentionsSym: the term speaks of a symbol that begins so.
func mentionsSym(t *Term, prefix string, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if strings.HasPrefix(t.Name, prefix) {
		return true
	}
	for _, a := range t.Args {
		if mentionsSym(a, prefix, seen) {
			return true
		}
	}
	return false
}

// checkpoint: what is known of the bytes from here on is what the clauses about this call
// say, and that only what the contract lists has been changed so far.
func (ex *Exec) checkpoint(st *State, s *FuncSpec, cenv map[string]SV) {
	any := false
	for i := range ex.spec.calls {
		any = any || ex.spec.calls[i].name != "*" && ex.spec.calls[i].matches(s)
	}
	const n = "E:uint8"
	m, e := st.mem[n], ex.entry.mem[n]
	if any && len(ex.prog.loopsOf(ex.root).list) > 0 {
		ex.abort("checkpoint in a function with loops")
	}
	if !any || ex.rootMods() == nil || ex.rootMods().all || m == nil || e == nil || ex.didYield {
		return
	}
	if g := ex.frameGoal(st, n, ex.rootMods(), true); g != True {
		ex.oblige(st, "frame", "modifies only what the contract lists ("+shortName(n)+")", 0, ex.spec.frameTags(), g)
	}
	regs := append([]Region{}, ex.rootMods().regs[n]...)
	regs = append(regs, Region{pred: func(l, _ *Term) *Term { return Lt(rootBound(l), I(0)) }})
	st.mem[n] = e.havoc(regs, 0, 0)
	var pc []*Term
	for i, h := range st.pc {
		if i < len(ex.entry.pc) || !mentionsSym(h, n, map[*Term]bool{}) {
			pc = append(pc, h)
		}
	}
	st.pc, st.pcSet = nil, nil
	for _, h := range pc {
		st.assume(h)
	}
	for i := range ex.spec.calls {
		cc := ex.spec.calls[i]
		if !cc.matches(s) {
			continue
		}
		guardEval(ex, ex.spec.key, func() {
			env := ex.rootEnv()
			for k, v := range cenv {
				if !strings.HasPrefix(k, "$") {
					env["$"+k] = v
				}
			}
			c := &Ctx{ex: ex, st: st, old: ex.entry, env: env, pkg: ex.spec.pkg, ceil: -ex.nalloc}
			st.assume(c.boolean(cc.cl.e))
		})
	}
}

func (cc *callClause) matches(s *FuncSpec) bool {
	k := s.shortKey()
	return cc.name == "*" || k == cc.name || strings.HasSuffix(k, "."+cc.name)
}

func (s *FuncSpec) shortKey() string {
	k := s.key
	if i := strings.LastIndexByte(k, '/'); i >= 0 {
		k = k[i+1:]
	}
	return strings.NewReplacer("(", "", ")", "", "*", "").Replace(k)
}

func (ex *Exec) panickingCall(fr *Frame, st *State, pos token.Pos) {
	st.trace = append(st.trace, ex.pos(pos)+" callee panics")
	if !ex.panicking(fr, st, True, pos) {
		ex.panicExit(st, pos)
	}
}

// ---- builtins ----
func (ex *Exec) builtin(fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []Val, pos token.Pos, st *State, cont contFn) {
	one := func(v Val) { cont(st, []Val{v}) }
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case *SliceV:
			if b.Name() == "len" {
				one(x.Len)
			} else {
				one(x.Cap)
			}
			return
		case *StrV:
			one(x.Len)
			return
		case *ArrV:
			one(I(x.T.Len()))
			return
		case *Term:
			t := c.Args[0].Type().Underlying()
			switch u := t.(type) {
			case *types.Pointer:
				one(I(u.Elem().Underlying().(*types.Array).Len()))
				return
			case *types.Map:
				one(ex.mapLen(st, fr, c.Args[0], x, u, pos))
				return
			case *types.Chan:
				if b.Name() == "cap" {
					one(App("chancap", SInt, bZero, maxLen, nil, x))
				} else {
					one(FreshInt("chanlen", bZero, maxLen))
				}
				return
			}
		}
	case "append":
		ex.appendOp(fr, c, args, pos, st, cont)
		return
	case "copy":
		d := args[0].(*SliceV)
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		var sarr, soff, slen *Term
		srcName := "E:" + elemKey(et)
		switch x := args[1].(type) {
		case *SliceV:
			sarr, soff, slen = x.Arr, x.Off, x.Len
		case *StrV:
			sarr, soff, slen = x.Arr, x.Off, x.Len
			srcName = "S:byte"
		}
		n := Ite(Le(d.Len, slen), d.Len, slen)
		if d.Len == slen || st.holds(Le(d.Len, slen)) {
			n = d.Len
		} else if st.holds(Le(slen, d.Len)) {
			n = slen
		}
		if isAggregate(et) {
			ex.copyStructs(st, et, d.Arr, d.Off, sarr, soff, n)
		} else {
			for _, l := range leaves(et) {
				nm := "E:" + elemKey(et) + l.suf
				m := ex.memOf(st, nm, true, l)
				src := ex.memOf(st, srcName+l.suf, true, l)
				st.mem[nm] = m.copyRange(d.Arr, d.Off, Add(d.Off, n), src, sarr, soff)
			}
		}
		ex.copied(st, fr, d, n, pos)
		one(n)
		return
	case "delete":
		m := args[0].(*Term)
		mt := c.Args[0].Type().Underlying().(*types.Map)
		ex.mapAccess(st, fr, c.Args[0], m, true, pos)
		ex.mapDelete(st, m, mt, ex.mapKey(st, args[1]))
		cont(st, nil)
		return
	case "close":
		ex.chanClose(st, fr, c.Args[0], args[0].(*Term), pos, func(s *State) { cont(s, nil) })
		return
	case "panic":
		ex.doPanic(fr, st, args[0], pos)
		return
	case "recover":
		// inside a deferred call: stops the panic
		if fr.parent == nil {
			// the function under contract may have been called while panicking
			st.recovered = true
			one(ex.fresh(st, "recovered", c.Signature().Results().At(0).Type(), ex.minRoot()))
			return
		}
		if st.panicV != nil && fr.dfr {
			st.panicV = nil
			iv := &IfaceV{FreshInt("panictyp", bOne, nil), FreshLoc("panicval", ex.minRoot())}
			one(iv)
		} else {
			one(&IfaceV{I(0), Null})
		}
		return
	case "print", "println":
		cont(st, nil)
		return
	case "ssa:wrapnilchk":
		p := args[0].(*Term)
		ex.nilCheck(st, p, pos)
		one(p)
		return
	case "min", "max":
		a, b2 := args[0].(*Term), args[1].(*Term)
		if b.Name() == "min" {
			one(Ite(Le(a, b2), a, b2))
		} else {
			one(Ite(Le(a, b2), b2, a))
		}
		return
	}
	ex.abort("builtin %s", b.Name())
}

func isAggregate(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (ex *Exec) appendOp(fr *Frame, c *ssa.CallCommon, args []Val, pos token.Pos, st *State, cont contFn) {
	s := args[0].(*SliceV)
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	var tarr, toff, tlen *Term
	src := "E:" + elemKey(et)
	switch x := args[1].(type) {
	case *SliceV:
		tarr, toff, tlen = x.Arr, x.Off, x.Len
	case *StrV:
		tarr, toff, tlen = x.Arr, x.Off, x.Len
		src = "S:byte"
	}
	nl := Add(s.Len, tlen)
	// total size is limited by memory
	st.assume(Le(nl, Num(floorDiv(maxLen, bi(ex.prog.elemSize(et))))))
	put := func(q *State, arr, at *Term) {
		if isAggregate(et) {
			ex.copyStructs(q, et, arr, at, tarr, toff, tlen)
			return
		}
		for _, l := range leaves(et) {
			nm := "E:" + elemKey(et) + l.suf
			m := ex.memOf(q, nm, true, l)
			sm := ex.memOf(q, src+l.suf, true, l)
			if tlen.isConst() && tlen.K.IsInt64() && tlen.K.Int64() <= 4 {
				for i := int64(0); i < tlen.K.Int64(); i++ {
					m = m.store(arr, Add(at, I(i)), sm.read(tarr, Add(toff, I(i))))
				}
				q.mem[nm] = m
				continue
			}
			q.mem[nm] = m.copyRange(arr, at, Add(at, tlen), sm, tarr, toff)
		}
	}
	ex.branch(st, Le(nl, s.Cap), pos, func(q *State) {
		put(q, s.Arr, Add(s.Off, s.Len))
		cont(q, []Val{ex.bounded(q, &SliceV{s.Arr, s.Off, nl, s.Cap})})
	}, func(q *State) {
		o := ex.newObj()
		cp := FreshInt("cap", bZero, floorDiv(maxLen, bi(ex.prog.elemSize(et))))
		q.assume(Le(nl, cp))
		if isAggregate(et) {
			ex.copyStructs(q, et, o, I(0), s.Arr, s.Off, s.Len)
		} else {
			for _, l := range leaves(et) {
				nm := "E:" + elemKey(et) + l.suf
				m := ex.memOf(q, nm, true, l)
				q.mem[nm] = m.copyRange(o, I(0), s.Len, m, s.Arr, s.Off)
			}
		}
		put(q, o, s.Len)
		cont(q, []Val{ex.bounded(q, &SliceV{o, I(0), nl, cp})})
	})
}

// copyStructs copies n aggregate elements.
func (ex *Exec) copyStructs(st *State, et types.Type, darr, doff, sarr, soff, n *Term) {
	s, ok := et.Underlying().(*types.Struct)
	if !ok {
		ex.abort("copy of arrays of arrays")
	}
	var rec func(t types.Type, path []int)
	rec = func(t types.Type, path []int) {
		u := t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			switch ft.Underlying().(type) {
			case *types.Struct:
				rec(ft, path)
				continue
			case *types.Array:
				ex.abort("copy of structs holding arrays")
			}
			for _, l := range leaves(ft) {
				nm := fieldMemName(t, i) + l.suf
				m := ex.memOf(st, nm, false, l)
				st.mem[nm] = &Mem{kind: MCopyEl, info: m.info, prev: m, l: darr, lo: doff, hi: Add(doff, n), src: m, srcL: sarr, srcOff: soff, sym: freshName(nm)}
			}
		}
	}
	_ = s
	rec(et, nil)
}

// ---- external models ----
type extCall struct {
	fr   *Frame
	fn   *ssa.Function
	args []Val
	pos  token.Pos
	st   *State
	cont contFn
}

func (x *extCall) t(i int) *Term { return x.args[i].(*Term) }

type extModel func(ex *Exec, c *extCall)

var extModels = map[string]extModel{}
var extPrefixes []struct {
	prefix string
	m      extModel
}

func freshResults(ex *Exec, c *extCall) {
	var res []Val
	rs := c.fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		res = append(res, ex.fresh(c.st, "ext", rs.At(i).Type(), ex.minRoot()))
	}
	c.cont(c.st, res)
}

func newError(ex *Exec, c *extCall) {
	o := ex.newObj()
	c.cont(c.st, []Val{&IfaceV{Var("errors.errorString", SInt, bi(1<<40), bi(1<<40)), o}})
}

func init() {
	leaf8 := leaf{"", SInt, bZero, bi(255)}
	for _, order := range []string{"little", "big"} {
		for _, w := range []int{2, 4, 8} {
			order, w := order, w
			idx := func(k int) int {
				if order == "big" {
					return w - 1 - k
				}
				return k
			}
			extModels[fmt.Sprintf("(encoding/binary.%sEndian).PutUint%d", order, w*8)] = func(ex *Exec, c *extCall) {
				s := c.args[1].(*SliceV)
				v := c.t(2)
				ex.safety(c.st, "index out of range", c.pos, Le(I(int64(w)), s.Len))
				m := ex.memOf(c.st, "E:uint8", true, leaf8)
				for k := 0; k < w; k++ {
					m = m.store(s.Arr, Add(s.Off, I(int64(idx(k)))), Mod(Div(v, pow2(uint(8*k))), bi(256)))
				}
				c.st.mem["E:uint8"] = m
				c.cont(c.st, nil)
			}
			extModels[fmt.Sprintf("(encoding/binary.%sEndian).Uint%d", order, w*8)] = func(ex *Exec, c *extCall) {
				s := c.args[1].(*SliceV)
				ex.safety(c.st, "index out of range", c.pos, Le(I(int64(w)), s.Len))
				m := ex.memOf(c.st, "E:uint8", true, leaf8)
				sum := I(0)
				for k := 0; k < w; k++ {
					sum = Add(sum, MulC(m.read(s.Arr, Add(s.Off, I(int64(idx(k))))), pow2(uint(8*k))))
				}
				c.cont(c.st, []Val{sum})
			}
		}
	}
	ident := func(ex *Exec, c *extCall) { c.cont(c.st, []Val{c.args[0]}) }
	for _, n := range []string{"math.Float32bits", "math.Float64bits", "math.Float32frombits", "math.Float64frombits"} {
		extModels[n] = ident
	}
	extModels["errors.New"] = newError
	extModels["fmt.Errorf"] = newError
	extModels["fmt.Sprintf"] = freshResults
	extModels["fmt.Sprint"] = freshResults
	for _, n := range []string{"Print", "Printf", "Println"} {
		extModels["log."+n] = func(ex *Exec, c *extCall) { c.cont(c.st, nil) }
		extModels["fmt."+n] = freshResults
	}
	for _, n := range []string{"Panic", "Panicf", "Panicln", "Fatal", "Fatalf", "Fatalln"} {
		extModels["log."+n] = func(ex *Exec, c *extCall) { ex.doPanic(c.fr, c.st, True, c.pos) }
	}
	for _, n := range []string{"time.Now", "time.Since", "(time.Time).Add", "(time.Time).Sub", "(time.Time).UnixNano", "(time.Duration).String", "(*time.Ticker).Stop", "(*time.Timer).Stop", "(*time.Timer).Reset", "runtime.Gosched", "time.Sleep", "runtime.Caller", "runtime/debug.Stack", "runtime/debug.PrintStack"} {
		extModels[n] = freshResults
	}
	extModels["runtime.Stack"] = func(ex *Exec, c *extCall) {
		s := c.args[0].(*SliceV)
		m := ex.memOf(c.st, "E:uint8", true, leaf8)
		c.st.mem["E:uint8"] = m.havoc([]Region{{loc: s.Arr, lo: s.Off, hi: Add(s.Off, s.Len)}}, -ex.nalloc, -ex.nalloc)
		freshResults(ex, &extCall{c.fr, c.fn, c.args, c.pos, c.st, func(st *State, res []Val) {
			st.assume(And(Le(I(0), res[0].(*Term)), Le(res[0].(*Term), s.Len)))
			c.cont(st, res)
		}})
	}
	extModels["(*net.Dialer).Dial"] = func(ex *Exec, c *extCall) {
		freshResults(ex, &extCall{c.fr, c.fn, c.args, c.pos, c.st, func(st *State, res []Val) {
			nc, er := res[0].(*IfaceV), res[1].(*IfaceV)
			st.assume(Or(Not(Eq(er.Typ, I(0))), Not(Eq(nc.Typ, I(0)))))
			for path, p := range ex.prog.tpkgs {
				if o := p.Scope().Lookup("NetConn"); o != nil && strings.HasSuffix(path, "go-iproto/net") {
					ex.assume["net.Dial returns connections of which each direction can be closed (TCP, Unix)"] = true
					st.assume(Or(Not(Eq(er.Typ, I(0))), ex.prog.implements(nc.Typ, o.Type())))
				}
			}
			c.cont(st, res)
		}})
	}
	for _, n := range []string{"time.AfterFunc", "time.NewTicker", "time.NewTimer"} {
		n := n
		extModels[n] = func(ex *Exec, c *extCall) {
			if n == "time.NewTicker" {
				ex.safety(c.st, "the period of a ticker is positive", c.pos, Lt(I(0), c.t(0)))
			}
			freshResults(ex, &extCall{c.fr, c.fn, c.args, c.pos, c.st, func(st *State, res []Val) {
				st.assume(Not(Eq(res[0].(*Term), Null)))
				c.cont(st, res)
			}})
		}
	}
}

func pref(p string, m extModel) {
	extPrefixes = append(extPrefixes, struct {
		prefix string
		m      extModel
	}{p, m})
}

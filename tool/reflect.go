package main

// A model of package reflect: its queries are functions of the value asked about. Those
// that look at memory (Len, Index, Elem, IsNil) are the same each time only under
// "flag reflpure" (the value does not change while the function runs).

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

var reflMem = map[string]bool{"Len": true, "Index": true, "Elem": true, "IsNil": true, "Field": false, "Kind": false, "Type": false,
	"CanSet": false, "CanAddr": false, "CanInterface": false, "NumField": false, "Addr": false}

// what these return is not followed
var reflAny = map[string]bool{"Interface": true, "String": true, "Int": true, "Uint": true, "Float": true, "Bytes": true, "Bool": true, "Pointer": true, "Cap": true, "IsValid": true, "UnsafeAddr": true}

// these change the variable behind the value (which no contract speaks of)
var reflSet = map[string]bool{"Set": true, "SetInt": true, "SetUint": true, "SetFloat": true, "SetString": true, "SetBytes": true, "SetLen": true, "SetBool": true, "SetCap": true}

func pureVal(ex *Exec, st *State, name string, t types.Type, args []*Term) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			v.F = append(v.F, pureVal(ex, st, fmt.Sprintf("%s.%d", name, i), u.Field(i).Type(), args))
		}
		return v
	}
	var xs []*Term
	for _, l := range leaves(t) {
		xs = append(xs, App(name+l.suf, l.sort, l.lo, l.hi, nil, args...))
	}
	v := fromLeaves(t, xs)
	if iv, ok := v.(*IfaceV); ok && st != nil && isReflType(t) {
		st.assume(Ne(iv.Typ, I(0)))
	}
	return v
}

func isReflType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Type"
}

func reflName(recv string, name string) string { return "uf_refl_" + recv + "_" + name }

func flatAll(vs []Val) []*Term {
	var r []*Term
	for _, v := range vs {
		r = append(r, flatVal(v)...)
	}
	return r
}

func reflModel(ex *Exec, c *extCall) {
	k := c.fn.RelString(nil)
	sig := c.fn.Signature
	name := k[strings.LastIndexByte(k, '.')+1:]
	ex.assume["package reflect behaves as documented; a value asked about twice answers the same"] = true
	if strings.HasPrefix(k, "(reflect.Value).") {
		if reflSet[name] {
			c.cont(c.st, nil)
			return
		}
		if mem, ok := reflMem[name]; ok {
			if mem && !(ex.spec != nil && ex.spec.flags["reflpure"]) {
				freshResults(ex, c)
				return
			}
			r := pureVal(ex, c.st, reflName("v", name), sig.Results().At(0).Type(), flatAll(c.args))
			if t, ok := r.(*Term); ok && (name == "Len" || name == "NumField" || name == "Kind") {
				c.st.assume(Ge(t, I(0)))
				c.st.assume(Lt(t, Num(pow2(47))))
			}
			c.cont(c.st, []Val{r})
			return
		}
		if reflAny[name] {
			freshResults(ex, c)
			return
		}
	}
	switch k {
	case "reflect.ValueOf", "reflect.PtrTo", "reflect.PointerTo", "reflect.TypeOf":
		c.cont(c.st, []Val{pureVal(ex, c.st, reflName("", name), sig.Results().At(0).Type(), flatAll(c.args))})
		return
	case "reflect.MakeSlice", "reflect.New", "reflect.Zero", "reflect.Indirect", "reflect.Append", "reflect.AppendSlice":
		freshResults(ex, c)
		return
	}
	ex.abort("call of %s: no model (%s)", k, ex.pos(c.pos))
}

// reflInvoke: methods of reflect.Type.
func reflInvoke(ex *Exec, it types.Type, iv *IfaceV, m *types.Func, args []Val, pos token.Pos, st *State, cont contFn) bool {
	if !isReflType(it) {
		return false
	}
	sig := m.Type().(*types.Signature)
	ex.exts["(reflect.Type).*"] = true
	as := append(toLeaves(iv), flatAll(args)...)
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, pureVal(ex, st, fmt.Sprintf("%s%s", reflName("t", m.Name()), map[bool]string{true: fmt.Sprint(i)}[i > 0]), sig.Results().At(i).Type(), as))
	}
	cont(st, res)
	return true
}

// refl_NAME(v, args): the same queries in contracts.
func (c *Ctx) reflCall(e *Expr, name string, args []SV) SV {
	var as []*Term
	for _, a := range args {
		as = append(as, flatVal(a.v)...)
	}
	p := c.ex.prog.tpkgs["reflect"]
	if p == nil {
		c.fail(e, "package reflect not loaded")
	}
	recv := "v"
	tn := "Value"
	if len(args) == 0 {
		c.fail(e, "%s needs an argument", e.name)
	}
	if isReflType(args[0].t) {
		recv, tn = "t", "Type"
	}
	if name == "ValueOf" || name == "TypeOf" {
		t := p.Scope().Lookup(name).Type().(*types.Signature).Results().At(0).Type()
		return SV{pureVal(c.ex, nil, reflName("", name), t, as), t}
	}
	o, _, _ := types.LookupFieldOrMethod(p.Scope().Lookup(tn).Type(), false, p, name)
	f, ok := o.(*types.Func)
	if !ok {
		c.fail(e, "no method %s of reflect.%s", name, tn)
	}
	t := f.Type().(*types.Signature).Results().At(0).Type()
	return SV{pureVal(c.ex, nil, reflName(recv, name), t, as), t}
}

package main

// Fields that are set only while their object is being built (declared "fixed T.f").
// The declaration is checked against the whole program: a store to such a field, or a use
// of its address, anywhere but on an object allocated by the same function, or a copy over
// a whole object of the type, withdraws it.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func localAlloc(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		default:
			return false
		}
	}
}

func hasFixed(t types.Type, fixed map[string]bool, bad map[string]bool) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if k := structKey(t) + "." + u.Field(i).Name(); fixed[k] {
				bad[k] = true
			}
			hasFixed(u.Field(i).Type(), fixed, bad)
		}
	case *types.Array:
		hasFixed(u.Elem(), fixed, bad)
	}
}

// checkFixed withdraws the declarations that the program does not respect.
func (P *Program) checkFixed() {
	fixed := P.spec.fixed
	if len(fixed) == 0 {
		return
	}
	bad := map[string]bool{}
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if _, isA := st.Addr.(*ssa.FieldAddr); !isA && !localAlloc(st.Addr) {
						if p, ok := st.Addr.Type().Underlying().(*types.Pointer); ok {
							hasFixed(p.Elem(), fixed, bad)
						}
					}
				}
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || localAlloc(fa.X) {
					continue
				}
				sty := fa.X.Type().Underlying().(*types.Pointer).Elem()
				k := structKey(sty) + "." + sty.Underlying().(*types.Struct).Field(fa.Field).Name()
				for _, r := range *fa.Referrers() {
					switch y := r.(type) {
					case *ssa.UnOp:
						if y.Op == token.MUL {
							continue
						}
					case *ssa.FieldAddr, *ssa.DebugRef:
						continue
					case *ssa.Store:
						if y.Addr == ssa.Value(fa) {
							hasFixed(y.Val.Type(), fixed, bad)
						}
					}
					if fixed[k] {
						bad[k] = true
					}
				}
			}
		}
	}
	for k := range bad {
		delete(fixed, k)
	}
}

// survives: the memory is not touched by code with an unrestricted frame.
func (ex *Exec) survives(n string) bool {
	if n == "S:byte" {
		return true
	}
	sp := ex.prog.spec
	if strings.HasPrefix(n, "G:") {
		g := sp.ghosts[n[2:]]
		return g != nil && g.thread
	}
	if strings.HasPrefix(n, "F:") {
		k := n[2:]
		if i := strings.IndexByte(k, ':'); i >= 0 {
			k = k[:i]
		}
		return sp.fixed[k]
	}
	return false
}

package main

// Which functions keep a pointer they are given to themselves: the pointer (not what the
// object points to) is only used to reach the object's own fields, and handed only to
// functions that do the same.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type leakKey struct {
	fn *ssa.Function
	i  int
}

func (P *Program) keepsTo(fn *ssa.Function, i int) bool {
	if P.leaks == nil {
		P.leaks = map[leakKey]bool{}
	}
	k := leakKey{fn, i}
	if r, ok := P.leaks[k]; ok {
		return r
	}
	if len(fn.Blocks) == 0 || i >= len(fn.Params) {
		return false
	}
	P.leaks[k] = true // of a recursive call: what the rest says
	r := P.keepsVal(fn.Params[i], 0)
	P.leaks[k] = r
	if !r { // what was concluded meanwhile may rest on it
		for q, v := range P.leaks {
			if v {
				delete(P.leaks, q)
			}
		}
	}
	return r
}

func (P *Program) keepsVal(v ssa.Value, d int) bool {
	if d > 20 {
		return false
	}
	if _, ok := v.Type().Underlying().(*types.Pointer); !ok {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !P.keepsVal(x, d+1) {
				return false
			}
		case *ssa.IndexAddr:
			if !P.keepsVal(x, d+1) {
				return false
			}
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if x.Val == v {
				return false
			}
		case *ssa.BinOp: // compared with nil
		case *ssa.Call, *ssa.Defer:
			c := x.(ssa.CallInstruction).Common()
			f := c.StaticCallee()
			if f == nil {
				return false
			}
			for i, a := range c.Args {
				if a == v && !P.keepsTo(f, i) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// escapeArgs: what a call may make known to others.
func (ex *Exec) escapeArgs(st *State, s *FuncSpec, recv *SV, args []Val) {
	fn := ex.prog.funcs[s.key]
	n := 0
	if recv != nil {
		n = 1
	}
	one := func(v Val, i int) {
		if t, ok := v.(*Term); ok && fn != nil && !s.trusted && !s.fnspec && t.Sort == SLoc && ex.private(st, t) && ex.prog.keepsTo(fn, i) {
			r, _ := concRoot(t)
			ex.escapeEdges(st, r)
			return
		}
		ex.escape(st, v)
	}
	if recv != nil && !strings.Contains(s.key, "$") { // (the owner of a channel is not handed to anybody)
		one(recv.v, 0)
	}
	for i, a := range args {
		one(a, i+n)
	}
}

package main

// Preprocessing of queries: equalities are used as rewrite rules, facts are propagated.

import "math/big"

func containsTerm(t, x *Term, memo map[*Term]bool) bool {
	if t == x {
		return true
	}
	if len(t.Args) == 0 {
		return false
	}
	if v, ok := memo[t]; ok {
		return v
	}
	r := false
	for _, a := range t.Args {
		if containsTerm(a, x, memo) {
			r = true
			break
		}
	}
	memo[t] = r
	return r
}

// orient turns an equality into a rewrite x -> t.
func orient(e *Term) (x, t *Term) {
	a, b := e.Args[0], e.Args[1]
	switch a.Sort {
	case SInt:
		l := toLin(Sub(a, b))
		best := -1
		for at, c := range l.m {
			if at.bound || new(big.Int).Abs(c).Cmp(bOne) != 0 {
				continue
			}
			rank := -1
			switch at.Op {
			case OVar:
				rank = 2
			case OApp:
				rank = 1
			}
			if rank < 0 {
				continue
			}
			rest := Sub(a, b)
			if c.Sign() > 0 {
				rest = Neg(Sub(rest, at))
			} else {
				rest = Add(rest, at)
			}
			if containsTerm(rest, at, map[*Term]bool{}) {
				continue
			}
			if rank > best || rank == best && at.id > x.id {
				best, x, t = rank, at, rest
			}
		}
	case SLoc:
		try := func(p, q *Term) {
			if x != nil || p.bound || q.bound || (p.Op != OVar && p.Op != OApp) {
				return
			}
			if containsTerm(q, p, map[*Term]bool{}) {
				return
			}
			x, t = p, q
		}
		if a.Op == OVar || b.Op != OVar && b.Op != OApp {
			try(a, b)
		}
		if b.Op == OVar || a.Op != OVar && a.Op != OApp {
			try(b, a)
		}
		if a.id > b.id {
			try(a, b)
			try(b, a)
		} else {
			try(b, a)
			try(a, b)
		}
	}
	return
}

func isLit(t *Term) bool {
	switch t.Op {
	case OAnd, OOr, OForall, OIte:
		return false
	case ONot:
		return isLit(t.Args[0])
	case OEq:
		return t.Args[0].Sort != SBool
	}
	return true
}

func flatten(ts []*Term, out *[]*Term) {
	for _, t := range ts {
		if t.Op == OAnd {
			flatten(t.Args, out)
		} else if t != True {
			*out = append(*out, t)
		}
	}
}

// simplifyQuery returns an equivalent set of hypotheses and goal.
func simplifyQuery1(hyps []*Term, goal *Term) ([]*Term, *Term, bool) {
	var hs []*Term
	flatten(hyps, &hs)
	var facts []*Term // kept definitions' ranges
	done := map[*Term]bool{}
	var kept []*Term
	for round := 0; round < 200; round++ {
		var x, t, e *Term
		for _, h := range hs {
			if h.Op == OEq && h.Args[0].Sort != SBool && !done[h] {
				if x, t = orient(h); x != nil {
					e = h
					break
				}
				done[h] = true
			}
		}
		if e == nil {
			break
		}
		done[e] = true
		m := map[*Term]*Term{x: t}
		memo := map[*Term]*Term{}
		var nh []*Term
		for _, h := range hs {
			if h == e {
				continue
			}
			nh = append(nh, Subst(h, m, memo))
		}
		goal = Subst(goal, m, memo)
		for i := range facts {
			facts[i] = Subst(facts[i], m, memo)
		}
		for i := range kept {
			kept[i] = Subst(kept[i], m, memo)
		}
		if x.Op == OVar || x.Op == OApp {
			if x.Sort == SInt {
				if x.lo != nil {
					facts = append(facts, Le(Num(x.lo), t))
				}
				if x.hi != nil {
					facts = append(facts, Le(t, Num(x.hi)))
				}
			} else if x.Sort == SLoc && x.hasMR {
				facts = append(facts, Le(I(int64(x.minRoot)), rootOf(t)))
			}
			if x.Op == OApp {
				// arguments may be rewritten later, so the equation itself is kept as well
				kept = append(kept, hashcons(&Term{Op: OEq, Sort: SBool, Args: []*Term{x, t}}))
			}
		}
		hs = hs[:0]
		flatten(nh, &hs)
		for _, h := range hs {
			if h == False {
				return nil, True, true
			}
		}
	}
	hs = append(hs, facts...)
	var hs2 []*Term
	flatten(hs, &hs2)
	// propagate literals
	for round := 0; round < 3; round++ {
		m := map[*Term]*Term{}
		for _, h := range hs2 {
			if h == False {
				return nil, True, true
			}
			if isLit(h) {
				m[h] = True
				n := Not(h)
				if n.Op != OTrue && n.Op != OFalse {
					m[n] = False
				}
			}
		}
		memo := map[*Term]*Term{}
		ch := false
		var nh []*Term
		for _, h := range hs2 {
			if isLit(h) {
				nh = append(nh, h)
				continue
			}
			n := Subst(h, m, memo)
			if n != h {
				ch = true
			}
			nh = append(nh, n)
		}
		goal = Subst(goal, m, memo)
		hs2 = hs2[:0]
		flatten(nh, &hs2)
		if !ch || goal == True {
			break
		}
	}
	return append(hs2, kept...), goal, goal == True
}

func simplifyQuery(hyps []*Term, goal *Term) ([]*Term, *Term, bool) {
	for round := 0; ; round++ {
		var done, ch bool
		hyps, goal, done = simplifyQuery1(hyps, goal)
		if done || round == 3 {
			return hyps, goal, done
		}
		hyps, goal, ch = unwrapMods(hyps, goal)
		if goal == True || !ch {
			return hyps, goal, goal == True
		}
	}
}

package main

// Interval propagation over the linear hypotheses of a query. Wrap-around
// operations that the hypotheses show to be the identity are removed.

import "math/big"

type ival struct{ lo, hi *big.Int }

type bounds map[*Term]ival

func (b bounds) of(t *Term) ival {
	if v, ok := b[t]; ok {
		return v
	}
	return ival{t.lo, t.hi}
}

// lin interval of a linear term under the refined bounds
func (b bounds) eval(t *Term) ival {
	if t.Op != OLin {
		return b.of(t)
	}
	lo, hi := new(big.Int).Set(t.K), new(big.Int).Set(t.K)
	for i, a := range t.Args {
		v := b.of(a)
		c := t.Coefs[i]
		l, h := v.lo, v.hi
		if c.Sign() < 0 {
			l, h = h, l
		}
		if lo != nil {
			if l == nil {
				lo = nil
			} else {
				lo.Add(lo, new(big.Int).Mul(c, l))
			}
		}
		if hi != nil {
			if h == nil {
				hi = nil
			} else {
				hi.Add(hi, new(big.Int).Mul(c, h))
			}
		}
	}
	return ival{lo, hi}
}

func (b bounds) tighten(a *Term, lo, hi *big.Int) bool {
	v := b.of(a)
	ch := false
	if lo != nil && (v.lo == nil || lo.Cmp(v.lo) > 0) {
		v.lo = lo
		ch = true
	}
	if hi != nil && (v.hi == nil || hi.Cmp(v.hi) < 0) {
		v.hi = hi
		ch = true
	}
	if ch {
		b[a] = v
	}
	return ch
}

// le0 uses t <= 0
func (b bounds) le0(t *Term) bool {
	if t.Op != OLin {
		return b.tighten(t, nil, bZero)
	}
	ch := false
	for i, a := range t.Args {
		// c*a <= -(K + sum others lo)
		rest := new(big.Int).Set(t.K)
		ok := true
		for j, o := range t.Args {
			if j == i {
				continue
			}
			v := b.of(o)
			c := t.Coefs[j]
			l := v.lo
			if c.Sign() < 0 {
				l = v.hi
			}
			if l == nil {
				ok = false
				break
			}
			rest.Add(rest, new(big.Int).Mul(c, l))
		}
		if !ok {
			continue
		}
		rest.Neg(rest)
		c := t.Coefs[i]
		if c.Sign() > 0 {
			if b.tighten(a, nil, floorDiv(rest, c)) {
				ch = true
			}
		} else {
			// -|c| a <= rest  ->  a >= ceil(-rest/|c|)
			q := floorDiv(rest, new(big.Int).Neg(c))
			if b.tighten(a, new(big.Int).Neg(q), nil) {
				ch = true
			}
		}
	}
	return ch
}

func collectMods2(t *Term, seen map[*Term]bool, out *[]*Term) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.Args {
		collectMods2(a, seen, out)
	}
	if (t.Op == OMod || t.Op == ODiv) && !t.bound {
		*out = append(*out, t)
	}
}

// unwrap removes Mod operations that the hypotheses show to be trivial.
func unwrapMods(hyps []*Term, goal *Term) ([]*Term, *Term, bool) {
	seen := map[*Term]bool{}
	var mods []*Term
	for _, h := range hyps {
		collectMods2(h, seen, &mods)
	}
	collectMods2(goal, seen, &mods)
	if len(mods) == 0 {
		return hyps, goal, false
	}
	b := bounds{}
	for round := 0; round < 6; round++ {
		ch := false
		for _, h := range hyps {
			switch h.Op {
			case OLe0:
				if b.le0(h.Args[0]) {
					ch = true
				}
			case ONot:
				if g := h.Args[0]; g.Op == OLe0 { // g > 0  ->  1-g <= 0
					if b.le0(Sub(I(1), g.Args[0])) {
						ch = true
					}
				}
			}
		}
		if !ch {
			break
		}
	}
	m := map[*Term]*Term{}
	var facts []*Term
	for _, t := range mods {
		v := b.eval(t.Args[0])
		if v.lo == nil || v.hi == nil {
			continue
		}
		q := floorDiv(v.lo, t.K)
		if floorDiv(v.hi, t.K).Cmp(q) != 0 {
			continue
		}
		if t.Op == ODiv {
			m[t] = Num(q)
			continue
		}
		m[t] = Sub(t.Args[0], Num(new(big.Int).Mul(q, t.K)))
	}
	if len(m) == 0 {
		return hyps, goal, false
	}
	memo := map[*Term]*Term{}
	var nh []*Term
	for _, h := range hyps {
		n := Subst(h, m, memo)
		if n == False {
			return nil, True, true
		}
		if n != True || h == True {
			nh = append(nh, n)
		} else {
			nh = append(nh, h) // keep what justified the rewriting
		}
	}
	nh = append(nh, facts...)
	return nh, Subst(goal, m, memo), true
}

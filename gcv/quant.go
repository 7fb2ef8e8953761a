package main

import "math/big"

// triggers rewrites universally quantified hypotheses over one integer so that
// E-matching can use them whatever offset the ground terms carry: a body that
// reads A[c+i] becomes (forall k. body[i := k-c]) with the trigger A[k], one
// copy for each distinct offset c.  The copies are equivalent to the original.
func (tt *TermTab) triggers(f *Term) *Term {
	if r := tt.trig[f]; r != nil {
		return r
	}
	r := f
	switch f.op {
	case "and":
		var as []*Term
		for _, a := range f.args {
			as = append(as, tt.triggers(a))
		}
		r = tt.And(as...)
	case "or":
		var as []*Term
		for _, a := range f.args {
			as = append(as, tt.triggers(a))
		}
		r = tt.Or(as...)
	case "forall":
		if len(f.args) == 1+int(f.n.Int64()) {
			r = tt.trigOne(f)
		}
	}
	tt.trig[f] = r
	return r
}

func containsTerm(t, b *Term, seen map[*Term]bool) bool {
	if t == b {
		return true
	}
	if !t.bound || seen[t] {
		return false
	}
	seen[t] = true
	for _, a := range t.args {
		if containsTerm(a, b, seen) {
			return true
		}
	}
	return false
}

func (tt *TermTab) trigOne(f *Term) *Term {
	nb := int(f.n.Int64())
	bvs, body := f.args[1:1+nb], f.args[0]
	isBv := map[*Term]bool{}
	for _, b := range bvs {
		isBv[b] = true
	}
	type tr struct {
		off   *Term
		terms []*Term
	}
	trs := map[*Term][]*tr{}
	seen := map[*Term]bool{}
	nested := false
	// freeOf: the only bound variables of t are those of this quantifier
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.bound || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "forall" {
			nested = true
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		var idx *Term
		switch {
		case t.op == "select" || t.op == "app" && t.name == "strat":
			idx = t.args[1]
			if t.args[0].bound {
				return
			}
		case t.op == "app":
			n := 0
			for _, a := range t.args {
				if a.bound {
					idx = a
					n++
				}
			}
			if n != 1 {
				return
			}
		default:
			return
		}
		if isBv[idx] && idx.sort != sInt {
			trs[idx] = appendTr(trs[idx], tt.Int(0), t, func(o *Term, t *Term) *tr { return &tr{o, []*Term{t}} }, func(x *tr) *Term { return x.off }, func(x *tr, t *Term) { x.terms = append(x.terms, t) })
			return
		}
		if idx.sort != sInt {
			return
		}
		m, _ := tt.linOf(idx)
		for _, b := range bvs {
			if c := m[b]; c != nil && c.Cmp(big.NewInt(1)) == 0 {
				off := tt.Sub(idx, b)
				if off.bound {
					continue
				}
				trs[b] = appendTr(trs[b], off, t, func(o *Term, t *Term) *tr { return &tr{o, []*Term{t}} }, func(x *tr) *Term { return x.off }, func(x *tr, t *Term) { x.terms = append(x.terms, t) })
			}
		}
	}
	walk(body)
	if nested {
		return f
	}
	for _, b := range bvs {
		if len(trs[b]) == 0 {
			return f
		}
	}
	var out []*Term
	var rec func(i int, pick []*tr)
	rec = func(i int, pick []*tr) {
		if i < nb {
			for _, x := range trs[bvs[i]] {
				rec(i+1, append(append([]*tr{}, pick...), x))
			}
			return
		}
		m := map[*Term]*Term{}
		var ks []*Term
		for j, b := range bvs {
			k := tt.BoundVar("k", b.sort)
			ks = append(ks, k)
			if b.sort == sInt {
				m[b] = tt.Sub(k, pick[j].off)
			} else {
				m[b] = k
			}
		}
		var per [][]*Term
		for j, x := range pick {
			var ps []*Term
			for _, t := range x.terms {
				p := tt.Subst(t, m)
				ok := p.op == "select" || p.op == "app"
				has := false
				for _, a := range p.args {
					if a == ks[j] {
						has = true
					} else if a.bound {
						ok = false
					}
				}
				if ok && has {
					ps = append(ps, p)
				}
			}
			if len(ps) == 0 {
				return
			}
			per = append(per, ps)
		}
		nbody := tt.Subst(body, m)
		if nbody.isTrue() || nbody.isFalse() {
			out = append(out, nbody)
			return
		}
		var pats []*Term
		if nb == 1 {
			pats = per[0]
		} else {
			var comb func(j int, cur []*Term)
			comb = func(j int, cur []*Term) {
				if len(pats) > 6 {
					return
				}
				if j == nb {
					pats = append(pats, tt.mk("pat", "", sBool, cur...))
					return
				}
				for _, p := range per[j] {
					comb(j+1, append(append([]*Term{}, cur...), p))
				}
			}
			comb(0, nil)
		}
		out = append(out, tt.Forall(ks, nbody, pats...))
	}
	rec(0, nil)
	if len(out) == 0 {
		return f
	}
	return tt.And(out...)
}

func appendTr[T any](l []T, off, t *Term, mk func(o, t *Term) T, get func(T) *Term, add func(T, *Term)) []T {
	for _, x := range l {
		if get(x) == off {
			add(x, t)
			return l
		}
	}
	return append(l, mk(off, t))
}

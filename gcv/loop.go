package main

// Loops: modified-set computation, invariant inference (Houdini over generic
// candidates and the contract's invariant templates), and the inductive step.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type LoopAct struct {
	loop   *Loop
	stop   bool
	unroll int
	onBack func(st *State)
}

type modSet struct {
	heap   map[string]map[*Term]bool
	all    map[string]bool
	newObj map[string]bool
	ghosts map[string]bool
	iters  map[ssa.Value]bool
	acq    bool
	held   bool
	n      int
}

func newModSet() *modSet {
	return &modSet{heap: map[string]map[*Term]bool{}, all: map[string]bool{}, newObj: map[string]bool{}, ghosts: map[string]bool{}, iters: map[ssa.Value]bool{}}
}

// loopVar is a variable of the loop.
type loopVar struct {
	name string
	typ  types.Type
	sort string
	get  func(st *State) *Term
	skip bool // found unchanged
	phi  *ssa.Phi
	key  string
	ref  *Term
	gh   string
}

type cand struct {
	name string
	f    func(st *State) *Term
	inv  bool
	same *loopVar
}

func (e *Engine) loopEntry(s0 *State, lp *Loop) []*State {
	d := len(s0.frames) - 1
	if s0.dead {
		return nil
	}
	alloc0 := s0.alloc
	epoch0 := e.tt.nv
	mods := newModSet()
	var phis []*ssa.Phi
	for _, in := range lp.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	skip := map[string]bool{} // loop variables found unchanged
	// components of which only the cells of the contract's frame change
	frame := e.framed(s0)
	frameOK := map[string]bool{}
	build := func() *State {
		sh := s0.clone()
		sh.alloc = alloc0 + eraGap
		hi := big.NewInt(sh.alloc)
		fr := sh.frames[d]
		for _, p := range phis {
			if skip["phi "+p.Name()] {
				continue
			}
			switch fr.env[p].(type) {
			case *Addr, *RangeIter:
				unsup("loop-carried address")
			}
			v := e.freshHi(sh, "phi."+p.Comment, p.Type(), hi)
			if t, ok := v.(*Term); ok && p.Comment == "rangeindex" && t.op == "var" {
				// a range index never leaves [-1, len)
				t.lo, t.hi = big.NewInt(-1), big.NewInt(1<<48)
			}
			fr.env[p] = v
		}
		keys := map[string]bool{}
		for k := range mods.heap {
			keys[k] = true
		}
		for k := range mods.all {
			keys[k] = true
		}
		for k := range mods.newObj {
			keys[k] = true
		}
		for _, k := range sortedKeys(keys) {
			if strings.HasPrefix(k, "Gv:") {
				if o := s0.heap[k]; o != nil {
					v := e.tt.Var(k, o.sort)
					v.lo, v.hi, v.rhi = o.lo, o.hi, o.rhi
					if o.n != nil {
						v.lo, v.hi = nil, nil
					}
					sh.heap[k] = v
				} else {
					unsup("global %s first written in a loop", k)
				}
				continue
			}
			a := sh.heap[k]
			if a == nil {
				a = e.heap0[k]
			}
			if a == nil {
				continue
			}
			attr := arrBase(a)
			setA := func(v *Term) {
				if attr.rhi != nil || e.keyRef(k) {
					v.rhi = hi
					v.eref = attr.eref
				}
			}
			if mods.all[k] {
				v := e.tt.Var("all."+k, a.sort)
				if frameOK[k] {
					v.fbase = a
					a.needName = true
					for _, c := range frame {
						if c.key == k {
							c.ref.needName = true
							v.fex = append(v.fex, c.ref)
						}
					}
				}
				setA(v)
				sh.heap[k] = v
				continue
			}
			var refs []*Term
			for r := range mods.heap[k] {
				if !skip[fmt.Sprintf("cell %s %d", k, r.id)] {
					refs = append(refs, r)
				}
			}
			sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
			for _, r := range refs {
				v := e.tt.Var("lv."+k, arrElem(a.sort))
				if v.sort == sInt {
					if kt := e.keyType[k]; kt != nil {
						if isRefType(kt) {
							v.hi = hi
						} else {
							e.typed(v, kt)
						}
					}
				} else if v.sort == sSlice || v.sort == sIface {
					v.rhi = hi
				} else if strings.HasPrefix(v.sort, "(Array") {
					setA(v)
				}
				a = e.tt.Store(a, r, v)
			}
			if mods.newObj[k] {
				v := e.tt.Var("era."+k, a.sort)
				a.needName = true
				v.base = a
				v.mark = big.NewInt(alloc0 + 1)
				setA(v)
				a = v
			}
			sh.heap[k] = a
		}
		for g := range mods.ghosts {
			if skip["ghost "+g] {
				continue
			}
			o := s0.ghost[g]
			ot := e.term(o.v)
			v := e.tt.Var("g."+g, ot.sort)
			if o.t != nil {
				if ot.sort == sInt && !isRefType(o.t) && o.k != "nat" {
					// ghost integers are mathematical
				}
			}
			if ot.sort == sSlice || ot.sort == sIface {
				v.rhi = hi
			}
			if o.t != nil && isRefType(o.t) {
				v.hi = hi
			}
			sh.ghost[g] = SV{v: v, t: o.t, k: o.k}
		}
		for it := range mods.iters {
			ri := fr.env[it].(*RangeIter)
			fr.env[it] = &RangeIter{m: ri.m, mt: ri.mt, visited: e.tt.Var("visited", ri.visited.sort)}
		}
		if mods.acq {
			sh.acq, sh.prev, sh.rel = nil, nil, nil
			sh.lockgn += 1000
		}
		sh.trace = append(sh.trace, "loop "+e.pos(headPos(lp.head)))
		return sh
	}
	nref := func(m *modSet, k string, r *Term) {
		if r.n != nil && r.n.IsInt64() {
			n := r.n.Int64()
			if n >= 1<<50 {
				// sub-object of a literal object
				ro := r
				for {
					si, ok := e.subOf[ro]
					if !ok {
						break
					}
					ro = si.owner
				}
				if ro.n != nil && ro.n.Int64() < 1<<50 {
					n = ro.n.Int64()
				} else {
					n = 0
				}
			}
			if n > alloc0 {
				m.newObj[k] = true
				return
			}
		} else if r.epoch > epoch0 {
			m.all[k] = true
			return
		}
		if m.heap[k] == nil {
			m.heap[k] = map[*Term]bool{}
		}
		m.heap[k][r] = true
	}
	diff := func(sh, b *State) {
		for k, a := range b.heap {
			o := sh.heap[k]
			if o == nil {
				o = e.heap0[k]
			}
			if a == o {
				continue
			}
			if strings.HasPrefix(k, "Gv:") {
				mods.all[k] = true
				continue
			}
			// arrays below o: a store may have replaced an earlier one of o
			below := map[*Term]bool{}
			for x := o; ; {
				below[x] = true
				if x.op == "store" {
					x = x.args[0]
				} else if x.op == "var" && x.base != nil {
					x = x.base
				} else {
					break
				}
			}
			for !below[a] {
				if a.op == "store" {
					nref(mods, k, a.args[1])
					a = a.args[0]
					continue
				}
				if a.op == "var" && a.base != nil {
					mods.newObj[k] = true
					a = a.base
					continue
				}
				mods.all[k] = true
				break
			}
			for x := o; below[a] && x != a; {
				if x.op == "store" {
					nref(mods, k, x.args[1])
					x = x.args[0]
				} else {
					mods.newObj[k] = true
					x = x.base
				}
			}
		}
		for g, v := range b.ghost {
			if o, ok := sh.ghost[g]; !ok || o.v != v.v {
				if _, ok := s0.ghost[g]; ok {
					mods.ghosts[g] = true
				}
			}
		}
		fb, fs := b.frames[d], sh.frames[d]
		for v, x := range fs.env {
			if ri, ok := x.(*RangeIter); ok {
				if rb, ok := fb.env[v].(*RangeIter); ok && rb.visited != ri.visited {
					mods.iters[v] = true
				}
			}
		}
		if b.acq != sh.acq || b.rel != sh.rel || b.prev != sh.prev || b.lockgn != sh.lockgn {
			mods.acq = true
		}
		if len(fb.defers) != len(fs.defers) {
			unsup("defer in a loop")
		}
		if len(b.held) != len(sh.held) {
			mods.held = true
		}
		for l, m := range b.held {
			if sh.held[l] != m {
				mods.held = true
			}
		}
	}
	phase := "m"
	explore := func(sh *State, onBack func(st *State)) {
		s := sh.clone()
		fr := s.frames[d]
		fr.loops = append(fr.loops, &LoopAct{loop: lp, stop: true, onBack: onBack})
		e.quiet++
		ph := e.loopPhase
		e.loopPhase += phase
		defer func() { e.quiet--; e.loopPhase = ph }()
		// outer loops: exploration ends inside of this loop anyway
		e.run(e.positions(s, phis))
	}
	size := func() int {
		n := len(mods.all) + len(mods.newObj) + len(mods.ghosts) + len(mods.iters)
		for _, m := range mods.heap {
			n += len(m)
		}
		if mods.acq {
			n++
		}
		return n
	}
	// loop variables
	mkVars := func() []*loopVar {
		var vars []*loopVar
		for _, p := range phis {
			p := p
			if skip["phi "+p.Name()] || sortOf(p.Type()) == "" {
				continue
			}
			vars = append(vars, &loopVar{name: "phi " + p.Name(), typ: p.Type(), sort: sortOf(p.Type()), phi: p,
				get: func(st *State) *Term { return e.term(st.frames[d].env[p]) }})
		}
		for _, k := range keysOf(mods.heap) {
			if mods.all[k] || strings.HasPrefix(k, "Gv:") {
				continue
			}
			k := k
			var refs []*Term
			for r := range mods.heap[k] {
				refs = append(refs, r)
			}
			sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
			for _, r := range refs {
				r := r
				nm := fmt.Sprintf("cell %s %d", k, r.id)
				if skip[nm] {
					continue
				}
				a := s0.heap[k]
				if a == nil {
					a = e.heap0[k]
				}
				srt := arrElem(a.sort)
				vars = append(vars, &loopVar{name: nm, typ: e.keyType[k], sort: srt, key: k, ref: r,
					get: func(st *State) *Term {
						a := st.heap[k]
						if a == nil {
							a = e.heap0[k]
						}
						v := e.tt.Select(a, r)
						if e.keyType[k] != nil {
							e.typed(v, e.keyType[k])
						}
						return v
					}})
			}
		}
		for _, g := range sortedKeys(mods.ghosts) {
			g := g
			if skip["ghost "+g] {
				continue
			}
			vars = append(vars, &loopVar{name: "ghost " + g, typ: s0.ghost[g].t, sort: e.term(s0.ghost[g].v).sort, gh: g,
				get: func(st *State) *Term { return e.term(st.ghost[g].v) }})
		}
		return vars
	}
	if len(e.fs.Positions) > 0 {
		// the frame of the contract is a first estimate
		for _, c := range frame {
			if mods.heap[c.key] == nil {
				mods.heap[c.key] = map[*Term]bool{}
			}
			mods.heap[c.key][c.ref] = true
		}
		for k := range e.newKeys(s0, e.fs) {
			mods.newObj[k] = true
		}
	}
	for round := 0; ; round++ {
		if round > 12 {
			unsup("modified set does not converge")
		}
		n0 := size()
		sh := build()
		if len(e.fs.Positions) > 0 {
			// with the invariants; checked again below
			for _, c := range e.loopCands(s0, d, lp, mkVars()) {
				if f, ok := e.tryCand(sh, s0, c); ok && c.inv {
					sh.assume(f)
				}
			}
		}
		explore(sh, func(b *State) { diff(sh, b) })
		if size() == n0 && (round > 0 || n0 == 0) {
			break
		}
	}
	if mods.held {
		e.failObl(s0, "safety.loop-lock", e.safetyProps(), "a lock is held at the end of a loop iteration but not at its start (or the reverse)")
		return nil
	}

	vars := mkVars()
	cands := e.loopCands(s0, d, lp, vars)
	if len(e.fs.Positions) > 0 {
		// the contract says everything about this loop
		var cs []*cand
		for _, c := range cands {
			if c.inv {
				cs = append(cs, c)
			}
		}
		cands = cs
	}
	// A loop inside a loop is analysed again in every round of the outer one.
	// Candidates that failed in the round before are not tried again: dropping
	// candidates is always sound, and the rounds only weaken the assumptions.
	ckey := fmt.Sprint(lp.head.Parent().String(), lp.head.Index, d, s0.trace)
	if e.loopAlive == nil {
		e.loopAlive = map[string]map[string]bool{}
	}
	look := e.loopPhase
	if look == "" {
		look = "h"
	}
	if strings.HasSuffix(e.loopPhase, "m") {
		// only the modified set of the outer loop is being computed
		var cs []*cand
		for _, c := range cands {
			if c.same != nil {
				cs = append(cs, c)
			}
		}
		cands = cs
		frame = nil
	} else if m := e.loopAlive[look+ckey]; m != nil {
		var cs []*cand
		for _, c := range cands {
			if m[c.name] {
				cs = append(cs, c)
			}
		}
		cands = cs
	}
	// initial check
	var alive []*cand
	for _, c := range cands {
		f, ok := e.tryCand(s0, s0, c)
		if ok && e.valid(s0, f, 3000) {
			alive = append(alive, c)
		} else if c.inv && e.quiet == 0 && os.Getenv("GCV_LOOP") != "" {
			fmt.Println("LOOP", e.pos(headPos(lp.head)), "invariant not initial:", c.name)
		}
	}
	houdini := func() {
		for {
			sh := build()
			for _, c := range alive {
				f, ok := e.tryCand(sh, s0, c)
				if ok {
					sh.assume(f)
				}
			}
			bad := map[*cand]bool{}
			unframed := 0
			explore(sh, func(b *State) {
				if len(e.fs.Positions) > 0 {
					n0 := size()
					if diff(sh, b); size() != n0 {
						unsup("the loop modifies more than its invariants let expect")
					}
				}
				for _, k := range sortedKeys(frameOK) {
					if frameOK[k] && !e.keepsFrame(b, sh.heap[k], b.heap[k], k, frame) {
						frameOK[k] = false
						unframed++
					}
				}
				// all at once first
				var fs []*Term
				var cs []*cand
				for _, c := range alive {
					if bad[c] {
						continue
					}
					f, ok := e.tryCand(b, s0, c)
					if !ok {
						bad[c] = true
						continue
					}
					if f.isTrue() {
						continue
					}
					fs = append(fs, f)
					cs = append(cs, c)
				}
				for i, c := range cs {
					ok := e.valid(b, fs[i], 4000)
					if !ok && c.inv && len(e.fs.Positions) > 0 {
						ok, _, _ = e.prove(b, fs[i])
					}
					if !ok {
						bad[c] = true
						if os.Getenv("GCV_QT") != "" {
							fmt.Fprintln(os.Stderr, "BAD", e.loopPhase, headPos(lp.head), c.name)
						}
						if c.inv && os.Getenv("GCV_LOOP") != "" {
							fmt.Println("LOOP", e.pos(headPos(lp.head)), "invariant not preserved:", c.name, b.trace)
							if os.Getenv("GCV_DUMP") != "" {
								_ = os.WriteFile(fmt.Sprintf("/tmp/gcv_inv_%d.smt2", e.tt.nv), []byte(e.tt.Script(append(append([]*Term{}, b.pc...), e.negGoal(fs[i])))+"(check-sat)\n"), 0o644)
							}
						}
					}
				}
			})
			if len(bad) == 0 && unframed == 0 {
				return
			}
			var n []*cand
			for _, c := range alive {
				if !bad[c] {
					n = append(n, c)
				}
			}
			alive = n
		}
	}
	phase = "h"
	if frame != nil {
		for k := range mods.all {
			frameOK[k] = !strings.HasPrefix(k, "Gv:")
		}
	}
	houdini()
	if e.loopPhase != "" {
		m := map[string]bool{}
		for _, c := range alive {
			m[c.name] = true
		}
		e.loopAlive[e.loopPhase+ckey] = m
	}
	ch := false
	for _, c := range alive {
		if c.same != nil {
			skip[c.same.name] = true
			ch = true
		}
	}
	_ = ch
	final := build()
	for _, c := range alive {
		if c.same != nil {
			continue
		}
		if f, ok := e.tryCand(final, s0, c); ok {
			final.assume(f)
			if c.inv && e.quiet == 0 {
				e.invOK[e.fname+" loop "+e.pos(headPos(lp.head))+": "+c.name] = true
			}
		}
	}
	if os.Getenv("GCV_LOOP") != "" && e.quiet == 0 {
		var ns []string
		for _, c := range alive {
			ns = append(ns, c.name)
		}
		fmt.Println("LOOP", e.pos(headPos(lp.head)), "vars", len(vars), "alive:", strings.Join(ns, "; "))
		for _, v := range vars {
			fmt.Println("   var", v.name, v.typ)
		}
		fmt.Println("   all", sortedKeys(mods.all), "new", sortedKeys(mods.newObj))
	}
	fr := final.frames[d]
	act := &LoopAct{loop: lp}
	if len(e.fs.Decreases) > 0 && e.quiet == 0 {
		e.addVariants(final, lp, phis, mkVars(), act)
	}
	fr.loops = append(fr.loops, act)
	if final.dead {
		return nil
	}
	return e.positions(final, phis)
}

// positions splits the state at a loop head by the values which the contract
// names for the index of the loop; what they do not cover stays a state.
func (e *Engine) positions(st *State, phis []*ssa.Phi) []*State {
	var idx *ssa.Phi
	for _, p := range phis {
		if v, ok := st.top().env[p].(*Term); ok && v.op == "var" && v.sort == sInt && !isRefType(p.Type()) {
			if idx != nil {
				return []*State{st}
			}
			idx = p
		}
	}
	if idx == nil || len(e.fs.Positions) == 0 {
		return []*State{st}
	}
	tt := e.tt
	v := st.top().env[idx].(*Term)
	var out []*State
	for _, p := range e.fs.Positions {
		x, w := e.term(e.specVal(st, e.fenv(st), p.e).v), e.specBool(st, e.fenv(st), p.when)
		c := tt.And(tt.Eq(v, x), w)
		if e.feasible(st, c) {
			s2 := st.clone()
			m := map[*Term]*Term{v: x}
			pc := s2.pc
			s2.pc = nil
			s2.assume(tt.Eq(v, x))
			for _, f := range pc {
				s2.assume(tt.Subst(f, m))
			}
			s2.assume(w)
			s2.top().env[idx] = x
			if !s2.dead {
				out = append(out, s2)
			}
		}
		st.assume(tt.Not(c))
	}
	if !st.dead && !e.valid(st, tt.Bool(false), 4000) {
		out = append(out, st)
	}
	return out
}

func headPos(b *ssa.BasicBlock) (p pos0) {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return 0
}

func keysOf(m map[string]map[*Term]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func arrBase(a *Term) *Term {
	for a.op == "store" {
		a = a.args[0]
	}
	return a
}

func (e *Engine) keyRef(k string) bool {
	t := e.keyType[k]
	return t != nil && holdsRef(t)
}

func (e *Engine) tryCand(st, s0 *State, c *cand) (t *Term, ok bool) {
	sv := e.curS0
	e.curS0 = s0
	e.inSpec++
	defer func() {
		e.curS0 = sv
		e.inSpec--
		if r := recover(); r != nil {
			if _, isSpec := r.(specErr); isSpec {
				ok = false
				return
			}
			panic(r)
		}
	}()
	return c.f(st), true
}

func (e *Engine) loopCands(s0 *State, d int, lp *Loop, vars []*loopVar) []*cand {
	tt := e.tt
	var out []*cand
	add := func(n string, f func(st *State) *Term) { out = append(out, &cand{name: n, f: f}) }
	var ints []*loopVar
	for _, v := range vars {
		v := v
		x0 := v.get(s0)
		if !strings.HasPrefix(v.sort, "(Array") {
			out = append(out, &cand{name: v.name + " unchanged", same: v, f: func(st *State) *Term { return tt.Eq(v.get(st), x0) }})
		}
		switch v.sort {
		case sInt:
			if v.typ != nil && isRefType(v.typ) {
				if x0.n != nil && x0.n.Sign() == 0 {
					break
				}
				add(v.name+" != nil", func(st *State) *Term { return tt.Not(tt.Eq(v.get(st), tt.Int(0))) })
				break
			}
			ints = append(ints, v)
			add(v.name+" >= entry", func(st *State) *Term { return tt.Le(x0, v.get(st)) })
			add(v.name+" <= entry", func(st *State) *Term { return tt.Le(v.get(st), x0) })
			add(v.name+" >= 0", func(st *State) *Term { return tt.Le(tt.Int(0), v.get(st)) })
		case sIface:
			add(v.name+" != nil", func(st *State) *Term { return tt.Not(tt.Eq(tt.ITag(v.get(st)), tt.Int(0))) })
			add(v.name+" tag", func(st *State) *Term { return tt.Eq(tt.ITag(v.get(st)), tt.ITag(x0)) })
		case sSlice:
			add(v.name+" ref", func(st *State) *Term { return tt.Eq(tt.SRef(v.get(st)), tt.SRef(x0)) })
			add(v.name+" end", func(st *State) *Term {
				y := v.get(st)
				return tt.And(tt.Eq(tt.Add(tt.SOff(y), tt.SLn(y)), tt.Add(tt.SOff(x0), tt.SLn(x0))), tt.Le(tt.SOff(x0), tt.SOff(y)))
			})
			add(v.name+" start", func(st *State) *Term {
				y := v.get(st)
				return tt.And(tt.Eq(tt.SOff(y), tt.SOff(x0)))
			})
		}
	}
	for i, a := range ints {
		for _, b := range ints[i+1:] {
			a, b := a, b
			da := tt.Sub(a.get(s0), b.get(s0))
			add(a.name+" in step with "+b.name, func(st *State) *Term { return tt.Eq(tt.Sub(a.get(st), b.get(st)), da) })
			sa := tt.Add(a.get(s0), b.get(s0))
			add(a.name+" in counter-step with "+b.name, func(st *State) *Term { return tt.Eq(tt.Add(a.get(st), b.get(st)), sa) })
		}
	}
	for i, a := range vars {
		for _, b := range vars[i+1:] {
			if a.sort != b.sort || a.sort == sInt && (a.typ == nil || b.typ == nil || !isRefType(a.typ) || !isRefType(b.typ)) || strings.HasPrefix(a.sort, "(Array") {
				continue
			}
			a, b := a, b
			add(a.name+" == "+b.name, func(st *State) *Term { return tt.Eq(a.get(st), b.get(st)) })
		}
	}
	// the memory of a bytes.Buffer is not a buffer written in the loop
	for _, v := range vars {
		if v.key != "G:bufmem" {
			continue
		}
		for _, m := range vars {
			if m.ref == nil || !strings.HasPrefix(m.key, "M:") {
				continue
			}
			v, m := v, m
			add(v.name+" is not "+m.name, func(st *State) *Term { return tt.Not(tt.Eq(v.get(st), m.ref)) })
		}
	}
	// slices paired with ints: offset advance equals the counter
	for _, s := range vars {
		if s.sort != sSlice {
			continue
		}
		for _, i := range ints {
			s, i := s, i
			d0 := tt.Sub(tt.SOff(s.get(s0)), i.get(s0))
			add(s.name+" offset in step with "+i.name, func(st *State) *Term { return tt.Eq(tt.Sub(tt.SOff(s.get(st)), i.get(st)), d0) })
			l0 := tt.Add(tt.SLn(s.get(s0)), i.get(s0))
			add(s.name+" length in counter-step with "+i.name, func(st *State) *Term { return tt.Eq(tt.Add(tt.SLn(s.get(st)), i.get(st)), l0) })
		}
	}
	// bounds from the loop condition: v + c < X, X fixed
	outer := func(x ssa.Value) func(st *State) *Term {
		if c, ok := x.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				a := c.Call.Args[0]
				if _, ok := s0.frames[d].env[a].(*Term); !ok {
					return nil
				}
				switch under(a.Type()).(type) {
				case *types.Slice:
					return func(st *State) *Term { return tt.SLn(e.term(st.frames[d].env[a])) }
				case *types.Basic:
					return func(st *State) *Term { return tt.SLen(e.term(st.frames[d].env[a])) }
				}
				return nil
			}
		}
		if c, ok := x.(*ssa.Const); ok {
			if v, ok := e.val(s0, c).(*Term); ok {
				return func(st *State) *Term { return v }
			}
			return nil
		}
		if v, ok := s0.frames[d].env[x].(*Term); ok && v.sort == sInt {
			return func(st *State) *Term { return v }
		}
		return nil
	}
	for b := range lp.blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			for _, v := range ints {
				if v.phi == nil {
					continue
				}
				v := v
				side := func(x ssa.Value) (int64, bool) {
					if x == ssa.Value(v.phi) {
						return 0, true
					}
					if o, ok := x.(*ssa.BinOp); ok && o.X == ssa.Value(v.phi) && o.Op.String() == "+" {
						if c, ok := o.Y.(*ssa.Const); ok && c.Value != nil {
							return c.Int64(), true
						}
					}
					return 0, false
				}
				if off, ok := side(bo.X); ok {
					if x := outer(bo.Y); x != nil {
						add(v.name+" bounded by the loop condition", func(st *State) *Term { return tt.Le(tt.Add(v.get(st), tt.Int(off)), x(st)) })
						add(v.name+" bounded below by the loop condition", func(st *State) *Term { return tt.Le(x(st), tt.Add(v.get(st), tt.Int(off))) })
					}
				}
			}
		}
	}
	// contract templates; an index that counts from 0 and one that a range
	// loop counts from -1 are interchangeable
	tvars := vars
	for _, v := range vars {
		v := v
		if v.phi == nil || v.sort != sInt || !counter(v.phi) {
			continue
		}
		w := *v
		d := int64(-1)
		if v.phi.Comment == "rangeindex" {
			d = 1
		}
		w.name = fmt.Sprintf("%s%+d", v.name, d)
		w.get = func(st *State) *Term { return tt.Add(v.get(st), tt.Int(d)) }
		tvars = append(tvars[:len(tvars):len(tvars)], &w)
	}
	for _, inv := range e.fs.Invs {
		inv := inv
		instances(inv, tvars, func(nm string, bind func(st *State) map[string]SV) {
			out = append(out, &cand{name: nm, inv: true, f: func(st *State) *Term {
				return e.specBool(st, e.fenv(st).with(bind(st)), inv)
			}})
		})
	}
	return out
}

// counter: a loop variable that only ever grows by one.
func counter(p *ssa.Phi) bool {
	n := 0
	for _, e := range p.Edges {
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != ssa.Value(p) {
			continue
		}
		if c, ok := b.Y.(*ssa.Const); !ok || c.Value == nil || c.Int64() != 1 {
			return false
		}
		n++
	}
	return n > 0
}

// instances instantiates the metavariables of a template with loop variables.
func instances(x *Expr, vars []*loopVar, f func(name string, bind func(st *State) map[string]SV)) {
	metas := map[string]bool{}
	collectMetas(x, metas)
	ms := sortedKeys(metas)
	var rec func(i int, bind map[string]*loopVar)
	rec = func(i int, bind map[string]*loopVar) {
		if i == len(ms) {
			b := map[string]*loopVar{}
			nm := x.src
			for k, v := range bind {
				b[k] = v
				nm = strings.ReplaceAll(nm, k, "<"+v.name+">")
			}
			f(nm, func(st *State) map[string]SV {
				m := map[string]SV{}
				for k, v := range b {
					kk := ""
					if v.gh != "" {
						kk = st.ghost[v.gh].k
					}
					m[k] = SV{v: v.get(st), t: v.typ, k: kk}
				}
				return m
			})
			return
		}
		for _, v := range vars {
			if v.gh != "" || !metaMatch(ms[i], v) {
				continue
			}
			dup := false
			for _, o := range bind {
				if o == v {
					dup = true
				}
			}
			if dup {
				continue
			}
			bind[ms[i]] = v
			rec(i+1, bind)
			delete(bind, ms[i])
		}
	}
	rec(0, map[string]*loopVar{})
}

// variant records whether a loop is shown to terminate.
type variant struct {
	alive []*cand
	st    *State
	at    string
}

func sortedVars(m map[string]*variant) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return sortedKeys(b)
}

// addVariants checks the decreases clauses on the back edges of a loop.
func (e *Engine) addVariants(final *State, lp *Loop, phis []*ssa.Phi, vars []*loopVar, act *LoopAct) {
	for _, p := range phis {
		if p.Comment == "rangeindex" {
			return
		}
	}
	for _, in := range lp.head.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return
		}
	}
	va := &variant{st: final.clone(), at: e.pos(headPos(lp.head))}
	v0 := map[*cand]*Term{}
	for _, x := range e.fs.Decreases {
		x := x
		instances(x, vars, func(nm string, bind func(st *State) map[string]SV) {
			c := &cand{name: nm, f: func(st *State) *Term { return e.evT(st, e.fenv(st).with(bind(st)), x) }}
			if t, ok := e.tryCand(final, final, c); ok {
				v0[c] = t
				va.alive = append(va.alive, c)
			}
		})
	}
	if e.variants == nil {
		e.variants = map[string]*variant{}
	}
	e.variants[fmt.Sprint(va.at, " ", len(e.variants))] = va
	act.onBack = func(b *State) {
		if b.dead {
			return
		}
		var n []*cand
		for _, c := range va.alive {
			t, ok := e.tryCand(b, b, c)
			if ok && e.valid(b, e.tt.And(e.tt.Le(e.tt.Int(0), v0[c]), e.tt.Lt(t, v0[c])), 4000) {
				n = append(n, c)
			}
		}
		va.alive = n
	}
}

func collectMetas(x *Expr, m map[string]bool) {
	if x == nil {
		return
	}
	if x.op == "meta" {
		m[x.s] = true
	}
	for _, a := range x.args {
		collectMetas(a, m)
	}
}

// metaMatch: $i.. int, $u.. uint32/uint64, $b.. bool, $e.. error/interface,
// $s.. slice, $t.. string, $p.. pointer, $n.. any integer.
func metaMatch(m string, v *loopVar) bool {
	if len(m) < 2 || v.typ == nil {
		return false
	}
	_, _, bits, signed := intRange(v.typ)
	switch m[1] {
	case 'i':
		return v.sort == sInt && bits == 64 && signed
	case 'u':
		return v.sort == sInt && bits != 0 && !signed
	case 'n':
		return v.sort == sInt && bits != 0
	case 'b':
		return v.sort == sBool
	case 'e':
		return v.sort == sIface
	case 's':
		return v.sort == sSlice
	case 't':
		return v.sort == sStr
	case 'p':
		return v.sort == sInt && isRefType(v.typ)
	}
	return false
}

package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"slices"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// run explores all paths from the given states.
func (e *Engine) run(sts []*State) {
	stack := append([]*State{}, sts...)
	for len(stack) > 0 {
		st := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		for st != nil {
			if st.dead || len(st.frames) == 0 {
				break
			}
			e.steps++
			if e.steps&255 == 0 && time.Now().After(e.deadl) {
				unsup("time budget exhausted")
			}
			if e.steps&63 == 0 && len(e.failed) > 0 && atomic.LoadInt64(&failTotal) >= 30 {
				return // the verdict is settled
			}
			next := e.step(st)
			switch len(next) {
			case 0:
				st = nil
			case 1:
				st = next[0]
			default:
				st = next[0]
				stack = append(stack, next[1:]...)
			}
		}
	}
}

func (e *Engine) val(st *State, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constant(st, x)
	case *ssa.Global:
		return e.globalAddr(st, x)
	case *ssa.Function:
		return e.fnValue(x)
	case *ssa.Builtin:
		unsup("builtin value")
	}
	fr := st.top()
	if r, ok := fr.env[v]; ok {
		return r
	}
	unsup("no value for %s in %s", v.Name(), fr.fn)
	return nil
}

func (e *Engine) constant(st *State, c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return e.zero(st, t)
	}
	return e.constVal(c.Value, t)
}

func (e *Engine) constVal(cv constant.Value, t types.Type) *Term {
	switch cv.Kind() {
	case constant.Bool:
		return e.tt.Bool(constant.BoolVal(cv))
	case constant.String:
		return e.tt.Str(constant.StringVal(cv))
	case constant.Int, constant.Float:
		if i := constant.ToInt(cv); i.Kind() == constant.Int {
			n, ok := new(big.Int).SetString(i.ExactString(), 10)
			if ok {
				return e.tt.IntB(n)
			}
		}
		return e.tt.Const("float."+cv.ExactString(), sInt)
	}
	unsup("constant %s", cv)
	return nil
}

// jump transfers control of the top frame to block b.
func (e *Engine) jump(st *State, b *ssa.BasicBlock) []*State {
	fr := st.top()
	from := fr.block
	// leave loops
	for len(fr.loops) > 0 {
		a := fr.loops[len(fr.loops)-1]
		if a.loop.blocks[b] {
			break
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
		if a.stop {
			return nil // Houdini exploration ends outside of the loop
		}
	}
	// evaluate phis
	pi := -1
	for i, p := range b.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var phis []*ssa.Phi
	var vals []Value
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, e.val(st, p.Edges[pi]))
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
	fr.prev, fr.block, fr.idx = from, b, len(phis)
	lp := e.ld.loopsOf(fr.fn)[b]
	if lp == nil {
		return []*State{st}
	}
	if n := len(fr.loops); n > 0 && fr.loops[n-1].loop == lp {
		a := fr.loops[n-1]
		if a.unroll > 0 {
			if a.unroll < e.fs.Unroll || a.unroll < 80 && e.constHead(st) {
				na := *a
				na.unroll++
				fr.loops[n-1] = &na
				return []*State{st}
			}
			fr.loops = fr.loops[:n-1]
			return e.loopEntry(st, lp)
		}
		if a.onBack != nil {
			a.onBack(st)
		}
		return nil
	}
	if e.fs.Unroll > 0 || e.constHead(st) {
		fr.loops = append(fr.loops, &LoopAct{loop: lp, unroll: 1})
		return []*State{st}
	}
	return e.loopEntry(st, lp)
}

// constHead reports whether the loop header decides its branch by constants.
func (e *Engine) constHead(st *State) bool {
	if e.fs.NoUnroll {
		return false
	}
	b := st.top().block
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	// only counting loops are unrolled, not ones that run until a flag changes
	if _, ok := iff.Cond.(*ssa.BinOp); !ok {
		return false
	}
	hasPhi := false
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			hasPhi = true
		case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.If, *ssa.DebugRef:
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return false
			}
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	if !hasPhi {
		return false
	}
	t := st.clone()
	e.quiet++
	defer func() { e.quiet-- }()
	for t.top().idx < len(b.Instrs)-1 {
		n := e.step(t)
		if len(n) != 1 {
			return false
		}
		t = n[0]
	}
	c, ok := e.val(t, iff.Cond).(*Term)
	return ok && (c.isTrue() || c.isFalse())
}

func (e *Engine) step(st *State) []*State {
	fr := st.top()
	in := fr.block.Instrs[fr.idx]
	if e.qt {
		e.where = e.pos(in.Pos()) + " " + in.String()
	}
	fr.idx++
	switch x := in.(type) {
	case *ssa.DebugRef:
		return []*State{st}
	case *ssa.Alloc:
		e.doAlloc(st, x)
		return []*State{st}
	case *ssa.Phi:
		return []*State{st}
	case *ssa.UnOp:
		return e.unop(st, x)
	case *ssa.BinOp:
		v := e.binop(st, x.Op, e.val(st, x.X), e.val(st, x.Y), x.X.Type(), x.Y.Type(), x.Type())
		st.top().env[x] = v
		return []*State{st}
	case *ssa.Store:
		e.store1(st, x)
		return []*State{st}
	case *ssa.FieldAddr:
		base := e.term(e.val(st, x.X))
		stt := types.Unalias(x.X.Type().Underlying().(*types.Pointer).Elem())
		e.nonNil(st, base, "field")
		key, f := e.fieldKey(stt, x.Field)
		if sortOf(f.Type()) == "" {
			fr.env[x] = e.subRef(base, strings.TrimPrefix(key, "F:"))
		} else {
			fr.env[x] = &Addr{key: key, ref: base, typ: f.Type()}
		}
		return []*State{st}
	case *ssa.Field:
		sv, ok := e.val(st, x.X).(*StructV)
		if !ok {
			unsup("field of non-struct")
		}
		fr.env[x] = sv.fields[x.Field]
		return []*State{st}
	case *ssa.IndexAddr:
		e.indexAddr(st, x)
		return []*State{st}
	case *ssa.Index:
		idx := e.term(e.val(st, x.Index))
		switch v := e.val(st, x.X).(type) {
		case *Term:
			if v.sort == sStr {
				e.safe(st, "index", e.tt.And(e.tt.Le(e.tt.Int(0), idx), e.tt.Lt(idx, e.tt.SLen(v))))
				fr.env[x] = e.tt.SAt(v, idx)
				return []*State{st}
			}
		case *StructV:
			if idx.n != nil {
				fr.env[x] = v.fields[idx.n.Int64()]
				return []*State{st}
			}
		}
		unsup("index of %s", x.X.Type())
	case *ssa.Lookup:
		return e.lookup(st, x)
	case *ssa.MapUpdate:
		e.mapUpdate(st, e.term(e.val(st, x.Map)), x.Map.Type(), e.val(st, x.Key), e.val(st, x.Value))
		return []*State{st}
	case *ssa.MakeMap:
		r := e.newRef(st)
		e.initMap(st, r, x.Type().Underlying().(*types.Map))
		fr.env[x] = r
		return []*State{st}
	case *ssa.MakeChan:
		r := e.newRef(st)
		e.setG(st, "G:chclosed", sBool, r, e.tt.Bool(false))
		sz := e.term(e.val(st, x.Size))
		e.safe(st, "makechan", e.tt.Le(e.tt.Int(0), sz))
		e.setG(st, "G:chcap", sInt, r, sz)
		fr.env[x] = r
		return []*State{st}
	case *ssa.MakeSlice:
		elem := under(x.Type()).(*types.Slice).Elem()
		ln, cp := e.term(e.val(st, x.Len)), e.term(e.val(st, x.Cap))
		e.safe(st, "makeslice", e.tt.And(e.tt.Le(e.tt.Int(0), ln), e.tt.Le(ln, cp)))
		st.assume(e.tt.Le(cp, e.tt.Int(1<<48))) // larger allocations cannot succeed
		fr.env[x] = e.makeSlice(st, elem, ln, cp)
		return []*State{st}
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.binds = append(c.binds, e.val(st, b))
		}
		fr.env[x] = e.closure(st, c)
		return []*State{st}
	case *ssa.MakeInterface:
		fr.env[x] = e.iface(st, e.val(st, x.X), x.X.Type())
		return []*State{st}
	case *ssa.ChangeInterface:
		fr.env[x] = e.val(st, x.X)
		return []*State{st}
	case *ssa.ChangeType:
		fr.env[x] = e.val(st, x.X)
		return []*State{st}
	case *ssa.MultiConvert:
		fr.env[x] = e.convert(st, e.val(st, x.X), x.X.Type(), x.Type())
		return []*State{st}
	case *ssa.Convert:
		fr.env[x] = e.convert(st, e.val(st, x.X), x.X.Type(), x.Type())
		return []*State{st}
	case *ssa.TypeAssert:
		return e.typeAssert(st, x)
	case *ssa.Extract:
		tu, ok := e.val(st, x.Tuple).(Tuple)
		if !ok {
			unsup("extract from %T", e.val(st, x.Tuple))
		}
		fr.env[x] = tu[x.Index]
		return []*State{st}
	case *ssa.Slice:
		e.slice(st, x)
		return []*State{st}
	case *ssa.If:
		c := e.term(e.val(st, x.Cond))
		return e.branch(st, c, fr.block.Succs[0], fr.block.Succs[1])
	case *ssa.Jump:
		return e.jump(st, fr.block.Succs[0])
	case *ssa.Return:
		var res []Value
		for _, r := range x.Results {
			res = append(res, e.val(st, r))
		}
		return e.ret(st, res)
	case *ssa.Panic:
		e.safe(st, "panic", e.tt.Bool(false))
		return nil
	case *ssa.Call:
		return e.doCall(st, e.mkCall(st, &x.Call, x))
	case *ssa.Defer:
		c := e.mkCall(st, &x.Call, nil)
		fr.defers = append(fr.defers, deferRec{call: x, c: c})
		return []*State{st}
	case *ssa.RunDefers:
		n := len(fr.defers)
		if n == 0 {
			return []*State{st}
		}
		d := fr.defers[n-1]
		fr.defers = fr.defers[:n-1]
		fr.idx-- // come back
		c := *d.c
		depth := len(st.frames)
		c.k = func(st *State, res Value) []*State {
			if len(st.frames) != depth {
				unsup("defer frame")
			}
			return []*State{st}
		}
		return e.doCall(st, &c)
	case *ssa.Go:
		e.goSite = x
		return e.goStmt(st, e.mkCall(st, &x.Call, nil))
	case *ssa.Send:
		return e.send(st, e.term(e.val(st, x.Chan)), e.val(st, x.X), x.Chan.Type())
	case *ssa.Select:
		return e.selectStmt(st, x)
	case *ssa.Range:
		return e.rangeStmt(st, x)
	case *ssa.Next:
		return e.next(st, x)
	}
	unsup("instruction %T", in)
	return nil
}

func (e *Engine) branch(st *State, c *Term, t, f *ssa.BasicBlock) []*State {
	if c.isTrue() {
		return e.jump(st, t)
	}
	if c.isFalse() {
		return e.jump(st, f)
	}
	ft := e.feasible(st, c)
	ff := !ft && len(e.fs.Positions) > 0 || e.feasible(st, e.tt.Not(c))
	var out []*State
	if ft && ff {
		s2 := st.clone()
		s2.assume(e.tt.Not(c))
		s2.note(e, false)
		st.assume(c)
		st.note(e, true)
		out = append(out, e.jump(st, t)...)
		out = append(out, e.jump(s2, f)...)
		return out
	}
	if ft {
		st.assume(c)
		return e.jump(st, t)
	}
	if ff {
		st.assume(e.tt.Not(c))
		return e.jump(st, f)
	}
	return nil
}

func (st *State) note(e *Engine, b bool) {
	p := e.curPos(st)
	if p != "" {
		s := "else"
		if b {
			s = "then"
		}
		st.trace = append(st.trace, p+" "+s)
	}
}

func (e *Engine) ret(st *State, res []Value) []*State {
	fr := st.top()
	if len(fr.defers) > 0 {
		unsup("return with pending defers")
	}
	for _, l := range fr.loops {
		if l.stop {
			return nil
		}
	}
	st.frames = st.frames[:len(st.frames)-1]
	var v Value
	switch len(res) {
	case 0:
	case 1:
		v = res[0]
	default:
		v = Tuple(res)
	}
	return fr.k(st, v)
}

func (e *Engine) doAlloc(st *State, x *ssa.Alloc) {
	t := x.Type().Underlying().(*types.Pointer).Elem()
	r := e.newRef(st)
	st.top().env[x] = r
	e.initObj(st, r, t)
}

// initObj zero-initialises an object.
func (e *Engine) initObj(st *State, r *Term, t types.Type) {
	if a, ok := under(t).(*types.Array); ok {
		e.setMemZero(st, a.Elem(), r)
		return
	}
	if s, ok := isStruct(t); ok {
		for i := 0; i < s.NumFields(); i++ {
			key, f := e.fieldKey(t, i)
			if sortOf(f.Type()) == "" {
				e.initObj(st, e.subRef(r, strings.TrimPrefix(key, "F:")), f.Type())
				continue
			}
			st.heap[key] = e.tt.Store(e.heapArr(st, key, sortOf(f.Type()), f.Type()), r, e.term(e.zero(st, f.Type())))
		}
		if typeKey(t) == "bytes.Buffer" {
			e.initBuffer(st, r)
		}
		return
	}
	e.storeRef(st, r, t, e.zero(st, t))
}

func (e *Engine) setMemZero(st *State, elem types.Type, r *Term) {
	if sortOf(elem) == "" {
		return // composite elements are initialised on demand (not modelled)
	}
	m := e.memArr(st, elem)
	z := e.term(e.zero(st, elem))
	st.heap[memKey(elem)] = e.tt.Store(m, r, e.tt.ConstArr(arrElem(m.sort), z))
}

func (e *Engine) makeSlice(st *State, elem types.Type, ln, cp *Term) *Term {
	r := e.newRef(st)
	e.setMemZero(st, elem, r)
	return e.tt.MkS(r, e.tt.Int(0), ln, cp)
}

// sharedCells lists variables captured by the goroutine started at g: those
// the spawner may still store to afterwards (before the variable is made
// anew), and those the goroutine's body stores to.
func sharedCells(g *ssa.Go) (late, written []*ssa.Alloc) {
	mc, ok := g.Call.Value.(*ssa.MakeClosure)
	if !ok {
		return
	}
	body, _ := mc.Fn.(*ssa.Function)
	for i, b := range mc.Bindings {
		al, ok := b.(*ssa.Alloc)
		if !ok {
			continue
		}
		if storesTo(body, i, 0) {
			written = append(written, al)
		}
		if storeAfter(g, al) {
			late = append(late, al)
		}
	}
	return
}

func storesTo(f *ssa.Function, i, depth int) bool {
	if f == nil || depth > 8 || i >= len(f.FreeVars) {
		return false
	}
	fv := f.FreeVars[i]
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if x.Addr == fv {
					return true
				}
			case *ssa.MakeClosure:
				for j, bb := range x.Bindings {
					if bb == fv && storesTo(x.Fn.(*ssa.Function), j, depth+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

func storeAfter(g *ssa.Go, al *ssa.Alloc) bool {
	seen := map[*ssa.BasicBlock]bool{}
	// scan returns found, and whether to go on past the block
	scan := func(ins []ssa.Instruction) (bool, bool) {
		for _, in := range ins {
			switch x := in.(type) {
			case *ssa.Alloc:
				if x == al {
					return false, false
				}
			case *ssa.Store:
				if x.Addr == al {
					return true, false
				}
			}
		}
		return false, true
	}
	var st []*ssa.BasicBlock
	b := g.Block()
	for i, in := range b.Instrs {
		if in == ssa.Instruction(g) {
			f, on := scan(b.Instrs[i+1:])
			if f {
				return true
			}
			if on {
				st = append(st, b.Succs...)
			}
		}
	}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		f, on := scan(x.Instrs)
		if f {
			return true
		}
		if on {
			st = append(st, x.Succs...)
		}
	}
	return false
}

func (e *Engine) havocCell(to, from *State, al *ssa.Alloc) {
	t := al.Type().Underlying().(*types.Pointer).Elem()
	if sortOf(t) == "" {
		unsup("goroutine shares the composite variable %s with its spawner, which changes it", al.Comment)
	}
	e.store(to, e.val(from, al), t, e.freshHi(to, "shared."+san(al.Comment), t, big.NewInt(to.alloc)))
}

func (e *Engine) store1(st *State, x *ssa.Store) {
	t := x.Addr.Type().Underlying().(*types.Pointer).Elem()
	v := e.val(st, x.Val)
	if g, ok := x.Addr.(*ssa.Global); ok {
		st.heap["Gv:"+g.String()] = e.term(v)
		return
	}
	e.store(st, e.val(st, x.Addr), t, v)
}

func (e *Engine) global(st *State, g *ssa.Global) Value {
	k := "Gv:" + g.String()
	if v := st.heap[k]; v != nil {
		return v
	}
	if v := e.globVal[k]; v != nil {
		return v
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	nm := short(g.String())
	var v *Term
	if sortOf(t) == "" {
		if s, ok := isStruct(t); ok && s.NumFields() == 0 {
			return &StructV{typ: s}
		}
		// a composite global is read as any value of its type, differently every time
		return e.fresh(st, "glob", t)
	}
	constant := !e.ld.stored[g]
	if constant {
		if iv := e.ld.initVal[g]; iv != nil {
			switch y := iv.(type) {
			case *ssa.Const:
				v = e.term(e.constant(st, y))
			case *ssa.Call:
				if f := y.Call.StaticCallee(); f != nil && (f.String() == "errors.New" || f.String() == "github.com/pkg/errors.New") {
					if c, ok := y.Call.Args[0].(*ssa.Const); ok {
						e.nextClo++
						v = e.tt.MkI(e.pseudoTag("*errors.errorString"), e.tt.Int(-e.nextClo))
						v.ax = append(v.ax, e.tt.Eq(e.errText(v), e.term(e.constant(st, c))))
					}
				}
			}
		}
		if v == nil && sortOf(t) == sIface {
			// an initialised interface variable (an error sentinel): non-nil, unique
			e.nextClo++
			v = e.tt.MkI(e.pseudoTag("global "+nm), e.tt.Int(-e.nextClo))
			e.unmod["global "+nm+" is assumed initialised and never reassigned"] = true
		}
	}
	if v == nil {
		v = e.tt.Const("g."+nm, sortOf(t))
		if holdsRef(t) {
			v.rhi = big.NewInt(0)
			if isRefType(t) {
				v.hi = big.NewInt(0)
			}
		} else {
			e.typed(v, t)
		}
	}
	if constant {
		e.globVal[k] = v
	} else {
		st.heap[k] = v
	}
	return v
}

func (e *Engine) errText(v *Term) *Term { return e.tt.App("errtext", sStr, v) }

// known1 replaces a term by what the path condition says it is equal to.
func (st *State) known1(t *Term) *Term {
	if t.op == "var" || t.n != nil {
		return t
	}
	for i := len(st.pc) - 1; i >= 0; i-- {
		if f := st.pc[i]; f.op == "=" {
			if f.args[0] == t && f.args[1].op != "select" {
				return f.args[1]
			}
			if f.args[1] == t && f.args[0].op != "select" {
				return f.args[0]
			}
		}
	}
	return t
}

func (e *Engine) unop(st *State, x *ssa.UnOp) []*State {
	fr := st.top()
	switch x.Op {
	case token.MUL:
		if g, ok := x.X.(*ssa.Global); ok {
			fr.env[x] = e.global(st, g)
			return []*State{st}
		}
		v := e.load(st, e.val(st, x.X), x.Type())
		if t, ok := v.(*Term); ok && len(e.fs.Positions) > 0 {
			v = st.known1(t)
		}
		fr.env[x] = v
		return []*State{st}
	case token.NOT:
		fr.env[x] = e.tt.Not(e.term(e.val(st, x.X)))
		return []*State{st}
	case token.SUB:
		fr.env[x] = e.norm(st, e.tt.Neg(e.term(e.val(st, x.X))), x.Type())
		return []*State{st}
	case token.ARROW:
		ch := e.term(e.val(st, x.X))
		elem := under(x.X.Type()).(*types.Chan).Elem()
		d := len(st.frames) - 1
		if out, ok := e.waitHook(st, []*Term{ch}, true); ok {
			_ = out
		}
		return e.recv(st, ch, elem, func(st *State, v Value, ok *Term) []*State {
			if x.CommaOk {
				st.frames[d].env[x] = Tuple{v, ok}
			} else {
				st.frames[d].env[x] = v
			}
			return []*State{st}
		})
	case token.XOR:
		v := e.term(e.val(st, x.X))
		_, hi, bits, signed := intRange(x.Type())
		if signed {
			fr.env[x] = e.norm(st, e.tt.Sub(e.tt.Int(-1), v), x.Type())
		} else if bits != 0 {
			fr.env[x] = e.tt.Sub(e.tt.IntB(hi), v)
		}
		return []*State{st}
	}
	unsup("unop %s", x.Op)
	return nil
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Engine) valEq(st *State, a, b Value) *Term {
	if sa, ok := a.(*StructV); ok {
		sb := b.(*StructV)
		var cs []*Term
		for i := range sa.fields {
			cs = append(cs, e.valEq(st, sa.fields[i], sb.fields[i]))
		}
		return e.tt.And(cs...)
	}
	ta, tb := e.term(a), e.term(b)
	if ta.sort == sSlice {
		// comparison with nil
		if tb.op == "mkS" && tb.args[0].n != nil && tb.args[0].n.Sign() == 0 {
			return e.tt.Eq(e.tt.SRef(ta), e.tt.Int(0))
		}
		if ta.op == "mkS" && ta.args[0].n != nil && ta.args[0].n.Sign() == 0 {
			return e.tt.Eq(e.tt.SRef(tb), e.tt.Int(0))
		}
	}
	return e.tt.Eq(ta, tb)
}

// extensional: two strings which differ have another length or differ at one
// index (the theory of the solver does not know that equal bytes make equal
// strings).
func (e *Engine) extensional(st *State, a, b Value) {
	x, ok := a.(*Term)
	y, ok2 := b.(*Term)
	if !e.strExt || !ok || !ok2 || x.sort != sStr || x == y {
		return
	}
	tt := e.tt
	k := e.fresh(st, "differ", tInt).(*Term)
	st.assume(tt.Or(tt.Eq(x, y), tt.Not(tt.Eq(tt.SLen(x), tt.SLen(y))),
		tt.And(tt.Le(tt.Int(0), k), tt.Lt(k, tt.SLen(x)), tt.Not(tt.Eq(tt.SAt(x, k), tt.SAt(y, k))))))
	if x.op == "app" && x.name == "mkstr" && y.op == "app" && y.name == "mkstr" {
		i := tt.BoundVar("i", sInt)
		at := func(s *Term) *Term { return tt.Select(s.args[0], tt.Add(s.args[1], i)) }
		st.assume(tt.Or(tt.Not(tt.Eq(x, y)), tt.Forall([]*Term{i}, tt.Imp(tt.And(tt.Le(tt.Int(0), i), tt.Lt(i, tt.SLen(x))), tt.Eq(at(x), at(y))))))
	}
}

func (e *Engine) binop(st *State, op token.Token, a, b Value, at, bt, rt types.Type) Value {
	tt := e.tt
	switch op {
	case token.EQL:
		e.extensional(st, a, b)
		return e.valEq(st, a, b)
	case token.NEQ:
		e.extensional(st, a, b)
		return tt.Not(e.valEq(st, a, b))
	}
	x, y := e.term(a), e.term(b)
	if x.sort == sStr {
		switch op {
		case token.ADD:
			return e.concat(x, y)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if op == token.GTR || op == token.GEQ {
				x, y = y, x
			}
			lt := tt.App("str.less", sBool, x, y)
			if op == token.LSS || op == token.GTR {
				return lt
			}
			return tt.Or(lt, tt.Eq(x, y))
		}
	}
	if isFloat(at) && !(x.n != nil && y.n != nil) {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return tt.App("float."+opName(op), sBool, x, y)
		}
		return tt.App("float."+opName(op), sInt, x, y)
	}
	switch op {
	case token.LSS:
		return tt.Lt(x, y)
	case token.LEQ:
		return tt.Le(x, y)
	case token.GTR:
		return tt.Lt(y, x)
	case token.GEQ:
		return tt.Le(y, x)
	case token.ADD:
		return e.norm(st, tt.Add(x, y), rt)
	case token.SUB:
		return e.norm(st, tt.Sub(x, y), rt)
	case token.MUL:
		return e.norm(st, tt.Mul(x, y), rt)
	case token.QUO, token.REM:
		e.safe(st, "div0", tt.Not(tt.Eq(y, tt.Int(0))))
		if x.lo != nil && x.lo.Sign() >= 0 && y.lo != nil && y.lo.Sign() >= 0 || y.n != nil && y.n.Sign() > 0 && e.valid(st, tt.Le(tt.Int(0), x), 1000) {
			if op == token.QUO {
				return tt.Div(x, y)
			}
			return tt.Mod(x, y)
		}
		if y.n != nil && y.n.Sign() > 0 {
			// truncated division
			q := tt.Ite(tt.Le(tt.Int(0), x), tt.Div(x, y), tt.Neg(tt.Div(tt.Neg(x), y)))
			if op == token.QUO {
				return q
			}
			return tt.Sub(x, tt.Mul(y, q))
		}
		return e.bitUF(opName(op), x, y, rt)
	case token.SHL:
		if y.n != nil && y.n.Sign() >= 0 {
			if y.n.Cmp(big.NewInt(64)) >= 0 {
				return tt.Int(0)
			}
			return e.norm(st, tt.Mul(x, tt.IntB(pow2(uint(y.n.Uint64())))), rt)
		}
		return e.bitUF("shl", x, y, rt)
	case token.SHR:
		if y.n != nil && y.n.Sign() >= 0 {
			sh := uint(200)
			if y.n.Cmp(big.NewInt(200)) < 0 {
				sh = uint(y.n.Uint64())
			}
			return tt.Div(x, tt.IntB(pow2(sh)))
		}
		return e.bitUF("shr", x, y, rt)
	case token.AND:
		if x.sort == sBool {
			return tt.And(x, y)
		}
		if y.n == nil {
			x, y = y, x
		}
		if y.n != nil {
			m := new(big.Int).Add(y.n, big.NewInt(1))
			if y.n.Sign() >= 0 && m.TrailingZeroBits() == uint(m.BitLen()-1) {
				return tt.Mod(x, tt.IntB(m)) // mask of low bits (also for two's complement)
			}
			if y.n.Sign() == 0 {
				return tt.Int(0)
			}
			// single bit 2^k: ((x div 2^k) mod 2) * 2^k
			if y.n.Sign() > 0 && y.n.TrailingZeroBits() == uint(y.n.BitLen()-1) {
				return tt.Mul(y, tt.Mod(tt.Div(x, y), tt.Int(2)))
			}
		}
		return e.bitUF("and", x, y, rt)
	case token.OR:
		if x.sort == sBool {
			return tt.Or(x, y)
		}
		if r := e.disjointOr(st, x, y); r != nil {
			return r
		}
		if x.n != nil {
			x, y = y, x
		}
		// x | 2^k
		if y.n != nil && y.n.Sign() > 0 && y.n.TrailingZeroBits() == uint(y.n.BitLen()-1) {
			bit := tt.Mod(tt.Div(x, y), tt.Int(2))
			return tt.Add(x, tt.Mul(y, tt.Sub(tt.Int(1), bit)))
		}
		return e.bitUF("or", x, y, rt)
	case token.XOR:
		return e.bitUF("xor", x, y, rt)
	case token.AND_NOT:
		return e.bitUF("andnot", x, y, rt)
	}
	unsup("binop %s", op)
	return nil
}

// disjointOr recognises x|y with x a multiple of 2^k and 0<=y<2^k.
func (e *Engine) disjointOr(st *State, x, y *Term) *Term {
	if x.n != nil && x.n.Sign() == 0 {
		return y
	}
	if y.n != nil && y.n.Sign() == 0 {
		return x
	}
	for i := 0; i < 2; i++ {
		if k := e.pow2Factor(x); k > 0 && y.lo != nil && y.lo.Sign() >= 0 && y.hi != nil && y.hi.Cmp(pow2(k)) < 0 && x.lo != nil && x.lo.Sign() >= 0 {
			return e.tt.Add(x, y)
		}
		x, y = y, x
	}
	return nil
}

func (e *Engine) pow2Factor(x *Term) uint {
	m, k := e.tt.linOf(x)
	f := uint(200)
	if k.Sign() != 0 {
		f = k.TrailingZeroBits()
	}
	for a, c := range m {
		if z := c.TrailingZeroBits(); z < f {
			// (mod of a multiple stays a multiple)
			if a.op == "mod" && a.args[1].n != nil {
				zi := e.pow2Factor(a.args[0])
				if t := a.args[1].n.TrailingZeroBits(); t < zi {
					zi = t
				}
				z += zi
			}
			if z < f {
				f = z
			}
		}
	}
	return f
}

func opName(op token.Token) string {
	switch op {
	case token.LSS:
		return "lt"
	case token.LEQ:
		return "le"
	case token.GTR:
		return "gt"
	case token.GEQ:
		return "ge"
	case token.ADD:
		return "add"
	case token.SUB:
		return "sub"
	case token.MUL:
		return "mul"
	case token.QUO:
		return "quo"
	case token.REM:
		return "rem"
	}
	return "op"
}

func (e *Engine) bitUF(op string, x, y *Term, t types.Type) *Term {
	r := e.tt.App("bit."+op+"."+san(typeKey(under(t))), sInt, x, y)
	e.typed(r, t)
	return r
}

func (e *Engine) concat(x, y *Term) *Term {
	if x.op == "strc" && y.op == "strc" {
		return e.tt.Str(x.name + y.name)
	}
	if x.op == "strc" && x.name == "" {
		return y
	}
	if y.op == "strc" && y.name == "" {
		return x
	}
	r := e.tt.App("strcat", sStr, x, y)
	if !r.bound && len(r.ax) == 0 {
		r.ax = append(r.ax, e.tt.Eq(e.tt.SLen(r), e.tt.Add(e.tt.SLen(x), e.tt.SLen(y))))
	}
	return r
}

// substr s[lo:hi]
func (e *Engine) substr(s, lo, hi *Term) *Term {
	if lo.n != nil && lo.n.Sign() == 0 && hi == e.tt.SLen(s) {
		return s
	}
	if s.op == "strc" && lo.n != nil && hi.n != nil && lo.n.Sign() >= 0 && hi.n.Cmp(lo.n) >= 0 && hi.n.Int64() <= int64(len(s.name)) {
		return e.tt.Str(s.name[lo.n.Int64():hi.n.Int64()])
	}
	r := e.tt.App("substr", sStr, s, lo, hi)
	if !r.bound && len(r.ax) == 0 {
		inb := e.tt.And(e.tt.Le(e.tt.Int(0), lo), e.tt.Le(lo, hi), e.tt.Le(hi, e.tt.SLen(s)))
		r.ax = append(r.ax, e.tt.Imp(inb, e.tt.Eq(e.tt.SLen(r), e.tt.Sub(hi, lo))))
		r.ax = append(r.ax, e.tt.Imp(e.tt.And(e.tt.Eq(lo, e.tt.Int(0)), e.tt.Eq(hi, e.tt.SLen(s))), e.tt.Eq(r, s)))
		r.ax = append(r.ax, e.tt.Imp(e.tt.Eq(lo, hi), e.tt.Eq(r, e.tt.Str(""))))
	}
	return r
}

func (e *Engine) convert(st *State, v Value, from, to types.Type) Value {
	fu, tu := under(from), under(to)
	if sortOf(from) == "" {
		return v
	}
	x := e.term(v)
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	switch {
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		return e.norm(st, x, to)
	case fok && tok && isFloat(from) && tb.Info()&types.IsInteger != 0:
		if x.n != nil {
			return e.norm(st, x, to)
		}
		return e.typed(e.tt.App("f2i."+typeKey(tu), sInt, x), to)
	case fok && tok && isFloat(to):
		if x.n != nil {
			return x
		}
		return e.tt.App("i2f", sInt, x)
	case fok && tok && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return x
	case tok && tb.Info()&types.IsString != 0:
		if s, ok := fu.(*types.Slice); ok && sortOf(s.Elem()) == sInt {
			return e.bytesToString(st, x, s.Elem())
		}
		return e.tt.App("rune2str", sStr, x)
	case fok && fb.Info()&types.IsString != 0:
		if s, ok := tu.(*types.Slice); ok {
			return e.stringToBytes(st, x, s.Elem())
		}
	}
	if sortOf(from) == sortOf(to) {
		return x
	}
	unsup("convert %s to %s", from, to)
	return nil
}

// bytesToString: a string over the current contents of the slice.
func (e *Engine) bytesToString(st *State, s *Term, elem types.Type) *Term {
	a := e.tt.Select(e.memArr(st, elem), e.tt.SRef(s))
	off, ln := e.tt.SOff(s), e.tt.SLn(s)
	// exactly the contents copied from a string before?
	if x := e.ropeString(st, a, off, ln); x != nil {
		return x
	}
	r := e.tt.App("mkstr", sStr, a, off, ln)
	if !r.bound && len(r.ax) == 0 {
		r.ax = append(r.ax, e.tt.Eq(e.tt.SLen(r), ln))
		i := e.tt.BoundVar("i", sInt)
		at := e.tt.App("strat", sInt, r, i)
		at.lo, at.hi = big.NewInt(0), big.NewInt(255)
		r.ax = append(r.ax, e.tt.Forall([]*Term{i}, e.tt.Imp(e.tt.And(e.tt.Le(e.tt.Int(0), i), e.tt.Lt(i, ln)), e.tt.Eq(at, e.tt.Select(a, e.tt.Add(off, i)))), at))
	}
	return r
}

func (e *Engine) ropeString(st *State, a, off, ln *Term) *Term {
	for d := 0; d < 40; d++ {
		if a.op == "blit" {
			// blit(dst, at, src kind...)
			dst, at, n, src := a.args[0], a.args[1], a.args[2], a.args[3]
			if src.sort == sStr && e.same(st, at, off) && e.same(st, ln, e.tt.SLen(src)) && e.same(st, n, e.tt.SLen(src)) {
				return src
			}
			if e.valid(st, e.tt.Or(e.tt.Le(e.tt.Add(off, ln), at), e.tt.Le(e.tt.Add(at, n), off)), 500) {
				a = dst
				continue
			}
			return nil
		}
		if a.op == "store" {
			i := a.args[1]
			if e.valid(st, e.tt.Or(e.tt.Lt(i, off), e.tt.Le(e.tt.Add(off, ln), i)), 500) {
				a = a.args[0]
				continue
			}
			return nil
		}
		return nil
	}
	return nil
}

func (e *Engine) same(st *State, a, b *Term) bool {
	return a == b || e.valid(st, e.tt.Eq(a, b), 500)
}

func (e *Engine) stringToBytes(st *State, s *Term, elem types.Type) *Term {
	r := e.newRef(st)
	ln := e.tt.SLen(s)
	m := e.memArr(st, elem)
	base := e.tt.ConstArr(arrElem(m.sort), e.tt.Int(0))
	st.heap[memKey(elem)] = e.tt.Store(m, r, e.blit(st, base, e.tt.Int(0), ln, s, nil))
	return e.tt.MkS(r, e.tt.Int(0), ln, ln)
}

// blit returns the array dst with n elements from src (a string, or array
// `src` starting at srcOff) written at position at.
func (e *Engine) blit(st *State, dst, at, n, src, srcOff *Term) *Term {
	if n.n != nil && n.n.Sign() == 0 {
		return dst
	}
	get := func(i *Term) *Term { // i relative
		if src.sort == sStr {
			return e.tt.SAt(src, i)
		}
		return e.tt.Select(src, e.tt.Add(srcOff, i))
	}
	if n.n != nil && n.n.IsInt64() && n.n.Int64() <= 8 {
		for i := int64(0); i < n.n.Int64(); i++ {
			dst = e.tt.Store(dst, e.tt.Add(at, e.tt.Int(i)), get(e.tt.Int(i)))
		}
		return dst
	}
	args := []*Term{dst, at, n, src}
	if srcOff != nil {
		args = append(args, srcOff)
	}
	t := e.tt.mk("blit", "", dst.sort, args...)
	if len(t.ax) == 0 {
		i := e.tt.BoundVar("i", sInt)
		sel := e.tt.mk("select", "", arrElem(dst.sort), t, i)
		in := e.tt.And(e.tt.Le(at, i), e.tt.Lt(i, e.tt.Add(at, n)))
		t.ax = append(t.ax, e.tt.Forall([]*Term{i}, e.tt.And(
			e.tt.Imp(in, e.tt.Eq(sel, get(e.tt.Sub(i, at)))),
			e.tt.Imp(e.tt.Not(in), e.tt.Eq(sel, e.tt.Select(dst, i)))), sel))
	}
	return t
}

func (e *Engine) indexAddr(st *State, x *ssa.IndexAddr) {
	fr := st.top()
	idx := e.term(e.val(st, x.Index))
	base := e.val(st, x.X)
	switch u := under(x.X.Type()).(type) {
	case *types.Slice:
		s := e.term(base)
		e.safe(st, "index", e.tt.And(e.tt.Le(e.tt.Int(0), idx), e.tt.Lt(idx, e.tt.SLn(s))))
		ref, i := e.tt.SRef(s), e.tt.Add(e.tt.SOff(s), idx)
		if sortOf(u.Elem()) == "" {
			fr.env[x] = e.elemRef(ref, i, u.Elem())
		} else {
			fr.env[x] = &Addr{key: memKey(u.Elem()), ref: ref, idx: i, typ: u.Elem()}
		}
		return
	case *types.Pointer:
		a := under(u.Elem()).(*types.Array)
		r := e.term(base)
		e.nonNil(st, r, "index")
		e.safe(st, "index", e.tt.And(e.tt.Le(e.tt.Int(0), idx), e.tt.Lt(idx, e.tt.Int(a.Len()))))
		if sortOf(a.Elem()) == "" {
			fr.env[x] = e.elemRef(r, idx, a.Elem())
		} else {
			fr.env[x] = &Addr{key: memKey(a.Elem()), ref: r, idx: idx, typ: a.Elem()}
		}
		return
	}
	unsup("indexaddr %s", x.X.Type())
}

func (e *Engine) slice(st *State, x *ssa.Slice) {
	fr := st.top()
	tt := e.tt
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return e.term(e.val(st, v))
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = tt.Int(0)
	}
	base := e.term(e.val(st, x.X))
	switch u := under(x.X.Type()).(type) {
	case *types.Basic: // string
		if hi == nil {
			hi = tt.SLen(base)
		}
		e.safe(st, "slice", tt.And(tt.Le(tt.Int(0), lo), tt.Le(lo, hi), tt.Le(hi, tt.SLen(base))))
		fr.env[x] = e.substr(base, lo, hi)
		return
	case *types.Slice:
		if hi == nil {
			hi = tt.SLn(base)
		}
		cp := tt.SCap(base)
		if mx == nil {
			mx = cp
		}
		e.safe(st, "slice", tt.And(tt.Le(tt.Int(0), lo), tt.Le(lo, hi), tt.Le(hi, mx), tt.Le(mx, cp)))
		fr.env[x] = e.reslice(base, lo, hi, mx)
		return
	case *types.Pointer:
		a := under(u.Elem()).(*types.Array)
		n := tt.Int(a.Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		e.nonNil(st, base, "slice")
		e.safe(st, "slice", tt.And(tt.Le(tt.Int(0), lo), tt.Le(lo, hi), tt.Le(hi, mx), tt.Le(mx, n)))
		fr.env[x] = tt.MkS(base, lo, tt.Sub(hi, lo), tt.Sub(mx, lo))
		return
	}
	unsup("slice of %s", x.X.Type())
}

func (e *Engine) reslice(s, lo, hi, mx *Term) *Term {
	tt := e.tt
	return tt.MkS(tt.SRef(s), tt.Add(tt.SOff(s), lo), tt.Sub(hi, lo), tt.Sub(mx, lo))
}

// ---------- maps

func mapKeys(mt *types.Map) (d, v, n string) {
	k := typeKey(mt.Key()) + ">" + typeKey(mt.Elem())
	return "D:" + k, "V:" + k, "N:" + k
}

func (e *Engine) mapArrs(st *State, mt *types.Map) (d, v, n *Term) {
	ks, vs := sortOf(mt.Key()), sortOf(mt.Elem())
	if ks == "" || vs == "" {
		unsup("map type %s", mt)
	}
	dk, vk, nk := mapKeys(mt)
	d = e.heapArr(st, dk, "(Array "+ks+" Bool)", nil)
	v = e.heapArr(st, vk, "(Array "+ks+" "+vs+")", mt.Elem())
	n = e.heapArr(st, nk, sInt, nil)
	return
}

func (e *Engine) initMap(st *State, r *Term, mt *types.Map) {
	d, v, n := e.mapArrs(st, mt)
	dk, vk, nk := mapKeys(mt)
	st.heap[dk] = e.tt.Store(d, r, e.tt.ConstArr(arrElem(d.sort), e.tt.Bool(false)))
	st.heap[vk] = e.tt.Store(v, r, e.tt.ConstArr(arrElem(v.sort), e.term(e.zero(st, mt.Elem()))))
	st.heap[nk] = e.tt.Store(n, r, e.tt.Int(0))
}

// mapGet returns (value or zero, present).
func (e *Engine) mapGet(st *State, m *Term, mt *types.Map, k *Term) (*Term, *Term) {
	d, v, _ := e.mapArrs(st, mt)
	has := e.tt.And(e.tt.Not(e.tt.Eq(m, e.tt.Int(0))), e.tt.Select(e.tt.Select(d, m), k))
	val := e.tt.Select(e.tt.Select(v, m), k)
	e.typed(val, mt.Elem())
	return e.tt.Ite(has, val, e.term(e.zero(st, mt.Elem()))), has
}

func (e *Engine) lookup(st *State, x *ssa.Lookup) []*State {
	fr := st.top()
	base := e.term(e.val(st, x.X))
	idx := e.val(st, x.Index)
	if base.sort == sStr {
		i := e.term(idx)
		e.safe(st, "index", e.tt.And(e.tt.Le(e.tt.Int(0), i), e.tt.Lt(i, e.tt.SLen(base))))
		fr.env[x] = e.tt.SAt(base, i)
		return []*State{st}
	}
	mt := under(x.X.Type()).(*types.Map)
	v, ok := e.mapGet(st, base, mt, e.term(idx))
	if x.CommaOk {
		fr.env[x] = Tuple{v, ok}
	} else {
		fr.env[x] = v
	}
	return []*State{st}
}

func (e *Engine) mapUpdate(st *State, m *Term, t types.Type, k, v Value) {
	mt := under(t).(*types.Map)
	e.safe(st, "nilmap", e.tt.Not(e.tt.Eq(m, e.tt.Int(0))))
	e.mapLock(st, m, true)
	d, va, n := e.mapArrs(st, mt)
	dk, vk, nk := mapKeys(mt)
	kt := e.term(k)
	od := e.tt.Select(d, m)
	on := e.tt.Select(n, m)
	st.heap[nk] = e.tt.Store(n, m, e.tt.Ite(e.tt.Select(od, kt), on, e.tt.Add(on, e.tt.Int(1))))
	st.heap[dk] = e.tt.Store(d, m, e.tt.Store(od, kt, e.tt.Bool(true)))
	st.heap[vk] = e.tt.Store(va, m, e.tt.Store(e.tt.Select(va, m), kt, e.term(v)))
}

func (e *Engine) mapDelete(st *State, m *Term, t types.Type, k Value) {
	mt := under(t).(*types.Map)
	d, _, n := e.mapArrs(st, mt)
	dk, _, nk := mapKeys(mt)
	kt := e.term(k)
	od := e.tt.Select(d, m)
	on := e.tt.Select(n, m)
	st.heap[nk] = e.tt.Store(n, m, e.tt.Ite(e.tt.Select(od, kt), e.tt.Sub(on, e.tt.Int(1)), on))
	st.heap[dk] = e.tt.Store(d, m, e.tt.Store(od, kt, e.tt.Bool(false)))
}

// mapLen with its defining facts.
func (e *Engine) mapLen(st *State, m *Term, mt *types.Map) *Term {
	d, _, n := e.mapArrs(st, mt)
	l := e.tt.Ite(e.tt.Eq(m, e.tt.Int(0)), e.tt.Int(0), e.tt.Select(n, m))
	// l == 0 <=> no key present (finite map)
	dm := e.tt.Select(d, m)
	ks := sortOf(mt.Key())
	k := e.tt.BoundVar("k", ks)
	sel := e.tt.Select(dm, k)
	st.assume(e.tt.Le(e.tt.Int(0), e.tt.Select(n, m)))
	st.assume(e.tt.Imp(e.tt.Eq(e.tt.Select(n, m), e.tt.Int(0)), e.tt.Forall([]*Term{k}, e.tt.Not(sel), sel)))
	w := e.tt.Var("wit", ks)
	st.assume(e.tt.Imp(e.tt.Lt(e.tt.Int(0), e.tt.Select(n, m)), e.tt.Select(dm, w)))
	return l
}

func (e *Engine) rangeStmt(st *State, x *ssa.Range) []*State {
	fr := st.top()
	mt, ok := under(x.X.Type()).(*types.Map)
	if !ok {
		unsup("range over %s", x.X.Type())
	}
	ks := sortOf(mt.Key())
	it := &RangeIter{m: e.term(e.val(st, x.X)), mt: mt, visited: e.tt.ConstArr("(Array "+ks+" Bool)", e.tt.Bool(false))}
	fr.env[x] = it
	return []*State{st}
}

func (e *Engine) next(st *State, x *ssa.Next) []*State {
	fr := st.top()
	it, ok := fr.env[x.Iter].(*RangeIter)
	if !ok {
		unsup("next of %T", fr.env[x.Iter])
	}
	e.mapLock(st, it.m, false)
	tt := e.tt
	ks := sortOf(it.mt.Key())
	d, v, _ := e.mapArrs(st, it.mt)
	dm := tt.Select(d, it.m)
	// done: every present key was visited
	s2 := st.clone()
	k := tt.BoundVar("k", ks)
	sel := tt.Select(dm, k)
	vis := tt.Select(it.visited, k)
	allv := tt.Forall([]*Term{k}, tt.Imp(tt.And(tt.Not(tt.Eq(it.m, tt.Int(0))), sel), vis), sel)
	if dm.op == "constarr" {
		allv = tt.Bool(true)
	}
	s2.assume(allv)
	s2.top().env[x] = Tuple{tt.Bool(false), e.zero(s2, it.mt.Key()), e.zero(s2, it.mt.Elem())}
	// one more key
	kv := e.fresh(st, "key", it.mt.Key()).(*Term)
	st.assume(tt.Not(tt.Eq(it.m, tt.Int(0))))
	st.assume(tt.Select(dm, kv))
	st.assume(tt.Not(tt.Select(it.visited, kv)))
	val := tt.Select(tt.Select(v, it.m), kv)
	e.typed(val, it.mt.Elem())
	st.top().env[x] = Tuple{tt.Bool(true), kv, val}
	st.top().env[x.Iter] = &RangeIter{m: it.m, mt: it.mt, visited: tt.Store(it.visited, kv, tt.Bool(true))}
	return []*State{st, s2}
}

// ---------- type assertions

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (e *Engine) assertCond(i *Term, to types.Type) *Term {
	tt := e.tt
	tag := tt.ITag(i)
	if it, ok := under(to).(*types.Interface); ok {
		if it.NumMethods() == 0 {
			return tt.Not(tt.Eq(tag, tt.Int(0)))
		}
		if tag.n != nil {
			if tag.n.Sign() == 0 {
				return tt.Bool(false)
			}
			if ct := e.tagType[tag.n.Int64()]; ct != nil {
				return tt.Bool(e.implements(ct, it))
			}
		}
		r := tt.App("implements."+san(typeKey(to)), sBool, tag)
		for _, id := range e.concreteTags() {
			r = tt.Ite(tt.Eq(tag, tt.Int(id)), tt.Bool(e.implements(e.tagType[id], it)), r)
		}
		return tt.And(tt.Not(tt.Eq(tag, tt.Int(0))), r)
	}
	return tt.Eq(tag, e.tag(to))
}

// concreteTags lists the dynamic types which the contract or the code so far named.
func (e *Engine) concreteTags() []int64 {
	var ids []int64
	for id, t := range e.tagType {
		if _, ok := under(t).(*types.Interface); !ok {
			ids = append(ids, id)
		}
	}
	slices.Sort(ids)
	return ids
}

func (e *Engine) typeAssert(st *State, x *ssa.TypeAssert) []*State {
	i := e.term(e.val(st, x.X))
	c := e.assertCond(i, x.AssertedType)
	get := func(st *State) Value {
		if _, ok := under(x.AssertedType).(*types.Interface); ok {
			return i
		}
		return e.unbox(st, i, x.AssertedType)
	}
	if !x.CommaOk {
		e.safe(st, "typeassert", c)
		st.top().env[x] = get(st)
		return []*State{st}
	}
	var out []*State
	if e.feasible(st, e.tt.Not(c)) {
		s2 := st.clone()
		s2.assume(e.tt.Not(c))
		s2.top().env[x] = Tuple{e.zero(s2, x.AssertedType), e.tt.Bool(false)}
		out = append(out, s2)
	}
	if e.feasible(st, c) {
		st.assume(c)
		st.top().env[x] = Tuple{get(st), e.tt.Bool(true)}
		out = append(out, st)
	}
	return out
}

// ghost heap helpers
func (e *Engine) getG(st *State, key, srt string, ref *Term) *Term {
	return e.tt.Select(e.heapArr(st, key, srt, nil), ref)
}
func (e *Engine) setG(st *State, key, srt string, ref, v *Term) {
	st.heap[key] = e.tt.Store(e.heapArr(st, key, srt, nil), ref, v)
}

func (e *Engine) debugf(f string, a ...any) { fmt.Printf(f+"\n", a...) }

// globalAddr is the address of a package variable (composite ones are objects).
func (e *Engine) globalAddr(st *State, g *ssa.Global) Value {
	k := "ga:" + g.String()
	n, ok := e.globLit[k]
	if !ok {
		// objects that exist before the call have references below zero
		e.nextClo++
		n = -e.nextClo
		e.globLit[k] = n
	}
	return e.tt.Int(n)
}

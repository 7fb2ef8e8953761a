package main

import (
	"go/types"
	"math/big"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Call struct {
	name  string // short callee name
	alt   []string
	fn    *ssa.Function
	binds []Value
	built string // builtin closure name
	data  []Value
	bi    *ssa.Builtin
	fval  *Term // dynamic function value
	args  []Value
	sig   *types.Signature
	itype types.Type // interface type for invoke
	meth  *types.Func
	rtype types.Type // result type (tuple / single / nil)
	atyp  []types.Type
	k     Cont
	isDef bool
	com   *ssa.CallCommon
}

// methName is the short name of an interface method: the interface that
// declares it plus the method name.
func methName(m *types.Func) string {
	s := m.FullName()
	s = strings.TrimPrefix(s, "(")
	s = strings.Replace(s, ")", "", 1)
	return short(s)
}

func (e *Engine) mkCall(st *State, cc *ssa.CallCommon, instr *ssa.Call) *Call {
	c := &Call{com: cc, sig: cc.Signature()}
	for _, a := range cc.Args {
		c.atyp = append(c.atyp, a.Type())
	}
	if cc.IsInvoke() {
		c.itype = cc.Value.Type()
		c.meth = cc.Method
		c.name = methName(cc.Method)
		c.args = append(c.args, e.val(st, cc.Value))
		c.atyp = append([]types.Type{cc.Value.Type()}, c.atyp...)
	} else {
		switch v := cc.Value.(type) {
		case *ssa.Builtin:
			c.bi = v
			c.name = "builtin." + v.Name()
		case *ssa.Function:
			c.fn = v
			c.name = short(v.String())
		default:
			c.fval = e.term(e.val(st, cc.Value))
		}
	}
	for _, a := range cc.Args {
		c.args = append(c.args, e.val(st, a))
	}
	res := cc.Signature().Results()
	switch res.Len() {
	case 0:
	case 1:
		c.rtype = res.At(0).Type()
	default:
		c.rtype = res
	}
	d := len(st.frames) - 1
	if instr != nil {
		c.k = func(st *State, res Value) []*State {
			if res != nil {
				st.frames[d].env[instr] = res
			}
			return []*State{st}
		}
	} else {
		c.k = func(st *State, res Value) []*State { return []*State{st} }
	}
	return c
}

func (e *Engine) doCall(st *State, c *Call) []*State {
	if c.bi != nil {
		return e.builtin(st, c)
	}
	// resolve function values
	if c.fval != nil {
		if cl := e.closureOf(st, c.fval); cl != nil {
			c2 := *c
			c2.fval = nil
			if cl.builtin != "" {
				c2.built, c2.data = cl.builtin, cl.data
				c2.name = "builtin." + cl.builtin
				return e.builtClosure(st, &c2)
			}
			c2.fn, c2.binds = cl.fn, cl.binds
			c2.name = short(cl.fn.String())
			// bound method closures: call the method itself
			if h := e.findHook(st, &c2); h != nil {
				return e.runHook(st, h, &c2)
			}
			return e.callFn(st, &c2)
		}
		e.safe(st, "nilfunc", e.tt.Not(e.tt.Eq(c.fval, e.tt.Int(0))))
		if h := e.findHook(st, c); h != nil {
			return e.runHook(st, h, c)
		}
		if c.sig.Params().Len() == 0 && c.sig.Results().Len() == 0 {
			for f := range e.cancelFns {
				if e.valid(st, e.tt.Eq(c.fval, f), 1000) {
					e.setG(st, "G:ctxdone", sBool, f.args[0], e.tt.Bool(true))
					return c.k(st, nil)
				}
			}
		}
		return e.unmodelled(st, c, "dynamic call of "+c.sig.String())
	}
	if c.meth != nil {
		recv := e.term(c.args[0])
		tag := e.tt.ITag(recv)
		e.safe(st, "nil-iface", e.tt.Not(e.tt.Eq(tag, e.tt.Int(0))))
		if h := e.findHook(st, c); h != nil {
			return e.runHook(st, h, c)
		}
		if in, ok := intrinsics["iface:"+c.name]; ok {
			e.usedInt[c.name] = true
			return in(e, st, c)
		}
		if tag.n != nil {
			if ct := e.tagType[tag.n.Int64()]; ct != nil {
				m := e.ld.method(ct, c.meth)
				if m != nil {
					c2 := *c
					c2.meth = nil
					c2.fn = m
					c2.name = short(m.String())
					c2.args = append([]Value{e.unbox(st, recv, ct)}, c.args[1:]...)
					if len(c.atyp) > 0 {
						c2.atyp = append([]types.Type{ct}, c.atyp[1:]...)
					}
					return e.doCall(st, &c2)
				}
			}
		}
		if tag.n == nil {
			return e.dispatch(st, c, recv, tag)
		}
		return e.unmodelled(st, c, "interface method "+c.name)
	}
	if h := e.findHook(st, c); h != nil {
		return e.runHook(st, h, c)
	}
	if in, ok := intrinsics[e.intrName(c.fn)]; ok {
		e.usedInt[e.intrName(c.fn)] = true
		return in(e, st, c)
	}
	return e.callFn(st, c)
}

// dispatch splits a call of an interface method by the dynamic types which are
// known here (because the contract or the code names them) and possible.
func (e *Engine) dispatch(st *State, c *Call, recv, tag *Term) []*State {
	var out []*State
	for _, id := range e.concreteTags() {
		ct := e.tagType[id]
		m := e.ld.method(ct, c.meth)
		is := e.tt.Eq(tag, e.tt.Int(id))
		if m == nil || !e.feasible(st, is) {
			continue
		}
		if s2 := st.clone(); true {
			s2.assume(is)
			c2 := *c
			c2.meth = nil
			c2.fn = m
			c2.name = short(m.String())
			c2.args = append([]Value{e.unbox(s2, recv, ct)}, c.args[1:]...)
			if len(c.atyp) > 0 {
				c2.atyp = append([]types.Type{ct}, c.atyp[1:]...)
			}
			out = append(out, e.doCall(s2, &c2)...)
		}
		st.assume(e.tt.Not(is))
	}
	if st.dead || len(out) > 0 && !e.feasible(st, e.tt.Bool(true)) {
		return out
	}
	return append(out, e.unmodelled(st, c, "interface method "+c.name)...)
}

func (e *Engine) intrName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return short(o.String())
	}
	return short(f.String())
}

// pure library packages whose bodies are executed as they are.
var inlinePkgs = map[string]bool{
	"github.com/aperturerobotics/protobuf-go-lite/json": true,
	"strings": true, "slices": true, "maps": true, "cmp": true, "math/bits": true, "encoding/binary": true,
	"errors": true, "unicode/utf8": true, "internal/bytealg": false, "internal/stringslite": true, "bytes": true, "iter": true,
	"github.com/aperturerobotics/protobuf-go-lite/protohelpers":        true,
	"github.com/aperturerobotics/protobuf-go-lite/types/known/emptypb": true,
	"io": true, "sync/atomic": false,
}

func (e *Engine) callFn(st *State, c *Call) []*State {
	f := c.fn
	if fs := e.cs.ByName[short(f.String())]; fs != nil && fs != e.fs && !slices.Contains(e.fs.Expand, fs.Name) {
		return e.useContract(st, fs, c)
	}
	p := pkgOf(f)
	if !(inRepo(f) || inlinePkgs[p] || p == "") || !e.ld.body(f) {
		return e.unmodelled(st, c, short(f.String()))
	}
	if len(st.frames) > 40 {
		unsup("call depth")
	}
	for _, fr := range st.frames {
		if fr.fn == f && len(st.frames) > 12 {
			unsup("recursion in %s", f)
		}
	}
	if inRepo(f) && e.quiet == 0 {
		e.inlined[short(f.String())] = true
	}
	return e.push(st, f, c.args, c.binds, c.k)
}

func (e *Engine) push(st *State, f *ssa.Function, args, binds []Value, k Cont) []*State {
	fr := &Frame{fn: f, block: f.Blocks[0], env: map[ssa.Value]Value{}, k: k, name: f.String()}
	for i, p := range f.Params {
		fr.env[p] = args[i]
	}
	for i, v := range f.FreeVars {
		fr.env[v] = binds[i]
	}
	st.frames = append(st.frames, fr)
	return []*State{st}
}

func (e *Engine) unmodelled(st *State, c *Call, what string) []*State {
	if e.quiet == 0 {
		e.unmod[what] = true
	}
	var res Value
	if c.rtype != nil {
		res = e.fresh(st, "ext", c.rtype)
	}
	return c.k(st, res)
}

// callClosure invokes a function value with continuation k.
func (e *Engine) callValue(st *State, f *Term, sig *types.Signature, args []Value, k Cont) []*State {
	c := &Call{fval: f, args: args, sig: sig, k: k}
	for i := 0; i < sig.Params().Len(); i++ {
		c.atyp = append(c.atyp, sig.Params().At(i).Type())
	}
	switch sig.Results().Len() {
	case 0:
	case 1:
		c.rtype = sig.Results().At(0).Type()
	default:
		c.rtype = sig.Results()
	}
	return e.doCall(st, c)
}

// callMethod invokes an interface method on a value with continuation k.
func (e *Engine) callMethod(st *State, recv *Term, it types.Type, name string, args []Value, k Cont) []*State {
	obj, _, _ := types.LookupFieldOrMethod(it, true, nil, name)
	m, ok := obj.(*types.Func)
	if !ok {
		unsup("no method %s on %s", name, it)
	}
	sig := m.Type().(*types.Signature)
	c := &Call{meth: m, name: methName(m), itype: it, args: append([]Value{recv}, args...), sig: sig, k: k}
	c.atyp = []types.Type{it}
	for i := 0; i < sig.Params().Len(); i++ {
		c.atyp = append(c.atyp, sig.Params().At(i).Type())
	}
	switch sig.Results().Len() {
	case 0:
	case 1:
		c.rtype = sig.Results().At(0).Type()
	default:
		c.rtype = sig.Results()
	}
	return e.doCall(st, c)
}

func (e *Engine) builtin(st *State, c *Call) []*State {
	tt := e.tt
	switch c.bi.Name() {
	case "len", "cap":
		a := c.args[0]
		switch under(c.atyp[0]).(type) {
		case *types.Map:
			return c.k(st, e.mapLen(st, e.term(a), under(c.atyp[0]).(*types.Map)))
		case *types.Slice:
			if c.bi.Name() == "cap" {
				return c.k(st, tt.SCap(e.term(a)))
			}
			return c.k(st, tt.SLn(e.term(a)))
		case *types.Basic:
			return c.k(st, tt.SLen(e.term(a)))
		case *types.Pointer:
			n := under(under(c.atyp[0]).(*types.Pointer).Elem()).(*types.Array).Len()
			return c.k(st, tt.Int(n))
		case *types.Chan:
			v := tt.Var("chlen", sInt)
			v.lo = big.NewInt(0)
			return c.k(st, v)
		}
	case "append":
		return c.k(st, e.appendTo(st, e.term(c.args[0]), e.term(c.args[1]), c.atyp[0], c.atyp[1]))
	case "copy":
		return c.k(st, e.copyTo(st, e.term(c.args[0]), e.term(c.args[1]), c.atyp[0], c.atyp[1]))
	case "delete":
		e.mapDelete(st, e.term(c.args[0]), c.atyp[0], c.args[1])
		return c.k(st, nil)
	case "close":
		return e.closeChan(st, e.term(c.args[0]), c.k)
	case "panic":
		e.safe(st, "panic", tt.Bool(false))
		return nil
	case "min", "max":
		x := e.term(c.args[0])
		if x.sort != sInt {
			break
		}
		for _, a := range c.args[1:] {
			y := e.term(a)
			if c.bi.Name() == "min" {
				x = tt.Ite(tt.Le(x, y), x, y)
			} else {
				x = tt.Ite(tt.Le(x, y), y, x)
			}
		}
		return c.k(st, x)
	case "print", "println":
		return c.k(st, nil)
	case "ssa:wrapnilchk":
		e.nonNil(st, e.term(c.args[0]), "method")
		return c.k(st, c.args[0])
	case "clear":
		if mt, ok := under(c.atyp[0]).(*types.Map); ok {
			m := e.term(c.args[0])
			d, _, n := e.mapArrs(st, mt)
			dk, _, nk := mapKeys(mt)
			st.heap[dk] = tt.Store(d, m, tt.ConstArr(arrElem(d.sort), tt.Bool(false)))
			st.heap[nk] = tt.Store(n, m, tt.Int(0))
			return c.k(st, nil)
		}
	}
	unsup("builtin %s", c.bi.Name())
	return nil
}

// srcElems gives the source of an append/copy: array (or string), offset, length.
func (e *Engine) srcElems(st *State, s *Term, t types.Type, elem types.Type) (src, off, n *Term) {
	if s.sort == sStr {
		return s, nil, e.tt.SLen(s)
	}
	return e.tt.Select(e.memArr(st, elem), e.tt.SRef(s)), e.tt.SOff(s), e.tt.SLn(s)
}

func (e *Engine) appendTo(st *State, a, b *Term, at, bt types.Type) *Term {
	tt := e.tt
	elem := under(at).(*types.Slice).Elem()
	if b.sort == sSlice {
		if n := tt.SLn(b); n.n != nil && n.n.Sign() == 0 {
			return a
		}
	}
	if sortOf(elem) == "" {
		unsup("append of composite elements")
	}
	m := e.memArr(st, elem)
	src, off, n := e.srcElems(st, b, bt, elem)
	aref, aoff, aln, acap := tt.SRef(a), tt.SOff(a), tt.SLn(a), tt.SCap(a)
	nl := tt.Add(aln, n)
	st.assume(tt.Le(nl, tt.Int(1<<48)))
	fits := tt.Le(nl, acap)
	// grown: a new array holding the old elements followed by the new ones
	r := e.newRef(st)
	grown := e.blit(st, tt.Select(m, aref), tt.Add(aoff, aln), n, src, off)
	m2 := tt.Store(m, r, grown)
	ncap := tt.Var("cap", sInt)
	ncap.lo, ncap.hi = big.NewInt(0), big.NewInt(1<<48)
	st.assume(tt.Le(nl, ncap))
	ng := tt.MkS(r, aoff, nl, ncap)
	if aref.n != nil && aref.n.Sign() == 0 {
		st.heap[memKey(elem)] = m2
		// append(nil, empty...) stays nil
		return tt.MkS(tt.Ite(tt.Eq(nl, tt.Int(0)), tt.Int(0), r), tt.Int(0+0), nl, tt.Ite(tt.Eq(nl, tt.Int(0)), tt.Int(0), ncap)).withOff(tt, aoff)
	}
	if e.valid(st, tt.Not(fits), 500) {
		st.heap[memKey(elem)] = m2
		return ng
	}
	// in place: the array of a is overwritten behind its length
	m3 := tt.Store(m2, aref, tt.Ite(fits, grown, tt.Select(m, aref)))
	st.heap[memKey(elem)] = m3
	return tt.MkS(tt.Ite(fits, aref, r), aoff, nl, tt.Ite(fits, acap, ncap))
}

func (t *Term) withOff(tt *TermTab, off *Term) *Term {
	return tt.MkS(t.args[0], off, t.args[2], t.args[3])
}

func (e *Engine) copyTo(st *State, a, b *Term, at, bt types.Type) *Term {
	tt := e.tt
	elem := under(at).(*types.Slice).Elem()
	if sortOf(elem) == "" {
		unsup("copy of composite elements")
	}
	m := e.memArr(st, elem)
	src, off, n := e.srcElems(st, b, bt, elem)
	aln := tt.SLn(a)
	var k *Term
	switch {
	case n == aln:
		k = n
	case e.valid(st, tt.Le(n, aln), 1000):
		k = n
	case e.valid(st, tt.Le(aln, n), 1000):
		k = aln
	default:
		k = tt.Ite(tt.Le(n, aln), n, aln)
	}
	aref := tt.SRef(a)
	st.heap[memKey(elem)] = tt.Store(m, aref, e.blit(st, tt.Select(m, aref), tt.SOff(a), k, src, off))
	return k
}

// ---------- channels

func (e *Engine) closeChan(st *State, ch *Term, k Cont) []*State {
	e.safe(st, "close-nil", e.tt.Not(e.tt.Eq(ch, e.tt.Int(0))))
	cl := e.getG(st, "G:chclosed", sBool, ch)
	return e.chanHook(st, "close", ch, nil, nil, func(st *State, v Value, ok *Term) []*State {
		e.safe(st, "close-closed", e.tt.Not(cl))
		e.setG(st, "G:chclosed", sBool, ch, e.tt.Bool(true))
		return k(st, nil)
	})
}

func (e *Engine) send(st *State, ch *Term, v Value, t types.Type) []*State {
	e.waitHook(st, []*Term{ch}, true)
	if ct, ok := under(t).(*types.Chan); ok {
		e.chElem = ct.Elem()
	} else {
		e.chElem = t
	}
	return e.sendOn(st, ch, v, func(st *State, _ Value, _ *Term) []*State { return []*State{st} })
}

func (e *Engine) sendOn(st *State, ch *Term, v Value, k func(*State, Value, *Term) []*State) []*State {
	return e.chanHook(st, "send", ch, v, nil, func(st *State, _ Value, _ *Term) []*State {
		cl := e.getG(st, "G:chclosed", sBool, ch)
		if !cl.isFalse() && cl.op != "select" {
			e.safe(st, "send-closed", e.tt.Not(cl))
		} else if cl.op == "select" {
			// closed by someone else: only excluded if this code base never closes it
			if e.fs.ClosableChans {
				e.safe(st, "send-closed", e.tt.Not(cl))
			}
		}
		st.assume(e.tt.Not(e.tt.Eq(ch, e.tt.Int(0)))) // a nil channel blocks forever
		return k(st, nil, nil)
	})
}

func (e *Engine) recv(st *State, ch *Term, elem types.Type, k func(*State, Value, *Term) []*State) []*State {
	st.assume(e.tt.Not(e.tt.Eq(ch, e.tt.Int(0))))
	if ch.op == "app" && ch.name == "ctxchan" {
		e.setG(st, "G:ctxdone", sBool, ch.args[0], e.tt.Bool(true))
		e.chElem = elem
		return e.chanHook(st, "recv", ch, e.zero(st, elem), e.tt.Bool(false), k)
	}
	e.chElem = elem
	if ch.op == "app" && ch.name == "waitch" {
		return e.chanHook(st, "recv", ch, e.zero(st, elem), e.tt.Bool(false), k)
	}
	v := e.freshHi(st, "recv", elem, big.NewInt(st.alloc))
	ok := e.tt.Var("recvok", sBool)
	return e.chanHook(st, "recv", ch, v, ok, k)
}

func (e *Engine) selectStmt(st *State, x *ssa.Select) []*State {
	tt := e.tt
	type cs struct {
		ch   *Term
		send Value
		elem types.Type
		dir  types.ChanDir
	}
	var cases []cs
	var chs []*Term
	for _, s := range x.States {
		c := cs{ch: e.term(e.val(st, s.Chan)), dir: s.Dir, elem: under(s.Chan.Type()).(*types.Chan).Elem()}
		if s.Send != nil {
			c.send = e.val(st, s.Send)
		}
		cases = append(cases, c)
		chs = append(chs, c.ch)
	}
	e.waitHook(st, chs, x.Blocking)
	d := len(st.frames) - 1
	// result tuple: index, recvOk, one value per receive
	mkRes := func(st *State, idx int, ok *Term, v Value) {
		tu := Tuple{tt.Int(int64(idx)), ok}
		for i, c := range cases {
			if c.dir == types.RecvOnly {
				if i == idx {
					tu = append(tu, v)
				} else {
					tu = append(tu, e.zero(st, c.elem))
				}
			}
		}
		st.frames[d].env[x] = tu
	}
	var out []*State
	if !x.Blocking {
		s2 := st.clone()
		for _, c := range cases {
			if c.dir == types.RecvOnly && c.ch.op == "app" && c.ch.name == "ctxchan" {
				// not ready now
				dn := e.getG(s2, "G:ctxdone", sBool, c.ch.args[0])
				s2.assume(tt.Not(dn))
			}
		}
		for _, c := range cases {
			if c.dir == types.RecvOnly && !(c.ch.op == "app" && (c.ch.name == "ctxchan" || c.ch.name == "waitch")) {
				// a closed channel is ready
				s2.assume(tt.Or(tt.Eq(c.ch, tt.Int(0)), tt.Not(e.getG(s2, "G:chclosed", sBool, c.ch))))
			}
		}
		mkRes(s2, -1, tt.Bool(false), nil)
		if !s2.dead && (len(s2.pc) == 0 || e.feasible(s2, s2.pc[len(s2.pc)-1])) {
			out = append(out, e.idleHook(s2, cases2(cases, func(c cs) *Term { return c.ch }))...)
		}
	}
	for i, c := range cases {
		s2 := st.clone()
		i, c := i, c
		nilc := tt.Eq(c.ch, tt.Int(0))
		if nilc.isTrue() {
			continue
		}
		s2.assume(tt.Not(nilc))
		if c.dir == types.RecvOnly {
			out = append(out, e.recv(s2, c.ch, c.elem, func(st *State, v Value, ok *Term) []*State {
				mkRes(st, i, ok, v)
				return []*State{st}
			})...)
		} else {
			e.chElem = c.elem
			out = append(out, e.sendOn(s2, c.ch, c.send, func(st *State, _ Value, _ *Term) []*State {
				mkRes(st, i, tt.Bool(false), nil)
				return []*State{st}
			})...)
		}
	}
	return out
}

func cases2[T any](xs []T, f func(T) *Term) (out []*Term) {
	for _, x := range xs {
		out = append(out, f(x))
	}
	return
}

// idleHook runs the hooks of every channel of a select that took its default case.
func (e *Engine) idleHook(st *State, chs []*Term) []*State {
	if len(chs) == 0 {
		return []*State{st}
	}
	return e.chanHook(st, "idle", chs[0], nil, nil, func(st *State, _ Value, _ *Term) []*State { return e.idleHook(st, chs[1:]) })
}

// ---------- monitors

func (e *Engine) subInfoOf(t *Term) (subInfo, bool) {
	si, ok := e.subOf[t]
	return si, ok
}

func (e *Engine) monitorOf(lock *Term) (*Monitor, *Term) {
	si, ok := e.subInfoOf(lock)
	if !ok {
		return nil, nil
	}
	for _, m := range e.cs.Monitors {
		if m.Lock == si.key {
			return m, si.owner
		}
	}
	return nil, nil
}

const (
	modeR = 1
	modeW = 2
)

func (e *Engine) acquire(st *State, lock *Term, mode int) {
	if st.held[lock] != 0 {
		e.failObl(st, "safety.deadlock", e.safetyProps(), "lock acquired while already held by this goroutine")
	}
	st.held[lock] = mode
	st.lockgn++
	st.prev = st.snap()
	m, owner := e.monitorOf(lock)
	if m != nil {
		e.havocGuarded(st, m, owner)
		for _, inv := range m.Invs {
			st.assume(e.specBool(st, m.env(e, st, owner), inv))
		}
		if !e.ownedLit(owner) {
			for _, r := range m.Relies {
				st.assume(e.specBool(st, m.env(e, st, owner), r))
			}
		}
	}
	st.ghost["$bcast"] = plain(e.tt.Bool(false), tBool)
	st.acq = st.snap()
	e.event(st, "acquire", lock)
}

func (e *Engine) ownedLit(owner *Term) bool { return false }

func (e *Engine) havocGuarded(st *State, m *Monitor, owner *Term) {
	if m.Struct == nil {
		return
	}
	for _, f := range append(append([]string{}, m.Guards...), m.Owns...) {
		fi := fieldIndex(m.Struct, f)
		if fi < 0 {
			continue
		}
		key, fv := e.fieldKey(m.Struct, fi)
		hi := big.NewInt(0)
		if st.lockgn > 1 {
			hi = big.NewInt(st.alloc) // objects of this activation may have been published
		}
		if sortOf(fv.Type()) == "" {
			if _, ok := isStruct(fv.Type()); ok {
				v := e.freshHi(st, f, fv.Type(), hi)
				e.inSpec++
				e.storeField(st, owner, m.Struct, fi, v)
				e.inSpec--
			}
			continue
		}
		v := e.freshHi(st, f, fv.Type(), hi).(*Term)
		fa := e.heapArr(st, key, sortOf(fv.Type()), fv.Type())
		if contains(m.Owns, f) { // set once
			old := e.tt.Select(fa, owner)
			z := e.tt.Eq(old, e.term(e.zero(st, fv.Type())))
			if z.isFalse() || !z.isTrue() && e.valid(st, e.tt.Not(z), 1000) {
				continue
			}
			st.assume(e.tt.Or(z, e.tt.Eq(v, old)))
		}
		st.heap[key] = e.tt.Store(fa, owner, v)
		if sl, ok := under(fv.Type()).(*types.Slice); ok {
			// so do the elements of a guarded slice
			mk := memKey(sl.Elem())
			ma := e.memArr(st, sl.Elem())
			nv := e.tt.Var("E", arr(sortOf(sl.Elem())))
			if holdsRef(sl.Elem()) {
				nv.rhi, nv.eref = hi, isRefType(sl.Elem())
			}
			st.heap[mk] = e.tt.Store(ma, e.tt.SRef(v), nv)
		}
	}
	for _, mt := range m.Maps {
		// the maps reachable from the guarded state change arbitrarily
		if mty, ok := under(mt).(*types.Map); ok {
			d, v, n := e.mapArrs(st, mty)
			dk, vk, nk := mapKeys(mty)
			st.heap[dk] = e.tt.Var("D", d.sort)
			nv := e.tt.Var("V", v.sort)
			nv.rhi, nv.eref = big.NewInt(0), isRefType(mty.Elem())
			if !holdsRef(mty.Elem()) {
				nv.rhi = nil
			}
			st.heap[vk] = nv
			st.heap[nk] = e.tt.Var("N", n.sort)
		}
	}
}

func fieldIndex(t types.Type, name string) int {
	s := under(t).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (e *Engine) release(st *State, lock *Term, mode int) {
	if st.held[lock] != mode {
		e.failObl(st, "safety.unlock", e.safetyProps(), "unlock of a lock that is not held in this mode")
	}
	delete(st.held, lock)
	m, owner := e.monitorOf(lock)
	if m != nil {
		env := m.env(e, st, owner)
		for i, inv := range m.Invs {
			e.oblige(st, "monitor."+m.Name+".inv"+itoa(i), m.Props, e.specBool(st, env, inv))
		}
		for _, f := range m.Owns {
			fi := fieldIndex(m.Struct, f)
			k, fv := e.fieldKey(m.Struct, fi)
			v := e.tt.Select(e.heapArr(st, k, sortOf(fv.Type()), fv.Type()), owner)
			w := v
			if st.acq != nil {
				sv := e.withHeap(st, st.acq)
				w = e.tt.Select(e.heapArr(sv, k, sortOf(fv.Type()), fv.Type()), owner)
			}
			e.oblige(st, "monitor."+m.Name+".setonce."+f, m.LockProps, e.tt.Or(e.tt.Eq(w, e.term(e.zero(st, fv.Type()))), e.tt.Eq(v, w)))
		}
		sv := st.prev
		st.prev = st.acq
		for i, r := range m.Relies {
			e.oblige(st, "monitor."+m.Name+".step"+itoa(i), m.Props, e.specBool(st, env, r))
		}
		for i, c := range m.Steps {
			l := c.label
			if l == "" {
				l = "check" + itoa(i)
			}
			st.prev = st.acq
			props := c.props
			if len(props) == 0 {
				props = m.Props
			}
			e.oblige(st, "monitor."+m.Name+"."+l, props, e.specBool(st, env, c.e))
		}
		st.prev = sv
	}
	st.rel = st.snap()
	e.event(st, "release", lock)
}

// guard checks the lock discipline of a field access.
func (e *Engine) guard(st *State, key string, ref *Term, write bool) {
	if e.inSpec > 0 {
		return
	}
	if ref.n != nil { // an object created by this very activation
		return
	}
	if si, ok := e.subOf[ref]; ok { // a guarded field of struct type
		e.guard(st, "F:"+si.key, si.owner, write)
	}
	for _, m := range e.cs.Monitors {
		if m.Struct == nil {
			continue
		}
		pre := "F:" + m.StructKey + "."
		if !strings.HasPrefix(key, pre) {
			continue
		}
		f := key[len(pre):]
		g, o := contains(m.Guards, f), contains(m.Owns, f)
		if !g && !o {
			continue
		}
		if o && !write && st.held[e.subRef(ref, m.Lock)] == 0 {
			// set-once field read without the lock: it must be known to be set
			fi := fieldIndex(m.Struct, f)
			k, fv := e.fieldKey(m.Struct, fi)
			v := e.tt.Select(e.heapArr(st, k, sortOf(fv.Type()), fv.Type()), ref)
			e.oblige(st, "lock."+m.Name+"."+f, m.LockProps, e.tt.Not(e.tt.Eq(v, e.term(e.zero(st, fv.Type())))))
			continue
		}
		lock := e.subRef(ref, m.Lock)
		if m.LockTop != "" {
			lock = e.subRef(ref, m.Lock)
		}
		h := st.held[lock]
		ok := h == modeW || h == modeR && !write
		if !ok && !write && contains(m.Frozen, f) {
			e.oblige(st, "lock."+m.Name+"."+f, m.LockProps, e.specBool(st, m.env(e, st, ref), m.FrozenIf))
			continue
		}
		if !ok {
			e.failObl(st, "lock."+m.Name+"."+f, m.LockProps, "shared field "+f+" accessed without holding its lock")
		} else {
			e.okObl(st, "lock."+m.Name+"."+f, m.LockProps)
		}
	}
}

// mapLock checks the lock discipline of a map access.
func (e *Engine) mapLock(st *State, m *Term, write bool) {
	for _, mon := range e.cs.Monitors {
		if len(mon.Maps) == 0 || m.n != nil {
			continue
		}
		ok := false
		for l, h := range st.held {
			if mm, _ := e.monitorOf(l); mm == mon && (h == modeW || h == modeR && !write) {
				ok = true
			}
		}
		if e.fs.hasMonitor(mon.Name) {
			if !ok {
				e.failObl(st, "lock."+mon.Name+".map", mon.LockProps, "shared map accessed without holding its lock")
			} else {
				e.okObl(st, "lock."+mon.Name+".map", mon.LockProps)
			}
		}
	}
}

func (e *Engine) okObl(st *State, label string, props []string) {
	e.oblige(st, label, props, e.tt.Bool(true))
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

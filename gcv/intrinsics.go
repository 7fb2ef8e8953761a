package main

// Models of library functions (part of the trusted base; every one that was
// used in a run is listed in the evidence).

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(e *Engine, st *State, c *Call) []*State

var intrinsics map[string]intrinsic

var tErr = types.Universe.Lookup("error").Type()
var tBytes = types.NewSlice(types.Typ[types.Uint8])

func (e *Engine) newErr(st *State, text *Term) *Term {
	r := e.newRef(st)
	v := e.tt.MkI(e.pseudoTag("*error object"), r)
	if text != nil {
		st.assume(e.tt.Eq(e.errText(v), text))
	}
	return v
}

// hasPrefix: s starts with p.
func (e *Engine) hasPrefix(s, p *Term) *Term {
	tt := e.tt
	if p.op == "strc" && s.op == "strc" {
		return tt.Bool(strings.HasPrefix(s.name, p.name))
	}
	return tt.And(tt.Le(tt.SLen(p), tt.SLen(s)), tt.Eq(e.substr(s, tt.Int(0), tt.SLen(p)), p))
}

// ---- contexts

func (e *Engine) ctxArrs(st *State) {
	e.heapArr(st, "G:ctxdone", sBool, nil)
}

func (e *Engine) newCtx(st *State, parent *Term, dl bool) (*Term, *Term) {
	r := e.newRef(st)
	ctx := e.tt.MkI(e.pseudoTag("*context.cancelCtx"), r)
	e.setG(st, "G:ctxdone", sBool, r, e.tt.Bool(false))
	e.setG(st, "G:ctxparent", sIface, r, parent)
	d := e.tt.Bool(dl)
	if !dl {
		d = e.getG(st, "G:ctxdl", sBool, e.tt.IVal(parent))
	}
	e.setG(st, "G:ctxdl", sBool, r, d)
	cancel := e.closure(st, &Closure{builtin: "cancel", data: []Value{r}})
	st.assume(e.tt.Eq(cancel, e.tt.App("cancelfn", sInt, r)))
	return ctx, cancel
}

// ---- bytes.Buffer

func (e *Engine) initBuffer(st *State, r *Term) {
	z := e.tt.Int(0)
	e.bufArr(st)
	e.setG(st, "G:bufr", sInt, r, z)
	e.setG(st, "G:bufw", sInt, r, z)
	m := e.newRef(st)
	e.setMemZero(st, types.Typ[types.Uint8], m)
	e.setG(st, "G:bufmem", sInt, r, m)
	e.setG(st, "G:u.gb.bufdead", sBool, m, e.tt.Bool(false))
}

func (e *Engine) bufArr(st *State) {
	if e.heap0["G:bufmem"] == nil {
		a := e.tt.Const("H0.G:bufmem", arr(sInt))
		a.rhi, a.eref = big.NewInt(0), true
		e.heap0["G:bufmem"] = a
		e.keyType["G:bufmem"] = types.NewPointer(types.Typ[types.Uint8])
	}
	if st.heap["G:bufmem"] == nil {
		st.heap["G:bufmem"] = e.heap0["G:bufmem"]
	}
}

func (e *Engine) bufState(st *State, r *Term) (br, bw, mem *Term) {
	e.bufArr(st)
	br, bw = e.getG(st, "G:bufr", sInt, r), e.getG(st, "G:bufw", sInt, r)
	mem = e.getG(st, "G:bufmem", sInt, r)
	st.assume(e.tt.Le(e.tt.Int(0), br))
	st.assume(e.tt.Le(br, bw))
	st.assume(e.tt.Le(e.tt.Sub(bw, br), e.tt.Int(1<<48)))
	st.assume(e.tt.Not(e.tt.Eq(mem, e.tt.Int(0))))
	return
}

func (e *Engine) bufAppend(st *State, r, s *Term) {
	tt := e.tt
	_, bw, mem := e.bufState(st, r)
	m := e.memArr(st, types.Typ[types.Uint8])
	src, off, n := e.srcElems(st, s, nil, types.Typ[types.Uint8])
	nr := e.newRef(st)
	st.heap[memKey(types.Typ[types.Uint8])] = tt.Store(m, nr, e.blit(st, tt.Select(m, mem), bw, n, src, off))
	e.setG(st, "G:u.gb.bufdead", sBool, mem, tt.Bool(true))
	e.setG(st, "G:u.gb.bufdead", sBool, nr, tt.Bool(false))
	e.setG(st, "G:bufmem", sInt, r, nr)
	e.setG(st, "G:bufw", sInt, r, tt.Add(bw, n))
}

// fork splits the state on a condition.
func (e *Engine) fork(st *State, c *Term, yes, no func(st *State) []*State) []*State {
	if c.isTrue() {
		return yes(st)
	}
	if c.isFalse() {
		return no(st)
	}
	ft, ff := e.feasible(st, c), e.feasible(st, e.tt.Not(c))
	switch {
	case ft && ff:
		s2 := st.clone()
		s2.assume(e.tt.Not(c))
		st.assume(c)
		return append(yes(st), no(s2)...)
	case ft:
		st.assume(c)
		return yes(st)
	case ff:
		st.assume(e.tt.Not(c))
		return no(st)
	}
	return nil
}

func (e *Engine) builtClosure(st *State, c *Call) []*State {
	if h := e.findHook(st, c); h != nil {
		e.inHookBuiltin(st, h)
	}
	switch c.built {
	case "cancel":
		e.setG(st, "G:ctxdone", sBool, e.term(c.data[0]), e.tt.Bool(true))
		return c.k(st, nil)
	case "broadcast":
		lock := e.term(c.data[0])
		if st.held[lock] == 0 {
			e.failObl(st, "safety.broadcast", e.safetyProps(), "broadcast called without holding its lock")
		}
		st.ghost["$bcast"] = plain(e.tt.Bool(true), tBool)
		return c.k(st, nil)
	case "getWaitCh":
		lock := e.term(c.data[0])
		if st.held[lock] == 0 {
			e.failObl(st, "safety.broadcast", e.safetyProps(), "getWaitCh called without holding its lock")
		}
		w := e.tt.App("waitch", sInt, lock, e.tt.Int(st.lockgn))
		st.nonnil[w] = true
		st.assume(e.tt.Lt(e.tt.Int(0), w))
		return c.k(st, w)
	}
	unsup("builtin closure %s", c.built)
	return nil
}

func (e *Engine) inHookBuiltin(st *State, h *Hook) {
	if len(h.body) > 0 {
		e.sync(st, e.fenv(st), h.body)
	}
}

func ret0(v Value) intrinsic {
	return func(e *Engine, st *State, c *Call) []*State { return c.k(st, v) }
}

func freshRes(e *Engine, st *State, c *Call) []*State {
	if c.rtype == nil {
		return c.k(st, nil)
	}
	return c.k(st, e.fresh(st, "ext", c.rtype))
}

func atomicKey(c *Call) (string, types.Type) {
	// (*sync/atomic.Bool).Load
	n := c.fn.String()
	switch {
	case strings.Contains(n, "atomic.Bool)"):
		return "G:atomicBool", types.Typ[types.Bool]
	case strings.Contains(n, "atomic.Int32)"):
		return "G:atomicInt32", types.Typ[types.Int32]
	case strings.Contains(n, "atomic.Int64)"):
		return "G:atomicInt64", types.Typ[types.Int64]
	case strings.Contains(n, "atomic.Uint32)"):
		return "G:atomicUint32", types.Typ[types.Uint32]
	}
	unsup("atomic %s", n)
	return "", nil
}

func init() {
	I := map[string]intrinsic{}
	intrinsics = I

	// contexts
	I["context.WithCancel"] = func(e *Engine, st *State, c *Call) []*State {
		parent := e.term(c.args[0])
		e.safe(st, "nil-ctx", e.tt.Not(e.tt.Eq(e.tt.ITag(parent), e.tt.Int(0))))
		ctx, cancel := e.newCtx(st, parent, false)
		return c.k(st, Tuple{ctx, cancel})
	}
	wd := func(e *Engine, st *State, c *Call) []*State {
		parent := e.term(c.args[0])
		e.safe(st, "nil-ctx", e.tt.Not(e.tt.Eq(e.tt.ITag(parent), e.tt.Int(0))))
		ctx, cancel := e.newCtx(st, parent, true)
		return c.k(st, Tuple{ctx, cancel})
	}
	I["context.WithDeadline"], I["context.WithTimeout"] = wd, wd
	bg := func(e *Engine, st *State, c *Call) []*State {
		n, ok := e.globLit["ctx.background"]
		if !ok {
			e.nextClo++
			n = -e.nextClo
			e.globLit["ctx.background"] = n
		}
		return c.k(st, e.tt.MkI(e.pseudoTag("context.backgroundCtx"), e.tt.Int(n)))
	}
	I["context.Background"], I["context.TODO"] = bg, bg
	I["iface:context.Context.Done"] = func(e *Engine, st *State, c *Call) []*State {
		ch := e.tt.App("ctxchan", sInt, e.tt.IVal(e.term(c.args[0])))
		st.assume(e.tt.Not(e.tt.Eq(ch, e.tt.Int(0))))
		return c.k(st, ch)
	}
	I["iface:context.Context.Err"] = func(e *Engine, st *State, c *Call) []*State {
		tt := e.tt
		cv := tt.IVal(e.term(c.args[0]))
		dn := e.getG(st, "G:ctxdone", sBool, cv)
		err := tt.Var("ctxerr", sIface)
		err.rhi = big.NewInt(0)
		var out []*State
		if e.feasible(st, tt.Not(dn)) {
			s2 := st.clone()
			s2.assume(tt.Not(dn))
			out = append(out, c.k(s2, tt.NilI())...)
		}
		// cancelled
		st.assume(tt.Not(tt.Eq(tt.ITag(err), tt.Int(0))))
		can := e.globalByName(st, "context", "Canceled")
		dle := e.globalByName(st, "context", "DeadlineExceeded")
		hd := e.getG(st, "G:ctxdl", sBool, cv)
		if can != nil && dle != nil {
			st.assume(tt.Or(tt.Eq(err, can), tt.And(hd, tt.Eq(err, dle))))
		}
		e.setG(st, "G:ctxdone", sBool, cv, tt.Bool(true))
		if !st.dead {
			out = append(out, c.k(st, err)...)
		}
		return out
	}

	// bits.Len64: the number of bits, by comparison with the powers of two
	I["math/bits.Len64"] = func(e *Engine, st *State, c *Call) []*State {
		x := e.term(c.args[0])
		r := e.tt.Int(64)
		for k := 63; k >= 0; k-- {
			r = e.tt.Ite(e.tt.Lt(x, e.tt.IntB(pow2(uint(k)))), e.tt.Int(int64(k)), r)
		}
		return c.k(st, r)
	}

	// errors
	newE := func(e *Engine, st *State, c *Call) []*State {
		return c.k(st, e.newErr(st, e.term(c.args[0])))
	}
	I["errors.New"], I["github.com/pkg/errors.New"] = newE, newE
	anyE := func(e *Engine, st *State, c *Call) []*State { return c.k(st, e.newErr(st, nil)) }
	I["github.com/pkg/errors.Errorf"], I["fmt.Errorf"] = anyE, anyE
	wrap := func(known bool) intrinsic {
		return func(e *Engine, st *State, c *Call) []*State {
			tt := e.tt
			err := e.term(c.args[0])
			return e.fork(st, tt.Eq(tt.ITag(err), tt.Int(0)), func(st *State) []*State {
				return c.k(st, tt.NilI())
			}, func(st *State) []*State {
				var text *Term
				if known {
					text = e.concat(e.concat(e.term(c.args[1]), tt.Str(": ")), e.errText(err))
				}
				v := e.newErr(st, text)
				e.setG(st, "G:u.gx.cause", sIface, tt.IVal(v), err)
				return c.k(st, v)
			})
		}
	}
	I["github.com/pkg/errors.Wrap"] = wrap(true)
	I["github.com/pkg/errors.WithMessage"] = wrap(true)
	I["github.com/pkg/errors.Wrapf"] = wrap(false)
	I["github.com/pkg/errors.WithMessagef"] = wrap(false)
	is := func(e *Engine, st *State, c *Call) []*State {
		tt := e.tt
		a, b := e.term(c.args[0]), e.term(c.args[1])
		if a.op == "mkI" && a.args[0].n != nil && a.args[0].n.Sign() == 0 {
			return c.k(st, tt.Eq(a, b))
		}
		r := tt.App("errors.is", sBool, a, b)
		st.assume(tt.Imp(tt.Eq(a, b), r))
		st.assume(tt.Imp(tt.Eq(tt.ITag(a), tt.Int(0)), tt.Eq(r, tt.Eq(a, b))))
		cause := e.getG(st, "G:u.gx.cause", sIface, tt.IVal(a))
		if a.op == "mkI" && a.args[0] == e.pseudoTag("*error object") {
			st.assume(tt.Imp(tt.And(r, tt.Not(tt.Eq(a, b))), tt.App("errors.is", sBool, cause, b)))
		}
		return c.k(st, r)
	}
	I["errors.Is"], I["github.com/pkg/errors.Is"] = is, is
	I["iface:error.Error"] = func(e *Engine, st *State, c *Call) []*State {
		return c.k(st, e.errText(e.term(c.args[0])))
	}

	// formatting, logging, time: no effect on the modelled state
	for _, n := range []string{"fmt.Sprintf", "fmt.Sprint", "strconv.Itoa", "time.Now", "time.Since", "time.After", "time.Until",
		"(time.Time).Add", "(time.Time).Sub", "(time.Time).Before", "(time.Time).After", "(time.Duration).String", "(time.Time).String",
		"(*github.com/sirupsen/logrus.Entry).Debugf", "(*github.com/sirupsen/logrus.Entry).Debug", "(*github.com/sirupsen/logrus.Entry).Warnf", "(*github.com/sirupsen/logrus.Entry).Errorf", "(*github.com/sirupsen/logrus.Entry).Infof"} {
		I[n] = freshRes
	}
	I["(time.Time).IsZero"] = func(e *Engine, st *State, c *Call) []*State {
		sv := c.args[0].(*StructV)
		var as []*Term
		for _, f := range sv.fields {
			as = append(as, e.term(f))
		}
		return c.k(st, e.tt.App("time.iszero", sBool, as...))
	}

	// locks
	lock := func(mode int, rel bool) intrinsic {
		return func(e *Engine, st *State, c *Call) []*State {
			l := e.term(c.args[0])
			e.nonNil(st, l, "lock")
			if rel {
				e.release(st, l, mode)
			} else {
				e.acquire(st, l, mode)
			}
			return c.k(st, nil)
		}
	}
	I["(*sync.Mutex).Lock"], I["(*sync.Mutex).Unlock"] = lock(modeW, false), lock(modeW, true)
	I["(*sync.RWMutex).Lock"], I["(*sync.RWMutex).Unlock"] = lock(modeW, false), lock(modeW, true)
	I["(*sync.RWMutex).RLock"], I["(*sync.RWMutex).RUnlock"] = lock(modeR, false), lock(modeR, true)
	I["(*sync.Once).Do"] = func(e *Engine, st *State, c *Call) []*State {
		r := e.term(c.args[0])
		d := e.getG(st, "G:once", sBool, r)
		return e.fork(st, d, func(st *State) []*State { return c.k(st, nil) }, func(st *State) []*State {
			e.setG(st, "G:once", sBool, r, e.tt.Bool(true))
			return e.callValue(st, e.term(c.args[1]), c.sig.Params().At(0).Type().Underlying().(*types.Signature), nil, func(st *State, _ Value) []*State { return c.k(st, nil) })
		})
	}
	// atomics: another goroutine may change the cell at any time
	for _, ty := range []string{"Bool", "Int32", "Int64", "Uint32"} {
		p := "(*sync/atomic." + ty + ")."
		I[p+"Load"] = freshRes
		I[p+"Add"] = freshRes
		I[p+"Swap"] = freshRes
		I[p+"CompareAndSwap"] = freshRes
		I[p+"Store"] = freshRes
	}

	// broadcast
	bp := "(*broadcast.Broadcast)."
	I[bp+"HoldLock"] = func(e *Engine, st *State, c *Call) []*State {
		l := e.term(c.args[0])
		e.nonNil(st, l, "lock")
		e.acquire(st, l, modeW)
		b := e.closure(st, &Closure{builtin: "broadcast", data: []Value{l}})
		g := e.closure(st, &Closure{builtin: "getWaitCh", data: []Value{l}})
		sig := under(c.atyp[1]).(*types.Signature)
		return e.callValue(st, e.term(c.args[1]), sig, []Value{b, g}, func(st *State, _ Value) []*State {
			e.release(st, l, modeW)
			return c.k(st, nil)
		})
	}

	// bytes.Buffer
	bb := "(*bytes.Buffer)."
	I[bb+"Len"] = func(e *Engine, st *State, c *Call) []*State {
		br, bw, _ := e.bufState(st, e.term(c.args[0]))
		return c.k(st, e.tt.Sub(bw, br))
	}
	I[bb+"Bytes"] = func(e *Engine, st *State, c *Call) []*State {
		br, bw, m := e.bufState(st, e.term(c.args[0]))
		n := e.tt.Sub(bw, br)
		return c.k(st, e.tt.MkS(m, br, n, n))
	}
	I[bb+"Reset"] = func(e *Engine, st *State, c *Call) []*State {
		r := e.term(c.args[0])
		_, bw, _ := e.bufState(st, r)
		e.setG(st, "G:bufr", sInt, r, bw)
		return c.k(st, nil)
	}
	I[bb+"Write"] = func(e *Engine, st *State, c *Call) []*State {
		s := e.term(c.args[1])
		e.bufAppend(st, e.term(c.args[0]), s)
		return c.k(st, Tuple{e.tt.SLn(s), e.tt.NilI()})
	}
	I[bb+"WriteString"] = func(e *Engine, st *State, c *Call) []*State {
		s := e.term(c.args[1])
		e.bufAppend(st, e.term(c.args[0]), s)
		return c.k(st, Tuple{e.tt.SLen(s), e.tt.NilI()})
	}
	I[bb+"Grow"] = ret0(nil)
	I[bb+"Next"] = func(e *Engine, st *State, c *Call) []*State {
		tt := e.tt
		r, n := e.term(c.args[0]), e.term(c.args[1])
		e.safe(st, "next", tt.Le(tt.Int(0), n))
		br, bw, m := e.bufState(st, r)
		have := tt.Sub(bw, br)
		k := n
		if !e.valid(st, tt.Le(n, have), 1000) {
			k = tt.Ite(tt.Le(n, have), n, have)
		}
		e.setG(st, "G:bufr", sInt, r, tt.Add(br, k))
		return c.k(st, tt.MkS(m, br, k, tt.Sub(bw, br)))
	}
	I[bb+"Truncate"] = func(e *Engine, st *State, c *Call) []*State {
		tt := e.tt
		r, n := e.term(c.args[0]), e.term(c.args[1])
		br, bw, _ := e.bufState(st, r)
		e.safe(st, "truncate", tt.And(tt.Le(tt.Int(0), n), tt.Le(n, tt.Sub(bw, br))))
		e.setG(st, "G:bufw", sInt, r, tt.Add(br, n))
		return c.k(st, nil)
	}
	I[bb+"Read"] = func(e *Engine, st *State, c *Call) []*State {
		tt := e.tt
		r, p := e.term(c.args[0]), e.term(c.args[1])
		br, bw, m := e.bufState(st, r)
		return e.fork(st, tt.Eq(br, bw), func(st *State) []*State {
			eof := e.globalByName(st, "io", "EOF")
			return c.k(st, Tuple{tt.Int(0), tt.Ite(tt.Eq(tt.SLn(p), tt.Int(0)), tt.NilI(), eof)})
		}, func(st *State) []*State {
			have := tt.Sub(bw, br)
			n := e.copyTo(st, p, tt.MkS(m, br, have, have), tBytes, tBytes)
			e.setG(st, "G:bufr", sInt, r, tt.Add(br, n))
			return c.k(st, Tuple{n, tt.NilI()})
		})
	}

	// little endian
	le := "(encoding/binary.littleEndian)."
	I[le+"PutUint32"] = func(e *Engine, st *State, c *Call) []*State {
		tt := e.tt
		b, v := e.term(c.args[1]), e.term(c.args[2])
		e.safe(st, "index", tt.Le(tt.Int(4), tt.SLn(b)))
		u8 := types.Typ[types.Uint8]
		m := e.memArr(st, u8)
		a := tt.Select(m, tt.SRef(b))
		// the four bytes are introduced by their defining equation
		var by [4]*Term
		if v.n != nil {
			for i := range by {
				by[i] = tt.Mod(tt.Div(v, tt.IntB(pow2(uint(8*i)))), tt.Int(256))
			}
		} else {
			sum := tt.Int(0)
			for i := range by {
				by[i] = tt.Var("le", sInt)
				e.typed(by[i], u8)
				sum = tt.Add(sum, tt.Mul(tt.IntB(pow2(uint(8*i))), by[i]))
			}
			st.assume(tt.Eq(sum, v))
		}
		for i := range by {
			a = tt.Store(a, tt.Add(tt.SOff(b), tt.Int(int64(i))), by[i])
		}
		st.heap[memKey(u8)] = tt.Store(m, tt.SRef(b), a)
		return c.k(st, nil)
	}
	I[le+"Uint32"] = func(e *Engine, st *State, c *Call) []*State {
		tt := e.tt
		b := e.term(c.args[1])
		e.safe(st, "index", tt.Le(tt.Int(4), tt.SLn(b)))
		u8 := types.Typ[types.Uint8]
		var sum *Term = tt.Int(0)
		for i := int64(0); i < 4; i++ {
			v := e.term(e.loadElem(st, tt.SRef(b), tt.Add(tt.SOff(b), tt.Int(i)), u8))
			sum = tt.Add(sum, tt.Mul(tt.IntB(pow2(uint(8*i))), v))
		}
		return c.k(st, sum)
	}
	I["bytes.Equal"] = func(e *Engine, st *State, c *Call) []*State {
		a := e.content(st, nil, plain(c.args[0], tBytes)).v.(Tuple)
		b := e.content(st, nil, plain(c.args[1], tBytes)).v.(Tuple)
		return c.k(st, e.contEq(a, b))
	}
}

func (e *Engine) globalByName(st *State, pkg, name string) *Term {
	p := e.ld.pkgs[pkg]
	if p == nil {
		return nil
	}
	g, ok := p.Members[name].(*ssa.Global)
	if !ok {
		return nil
	}
	return e.term(e.global(st, g))
}

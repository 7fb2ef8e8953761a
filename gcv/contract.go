package main

// Evaluation of contract expressions and execution of contract hooks.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SV is a contract-level value.
type SV struct {
	v Value
	t types.Type
	k string // "" plain, "nil", "content", "bytes" (byte array ghost)
}

type Env struct {
	vars map[string]SV
	up   *Env
}

func (n *Env) get(s string) (SV, bool) {
	for x := n; x != nil; x = x.up {
		if v, ok := x.vars[s]; ok {
			return v, true
		}
	}
	return SV{}, false
}

func (n *Env) with(kv map[string]SV) *Env { return &Env{vars: kv, up: n} }

type SpecCtx struct {
	env   *Env // parameters and lets
	entry *Snapshot
	fs    *FuncSpec
	base  int64 // references above it are fresh
}

type locals struct{}

type Monitor struct {
	Name      string
	Lock      string
	LockTop   string
	Struct    types.Type
	StructKey string
	Guards    []string
	Owns      []string
	Frozen    []string // readable without the lock where FrozenIf holds
	FrozenIf  *Expr
	mapNames  []string
	Maps      []types.Type
	Invs      []*Expr
	Relies    []*Expr
	Steps     []Clause
	Props     []string
	LockProps []string
	Applies   []string
}

func (m *Monitor) env(e *Engine, st *State, owner *Term) *Env {
	return (&Env{}).with(map[string]SV{"self": {v: owner, t: types.NewPointer(m.Struct)}})
}

func (m *Monitor) resolve(ld *Loader) error {
	t, err := ld.lookupType(m.StructKey)
	if err != nil {
		return fmt.Errorf("monitor %s: %w", m.Name, err)
	}
	m.Struct = t
	m.StructKey = typeKey(t)
	for _, n := range m.mapNames {
		if fi := fieldIndex(t, n); fi >= 0 {
			m.Maps = append(m.Maps, under(t).(*types.Struct).Field(fi).Type())
			continue
		}
		mt, err := ld.lookupType(n)
		if err != nil {
			return fmt.Errorf("monitor %s: %w", m.Name, err)
		}
		m.Maps = append(m.Maps, mt)
	}
	return nil
}

func itoa(i int) string { return strconv.Itoa(i) }

type specErr struct{ msg string }

func (s specErr) Error() string { return s.msg }

func (e *Engine) sfail(x *Expr, f string, a ...any) {
	panic(specErr{fmt.Sprintf("%s: contract line %d: %s", e.fs.File, x.line, fmt.Sprintf(f, a...))})
}

func plain(v Value, t types.Type) SV { return SV{v: v, t: t} }

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tString = types.Typ[types.String]

func (e *Engine) withHeap(st *State, s *Snapshot) *State {
	n := *st
	n.heap = s.heap
	n.ghost = s.ghost
	return &n
}

func (e *Engine) specBool(st *State, env *Env, x *Expr) *Term {
	e.inSpec++
	defer func() { e.inSpec-- }()
	v := e.ev(st, env, x)
	t, ok := v.v.(*Term)
	if !ok || t.sort != sBool {
		e.sfail(x, "not a boolean")
	}
	return t
}

func (e *Engine) specVal(st *State, env *Env, x *Expr) SV {
	e.inSpec++
	defer func() { e.inSpec-- }()
	return e.ev(st, env, x)
}

func (e *Engine) evT(st *State, env *Env, x *Expr) *Term {
	v := e.ev(st, env, x)
	if v.k == "nil" {
		return e.tt.Int(0)
	}
	t, ok := v.v.(*Term)
	if !ok {
		if _, isA := v.v.(*Addr); isA {
			return e.term(v.v)
		}
		e.sfail(x, "not a scalar")
	}
	return t
}

func (e *Engine) pkgGlobal(st *State, x *Expr, pkg, name string) (SV, bool) {
	for _, path := range []string{modPath + "/" + pkg, pkg} {
		p := e.ld.pkgs[path]
		if p == nil {
			continue
		}
		switch m := p.Members[name].(type) {
		case *ssa.Global:
			t := m.Type().Underlying().(*types.Pointer).Elem()
			return plain(e.global(st, m), t), true
		case *ssa.NamedConst:
			return plain(e.constVal(m.Value.Value, m.Type()), m.Type()), true
		case *ssa.Function:
			return plain(e.fnValue(m), m.Type()), true
		}
		if o := p.Pkg.Scope().Lookup(name); o != nil {
			if c, ok := o.(*types.Const); ok {
				return plain(e.constVal(c.Val(), c.Type()), c.Type()), true
			}
		}
	}
	return SV{}, false
}

var _ = constant.Bool

func (e *Engine) ev(st *State, env *Env, x *Expr) SV {
	tt := e.tt
	switch x.op {
	case "int":
		return plain(tt.IntB(x.n), tInt)
	case "str":
		return plain(tt.Str(x.s), tString)
	case "true", "false":
		return plain(tt.Bool(x.op == "true"), tBool)
	case "nil":
		return SV{k: "nil"}
	case "meta":
		if v, ok := env.get(x.s); ok {
			return v
		}
		if v, ok := st.ghost[x.s]; ok {
			return v
		}
		e.sfail(x, "unbound %s", x.s)
	case "id":
		if v, ok := env.get(x.s); ok {
			return v
		}
		if v, ok := st.ghost[x.s]; ok {
			return v
		}
		if e.fs != nil && st.spec != nil {
			if v, ok := st.spec.env.get(x.s); ok {
				return v
			}
		}
		if x.s == "inthread" { // in the body of a goroutine started by the function
			return plain(tt.Bool(st.thread), tBool)
		}
		// a package-level name of the function's own package
		if e.curPkg != "" {
			if v, ok := e.pkgGlobal(st, x, e.curPkg, x.s); ok {
				return v
			}
		}
		e.sfail(x, "unknown name %s", x.s)
	case "field":
		if id := x.args[0]; id.op == "id" {
			_, bound := env.get(id.s)
			if !bound && st.spec != nil {
				_, bound = st.spec.env.get(id.s)
			}
			if _, g := st.ghost[id.s]; !bound && !g {
				if v, ok := e.pkgGlobal(st, x, id.s, x.s); ok {
					return v
				}
			}
		}
		return e.selField(st, x, e.ev(st, env, x.args[0]), x.s)
	case "index":
		b := e.ev(st, env, x.args[0])
		return e.selIndex(st, x, b, e.ev(st, env, x.args[1]))
	case "slice":
		b := e.ev(st, env, x.args[0])
		var lo, hi *Term
		if x.args[1] != nil {
			lo = e.evT(st, env, x.args[1])
		} else {
			lo = tt.Int(0)
		}
		if x.args[2] != nil {
			hi = e.evT(st, env, x.args[2])
		}
		if b.k == "content" {
			tu := b.v.(Tuple)
			if hi == nil {
				hi = tu[2].(*Term)
			}
			return SV{k: "content", v: Tuple{tu[0], tt.Add(tu[1].(*Term), lo), tt.Sub(hi, lo)}}
		}
		t := e.term(b.v)
		if t.sort == sStr {
			if hi == nil {
				hi = tt.SLen(t)
			}
			return plain(e.substr(t, lo, hi), b.t)
		}
		if t.sort == sSlice {
			if hi == nil {
				hi = tt.SLn(t)
			}
			return plain(e.reslice(t, lo, hi, tt.SCap(t)), b.t)
		}
		e.sfail(x, "cannot slice")
	case "un":
		v := e.evT(st, env, x.args[0])
		if x.s == "!" {
			return plain(tt.Not(v), tBool)
		}
		return plain(tt.Neg(v), tInt)
	case "bin":
		return e.evBin(st, env, x)
	case "forall", "exists":
		m := map[string]SV{}
		var bvs []*Term
		for i, n := range x.bv {
			srt, ty := sInt, types.Type(tInt)
			switch x.bt[i] {
			case "string":
				srt, ty = sStr, tString
			case "bool":
				srt, ty = sBool, tBool
			}
			b := tt.BoundVar(n, srt)
			bvs = append(bvs, b)
			m[n] = plain(b, ty)
		}
		body := e.evT(st, env.with(m), x.args[0])
		if x.op == "exists" {
			return plain(tt.Not(tt.Forall(bvs, tt.Not(body))), tBool)
		}
		return plain(tt.Forall(bvs, body), tBool)
	case "call":
		return e.evCall(st, env, x)
	}
	e.sfail(x, "cannot evaluate %s", x.op)
	return SV{}
}

func (e *Engine) selField(st *State, x *Expr, b SV, name string) SV {
	if b.t == nil {
		e.sfail(x, "field %s of untyped value", name)
	}
	var stt types.Type
	isPtr := false
	switch u := under(b.t).(type) {
	case *types.Pointer:
		stt, isPtr = u.Elem(), true
	case *types.Struct:
		stt = b.t
	default:
		e.sfail(x, "field %s of %s", name, b.t)
	}
	s, ok := under(stt).(*types.Struct)
	if !ok {
		e.sfail(x, "field %s of %s", name, b.t)
	}
	fi := fieldIndex(stt, name)
	if fi < 0 {
		// promoted through embedded structs
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if !f.Embedded() {
				continue
			}
			if _, ok := isStruct(f.Type()); ok && fieldIndexDeep(f.Type(), name) {
				return e.selField(st, x, e.selField(st, x, b, f.Name()), name)
			}
		}
		e.sfail(x, "no field %s in %s", name, typeKey(stt))
	}
	f := s.Field(fi)
	if !isPtr {
		sv, ok := b.v.(*StructV)
		if !ok {
			e.sfail(x, "field of %T", b.v)
		}
		return plain(sv.fields[fi], f.Type())
	}
	key, _ := e.fieldKey(stt, fi)
	ref := e.term(b.v)
	if sortOf(f.Type()) == "" {
		return plain(e.subRef(ref, strings.TrimPrefix(key, "F:")), types.NewPointer(f.Type()))
	}
	return plain(e.loadField(st, ref, stt, fi), f.Type())
}

func fieldIndexDeep(t types.Type, name string) bool {
	s, ok := isStruct(t)
	if !ok {
		return false
	}
	if fieldIndex(t, name) >= 0 {
		return true
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() && fieldIndexDeep(s.Field(i).Type(), name) {
			return true
		}
	}
	return false
}

func (e *Engine) selIndex(st *State, x *Expr, b, i SV) SV {
	tt := e.tt
	if b.k == "content" {
		tu := b.v.(Tuple)
		return plain(e.contAt(tu, e.term(i.v)), types.Typ[types.Uint8])
	}
	if b.k == "bytes" {
		v := tt.Select(e.term(b.v), e.term(i.v))
		return plain(e.typed(v, types.Typ[types.Uint8]), types.Typ[types.Uint8])
	}
	t := e.term(b.v)
	switch {
	case t.sort == sStr:
		return plain(tt.SAt(t, e.term(i.v)), types.Typ[types.Uint8])
	case strings.HasPrefix(t.sort, "(Array"):
		return plain(tt.Select(t, e.term(i.v)), b.t)
	}
	if b.t != nil {
		switch u := under(b.t).(type) {
		case *types.Slice:
			idx := tt.Add(tt.SOff(t), e.term(i.v))
			if sortOf(u.Elem()) == "" {
				return plain(e.elemRef(tt.SRef(t), idx, u.Elem()), types.NewPointer(u.Elem()))
			}
			return plain(e.loadElem(st, tt.SRef(t), idx, u.Elem()), u.Elem())
		case *types.Map:
			v, _ := e.mapGet(st, t, u, e.term(i.v))
			return plain(v, u.Elem())
		}
	}
	e.sfail(x, "cannot index")
	return SV{}
}

func (e *Engine) contAt(tu Tuple, i *Term) *Term {
	src := tu[0].(*Term)
	off := tu[1].(*Term)
	if src.sort == sStr {
		return e.tt.SAt(src, e.tt.Add(off, i))
	}
	return e.typed(e.tt.Select(src, e.tt.Add(off, i)), types.Typ[types.Uint8])
}

func (e *Engine) contEq(a, b Tuple) *Term {
	tt := e.tt
	if a[0] == b[0] && a[1] == b[1] && a[2] == b[2] {
		return tt.Bool(true)
	}
	i := tt.BoundVar("i", sInt)
	in := tt.And(tt.Le(tt.Int(0), i), tt.Lt(i, a[2].(*Term)))
	return tt.And(tt.Eq(a[2].(*Term), b[2].(*Term)), tt.Forall([]*Term{i}, tt.Imp(in, tt.Eq(e.contAt(a, i), e.contAt(b, i)))))
}

func (e *Engine) content(st *State, x *Expr, v SV) SV {
	tt := e.tt
	if v.k == "content" {
		return v
	}
	t := e.term(v.v)
	if t.sort == sStr {
		return SV{k: "content", v: Tuple{t, tt.Int(0), tt.SLen(t)}}
	}
	if t.sort != sSlice || v.t == nil {
		e.sfail(x, "content of %s", t.sort)
	}
	el := under(v.t).(*types.Slice).Elem()
	a := tt.Select(e.memArr(st, el), tt.SRef(t))
	return SV{k: "content", v: Tuple{a, tt.SOff(t), tt.SLn(t)}}
}

func (e *Engine) svEq(st *State, x *Expr, a, b SV) *Term {
	tt := e.tt
	if a.k == "nil" {
		a, b = b, a
	}
	if b.k == "nil" {
		if a.k == "nil" {
			return tt.Bool(true)
		}
		t := e.term(a.v)
		switch t.sort {
		case sIface:
			return tt.Eq(tt.ITag(t), tt.Int(0))
		case sSlice:
			return tt.Eq(tt.SRef(t), tt.Int(0))
		}
		return tt.Eq(t, tt.Int(0))
	}
	if a.k == "content" || b.k == "content" {
		return e.contEq(e.content(st, x, a).v.(Tuple), e.content(st, x, b).v.(Tuple))
	}
	// interface against a concrete value
	ta, oka := a.v.(*Term)
	tb, okb := b.v.(*Term)
	if oka && okb && ta.sort != tb.sort {
		if tb.sort == sIface {
			a, b, ta, tb = b, a, tb, ta
		}
		if ta.sort == sIface && b.t != nil && isRefType(b.t) {
			return tt.Eq(tt.IVal(ta), tb)
		}
		e.sfail(x, "cannot compare %s with %s", ta.sort, tb.sort)
	}
	return e.valEq(st, a.v, b.v)
}

func (e *Engine) evBin(st *State, env *Env, x *Expr) SV {
	tt := e.tt
	switch x.s {
	case "==>":
		a := e.evT(st, env, x.args[0])
		if a.isFalse() {
			return plain(tt.Bool(true), tBool)
		}
		return plain(tt.Imp(a, e.evT(st, env, x.args[1])), tBool)
	case "&&":
		a := e.evT(st, env, x.args[0])
		if a.isFalse() {
			return plain(a, tBool)
		}
		return plain(tt.And(a, e.evT(st, env, x.args[1])), tBool)
	case "||":
		a := e.evT(st, env, x.args[0])
		if a.isTrue() {
			return plain(a, tBool)
		}
		return plain(tt.Or(a, e.evT(st, env, x.args[1])), tBool)
	case "<==>":
		return plain(tt.Eq(e.evT(st, env, x.args[0]), e.evT(st, env, x.args[1])), tBool)
	}
	a, b := e.ev(st, env, x.args[0]), e.ev(st, env, x.args[1])
	switch x.s {
	case "==":
		return plain(e.svEq(st, x, a, b), tBool)
	case "!=":
		return plain(tt.Not(e.svEq(st, x, a, b)), tBool)
	case "in":
		mt, ok := under(b.t).(*types.Map)
		if !ok {
			e.sfail(x, "in: not a map")
		}
		_, has := e.mapGet(st, e.term(b.v), mt, e.term(a.v))
		return plain(has, tBool)
	}
	p, q := e.term(a.v), e.term(b.v)
	switch x.s {
	case "<":
		return plain(tt.Lt(p, q), tBool)
	case "<=":
		return plain(tt.Le(p, q), tBool)
	case ">":
		return plain(tt.Lt(q, p), tBool)
	case ">=":
		return plain(tt.Le(q, p), tBool)
	case "+":
		if p.sort == sStr {
			return plain(e.concat(p, q), tString)
		}
		return plain(tt.Add(p, q), tInt)
	case "-":
		return plain(tt.Sub(p, q), tInt)
	case "*":
		return plain(tt.Mul(p, q), tInt)
	case "/":
		return plain(tt.Div(p, q), tInt)
	case "%":
		return plain(tt.Mod(p, q), tInt)
	}
	e.sfail(x, "operator %s", x.s)
	return SV{}
}

func (e *Engine) refOf(v SV) *Term {
	if v.k == "nil" {
		return e.tt.Int(0)
	}
	t := e.term(v.v)
	switch t.sort {
	case sSlice:
		return e.tt.SRef(t)
	case sIface:
		return e.tt.IVal(t)
	}
	return t
}

func (e *Engine) typeArg(x *Expr, i int) types.Type {
	if x.args[i].op != "str" {
		e.sfail(x, "type name expected")
	}
	t, err := e.ld.lookupType(x.args[i].s)
	if err != nil {
		e.sfail(x, "%v", err)
	}
	return t
}

// arbitrary: an unknown value of the same kind (acq/rel without a critical section).
func (e *Engine) arbitrary(v SV) SV {
	if t, ok := v.v.(*Term); ok && v.k != "content" {
		return SV{v: e.tt.Var("noacq", t.sort), t: v.t, k: v.k}
	}
	panic(specErr{"acq/rel of an aggregate without a critical section"})
}

func (e *Engine) evCall(st *State, env *Env, x *Expr) SV {
	tt := e.tt
	need := func(n int) {
		if len(x.args) != n {
			e.sfail(x, "%s needs %d arguments", x.s, n)
		}
	}
	if sf := e.cs.Specs[x.s]; sf != nil {
		need(len(sf.args))
		m := map[string]SV{}
		for i, a := range sf.args {
			m[a] = e.ev(st, env, x.args[i])
		}
		return e.ev(st, env.with(m), sf.e)
	}
	switch x.s {
	case "old":
		need(1)
		return e.ev(e.withHeap(st, st.spec.entry), env, x.args[0])
	case "acq":
		need(1)
		if st.acq == nil {
			return e.arbitrary(e.ev(st, env, x.args[0]))
		}
		return e.ev(e.withHeap(st, st.acq), env, x.args[0])
	case "rel":
		need(1)
		if st.rel == nil {
			return e.arbitrary(e.ev(st, env, x.args[0]))
		}
		return e.ev(e.withHeap(st, st.rel), env, x.args[0])
	case "entry": // the value at loop entry
		need(1)
		if e.curS0 == nil {
			e.sfail(x, "entry outside of a loop invariant")
		}
		s0 := *st
		s0.heap, s0.ghost = e.curS0.heap, e.curS0.ghost
		return e.ev(&s0, env, x.args[0])
	case "visited": // map keys already visited by the innermost map iteration
		need(1)
		k := e.evT(st, env, x.args[0])
		for i := len(st.frames) - 1; i >= 0; i-- {
			for _, v := range st.frames[i].env {
				if ri, ok := v.(*RangeIter); ok {
					return plain(tt.Select(ri.visited, k), tBool)
				}
			}
		}
		e.sfail(x, "no map iteration")
	case "hasacq":
		return plain(tt.Bool(st.acq != nil), tBool)
	case "prev":
		need(1)
		if st.prev == nil {
			e.sfail(x, "prev outside of a monitor")
		}
		return e.ev(e.withHeap(st, st.prev), env, x.args[0])
	case "len":
		need(1)
		v := e.ev(st, env, x.args[0])
		if v.k == "content" {
			return plain(v.v.(Tuple)[2], tInt)
		}
		if v.k == "nil" {
			return plain(tt.Int(0), tInt)
		}
		t := e.term(v.v)
		switch t.sort {
		case sStr:
			return plain(tt.SLen(t), tInt)
		case sSlice:
			return plain(tt.SLn(t), tInt)
		}
		if mt, ok := under(v.t).(*types.Map); ok {
			_, _, n := e.mapArrs(st, mt)
			return plain(tt.Ite(tt.Eq(t, tt.Int(0)), tt.Int(0), tt.Select(n, t)), tInt)
		}
		e.sfail(x, "len")
	case "cap":
		need(1)
		return plain(tt.SCap(e.evT(st, env, x.args[0])), tInt)
	case "off":
		need(1)
		return plain(tt.SOff(e.evT(st, env, x.args[0])), tInt)
	case "ref":
		need(1)
		return plain(e.refOf(e.ev(st, env, x.args[0])), tInt)
	case "fresh": // allocated during this activation
		need(1)
		return plain(tt.Lt(tt.Int(st.spec.base), e.refOf(e.ev(st, env, x.args[0]))), tBool)
	case "errtext":
		need(1)
		return plain(e.errText(e.evT(st, env, x.args[0])), tString)
	case "content":
		need(1)
		return e.content(st, x, e.ev(st, env, x.args[0]))
	case "range": // range(A, lo, n): n bytes of a ghost byte array from lo
		need(3)
		return SV{k: "content", v: Tuple{e.evT(st, env, x.args[0]), e.evT(st, env, x.args[1]), e.evT(st, env, x.args[2])}}
	case "array": // the whole backing array of a slice
		need(1)
		v := e.ev(st, env, x.args[0])
		return SV{k: "bytes", v: tt.Select(e.memArr(st, under(v.t).(*types.Slice).Elem()), tt.SRef(e.term(v.v)))}
	case "typeis":
		need(2)
		return plain(e.assertCond(e.evT(st, env, x.args[0]), e.typeArg(x, 1)), tBool)
	case "as":
		need(2)
		t := e.typeArg(x, 1)
		i := e.evT(st, env, x.args[0])
		if isRefType(t) {
			return plain(tt.IVal(i), t)
		}
		return plain(e.unbox(st, i, t), t)
	case "cast": // reinterpret a reference
		need(2)
		return plain(e.evT(st, env, x.args[0]), e.typeArg(x, 1))
	case "deref":
		need(1)
		v := e.ev(st, env, x.args[0])
		p := under(v.t).(*types.Pointer)
		return plain(e.loadRef(st, e.term(v.v), p.Elem()), p.Elem())
	case "val": // the value of a struct-typed field
		need(1)
		v := e.ev(st, env, x.args[0])
		r, ok := v.v.(*Term)
		if !ok {
			return v
		}
		ty := v.t
		if p, ok := under(ty).(*types.Pointer); ok {
			ty = p.Elem()
		}
		if _, ok := isStruct(ty); !ok {
			return v
		}
		return plain(e.loadRef(st, r, ty), ty)
	case "ite":
		need(3)
		c := e.evT(st, env, x.args[0])
		a, b := e.ev(st, env, x.args[1]), e.ev(st, env, x.args[2])
		if c.isTrue() {
			return a
		}
		if c.isFalse() {
			return b
		}
		if a.k == "content" && b.k == "content" {
			e.sfail(x, "ite of contents")
		}
		if a.k == "nil" || b.k == "nil" {
			o := a
			if a.k == "nil" {
				o = b
			}
			z := e.zero(st, o.t)
			if a.k == "nil" {
				a = plain(z, o.t)
			} else {
				b = plain(z, o.t)
			}
		}
		return SV{v: tt.Ite(c, e.term(a.v), e.term(b.v)), t: a.t, k: a.k}
	case "min", "max":
		need(2)
		a, b := e.evT(st, env, x.args[0]), e.evT(st, env, x.args[1])
		c := tt.Le(a, b)
		if x.s == "max" {
			c = tt.Le(b, a)
		}
		return plain(tt.Ite(c, a, b), tInt)
	case "done": // the context is known to be cancelled
		need(1)
		return plain(e.getG(st, "G:ctxdone", sBool, tt.IVal(e.evT(st, env, x.args[0]))), tBool)
	case "cancelfn": // the function that cancels this context
		need(1)
		t := tt.App("cancelfn", sInt, tt.IVal(e.evT(st, env, x.args[0])))
		e.cancelFns[t] = true
		return plain(t, nil)
	case "ctxparent":
		need(1)
		return plain(e.getG(st, "G:ctxparent", sIface, tt.IVal(e.evT(st, env, x.args[0]))), nil)
	case "hasdeadline":
		need(1)
		return plain(e.getG(st, "G:ctxdl", sBool, tt.IVal(e.evT(st, env, x.args[0]))), tBool)
	case "closed":
		need(1)
		return plain(e.getG(st, "G:chclosed", sBool, e.evT(st, env, x.args[0])), tBool)
	case "chancap":
		need(1)
		return plain(e.getG(st, "G:chcap", sInt, e.evT(st, env, x.args[0])), tInt)
	case "gi", "gb", "gs", "gx": // ghost attribute of an object
		if len(x.args) < 2 || x.args[0].op != "str" {
			e.sfail(x, "%s(\"name\", object)", x.s)
		}
		r := e.refOf(e.ev(st, env, x.args[1]))
		srt := map[string]string{"gi": sInt, "gb": sBool, "gs": sStr, "gx": sIface}[x.s]
		ty := map[string]types.Type{"gi": tInt, "gb": tBool, "gs": tString, "gx": nil}[x.s]
		return plain(e.getG(st, "G:u."+x.s+"."+x.args[0].s, srt, r), ty)
	case "uf": // uninterpreted function: uf("name:sort", args...)
		nm := x.args[0].s
		srt, ty := sInt, types.Type(tInt)
		if i := strings.IndexByte(nm, ':'); i >= 0 {
			switch nm[i+1:] {
			case "bool":
				srt, ty = sBool, tBool
			case "string":
				srt, ty = sStr, tString
			case "iface":
				srt, ty = sIface, nil
			}
			nm = nm[:i]
		}
		var as []*Term
		for _, a := range x.args[1:] {
			v := e.ev(st, env, a)
			if v.k == "content" {
				for _, y := range v.v.(Tuple) {
					as = append(as, y.(*Term))
				}
				continue
			}
			as = append(as, e.term(v.v))
		}
		return plain(tt.App("uf."+nm, srt, as...), ty)
	case "hasprefix":
		need(2)
		return plain(e.hasPrefix(e.evT(st, env, x.args[0]), e.evT(st, env, x.args[1])), tBool)
	case "waitgen":
		return plain(e.waitGen(st), tInt)
	case "lockgen":
		return plain(tt.Int(st.lockgn), tInt)
	case "waitsctx":
		need(1)
		v := tt.IVal(e.evT(st, env, x.args[0]))
		var cs []*Term
		for _, w := range st.waits {
			if w.op == "app" && w.name == "ctxchan" {
				cs = append(cs, tt.Eq(w.args[0], v))
			}
		}
		return plain(tt.Or(cs...), tBool)
	case "ctxid": // identity of a context, the key of done()
		need(1)
		return plain(tt.IVal(e.evT(st, env, x.args[0])), tInt)
	case "ctxchan": // the Done channel of a context
		need(1)
		return plain(tt.App("ctxchan", sInt, tt.IVal(e.evT(st, env, x.args[0]))), tInt)
	case "waitschan":
		need(1)
		v := e.evT(st, env, x.args[0])
		var cs []*Term
		for _, w := range st.waits {
			cs = append(cs, tt.Eq(w, v))
		}
		return plain(tt.Or(cs...), tBool)
	case "nwaits":
		return plain(tt.Int(int64(len(st.waits))), tInt)
	case "locked":
		need(1)
		l := e.evT(st, env, x.args[0])
		return plain(tt.Bool(st.held[l] != 0), tBool)
	case "nlocks":
		return plain(tt.Int(int64(len(st.held))), tInt)
	case "isfn":
		// isfn(f, "name"): the function value is known to be this function
		need(2)
		cl := e.closureOf(st, e.evT(st, env, x.args[0]))
		if cl == nil || cl.fn == nil {
			if cl != nil && cl.builtin == x.args[1].s {
				return plain(tt.Bool(true), tBool)
			}
			return plain(tt.Bool(false), tBool)
		}
		n := strings.TrimSuffix(short(cl.fn.String()), "$bound")
		if o := cl.fn.Origin(); o != nil && short(o.String()) == x.args[1].s {
			return plain(tt.Bool(true), tBool)
		}
		return plain(tt.Bool(n == x.args[1].s), tBool)
	case "isbuiltin":
		need(2)
		cl := e.closureOf(st, e.evT(st, env, x.args[0]))
		return plain(tt.Bool(cl != nil && cl.builtin == x.args[1].s), tBool)
	case "bound": // the i-th captured value of a known closure
		need(2)
		cl := e.closureOf(st, e.evT(st, env, x.args[0]))
		i := int(x.args[1].n.Int64())
		if cl == nil || cl.fn == nil || i >= len(cl.binds) {
			return plain(tt.Var("nobind", sInt), tInt)
		}
		return plain(cl.binds[i], cl.fn.FreeVars[i].Type())
	case "oncedone": // has the sync.Once run
		need(1)
		return plain(e.getG(st, "G:once", sBool, e.evT(st, env, x.args[0])), tBool)
	case "bufr", "bufw", "bufmem":
		need(1)
		r := e.evT(st, env, x.args[0])
		e.bufArr(st)
		return plain(e.getG(st, "G:"+x.s, sInt, r), tInt)
	case "buflen":
		need(1)
		r := e.evT(st, env, x.args[0])
		return plain(tt.Sub(e.getG(st, "G:bufw", sInt, r), e.getG(st, "G:bufr", sInt, r)), tInt)
	case "bufcontent": // unread bytes
		need(1)
		r := e.evT(st, env, x.args[0])
		e.bufArr(st)
		m := tt.Select(e.memArr(st, types.Typ[types.Uint8]), e.getG(st, "G:bufmem", sInt, r))
		br := e.getG(st, "G:bufr", sInt, r)
		return SV{k: "content", v: Tuple{m, br, tt.Sub(e.getG(st, "G:bufw", sInt, r), br)}}
	case "u32le":
		need(2) // u32le(content-or-array, i)
		v := e.ev(st, env, x.args[0])
		i := e.evT(st, env, x.args[1])
		at := func(k int64) *Term { return e.term(e.selIndex(st, x, v, plain(tt.Add(i, tt.Int(k)), tInt)).v) }
		return plain(tt.Add(at(0), tt.Mul(tt.Int(1<<8), at(1)), tt.Mul(tt.Int(1<<16), at(2)), tt.Mul(tt.Int(1<<24), at(3))), tInt)
	case "put": // ghost array update
		need(3)
		a := e.ev(st, env, x.args[0])
		return SV{v: tt.Store(e.term(a.v), e.evT(st, env, x.args[1]), e.evT(st, env, x.args[2])), t: a.t, k: a.k}
	case "bitand":
		need(2)
		return plain(e.tt.App("bit.and.uint64", sInt, e.evT(st, env, x.args[0]), e.evT(st, env, x.args[1])), tInt)
	}
	e.sfail(x, "unknown function %s", x.s)
	return SV{}
}

func (e *Engine) waitGen(st *State) *Term {
	for _, w := range st.waits {
		if w.op == "app" && w.name == "waitch" {
			return w.args[1]
		}
	}
	return e.tt.Int(-1)
}

// ---------- hooks

func (e *Engine) fenv(st *State) *Env {
	if st.spec != nil {
		return st.spec.env
	}
	return &Env{}
}

func matchName(pat, name string) bool {
	if pat == name || pat == "*" {
		return true
	}
	if strings.HasPrefix(pat, "*") {
		return strings.HasSuffix(name, pat[1:])
	}
	if strings.HasSuffix(pat, "*") {
		return strings.HasPrefix(name, pat[:len(pat)-1])
	}
	return false
}

func (e *Engine) sameTerm(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if a.sort != b.sort || e.tt.distinct(a, b) || (a.n != nil && b.n != nil) {
		return false
	}
	return e.valid(st, e.tt.Eq(a, b), 500)
}

func (e *Engine) findHook(st *State, c *Call) *Hook {
	if e.fs == nil {
		return nil
	}
	var name2, name3 string
	if c.fn != nil {
		if o := c.fn.Origin(); o != nil {
			name2 = short(o.String())
		}
		name3 = strings.TrimSuffix(c.name, "$bound")
	}
	if c.meth != nil && c.itype != nil {
		if in := typeKey(c.itype) + "." + c.meth.Name(); in != c.name {
			for _, h := range e.fs.Hooks {
				if h.kind == "call" && h.pat == in {
					return h
				}
			}
		}
	}
	for _, h := range e.fs.Hooks {
		switch h.kind {
		case "call":
			if c.fval != nil {
				continue
			}
			if matchName(h.pat, c.name) || name2 != "" && matchName(h.pat, name2) {
				return h
			}
			_ = name3
		case "dyn":
			if c.fval == nil {
				continue
			}
			if h.e.op == "true" {
				return h
			}
			v := e.specVal(st, e.fenv(st), h.e)
			if e.sameTerm(st, e.term(v.v), c.fval) {
				return h
			}
		}
	}
	return nil
}

func resultTypes(rt types.Type) []types.Type {
	if rt == nil {
		return nil
	}
	if tp, ok := rt.(*types.Tuple); ok {
		var r []types.Type
		for i := 0; i < tp.Len(); i++ {
			r = append(r, tp.At(i).Type())
		}
		return r
	}
	return []types.Type{rt}
}

func packRes(vs []Value) Value {
	switch len(vs) {
	case 0:
		return nil
	case 1:
		return vs[0]
	}
	return Tuple(vs)
}

func unpackRes(v Value, n int) []Value {
	if n == 1 {
		return []Value{v}
	}
	if t, ok := v.(Tuple); ok {
		return t
	}
	return nil
}

func (e *Engine) runHook(st *State, h *Hook, c *Call) []*State {
	m := map[string]SV{}
	for i, a := range h.args {
		if i < len(c.args) && a != "_" {
			m[a] = plain(c.args[i], c.atyp[i])
		}
	}
	if c.fn != nil || c.meth != nil {
		m["callee"] = plain(e.tt.Str(c.name), tString)
	}
	rts := resultTypes(c.rtype)
	res := make([]Value, len(rts))
	bindRes := func(st *State, m map[string]SV) {
		for i, r := range h.res {
			if i < len(rts) && r != "_" {
				m[r] = plain(res[i], rts[i])
			}
		}
	}
	if h.inline {
		env := e.fenv(st).with(m)
		return e.runStmts(st, env, h.body, func(st *State, env *Env) []*State {
			c2 := *c
			c2.k = func(st *State, rv Value) []*State {
				vs := unpackRes(rv, len(rts))
				m2 := map[string]SV{}
				for i, r := range h.res {
					if i < len(rts) && r != "_" {
						m2[r] = plain(vs[i], rts[i])
					}
				}
				return e.runStmts(st, env.with(m2), h.after, func(st *State, _ *Env) []*State { return c.k(st, rv) })
			}
			if c.fn != nil {
				if in, ok := intrinsics[e.intrName(c.fn)]; ok {
					return in(e, st, &c2)
				}
				return e.callFn(st, &c2)
			}
			if in, ok := intrinsics["iface:"+c.name]; ok {
				return in(e, st, &c2)
			}
			return e.unmodelled(st, &c2, c.name)
		})
	}
	for i, t := range rts {
		res[i] = e.freshHi(st, "r."+san(c.name), t, big.NewInt(0))
	}
	bindRes(st, m)
	env := e.fenv(st).with(m)
	return e.runStmts(st, env, h.body, func(st *State, env *Env) []*State {
		if v, ok := env.get("$return"); ok {
			return c.k(st, v.v)
		}
		return c.k(st, packRes(res))
	})
}

func (e *Engine) cover(label string) {
	if e.quiet == 0 {
		e.covers[label] = true
	}
}

func (e *Engine) runStmts(st *State, env *Env, ss []*Stmt, k func(*State, *Env) []*State) []*State {
	if st.dead {
		return nil
	}
	if len(ss) == 0 {
		return k(st, env)
	}
	s, rest := ss[0], ss[1:]
	tt := e.tt
	switch s.kind {
	case "assert":
		props := s.props
		if len(props) == 0 {
			props = e.fs.Props
		}
		e.cover(s.label)
		e.oblige(st, s.label, props, e.specBool(st, env, s.e))
	case "assume":
		st.assume(e.specBool(st, env, s.e))
	case "set":
		old, ok := st.ghost[s.name]
		if !ok {
			panic(specErr{fmt.Sprintf("line %d: set of undeclared ghost %s", s.line, s.name)})
		}
		v := e.specVal(st, env, s.e)
		if v.k == "nil" {
			v = SV{v: e.zero(st, old.t), t: old.t}
		}
		if old.t != nil && v.t == nil {
			v.t = old.t
		}
		if old.k != "" {
			v.k = old.k
		}
		st.ghost[s.name] = v
	case "let":
		v := e.specVal(st, env, s.e)
		return e.runStmts(st, env.with(map[string]SV{s.name: v}), rest, k)
	case "havoc":
		old := st.ghost[s.name]
		hv := tt.Var(s.name, e.term(old.v).sort)
		if hv.sort == sSlice || hv.sort == sIface {
			hv.rhi = big.NewInt(st.alloc) // memory that exists already
		}
		st.ghost[s.name] = SV{v: hv, t: old.t, k: old.k}
	case "if":
		c := e.specBool(st, env, s.e)
		kk := func(st *State, env2 *Env) []*State {
			if v, ok := env2.get("$return"); ok {
				return k(st, env.with(map[string]SV{"$return": v}))
			}
			return e.runStmts(st, env, rest, k)
		}
		ft, ff := e.feasible(st, c), e.feasible(st, tt.Not(c))
		var out []*State
		if ft && ff {
			s2 := st.clone()
			s2.assume(tt.Not(c))
			st.assume(c)
			out = append(out, e.runStmts(st, env, s.body, kk)...)
			out = append(out, e.runStmts(s2, env, s.els, kk)...)
			return out
		}
		if ft {
			st.assume(c)
			return e.runStmts(st, env, s.body, kk)
		}
		if ff {
			st.assume(tt.Not(c))
			return e.runStmts(st, env, s.els, kk)
		}
		return nil
	case "return":
		var vs []Value
		for _, x := range s.es {
			v := e.specVal(st, env, x)
			if v.k == "nil" {
				vs = append(vs, nil)
			} else {
				vs = append(vs, v.v)
			}
		}
		for i := range vs {
			if vs[i] == nil {
				panic(specErr{"return nil: use typed values"})
			}
		}
		return k(st, env.with(map[string]SV{"$return": {v: packRes(vs)}}))
	case "stop":
		return nil
	case "clobber":
		v := e.specVal(st, env, s.e)
		sl := e.term(v.v)
		el := under(v.t).(*types.Slice).Elem()
		m := e.memArr(st, el)
		st.heap[memKey(el)] = tt.Store(m, tt.SRef(sl), tt.Var("clob", arrElem(m.sort)))
	case "write": // write dst, n, src, off
		d := e.specVal(st, env, s.es[0])
		n := e.term(e.specVal(st, env, s.es[1]).v)
		src := e.term(e.specVal(st, env, s.es[2]).v)
		off := e.term(e.specVal(st, env, s.es[3]).v)
		sl := e.term(d.v)
		el := under(d.t).(*types.Slice).Elem()
		m := e.memArr(st, el)
		st.heap[memKey(el)] = tt.Store(m, tt.SRef(sl), e.blit(st, tt.Select(m, tt.SRef(sl)), tt.SOff(sl), n, src, off))
	case "store":
		x := s.es[0]
		v := e.specVal(st, env, s.e)
		switch x.op {
		case "call": // ghost attribute
			if x.s == "done" {
				e.setG(st, "G:ctxdone", sBool, e.tt.IVal(e.term(e.specVal(st, env, x.args[0]).v)), e.term(v.v))
				break
			}
			r := e.refOf(e.specVal(st, env, x.args[1]))
			srt := map[string]string{"gi": sInt, "gb": sBool, "gs": sStr, "gx": sIface, "done": sBool}[x.s]
			if v.k == "nil" {
				v = plain(e.tt.NilI(), nil)
			}
			e.setG(st, "G:u."+x.s+"."+x.args[0].s, srt, r, e.term(v.v))
		case "field":
			b := e.specVal(st, env, x.args[0])
			stt := under(b.t).(*types.Pointer).Elem()
			fi := fieldIndex(stt, x.s)
			if fi < 0 {
				e.sfail(x, "store: no field %s", x.s)
			}
			if v.k == "nil" {
				v = plain(e.zero(st, under(stt).(*types.Struct).Field(fi).Type()), nil)
			}
			e.inSpec++
			e.storeField(st, e.term(b.v), stt, fi, v.v)
			e.inSpec--
		default:
			e.sfail(x, "store target")
		}
	case "call":
		var args []Value
		e.inSpec++
		for _, a := range s.es {
			v := e.ev(st, env, a)
			args = append(args, v.v)
		}
		e.inSpec--
		bind := func(st *State, rv Value, rts []types.Type) []*State {
			m := map[string]SV{}
			vs := unpackRes(rv, len(rts))
			for i, n := range s.names {
				if i < len(vs) && n != "_" {
					m[n] = plain(vs[i], rts[i])
				}
			}
			return e.runStmts(st, env.with(m), rest, k)
		}
		if s.e.op == "str" {
			fn := e.ld.funcs[s.e.s]
			if fn == nil {
				e.sfail(s.e, "no function %s", s.e.s)
			}
			rts := resultTypes(tupleOrSingle(fn.Signature.Results()))
			var ats []types.Type
			for _, p := range fn.Params {
				ats = append(ats, p.Type())
			}
			c := &Call{fn: fn, args: args, atyp: ats, sig: fn.Signature, rtype: tupleOrSingle(fn.Signature.Results()), name: s.e.s, k: func(st *State, rv Value) []*State { return bind(st, rv, rts) }}
			return e.callFn(st, c)
		}
		if s.e.op == "field" {
			b := e.specVal(st, env, s.e.args[0])
			if b.t != nil {
				if _, ok := under(b.t).(*types.Interface); ok {
					obj, _, _ := types.LookupFieldOrMethod(b.t, true, nil, s.e.s)
					mf, ok := obj.(*types.Func)
					if !ok {
						e.sfail(s.e, "no method %s", s.e.s)
					}
					rts := resultTypes(tupleOrSingle(mf.Type().(*types.Signature).Results()))
					return e.callMethod(st, e.term(b.v), b.t, s.e.s, args, func(st *State, rv Value) []*State { return bind(st, rv, rts) })
				}
			}
		}
		f := e.specVal(st, env, s.e)
		sig, ok := under(f.t).(*types.Signature)
		if !ok {
			e.sfail(s.e, "not a function value")
		}
		rts := resultTypes(tupleOrSingle(sig.Results()))
		return e.callValue(st, e.term(f.v), sig, args, func(st *State, rv Value) []*State { return bind(st, rv, rts) })
	default:
		panic(specErr{"statement " + s.kind})
	}
	return e.runStmts(st, env, rest, k)
}

func tupleOrSingle(t *types.Tuple) types.Type {
	switch t.Len() {
	case 0:
		return nil
	case 1:
		return t.At(0).Type()
	}
	return t
}

// sync runs statements that may not branch.
func (e *Engine) sync(st *State, env *Env, ss []*Stmt) {
	n := 0
	e.runStmts(st, env, ss, func(s2 *State, _ *Env) []*State {
		if s2 != st {
			unsup("branching event hook")
		}
		n++
		return nil
	})
	if n > 1 {
		unsup("branching event hook")
	}
}

func (e *Engine) event(st *State, kind string, lock *Term) {
	if e.fs == nil {
		return
	}
	for _, h := range e.fs.Hooks {
		if h.kind == kind {
			if h.e != nil && (kind == "acquire" || kind == "release") {
				lt, ok := e.specVal(st, e.fenv(st), h.e).v.(*Term)
				if !ok || !e.sameTerm(st, lt, lock) {
					continue
				}
			}
			e.sync(st, e.fenv(st).with(map[string]SV{"lock": plain(lock, tInt)}), h.body)
		}
	}
}

func (e *Engine) waitHook(st *State, chs []*Term, blocking bool) (any, bool) {
	if e.fs == nil {
		return nil, false
	}
	st.waits = chs
	for l := range st.held {
		_ = l
		if blocking {
			e.cover("wait-with-lock")
		}
	}
	for _, h := range e.fs.Hooks {
		if h.kind == "wait" {
			e.sync(st, e.fenv(st).with(map[string]SV{"blocking": plain(e.tt.Bool(blocking), tBool)}), h.body)
		}
	}
	return nil, false
}

func (e *Engine) chanHook(st *State, kind string, ch *Term, v Value, ok *Term, k func(*State, Value, *Term) []*State) []*State {
	if e.fs != nil {
		for _, h := range e.fs.Hooks {
			if h.kind != kind {
				continue
			}
			if h.e.op != "true" {
				c := e.specVal(st, e.fenv(st), h.e)
				ct, isT := c.v.(*Term)
				if !isT || !e.sameTerm(st, ct, ch) {
					continue
				}
			}
			m := map[string]SV{"ch": plain(ch, tInt)}
			if len(h.args) > 0 && v != nil {
				m[h.args[0]] = SV{v: v, t: e.chElem}
			}
			if len(h.args) > 1 && ok != nil {
				m[h.args[1]] = plain(ok, tBool)
			}
			return e.runStmts(st, e.fenv(st).with(m), h.body, func(st *State, _ *Env) []*State { return k(st, v, ok) })
		}
	}
	return k(st, v, ok)
}

// ---------- go statements

func (e *Engine) goStmt(st *State, c *Call) []*State {
	// resolve closures for matching
	name := c.name
	if c.fval != nil {
		if cl := e.closureOf(st, c.fval); cl != nil && cl.fn != nil {
			name = short(cl.fn.String())
		}
	}
	cont := func(st *State) []*State { return []*State{st} }
	name = strings.TrimSuffix(name, "$bound")
	if e.fs != nil {
		for _, h := range e.fs.Hooks {
			if h.kind != "go" || !matchName(h.pat, name) {
				continue
			}
			m := map[string]SV{}
			args, atyp := c.args, c.atyp
			if c.fval != nil {
				if cl := e.closureOf(st, c.fval); cl != nil && cl.fn != nil && strings.HasSuffix(cl.fn.Name(), "$bound") {
					args = append(append([]Value{}, cl.binds...), args...)
					var bt []types.Type
					for _, f := range cl.fn.FreeVars {
						bt = append(bt, f.Type())
					}
					atyp = append(bt, atyp...)
				}
			}
			for i, a := range h.args {
				if i < len(args) && a != "_" {
					m[a] = plain(args[i], atyp[i])
				}
			}
			return e.runStmts(st, e.fenv(st).with(m), h.body, func(st *State, _ *Env) []*State { return cont(st) })
		}
	}
	// run the body as a separate thread from here
	for _, h := range e.fs.Hooks {
		if h.kind == "spawn" {
			e.sync(st, e.fenv(st), h.body)
		}
	}
	late, written := sharedCells(e.goSite)
	th := st.clone()
	for _, al := range late {
		e.havocCell(th, st, al)
	}
	for _, al := range written {
		e.havocCell(st, st, al)
	}
	th.frames = nil
	th.held = map[*Term]int{}
	th.thread = true
	th.acq, th.rel, th.prev = nil, nil, nil
	c2 := *c
	c2.k = func(st *State, _ Value) []*State {
		e.endThread(st)
		return nil
	}
	out := []*State{st}
	return append(out, e.doCall(th, &c2)...)
}

func (e *Engine) endThread(st *State) {
	if st.dead {
		return
	}
	e.cover("thread-end")
	for _, c := range e.fs.ThreadEnsures {
		props := c.props
		if len(props) == 0 {
			props = e.fs.Props
		}
		e.oblige(st, c.label, props, e.specBool(st, e.fenv(st), c.e))
	}
	if len(st.held) > 0 {
		e.failObl(st, "safety.lock-held", e.safetyProps(), "goroutine ends with a lock held")
	}
}

// modular use of a contract at a call site
func (e *Engine) useContract(st *State, fs *FuncSpec, c *Call) []*State {
	m := map[string]SV{}
	for i, a := range fs.Args {
		if i < len(c.args) {
			m[a] = plain(c.args[i], c.atyp[i])
		}
	}
	rts := resultTypes(c.rtype)
	env := (&Env{}).with(m)
	sv := st.spec
	base := int64(0)
	if len(fs.News) > 0 {
		base = st.alloc
	}
	st.spec = &SpecCtx{env: env, entry: st.snap(), fs: fs, base: base}
	for i, r := range fs.Requires {
		e.oblige(st, "call."+fs.Name+".requires"+itoa(i), e.safetyProps(), e.specBool(st, env, r))
	}
	cells := e.frameCells(st, env, fs)
	if len(fs.News) > 0 {
		st.alloc += eraGap
		for _, k := range sortedKeys(e.newKeys(st, fs)) {
			a := st.heap[k]
			v := e.tt.Var("new."+k, a.sort)
			attr := arrBase(a)
			a.needName = true
			v.base = a
			v.mark = big.NewInt(base + 1)
			if attr.rhi != nil || e.keyRef(k) {
				v.rhi = big.NewInt(st.alloc)
				v.eref = attr.eref
			}
			st.heap[k] = v
		}
	}
	for _, c := range cells {
		a := st.heap[c.key]
		v := e.tt.Var("mod."+c.key, arrElem(a.sort))
		hi := big.NewInt(st.alloc)
		if v.sort == sInt {
			if isRefType(c.typ) {
				v.hi = hi
			} else {
				e.typed(v, c.typ)
			}
		} else if v.sort == sSlice || v.sort == sIface {
			v.rhi = hi
		} else if strings.HasPrefix(v.sort, "(Array") {
			if attr := arrBase(a); attr.rhi != nil || e.keyRef(c.key) {
				v.rhi = hi
				v.eref = attr.eref
			}
		}
		st.heap[c.key] = e.tt.Store(a, c.ref, v)
		delete(st.nonnil, v)
	}
	var res []Value
	for i, t := range rts {
		v := e.freshHi(st, "r."+san(fs.Name), t, big.NewInt(st.alloc))
		res = append(res, v)
		if i < len(fs.Res) {
			m[fs.Res[i]] = plain(v, t)
		}
	}
	for _, c := range fs.Ensures {
		st.assume(e.specBool(st, env, c.e))
	}
	st.spec = sv
	if e.quiet == 0 {
		e.modular[fs.Name] = true
	}
	return c.k(st, packRes(res))
}

type cell struct {
	key string
	ref *Term
	typ types.Type
}

// frameCells evaluates the modifies clauses of a contract.
func (e *Engine) frameCells(st *State, env *Env, fs *FuncSpec) (cs []cell) {
	e.inSpec++
	defer func() { e.inSpec-- }()
	var fields func(ref *Term, stt types.Type, name string)
	fields = func(ref *Term, stt types.Type, name string) {
		s, ok := under(stt).(*types.Struct)
		if !ok {
			unsup("modifies: fields of %s", stt)
		}
		for i := 0; i < s.NumFields(); i++ {
			if name != "" && s.Field(i).Name() != name {
				continue
			}
			k, f := e.fieldKey(stt, i)
			if sortOf(f.Type()) == "" {
				if _, ok := isStruct(f.Type()); ok {
					fields(e.subRef(ref, strings.TrimPrefix(k, "F:")), f.Type(), "")
					continue
				}
				unsup("modifies: field %s", f.Name())
			}
			e.heapArr(st, k, sortOf(f.Type()), f.Type())
			cs = append(cs, cell{k, ref, f.Type()})
		}
	}
	for _, x := range fs.Modifies {
		switch {
		case x.op == "call" && x.s == "fields" && len(x.args) == 1:
			b := e.specVal(st, env, x.args[0])
			p, ok := under(b.t).(*types.Pointer)
			if !ok {
				e.sfail(x, "fields of %s", b.t)
			}
			fields(e.term(b.v), p.Elem(), "")
		case x.op == "call" && x.s == "elems" && len(x.args) == 1:
			b := e.specVal(st, env, x.args[0])
			el := under(b.t).(*types.Slice).Elem()
			e.memArr(st, el)
			cs = append(cs, cell{memKey(el), e.tt.SRef(e.term(b.v)), el})
		case x.op == "sel":
			b := e.specVal(st, env, x.args[0])
			p, ok := under(b.t).(*types.Pointer)
			if !ok {
				e.sfail(x, "field of %s", b.t)
			}
			fields(e.term(b.v), p.Elem(), x.s)
		default:
			e.sfail(x, "modifies clause")
		}
	}
	return cs
}

// newKeys lists the heap components of the types a contract may allocate.
func (e *Engine) newKeys(st *State, fs *FuncSpec) map[string]bool {
	ks := map[string]bool{}
	var add func(t types.Type)
	add = func(t types.Type) {
		if sl, ok := under(t).(*types.Slice); ok {
			e.memArr(st, sl.Elem())
			ks[memKey(sl.Elem())] = true
			return
		}
		s, ok := under(t).(*types.Struct)
		if !ok {
			unsup("allocates %s", t)
		}
		for i := 0; i < s.NumFields(); i++ {
			k, f := e.fieldKey(t, i)
			if sortOf(f.Type()) == "" {
				if _, ok := isStruct(f.Type()); ok {
					add(f.Type())
					continue
				}
				unsup("allocates %s", t)
			}
			e.heapArr(st, k, sortOf(f.Type()), f.Type())
			ks[k] = true
		}
	}
	for _, n := range fs.News {
		t, err := e.ld.lookupType(n)
		if err != nil {
			unsup("%v", err)
		}
		add(t)
	}
	return ks
}

// checkFrame proves that only the cells the contract names were changed.
func (e *Engine) checkFrame(st *State, fs *FuncSpec) {
	ent := st.spec.entry
	es := e.withHeap(st, ent)
	es.spec = st.spec
	cells := e.frameCells(es, e.fenv(st), fs)
	news := e.newKeys(es, fs)
	for _, k := range sortedHeap(st.heap) {
		a, o := st.heap[k], ent.heap[k]
		if o == nil {
			o = e.heap0[k]
		}
		if a == o {
			continue
		}
		label := "frame." + strings.TrimPrefix(k, "F:")
		if strings.HasPrefix(k, "Gv:") {
			e.failObl(st, label, fs.Props, "changes a package variable the contract does not name")
			continue
		}
		seen := map[*Term]bool{}
		for a != o {
			if a.op == "var" && a.fbase != nil {
				a = a.fbase
				continue
			}
			if a.op == "var" && a.base != nil {
				if !news[k] && !fs.Pure {
					e.failObl(st, label, fs.Props, "allocates what the contract does not name")
					break
				}
				a = a.base
				continue
			}
			if a.op != "store" {
				e.failObl(st, label, fs.Props, "changes more than the contract names")
				break
			}
			r := a.args[1]
			a = a.args[0]
			if seen[r] {
				continue
			}
			seen[r] = true
			var ds []*Term
			if news[k] || fs.Pure || ghostAttr(k) || strings.HasPrefix(k, "C:") || k == "M:interface{}" {
				ds = append(ds, e.tt.Lt(e.tt.Int(0), r))
			}
			if strings.HasPrefix(k, "M:") { // a nil slice has no elements
				ds = append(ds, e.tt.Eq(e.tt.Int(0), r))
			}
			for _, c := range cells {
				if c.key == k {
					ds = append(ds, e.tt.Eq(c.ref, r))
				}
			}
			e.oblige(st, label, fs.Props, e.tt.Or(ds...))
		}
	}
}

func sortedHeap(m map[string]*Term) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// framed evaluates the frame of the function under verification.
func (e *Engine) framed(st *State) (cs []cell) {
	if !e.fs.Framed || len(e.fs.Modifies) == 0 {
		return nil
	}
	es := e.withHeap(st, st.spec.entry)
	es.spec = st.spec
	return e.frameCells(es, e.fenv(st), e.fs)
}

// keepsFrame reports whether array b changed from a only at cells of the frame
// and at objects allocated by this activation.
func (e *Engine) keepsFrame(st *State, a, b *Term, k string, frame []cell) bool {
	for b != a {
		switch {
		case b.op == "var" && b.fbase != nil:
			b = b.fbase
		case b.op == "var" && b.base != nil:
			b = b.base
		case b.op == "store":
			r := b.args[1]
			ds := []*Term{e.tt.Le(e.tt.Int(0), r)}
			for _, c := range frame {
				if c.key == k {
					ds = append(ds, e.tt.Eq(c.ref, r))
				}
			}
			if !e.valid(st, e.tt.Or(ds...), 3000) {
				return false
			}
			b = b.args[0]
		default:
			return false
		}
	}
	return true
}

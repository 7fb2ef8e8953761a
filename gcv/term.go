package main

// Terms: hash-consed SMT terms with a light simplifier.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Term struct {
	id    int
	op    string // "int" "var" "app"(uf) "bv"(bound var) or SMT op
	name  string // var / uf name
	args  []*Term
	sort  string
	n     *big.Int // int constant
	bound bool     // contains a bound variable
	epoch int      // max creation mark of variables inside
	// interval of Int terms (nil = unbounded)
	lo, hi *big.Int
	// axioms attached to this term (unconditionally true facts)
	ax []*Term
	// array variables: select(base,i) for i < mark
	base *Term
	// fbase: equal to fbase at old references other than fex (frame of a loop)
	fbase *Term
	fex   []*Term
	mark  *big.Int
	// upper bound of the references contained in this value (slice, interface,
	// or the elements of an array)
	rhi      *big.Int
	eref     bool // the (innermost) elements of this array are references
	zeroNew  bool // ghost attribute: zero for objects allocated during the activation
	needName bool
}

type UF struct {
	name string
	args []string
	res  string
}

type TermTab struct {
	neq     map[[2]*Term]bool // variables which the precondition says are different
	weak    map[*Term]*Term
	sizes   map[*Term]int
	nestDiv bool // keep (x div c) div d
	tab     map[string]*Term
	next    int
	ufs     map[string]*UF
	nv      int
	// owners of literal sub-objects
	owner map[*Term]*Term
	trig  map[*Term]*Term
}

// oldLit: a literal sub-object whose root object is older than the mark.
func (tt *TermTab) oldLit(i *Term, mark *big.Int) bool {
	if i.n == nil || i.n.Cmp(subBase) < 0 {
		return false
	}
	for {
		o := tt.owner[i]
		if o == nil {
			return i.n.Cmp(subBase) >= 0
		}
		i = o
		if i.n == nil || i.n.Cmp(subBase) < 0 {
			break
		}
	}
	return i.hi != nil && i.hi.Cmp(mark) < 0
}

var subBase = big.NewInt(1 << 50)

func NewTermTab() *TermTab {
	return &TermTab{tab: map[string]*Term{}, ufs: map[string]*UF{}, owner: map[*Term]*Term{}, trig: map[*Term]*Term{}, weak: map[*Term]*Term{}, sizes: map[*Term]int{}}
}

func (tt *TermTab) mk(op, name, srt string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(srt)
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	if t := tt.tab[k]; t != nil {
		return t
	}
	tt.next++
	t := &Term{id: tt.next, op: op, name: name, args: args, sort: srt}
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
		if a.epoch > t.epoch {
			t.epoch = a.epoch
		}
	}
	tt.tab[k] = t
	return t
}

const (
	sInt   = "Int"
	sBool  = "Bool"
	sStr   = "Str"
	sSlice = "Slice"
	sIface = "Iface"
)

func arr(elem string) string  { return "(Array Int " + elem + ")" }
func arrS(elem string) string { return "(Array Str " + elem + ")" }
func arrElem(s string) string {
	// "(Array X Y)"
	s = strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	i := strings.IndexByte(s, ' ')
	return s[i+1:]
}
func arrIdx(s string) string {
	s = strings.TrimPrefix(s, "(Array ")
	i := strings.IndexByte(s, ' ')
	return s[:i]
}

func (tt *TermTab) IntB(n *big.Int) *Term {
	t := tt.mk("int", n.String(), sInt)
	if t.n == nil {
		t.n = new(big.Int).Set(n)
		t.lo, t.hi = t.n, t.n
	}
	return t
}
func (tt *TermTab) Int(n int64) *Term { return tt.IntB(big.NewInt(n)) }
func (tt *TermTab) Bool(b bool) *Term {
	if b {
		return tt.mk("true", "", sBool)
	}
	return tt.mk("false", "", sBool)
}
func (t *Term) isTrue() bool  { return t.op == "true" }
func (t *Term) isFalse() bool { return t.op == "false" }

// Var makes a new variable with a unique name.
func (tt *TermTab) Var(hint, srt string) *Term {
	tt.nv++
	t := tt.mk("var", fmt.Sprintf("%s!%d", san(hint), tt.nv), srt)
	t.epoch = tt.nv
	return t
}
func (tt *TermTab) BoundVar(hint, srt string) *Term {
	tt.nv++
	t := tt.mk("bv", fmt.Sprintf("%s?%d", san(hint), tt.nv), srt)
	t.bound = true
	return t
}

// Const is a named constant (unique by name).
func (tt *TermTab) Const(name, srt string) *Term { return tt.mk("var", san(name), srt) }

func san(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '!', r == '$', r == '?':
			b.WriteRune(r)
		default:
			b.WriteByte('_')
		}
	}
	s = b.String()
	if s == "" || (s[0] >= '0' && s[0] <= '9') {
		s = "v" + s
	}
	return s
}

func (tt *TermTab) App(name, res string, args ...*Term) *Term {
	if tt.ufs[name] == nil {
		u := &UF{name: name, res: res}
		for _, a := range args {
			u.args = append(u.args, a.sort)
		}
		tt.ufs[name] = u
	}
	return tt.mk("app", name, res, args...)
}

// ---- linear arithmetic normal form

type lin struct {
	c  map[*Term]*big.Int
	k  *big.Int
	ok bool
}

func (tt *TermTab) linOf(t *Term) (map[*Term]*big.Int, *big.Int) {
	m := map[*Term]*big.Int{}
	k := new(big.Int)
	var add func(t *Term, f *big.Int)
	add = func(t *Term, f *big.Int) {
		switch t.op {
		case "int":
			k.Add(k, new(big.Int).Mul(t.n, f))
		case "+":
			for _, a := range t.args {
				add(a, f)
			}
		case "*":
			if t.args[0].n != nil {
				add(t.args[1], new(big.Int).Mul(f, t.args[0].n))
				return
			}
			fallthrough
		default:
			if c := m[t]; c != nil {
				c.Add(c, f)
			} else {
				m[t] = new(big.Int).Set(f)
			}
		}
	}
	add(t, big.NewInt(1))
	for a, c := range m {
		if c.Sign() == 0 {
			delete(m, a)
		}
	}
	return m, k
}

// telescope joins the digits of a number: x mod c + c*(x div c) is x, and
// x mod c + c*((x div c) mod d) is x mod (c*d).
func (tt *TermTab) telescope(m map[*Term]*big.Int, k *big.Int) {
	n := 0
	for a := range m {
		if a.op == "mod" {
			n++
		}
	}
	if n == 0 || len(m) < 2 {
		return
	}
	for again := true; again; {
		again = false
		var ks []*Term
		for a := range m {
			if a.op == "mod" && a.args[1].n != nil && a.args[1].n.Sign() > 0 {
				ks = append(ks, a)
			}
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
		for _, a := range ks {
			x, c, ca := a.args[0], a.args[1].n, m[a]
			q := tt.Div(x, a.args[1])
			want := new(big.Int).Mul(ca, c)
			if b := m[q]; b != nil && b.Cmp(want) == 0 {
				delete(m, a)
				delete(m, q)
				tt.accum(m, k, x, ca)
				again = true
				break
			}
			for t, b := range m {
				if t.op == "mod" && t.args[0] == q && t.args[1].n != nil && t.args[1].n.Sign() > 0 && b.Cmp(want) == 0 {
					delete(m, a)
					delete(m, t)
					tt.accum(m, k, tt.Mod(x, tt.IntB(new(big.Int).Mul(c, t.args[1].n))), ca)
					again = true
					break
				}
			}
			if again {
				break
			}
		}
	}
	for a, c := range m {
		if c.Sign() == 0 {
			delete(m, a)
		}
	}
}

func (tt *TermTab) fromLin(m map[*Term]*big.Int, k *big.Int) *Term {
	tt.telescope(m, k)
	var ks []*Term
	for a := range m {
		ks = append(ks, a)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var parts []*Term
	for _, a := range ks {
		c := m[a]
		if c.IsInt64() && c.Int64() == 1 {
			parts = append(parts, a)
		} else {
			t := tt.mk("*", "", sInt, tt.IntB(c), a)
			tt.interval(t)
			parts = append(parts, t)
		}
	}
	if k.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, tt.IntB(k))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	t := tt.mk("+", "", sInt, parts...)
	tt.interval(t)
	return t
}

func (tt *TermTab) interval(t *Term) {
	if t.lo != nil || t.hi != nil {
		return
	}
	switch t.op {
	case "+":
		lo, hi := new(big.Int), new(big.Int)
		lok, hok := true, true
		for _, a := range t.args {
			if a.lo == nil {
				lok = false
			} else {
				lo.Add(lo, a.lo)
			}
			if a.hi == nil {
				hok = false
			} else {
				hi.Add(hi, a.hi)
			}
		}
		if lok {
			t.lo = lo
		}
		if hok {
			t.hi = hi
		}
	case "*":
		c, x := t.args[0].n, t.args[1]
		if c == nil {
			return
		}
		lo, hi := x.lo, x.hi
		if c.Sign() < 0 {
			lo, hi = hi, lo
		}
		if lo != nil {
			t.lo = new(big.Int).Mul(lo, c)
		}
		if hi != nil {
			t.hi = new(big.Int).Mul(hi, c)
		}
	}
}

func (tt *TermTab) Add(ts ...*Term) *Term {
	m := map[*Term]*big.Int{}
	k := new(big.Int)
	for _, t := range ts {
		tt.accum(m, k, t, big.NewInt(1))
	}
	for a, c := range m {
		if c.Sign() == 0 {
			delete(m, a)
		}
	}
	return tt.fromLin(m, k)
}
func (tt *TermTab) accum(m map[*Term]*big.Int, k *big.Int, t *Term, f *big.Int) {
	lm, lk := tt.linOf(t)
	k.Add(k, new(big.Int).Mul(lk, f))
	for a, c := range lm {
		x := new(big.Int).Mul(c, f)
		if o := m[a]; o != nil {
			o.Add(o, x)
		} else {
			m[a] = x
		}
	}
}
func (tt *TermTab) Sub(a, b *Term) *Term {
	m := map[*Term]*big.Int{}
	k := new(big.Int)
	tt.accum(m, k, a, big.NewInt(1))
	tt.accum(m, k, b, big.NewInt(-1))
	for a, c := range m {
		if c.Sign() == 0 {
			delete(m, a)
		}
	}
	return tt.fromLin(m, k)
}
func (tt *TermTab) Neg(a *Term) *Term { return tt.Sub(tt.Int(0), a) }
func (tt *TermTab) Mul(a, b *Term) *Term {
	if b.n != nil {
		a, b = b, a
	}
	if a.n != nil {
		m := map[*Term]*big.Int{}
		k := new(big.Int)
		tt.accum(m, k, b, a.n)
		for a, c := range m {
			if c.Sign() == 0 {
				delete(m, a)
			}
		}
		return tt.fromLin(m, k)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk("*", "", sInt, a, b)
}

// Div / Mod are SMT (floor for positive divisor) div/mod.
func (tt *TermTab) Div(a, b *Term) *Term {
	if a.n != nil && b.n != nil && b.n.Sign() > 0 {
		q, _ := new(big.Int).DivMod(a.n, b.n, new(big.Int))
		return tt.IntB(q)
	}
	if b.n != nil && b.n.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if b.n != nil && b.n.Sign() > 0 && a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil && a.hi.Cmp(b.n) < 0 {
		return tt.Int(0)
	}
	// (x div c) div d = x div (c*d) for positive constants
	if !tt.nestDiv && a.op == "div" && b.n != nil && b.n.Sign() > 0 && a.args[1].n != nil && a.args[1].n.Sign() > 0 {
		return tt.Div(a.args[0], tt.IntB(new(big.Int).Mul(a.args[1].n, b.n)))
	}
	t := tt.mk("div", "", sInt, a, b)
	if t.lo == nil && b.n != nil && b.n.Sign() > 0 {
		if a.lo != nil {
			t.lo = new(big.Int).Div(a.lo, b.n)
		}
		if a.hi != nil {
			t.hi = new(big.Int).Div(a.hi, b.n)
		}
	}
	return t
}
func (tt *TermTab) Mod(a, b *Term) *Term {
	if a.n != nil && b.n != nil && b.n.Sign() > 0 {
		return tt.IntB(new(big.Int).Mod(a.n, b.n))
	}
	if b.n != nil && b.n.Sign() > 0 && a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil && a.hi.Cmp(b.n) < 0 {
		return a
	}
	// multiples of the divisor do not matter
	if b.n != nil && b.n.Sign() > 0 {
		m, k := tt.linOf(a)
		r, ch := map[*Term]*big.Int{}, false
		for x, c := range m {
			d := new(big.Int).Mod(c, b.n)
			if d.Sign() == 0 {
				ch = true
				continue
			}
			r[x] = c
		}
		rk := new(big.Int).Mod(k, b.n)
		if ch || rk.Cmp(k) != 0 && k.Sign() > 0 {
			return tt.Mod(tt.fromLin(r, rk), b)
		}
		// (x mod c) mod b with b dividing c
		if a.op == "mod" && a.args[1].n != nil && a.args[1].n.Sign() > 0 && new(big.Int).Mod(a.args[1].n, b.n).Sign() == 0 {
			return tt.Mod(a.args[0], b)
		}
	}
	t := tt.mk("mod", "", sInt, a, b)
	if t.lo == nil && b.n != nil && b.n.Sign() > 0 {
		t.lo = big.NewInt(0)
		t.hi = new(big.Int).Sub(b.n, big.NewInt(1))
	}
	return t
}

func (tt *TermTab) Le(a, b *Term) *Term {
	d := tt.Sub(a, b) // d <= 0
	if d.hi != nil && d.hi.Sign() <= 0 {
		return tt.Bool(true)
	}
	if d.lo != nil && d.lo.Sign() > 0 {
		return tt.Bool(false)
	}
	if x, k, up, ok := tt.divCmp(a, b, false); ok {
		if up {
			return tt.Lt(x, k) // x div c <= b
		}
		return tt.Le(k, x) // a <= x div c
	}
	return tt.mk("<=", "", sBool, a, b)
}

// divCmp turns a comparison of x div c with a constant into one of x.
func (tt *TermTab) divCmp(a, b *Term, strict bool) (x, k *Term, up, ok bool) {
	isDiv := func(t *Term) bool { return t.op == "div" && t.args[1].n != nil && t.args[1].n.Sign() > 0 }
	if isDiv(a) && b.n != nil {
		n := new(big.Int).Set(b.n)
		if !strict {
			n.Add(n, big.NewInt(1))
		}
		return a.args[0], tt.IntB(n.Mul(n, a.args[1].n)), true, true
	}
	if isDiv(b) && a.n != nil {
		n := new(big.Int).Set(a.n)
		if strict {
			n.Add(n, big.NewInt(1))
		}
		return b.args[0], tt.IntB(n.Mul(n, b.args[1].n)), false, true
	}
	return
}

func (tt *TermTab) Lt(a, b *Term) *Term {
	d := tt.Sub(a, b)
	if d.hi != nil && d.hi.Sign() < 0 {
		return tt.Bool(true)
	}
	if d.lo != nil && d.lo.Sign() >= 0 {
		return tt.Bool(false)
	}
	if x, k, up, ok := tt.divCmp(a, b, true); ok {
		if up {
			return tt.Lt(x, k)
		}
		return tt.Le(k, x)
	}
	return tt.mk("<", "", sBool, a, b)
}

// learnNeq records the disequalities of variables among facts that hold
// throughout (the precondition).
func (tt *TermTab) learnNeq(fs []*Term) {
	for _, f := range fs {
		if f.op == "not" && f.args[0].op == "=" && f.args[0].args[0].op == "var" && f.args[0].args[1].op == "var" {
			if tt.neq == nil {
				tt.neq = map[[2]*Term]bool{}
			}
			a, b := f.args[0].args[0], f.args[0].args[1]
			tt.neq[[2]*Term{a, b}], tt.neq[[2]*Term{b, a}] = true, true
		}
	}
}

// distinct reports whether a and b are certainly different.
func (tt *TermTab) distinct(a, b *Term) bool {
	if a.sort == sInt {
		if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) < 0 {
			return true
		}
		if b.hi != nil && a.lo != nil && b.hi.Cmp(a.lo) < 0 {
			return true
		}
		d := tt.Sub(a, b)
		if d.n != nil && d.n.Sign() != 0 {
			return true
		}
	}
	if a.op == "strc" && b.op == "strc" && a != b {
		return true
	}
	if a.op == "var" && b.op == "var" && tt.neq[[2]*Term{a, b}] {
		return true
	}
	if a.op == "app" && b.op == "app" && a.name != b.name && strings.HasPrefix(a.name, "sub.") && strings.HasPrefix(b.name, "sub.") {
		return true // different fields of struct type
	}
	return false
}

func (tt *TermTab) Eq(a, b *Term) *Term {
	if a == b {
		return tt.Bool(true)
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %s %s", a.sort, b.sort))
	}
	if tt.distinct(a, b) {
		return tt.Bool(false)
	}
	if a.sort == sBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return tt.Not(b)
		}
		if b.isFalse() {
			return tt.Not(a)
		}
	}
	if a.op == "mkI" && b.op == "mkI" || a.op == "mkS" && b.op == "mkS" {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, tt.Eq(a.args[i], b.args[i]))
		}
		return tt.And(cs...)
	}
	if a.sort == sIface {
		// nil comparison: tag only
		if a.op == "mkI" {
			a, b = b, a
		}
		if b.op == "mkI" && b.args[0].n != nil && b.args[0].n.Sign() == 0 {
			return tt.Eq(tt.ITag(a), tt.Int(0))
		}
	}
	if a.sort == sStr {
		if b.op != "strc" {
			a, b = b, a
		}
		if b.op == "strc" && b.name == "" {
			return tt.Eq(tt.SLen(a), tt.Int(0))
		}
	}
	if a.op == "ite" && b.n != nil || b.op == "ite" && a.n != nil {
		if b.op == "ite" {
			a, b = b, a
		}
		if a.args[1].n != nil && a.args[2].n != nil {
			return tt.Or(tt.And(a.args[0], tt.Eq(a.args[1], b)), tt.And(tt.Not(a.args[0]), tt.Eq(a.args[2], b)))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk("=", "", sBool, a, b)
}

func (tt *TermTab) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return tt.Bool(false)
	case "false":
		return tt.Bool(true)
	case "not":
		return a.args[0]
	case "<":
		return tt.Le(a.args[1], a.args[0])
	case "<=":
		return tt.Lt(a.args[1], a.args[0])
	}
	return tt.mk("not", "", sBool, a)
}
func (tt *TermTab) And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t.isTrue() || seen[t] {
			continue
		}
		if t.isFalse() {
			return t
		}
		if t.op == "and" {
			for _, x := range t.args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[t] = true
		out = append(out, t)
	}
	for _, t := range out {
		if t.op == "not" && seen[t.args[0]] {
			return tt.Bool(false)
		}
	}
	if len(out) == 0 {
		return tt.Bool(true)
	}
	if len(out) == 1 {
		return out[0]
	}
	return tt.mk("and", "", sBool, out...)
}
func (tt *TermTab) Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t.isFalse() || seen[t] {
			continue
		}
		if t.isTrue() {
			return t
		}
		if t.op == "or" {
			for _, x := range t.args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[t] = true
		out = append(out, t)
	}
	for _, t := range out {
		if t.op == "not" && seen[t.args[0]] {
			return tt.Bool(true)
		}
	}
	if len(out) == 0 {
		return tt.Bool(false)
	}
	if len(out) == 1 {
		return out[0]
	}
	return tt.mk("or", "", sBool, out...)
}
func (tt *TermTab) Imp(a, b *Term) *Term { return tt.Or(tt.Not(a), b) }
func (tt *TermTab) Ite(c, a, b *Term) *Term {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a.sort == sBool {
		return tt.Or(tt.And(c, a), tt.And(tt.Not(c), b))
	}
	t := tt.mk("ite", "", a.sort, c, a, b)
	if a.sort == sInt && t.lo == nil {
		if a.lo != nil && b.lo != nil {
			t.lo = minB(a.lo, b.lo)
		}
		if a.hi != nil && b.hi != nil {
			t.hi = maxB(a.hi, b.hi)
		}
	}
	return t
}
func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func (tt *TermTab) Select(a, i *Term) *Term {
	for {
		if a.op == "store" {
			j := a.args[1]
			if j == i {
				return a.args[2]
			}
			if tt.distinct(i, j) {
				a = a.args[0]
				continue
			}
		}
		if a.op == "var" && a.base != nil && i.hi != nil && (i.hi.Cmp(a.mark) < 0 || tt.oldLit(i, a.mark)) {
			a = a.base
			continue
		}
		if a.op == "var" && a.fbase != nil && i.hi != nil && i.hi.Sign() < 0 {
			other := true
			for _, x := range a.fex {
				other = other && tt.distinct(i, x)
			}
			if other {
				a = a.fbase
				continue
			}
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		if a.zeroNew && i.n != nil && i.n.Sign() > 0 {
			// ghost attribute of an object allocated during the activation
			if arrElem(a.sort) == sBool {
				return tt.Bool(false)
			}
			return tt.Int(0)
		}
		break
	}
	t := tt.mk("select", "", arrElem(a.sort), a, i)
	if a.rhi != nil && a.op != "store" {
		switch {
		case t.sort == sInt:
			if a.eref && t.hi == nil {
				t.hi = a.rhi
			}
		case t.sort == sSlice || t.sort == sIface:
			t.rhi = a.rhi
		case strings.HasPrefix(t.sort, "(Array"):
			t.rhi, t.eref = a.rhi, a.eref
		}
	}
	return t
}
func (tt *TermTab) Store(a, i, v *Term) *Term {
	if arrElem(a.sort) != v.sort {
		panic("Store sort " + a.sort + " vs " + v.sort)
	}
	// overwrite the same index
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	return tt.mk("store", "", a.sort, a, i, v)
}
func (tt *TermTab) ConstArr(srt string, v *Term) *Term {
	return tt.mk("constarr", "", srt, v)
}

// Slices and interfaces
func (tt *TermTab) MkS(ref, off, ln, cp *Term) *Term {
	return tt.mk("mkS", "", sSlice, ref, off, ln, cp)
}
func (tt *TermTab) sfield(s *Term, i int, f string) *Term {
	if s.op == "mkS" {
		return s.args[i]
	}
	if s.op == "ite" && (s.args[1].op == "mkS" || s.args[2].op == "mkS") {
		return tt.Ite(s.args[0], tt.sfield(s.args[1], i, f), tt.sfield(s.args[2], i, f))
	}
	t := tt.mk("sel", f, sInt, s)
	if t.lo == nil && t.hi == nil {
		switch f {
		case "sref":
			t.hi = s.rhi
		case "soff":
			t.lo = big.NewInt(0)
			t.hi = big.NewInt(1 << 48)
		case "slen", "scap":
			t.lo = big.NewInt(0)
			t.hi = big.NewInt(1 << 48)
		}
	}
	return t
}
func (tt *TermTab) SRef(s *Term) *Term { return tt.sfield(s, 0, "sref") }
func (tt *TermTab) SOff(s *Term) *Term { return tt.sfield(s, 1, "soff") }
func (tt *TermTab) SLn(s *Term) *Term  { return tt.sfield(s, 2, "slen") }
func (tt *TermTab) SCap(s *Term) *Term { return tt.sfield(s, 3, "scap") }

func (tt *TermTab) MkI(tag, val *Term) *Term { return tt.mk("mkI", "", sIface, tag, val) }
func (tt *TermTab) ITag(i *Term) *Term {
	if i.op == "mkI" {
		return i.args[0]
	}
	if i.op == "ite" && (i.args[1].op == "mkI" || i.args[2].op == "mkI") {
		return tt.Ite(i.args[0], tt.ITag(i.args[1]), tt.ITag(i.args[2]))
	}
	t := tt.mk("sel", "itag", sInt, i)
	if t.lo == nil {
		t.lo = big.NewInt(0)
	}
	return t
}
func (tt *TermTab) IVal(i *Term) *Term {
	if i.op == "mkI" {
		return i.args[1]
	}
	if i.op == "ite" && (i.args[1].op == "mkI" || i.args[2].op == "mkI") {
		return tt.Ite(i.args[0], tt.IVal(i.args[1]), tt.IVal(i.args[2]))
	}
	t := tt.mk("sel", "ival", sInt, i)
	if t.hi == nil {
		t.hi = i.rhi
	}
	return t
}
func (tt *TermTab) NilI() *Term { return tt.MkI(tt.Int(0), tt.Int(0)) }

// Strings
func (tt *TermTab) Str(s string) *Term { return tt.mk("strc", s, sStr) }
func (tt *TermTab) SLen(s *Term) *Term {
	if s.op == "strc" {
		return tt.Int(int64(len(s.name)))
	}
	if s.op == "ite" {
		return tt.Ite(s.args[0], tt.SLen(s.args[1]), tt.SLen(s.args[2]))
	}
	t := tt.App("strlen", sInt, s)
	if t.lo == nil {
		t.lo = big.NewInt(0)
		t.hi = big.NewInt(1 << 48)
	}
	return t
}
func (tt *TermTab) SAt(s, i *Term) *Term {
	if s.op == "strc" && i.n != nil && i.n.IsInt64() {
		k := i.n.Int64()
		if k >= 0 && k < int64(len(s.name)) {
			return tt.Int(int64(s.name[k]))
		}
	}
	t := tt.App("strat", sInt, s, i)
	if t.lo == nil {
		t.lo = big.NewInt(0)
		t.hi = big.NewInt(255)
	}
	return t
}

// Forall over bound vars (with optional patterns)
func (tt *TermTab) Forall(bvs []*Term, body *Term, pats ...*Term) *Term {
	if body.isTrue() || body.isFalse() {
		return body
	}
	var n []string
	for _, b := range bvs {
		n = append(n, b.name+" "+b.sort)
	}
	var pn []string
	for _, p := range pats {
		pn = append(pn, fmt.Sprint(p.id))
	}
	t := tt.mk("forall", strings.Join(n, ";")+"#"+strings.Join(pn, ","), sBool, append([]*Term{body}, append(append([]*Term{}, bvs...), pats...)...)...)
	if t.n == nil {
		t.n = big.NewInt(int64(len(bvs)))
	}
	t.bound = false
	bs := map[*Term]bool{}
	for _, b := range bvs {
		bs[b] = true
	}
	// still bound if it contains other bound variables
	t.bound = hasOtherBound(body, bs, map[*Term]bool{})
	return t
}

func hasOtherBound(t *Term, bs, seen map[*Term]bool) bool {
	if !t.bound || seen[t] {
		return false
	}
	seen[t] = true
	if t.op == "bv" {
		return !bs[t]
	}
	if t.op == "forall" {
		k := int(t.n.Int64())
		nb := map[*Term]bool{}
		for b := range bs {
			nb[b] = true
		}
		for _, b := range t.args[1 : 1+k] {
			nb[b] = true
		}
		return hasOtherBound(t.args[0], nb, map[*Term]bool{})
	}
	for _, a := range t.args {
		if hasOtherBound(a, bs, seen) {
			return true
		}
	}
	return false
}

// Subst replaces terms (usually bound variables) by others.
func (tt *TermTab) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r := m[t]; r != nil {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r := memo[t]; r != nil {
			return r
		}
		na := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			na[i] = f(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = tt.rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func (tt *TermTab) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "+":
		return tt.Add(a...)
	case "*":
		return tt.Mul(a[0], a[1])
	case "div":
		return tt.Div(a[0], a[1])
	case "mod":
		return tt.Mod(a[0], a[1])
	case "<=":
		return tt.Le(a[0], a[1])
	case "<":
		return tt.Lt(a[0], a[1])
	case "=":
		return tt.Eq(a[0], a[1])
	case "not":
		return tt.Not(a[0])
	case "and":
		return tt.And(a...)
	case "or":
		return tt.Or(a...)
	case "ite":
		return tt.Ite(a[0], a[1], a[2])
	case "select":
		return tt.Select(a[0], a[1])
	case "store":
		return tt.Store(a[0], a[1], a[2])
	case "sel":
		switch t.name {
		case "sref":
			return tt.SRef(a[0])
		case "soff":
			return tt.SOff(a[0])
		case "slen":
			return tt.SLn(a[0])
		case "scap":
			return tt.SCap(a[0])
		case "itag":
			return tt.ITag(a[0])
		case "ival":
			return tt.IVal(a[0])
		}
	case "app":
		switch t.name {
		case "strlen":
			return tt.SLen(a[0])
		case "strat":
			return tt.SAt(a[0], a[1])
		}
		return tt.App(t.name, t.sort, a...)
	case "forall":
		k := int(t.n.Int64())
		return tt.Forall(a[1:1+k], a[0], a[1+k:]...)
	}
	return tt.mk(t.op, t.name, t.sort, a...)
}

// ---- printing

type printer struct {
	sb    strings.Builder
	decl  map[*Term]string // shared definitions
	count map[*Term]int
	done  map[*Term]bool
	defs  strings.Builder
	ufs   map[string]bool
	strs  []*Term
	tt    *TermTab
	axs   []*Term
	axm   map[*Term]bool
	useSA bool
	useSL bool
}

// Script renders declarations, definitions and assertions for the given formulas.
func (tt *TermTab) Script(fs0 []*Term) string {
	fs := make([]*Term, len(fs0))
	for i, f := range fs0 {
		fs[i] = tt.triggers(f)
	}
	p := &printer{decl: map[*Term]string{}, count: map[*Term]int{}, done: map[*Term]bool{}, ufs: map[string]bool{}, tt: tt, axm: map[*Term]bool{}}
	// collect all reachable terms with their axioms
	var all []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		p.count[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		all = append(all, t)
		for _, a := range t.ax {
			if !p.axm[a] {
				p.axm[a] = true
				p.axs = append(p.axs, a)
				walk(a)
			}
		}
		if t.base != nil {
			walk(t.base)
		}
		if t.fbase != nil {
			walk(t.fbase)
			for _, x := range t.fex {
				walk(x)
			}
		}
	}
	for _, f := range fs {
		walk(f)
	}
	var d strings.Builder
	var rng []string
	for _, t := range all {
		switch t.op {
		case "var":
			fmt.Fprintf(&d, "(declare-fun %s () %s)\n", t.name, t.sort)
			if t.base != nil {
				rng = append(rng, fmt.Sprintf("(forall ((r Int)) (! (=> (< r %s) (= (select %s r) (select %s r))) :pattern ((select %s r))))", num(t.mark), t.name, t.base.name0(), t.name))
			}
			if t.fbase != nil {
				c := "(< r 0)"
				for _, x := range t.fex {
					c = fmt.Sprintf("(and %s (not (= r %s)))", c, x.name0())
				}
				rng = append(rng, fmt.Sprintf("(forall ((r Int)) (! (=> %s (= (select %s r) (select %s r))) :pattern ((select %s r))))", c, t.name, t.fbase.name0(), t.name))
			}
		case "app":
			if !p.ufs[t.name] {
				p.ufs[t.name] = true
				u := tt.ufs[t.name]
				fmt.Fprintf(&d, "(declare-fun %s (%s) %s)\n", t.name, strings.Join(u.args, " "), u.res)
			}
			if t.name == "strlen" {
				p.useSL = true
			}
		case "strc":
			p.strs = append(p.strs, t)
		case "blit":
			fmt.Fprintf(&d, "(declare-fun b%d () %s)\n", t.id, t.sort)
		}
	}
	var base strings.Builder
	base.WriteString("(declare-datatypes ((Slice 0)) (((mkS (sref Int) (soff Int) (slen Int) (scap Int)))))\n(declare-datatypes ((Iface 0)) (((mkI (itag Int) (ival Int)))))\n(declare-sort Str 0)\n")
	var sdecl strings.Builder
	names := map[*Term]string{}
	for i, s := range p.strs {
		names[s] = fmt.Sprintf("str.c%d", i)
		fmt.Fprintf(&sdecl, "(declare-fun %s () Str)\n", names[s])
	}
	if len(p.strs) > 1 {
		sdecl.WriteString("(assert (distinct")
		for _, s := range p.strs {
			sdecl.WriteString(" " + names[s])
		}
		sdecl.WriteString("))\n")
	}
	for _, t := range all {
		if t.op == "blit" {
			names[t] = fmt.Sprintf("b%d", t.id)
		}
	}
	p.decl = names
	// base arrays referenced by declared vars may be non-variables: define them
	var body strings.Builder
	// define shared closed subterms
	ite := map[*Term]bool{}
	for _, t := range all {
		if t.bound || len(t.args) == 0 || p.decl[t] != "" {
			continue
		}
		if p.count[t] > 1 || t.needName || t.op == "ite" && t.sort != sInt && t.sort != sBool {
			nm := fmt.Sprintf("t%d", t.id)
			s := p.str(t)
			if t.sort != sInt && t.sort != sBool && hasIte(t, ite) {
				// a declared constant: usable in triggers
				fmt.Fprintf(&d, "(declare-fun %s () %s)\n", nm, t.sort)
				fmt.Fprintf(&body, "(assert (= %s %s))\n", nm, s)
			} else {
				fmt.Fprintf(&body, "(define-fun %s () %s %s)\n", nm, t.sort, s)
			}
			p.decl[t] = nm
		}
	}
	for _, t := range all {
		if t.bound {
			continue
		}
		if t.sort == sInt && (t.lo != nil || t.hi != nil) && needRange(t) {
			s := p.str(t)
			if t.lo != nil {
				fmt.Fprintf(&body, "(assert (<= %s %s))\n", num(t.lo), s)
			}
			if t.hi != nil {
				fmt.Fprintf(&body, "(assert (<= %s %s))\n", s, num(t.hi))
			}
		}
		if t.op == "select" && t.args[0].op == "store" {
			// the element below the stores obeys the bounds of the base array
			b := arrBase(t.args[0])
			if b.rhi != nil && (t.sort != sInt || b.eref) {
				x := fmt.Sprintf("(select %s %s)", p.str(b), p.str(t.args[1]))
				switch t.sort {
				case sInt:
					fmt.Fprintf(&body, "(assert (<= %s %s))\n", x, num(b.rhi))
				case sSlice:
					fmt.Fprintf(&body, "(assert (<= (sref %s) %s))\n", x, num(b.rhi))
				case sIface:
					fmt.Fprintf(&body, "(assert (<= (ival %s) %s))\n", x, num(b.rhi))
				}
			}
		}
		if t.sort == sSlice && t.op != "mkS" && t.op != "ite" {
			s := p.str(t)
			fmt.Fprintf(&body, "(assert (and (<= 0 (slen %s)) (<= (slen %s) (scap %s)) (<= (scap %s) 281474976710656) (<= 0 (soff %s)) (<= (soff %s) 281474976710656) (=> (= (sref %s) 0) (= (scap %s) 0))))\n", s, s, s, s, s, s, s, s)
			if t.rhi != nil {
				fmt.Fprintf(&body, "(assert (<= (sref %s) %s))\n", s, num(t.rhi))
			}
		}
		if t.sort == sIface && t.op != "mkI" && t.op != "ite" {
			s := p.str(t)
			fmt.Fprintf(&body, "(assert (and (<= 0 (itag %s)) (=> (= (itag %s) 0) (= (ival %s) 0))))\n", s, s, s)
			if t.rhi != nil {
				fmt.Fprintf(&body, "(assert (<= (ival %s) %s))\n", s, num(t.rhi))
			}
		}
	}
	for _, r := range rng {
		fmt.Fprintf(&body, "(assert %s)\n", r)
	}
	if p.useSL {
		for _, s := range p.strs {
			fmt.Fprintf(&body, "(assert (= (strlen %s) %d))\n", names[s], len(s.name))
		}
		if names[tt.Str("")] != "" {
			fmt.Fprintf(&body, "(assert (forall ((s Str)) (! (=> (= (strlen s) 0) (= s %s)) :pattern ((strlen s)))))\n", names[tt.Str("")])
		}
	}
	if p.ufs["strat"] {
		for _, s := range p.strs {
			if len(s.name) <= 40 {
				for i := 0; i < len(s.name); i++ {
					fmt.Fprintf(&body, "(assert (= (strat %s %d) %d))\n", names[s], i, s.name[i])
				}
			}
		}
	}
	for _, a := range p.axs {
		fmt.Fprintf(&body, "(assert %s)\n", p.str(a))
	}
	for _, f := range fs {
		fmt.Fprintf(&body, "(assert %s)\n", p.str(f))
	}
	return base.String() + d.String() + sdecl.String() + body.String()
}

func hasIte(t *Term, memo map[*Term]bool) bool {
	if v, ok := memo[t]; ok {
		return v
	}
	r := t.op == "ite"
	if !r && t.op != "forall" {
		for _, a := range t.args {
			if hasIte(a, memo) {
				r = true
				break
			}
		}
	}
	memo[t] = r
	return r
}

func needRange(t *Term) bool {
	switch t.op {
	case "var", "select", "app", "sel":
		if t.op == "sel" {
			return false // covered by the slice axioms
		}
		return true
	}
	return false
}

func (t *Term) name0() string {
	if t.n != nil && t.sort == sInt {
		return num(t.n)
	}
	if t.op == "var" {
		return t.name
	}
	if t.op == "blit" {
		return fmt.Sprintf("b%d", t.id)
	}
	return fmt.Sprintf("t%d", t.id)
}

func num(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func (p *printer) str(t *Term) string {
	if s := p.decl[t]; s != "" {
		return s
	}
	switch t.op {
	case "int":
		return num(t.n)
	case "true", "false":
		return t.op
	case "var", "bv":
		return t.name
	case "constarr":
		return fmt.Sprintf("((as const %s) %s)", t.sort, p.str(t.args[0]))
	case "forall":
		k := int(t.n.Int64())
		var sb strings.Builder
		sb.WriteString("(forall (")
		for _, b := range t.args[1 : 1+k] {
			fmt.Fprintf(&sb, "(%s %s)", b.name, b.sort)
		}
		sb.WriteString(") ")
		if len(t.args) > 1+k {
			sb.WriteString("(! ")
		}
		sb.WriteString(p.str(t.args[0]))
		if len(t.args) > 1+k {
			for _, q := range t.args[1+k:] {
				if q.op == "pat" {
					sb.WriteString(" :pattern (")
					for i, x := range q.args {
						if i > 0 {
							sb.WriteByte(' ')
						}
						sb.WriteString(p.str(x))
					}
					sb.WriteString(")")
					continue
				}
				sb.WriteString(" :pattern (" + p.str(q) + ")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return sb.String()
	}
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.op {
	case "app", "sel":
		sb.WriteString(t.name)
	default:
		sb.WriteString(t.op)
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(p.str(a))
	}
	sb.WriteByte(')')
	if len(t.args) == 0 {
		return t.name
	}
	return sb.String()
}

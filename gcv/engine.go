package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

var buildMu sync.Mutex

const allocBase = 1000
const eraGap = 1 << 20

type deferRec struct {
	call *ssa.Defer
	c    *Call
}

type Frame struct {
	fn     *ssa.Function
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	env    map[ssa.Value]Value
	defers []deferRec
	loops  []*LoopAct
	k      Cont
	name   string
}

type Cont func(st *State, res Value) []*State

type Snapshot struct {
	heap  map[string]*Term
	ghost map[string]SV
}

type State struct {
	heap   map[string]*Term
	ghost  map[string]SV
	pc     []*Term
	frames []*Frame
	held   map[*Term]int
	alloc  int64
	spec   *SpecCtx
	acq    *Snapshot
	prev   *Snapshot
	trace  []string
	nonnil map[*Term]bool
	known  map[*Term]*Closure // function terms with known behaviour
	lockgn int64              // number of critical sections entered
	waits  []*Term            // channels of the select being evaluated
	dead   bool
	defDep int // depth of deferred execution
	locs   *locals
	rel    *Snapshot
	thread bool
}

func (st *State) clone() *State {
	n := *st
	n.heap = make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.ghost = make(map[string]SV, len(st.ghost))
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	n.trace = st.trace[:len(st.trace):len(st.trace)]
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		nf := *f
		nf.env = make(map[ssa.Value]Value, len(f.env))
		for k, v := range f.env {
			nf.env[k] = v
		}
		nf.defers = append([]deferRec(nil), f.defers...)
		nf.loops = append([]*LoopAct(nil), f.loops...)
		n.frames[i] = &nf
	}
	n.held = map[*Term]int{}
	for k, v := range st.held {
		n.held[k] = v
	}
	n.nonnil = map[*Term]bool{}
	for k, v := range st.nonnil {
		n.nonnil[k] = v
	}
	n.known = map[*Term]*Closure{}
	for k, v := range st.known {
		n.known[k] = v
	}
	return &n
}

func (st *State) snap() *Snapshot {
	s := &Snapshot{heap: make(map[string]*Term, len(st.heap)), ghost: make(map[string]SV, len(st.ghost))}
	for k, v := range st.heap {
		s.heap[k] = v
	}
	for k, v := range st.ghost {
		s.ghost[k] = v
	}
	return s
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

// Obligation record (one verification condition).
type Obl struct {
	Name           string   `json:"name"`
	Func           string   `json:"func"`
	Props          []string `json:"props"`
	Pos            string   `json:"pos,omitempty"`
	Result         string   `json:"result"` // "discharged" or "failed"
	By             string   `json:"by"`
	Reason         string   `json:"reason,omitempty"`
	Trace          []string `json:"trace,omitempty"`
	Model          string   `json:"model,omitempty"`
	Ms             int64    `json:"ms"`
	Cross, CrossOK int      `json:"-"`
}

type Engine struct {
	strExt    bool    // extensionality of strings at comparisons
	goSite    *ssa.Go // the go statement being executed
	variants  map[string]*variant
	loopAlive map[string]map[string]bool
	loopPhase string
	qt        bool
	where     string // debugging: the instruction executed
	ld        *Loader
	tt        *TermTab
	cs        *Contracts
	fs        *FuncSpec
	fname     string
	sol       *Solver
	clos      map[int64]*Closure
	fnLit     map[*ssa.Function]int64
	nextClo   int64
	tags      map[string]int64
	tagType   map[int64]types.Type
	subOf     map[*Term]subInfo
	subLit    map[string]*Term
	obls      []*Obl
	quiet     int
	covers    map[string]bool // reachability of labels
	inlined   map[string]bool
	unmod     map[string]bool // unmodelled calls
	usedInt   map[string]bool // intrinsics used
	paths     int
	steps     int
	deadl     time.Time
	vcache    map[string]bool
	fcache    map[string]Result
	globLit   map[string]int64
	globVal   map[string]*Term
	stopOn    func(st *State) bool
	failed    map[string]int
	isThr     bool
	only      string // property filter
	timeout   int
	thorough  bool
	unsup     map[string]bool
	heap0     map[string]*Term
	inSpec    int
	curPkg    string
	chElem    types.Type
	modular   map[string]bool
	invOK     map[string]bool
	curS0     *State
	keyType   map[string]types.Type
	returns   int
	hookHit   map[string]bool
	cancelFns map[*Term]bool
}

type subInfo struct {
	owner *Term
	key   string // struct type + "." + field
}

type Unsupported struct{ msg string }

func (u Unsupported) Error() string { return u.msg }

func unsup(f string, a ...any) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

func NewEngine(ld *Loader, cs *Contracts) *Engine {
	e := &Engine{ld: ld, tt: NewTermTab(), cs: cs, clos: map[int64]*Closure{}, cancelFns: map[*Term]bool{}, fnLit: map[*ssa.Function]int64{}, nextClo: 1 << 50,
		tags: map[string]int64{}, tagType: map[int64]types.Type{}, subOf: map[*Term]subInfo{}, subLit: map[string]*Term{},
		covers: map[string]bool{}, inlined: map[string]bool{}, unmod: map[string]bool{}, usedInt: map[string]bool{},
		vcache: map[string]bool{}, fcache: map[string]Result{}, globLit: map[string]int64{}, globVal: map[string]*Term{}, failed: map[string]int{}, modular: map[string]bool{}, invOK: map[string]bool{}, keyType: map[string]types.Type{}, hookHit: map[string]bool{}, timeout: 8000, unsup: map[string]bool{}, heap0: map[string]*Term{}}
	return e
}

func (e *Engine) newState() *State {
	return &State{heap: map[string]*Term{}, ghost: map[string]SV{}, held: map[*Term]int{}, alloc: allocBase, nonnil: map[*Term]bool{}, known: map[*Term]*Closure{}}
}

// ---------- solver interface

func (e *Engine) solver() *Solver {
	if e.sol == nil || e.sol.cmd == nil {
		s, err := startSolver("z3-new", "-in", "-smt2")
		if err != nil {
			panic(err)
		}
		e.sol = s
	}
	return e.sol
}

func qf(t *Term, memo map[*Term]bool) bool {
	if v, ok := memo[t]; ok {
		return v
	}
	r := t.op != "forall"
	if r {
		for _, a := range t.args {
			if !qf(a, memo) {
				r = false
				break
			}
		}
	}
	memo[t] = r
	return r
}

func key(ts []*Term) string {
	var sb strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&sb, "%d,", t.id)
	}
	return sb.String()
}

func (e *Engine) ask(fs []*Term, ms int) Result {
	k := key(fs)
	if r, ok := e.fcache[k]; ok {
		return r
	}
	s := e.solver()
	t0 := time.Now()
	r, msg := s.check(e.tt.Script(fs), ms, false)
	if os.Getenv("GCV_QT") != "" {
		if e.loopPhase == "m" && r == Unknown {
			_ = os.WriteFile("/tmp/w/unk.smt2", []byte(e.tt.Script(fs)+"(check-sat)\n"), 0o644)
		}
		fmt.Fprintf(os.Stderr, "Q %d %v %s %s %s\n", time.Since(t0).Milliseconds(), r, e.loopPhase, fs[len(fs)-1].op, e.where)
	}
	if d := time.Since(t0); d > time.Second && os.Getenv("GCV_SLOW") != "" {
		fmt.Fprintf(os.Stderr, "SLOW %v %v goal %.60s\n", d, r, fs[len(fs)-1].op)
		_ = os.WriteFile(fmt.Sprintf("/tmp/w/slow_%d.smt2", e.tt.nv), []byte(e.tt.Script(fs)+"(check-sat)\n"), 0o644)
	}
	if msg == "solver died" {
		s.close()
		e.sol = nil
	}
	e.fcache[k] = r
	return r
}

// feasible: quantifier-free over-approximation.
func (e *Engine) feasible(st *State, c *Term) bool {
	if c.isFalse() {
		return false
	}
	if c.isTrue() {
		return true
	}
	fs, _ := e.qfOnly(st.pc)
	if len(e.fs.Positions) > 0 {
		// the large facts (encodings) rarely decide a branch
		fs = e.smallOnes(fs)
	}
	if qf(c, map[*Term]bool{}) {
		fs = append(fs, c)
	}
	return e.ask(fs, 2000) != Unsat
}

func (e *Engine) smallOnes(fs []*Term) (sm []*Term) {
	for _, f := range fs {
		if e.tt.size(f) <= 200 {
			sm = append(sm, f)
		}
	}
	return
}

// size counts the distinct subterms of f.
func (tt *TermTab) size(f *Term) int {
	if n, ok := tt.sizes[f]; ok {
		return n
	}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !seen[t] {
			seen[t] = true
			for _, a := range t.args {
				walk(a)
			}
		}
	}
	walk(f)
	tt.sizes[f] = len(seen)
	return len(seen)
}

// qfOnly is the quantifier-free part of the path condition, and whether
// something was left out.
func (e *Engine) qfOnly(pc []*Term) ([]*Term, bool) {
	var fs []*Term
	m := map[*Term]bool{}
	left := false
	for _, f := range pc {
		if qf(f, m) {
			fs = append(fs, f)
			continue
		}
		left = true
		if w := e.tt.weaken(f, m); !w.isTrue() {
			fs = append(fs, w)
		}
	}
	return fs, left
}

// weaken drops the quantified parts of a formula: f implies weaken(f).
func (tt *TermTab) weaken(f *Term, m map[*Term]bool) *Term {
	if qf(f, m) {
		return f
	}
	if r := tt.weak[f]; r != nil {
		return r
	}
	r := tt.Bool(true)
	switch f.op {
	case "and", "or":
		var as []*Term
		for _, a := range f.args {
			as = append(as, tt.weaken(a, m))
		}
		if f.op == "and" {
			r = tt.And(as...)
		} else {
			r = tt.Or(as...)
		}
	}
	tt.weak[f] = r
	return r
}

// valid checks pc => f (no obligation is recorded).
func (e *Engine) valid(st *State, f *Term, ms int) bool {
	if f.isTrue() {
		return true
	}
	neg := e.negGoal(f)
	if qf(neg, map[*Term]bool{}) {
		fs, left := e.qfOnly(st.pc)
		if len(e.fs.Positions) > 0 {
			if sm := e.smallOnes(fs); len(sm) < len(fs) && e.ask(append(sm, neg), ms) == Unsat {
				return true
			}
		}
		if e.ask(append(fs, neg), ms) == Unsat {
			return true
		}
		if !left {
			return false
		}
	}
	fs := append(append([]*Term{}, st.pc...), neg)
	return e.ask(fs, ms) == Unsat
}

// negGoal negates a goal, skolemising its top-level universal quantifiers.
func (e *Engine) negGoal(f *Term) *Term {
	return e.tt.Not(e.skolem(f))
}

func (e *Engine) skolem(f *Term) *Term {
	switch f.op {
	case "forall":
		k := int(f.n.Int64())
		m := map[*Term]*Term{}
		for _, b := range f.args[1 : 1+k] {
			v := e.tt.Var("sk", b.sort)
			m[b] = v
		}
		return e.skolem(e.tt.Subst(f.args[0], m))
	case "and":
		var r []*Term
		for _, a := range f.args {
			r = append(r, e.skolem(a))
		}
		return e.tt.And(r...)
	case "or":
		var r []*Term
		for _, a := range f.args {
			if a.op == "not" {
				r = append(r, a)
			} else {
				r = append(r, e.skolem(a))
			}
		}
		return e.tt.Or(r...)
	}
	return f
}

func (st *State) assume(f *Term) {
	if f.isTrue() {
		return
	}
	if f.op == "and" {
		for _, a := range f.args {
			st.assume(a)
		}
		return
	}
	if f.isFalse() {
		st.dead = true
	}
	st.pc = append(st.pc, f)
}

func (e *Engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := e.ld.prog.Fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(e.ld.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (e *Engine) curPos(st *State) string {
	for i := len(st.frames) - 1; i >= 0; i-- {
		fr := st.frames[i]
		if !inRepo(fr.fn) {
			continue
		}
		for j := fr.idx; j >= 0; j-- {
			if j < len(fr.block.Instrs) {
				if p := fr.block.Instrs[j].Pos(); p.IsValid() {
					return e.pos(p)
				}
			}
		}
	}
	return ""
}

// oblige records and checks an obligation; afterwards it is assumed.
func (e *Engine) oblige(st *State, label string, props []string, f *Term) {
	if st.dead {
		return
	}
	if e.quiet > 0 {
		st.assume(f)
		return
	}
	if e.only != "" {
		has := false
		for _, p := range props {
			if p == e.only {
				has = true
			}
		}
		if !has {
			st.assume(f)
			return
		}
	}
	o := &Obl{Name: e.fname + "/" + label, Func: e.fname, Props: props, Pos: e.curPos(st)}
	t0 := time.Now()
	if n := atomic.LoadInt64(&failTotal); n >= 3 {
		e.timeout = min(e.timeout, 2500)
		e.failed["*fallback"] = 99
	}
	r, by, reason := e.prove(st, f)
	if !r && !strings.HasPrefix(reason, "undecided: time budget") {
		if os.Getenv("GCV_FAILFAST") != "" { // developer switch: stop at the first failure
			fmt.Println("   FAILED", o.Name, o.Pos, reason)
			os.Exit(1)
		}
		atomic.AddInt64(&failTotal, 1)
	}
	if r && e.thorough && by != "simplifier" {
		fs := append(append([]*Term{}, st.pc...), e.negGoal(f))
		cr, _ := runOnce("cvc5", []string{"--lang=smt2", "--tlimit=3000"}, "(set-logic ALL)\n"+e.tt.Script(fs)+"(check-sat)\n", 4000)
		if cr != Unknown {
			o.Cross++
		}
		if cr == Unsat {
			o.CrossOK++
		}
		if cr == Sat {
			r, reason = false, "the two solvers disagree on this obligation"
		}
	}
	o.Ms = time.Since(t0).Milliseconds()
	o.By = by
	if r {
		o.Result = "discharged"
	} else {
		o.Result = "failed"
		o.Reason = reason
		o.Trace = append([]string{}, st.trace...)
		e.failed[o.Name]++
		if os.Getenv("GCV_DUMP") != "" {
			fs := append(append([]*Term{}, st.pc...), e.negGoal(f))
			_ = os.WriteFile(fmt.Sprintf("/tmp/gcv_%s_%d.smt2", san(o.Name), len(e.obls)), []byte(e.tt.Script(fs)+"(check-sat)\n"), 0o644)
		}
	}
	e.obls = append(e.obls, o)
	st.assume(f)
}

func (e *Engine) prove(st *State, f *Term) (bool, string, string) {
	if f.isTrue() {
		return true, "simplifier", ""
	}
	if time.Now().After(e.deadl) {
		return false, "", "undecided: time budget of the check exhausted"
	}
	// goal-directed: a conjunction is proved part by part
	if f.op == "and" {
		by := ""
		for _, g := range f.args {
			r, b, why := e.prove(st, g)
			if !r {
				return false, "", why
			}
			by = b
		}
		return true, by, ""
	}
	if f.op == "or" && !qf(f, map[*Term]bool{}) {
		for i, a := range f.args {
			if a.op != "and" {
				continue
			}
			by := ""
			for _, g := range a.args {
				as := append([]*Term{}, f.args...)
				as[i] = g
				r, b, why := e.prove(st, e.tt.Or(as...))
				if !r {
					return false, "", why
				}
				by = b
			}
			return true, by, ""
		}
	}
	neg := e.negGoal(f)
	return e.refute(st, neg)
}

func (e *Engine) refute(st *State, neg *Term) (bool, string, string) {
	if neg.isFalse() {
		return true, "simplifier", ""
	}
	m := map[*Term]bool{}
	qfs, left := e.qfOnly(st.pc)
	hasQ := left || !qf(neg, m)
	if qf(neg, m) {
		if len(e.fs.Positions) > 0 {
			if sm := e.smallOnes(qfs); len(sm) < len(qfs) && e.ask(append(sm, neg), 2000) == Unsat {
				return true, "z3-5.3", ""
			}
		}
		r := e.ask(append(qfs, neg), e.timeout)
		if r == Unsat {
			return true, "z3-5.3", ""
		}
		if r == Sat && !hasQ {
			return false, "", "refuted: the solver found values that violate the obligation"
		}
	}
	fs := append(append([]*Term{}, st.pc...), neg)
	if r := e.ask(fs, e.timeout); r == Unsat {
		return true, "z3-5.3", ""
	}
	// fall back
	if e.failed["*fallback"] < 12 {
		e.failed["*fallback"]++
		sc := e.tt.Script(fs)
		if r, _ := runOnce("z3-new", []string{"-in", "-smt2", fmt.Sprintf("-T:%d", e.timeout/1000+1)}, sc+"(check-sat)\n", e.timeout+3000); r == Unsat {
			return true, "z3-5.3 (mbqi)", ""
		} else if r == Sat {
			return false, "", "refuted: the solver found values that violate the obligation"
		}
		if r, _ := runOnce("cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", e.timeout)}, "(set-logic ALL)\n"+sc+"(check-sat)\n", e.timeout+3000); r == Unsat {
			return true, "cvc5-1.1.2", ""
		} else if r == Sat {
			return false, "", "refuted: the solver found values that violate the obligation"
		}
	}
	return false, "", "undecided: no solver proved the obligation"
}

// fail records a failed obligation outright.
func (e *Engine) failObl(st *State, label string, props []string, reason string) {
	if e.quiet > 0 || st != nil && st.dead {
		return
	}
	if e.only != "" {
		has := false
		for _, p := range props {
			if p == e.only {
				has = true
			}
		}
		if !has {
			return
		}
	}
	o := &Obl{Name: e.fname + "/" + label, Func: e.fname, Props: props, Result: "failed", Reason: reason}
	if st != nil {
		o.Pos = e.curPos(st)
		o.Trace = append([]string{}, st.trace...)
	}
	e.failed[o.Name]++
	e.obls = append(e.obls, o)
}

func (e *Engine) safe(st *State, what string, f *Term) {
	if f.isTrue() || e.inSpec > 0 {
		return
	}
	if e.fs.NoSafety {
		st.assume(f)
		return
	}
	e.oblige(st, "safety."+what, e.safetyProps(), f)
}

func (e *Engine) safetyProps() []string {
	if len(e.fs.Safety) > 0 {
		return e.fs.Safety
	}
	return e.fs.Props
}

// ---------- heap

func (e *Engine) heapArr(st *State, key string, srt string, t types.Type) *Term {
	if a := st.heap[key]; a != nil {
		return a
	}
	if t != nil && e.keyType[key] == nil {
		e.keyType[key] = t
	}
	a := e.heap0[key]
	if a == nil {
		a = e.tt.Const("H0."+key, arr(srt))
		if a.rhi == nil && t != nil && holdsRef(t) {
			a.rhi = big.NewInt(0)
			a.eref = isRefType(t)
		}
		a.zeroNew = ghostAttr(key) && (srt == sBool || srt == sInt)
		e.heap0[key] = a
	}
	st.heap[key] = a
	return a
}

func (e *Engine) typed(v *Term, t types.Type) *Term {
	if v.sort == sInt && v.lo == nil && v.hi == nil && v.n == nil {
		if lo, hi, bits, _ := intRange(t); bits != 0 {
			switch v.op {
			case "select", "var", "app":
				v.lo, v.hi = lo, hi
			}
		}
	}
	return v
}

func (e *Engine) fieldKey(stt types.Type, i int) (string, *types.Var) {
	s := under(stt).(*types.Struct)
	return "F:" + typeKey(stt) + "." + s.Field(i).Name(), s.Field(i)
}

// subRef returns the reference of a struct/array typed field embedded in an object.
func (e *Engine) subRef(ref *Term, key string) *Term {
	k := fmt.Sprintf("%d|%s", ref.id, key)
	if t := e.subLit[k]; t != nil {
		return t
	}
	var t *Term
	if ref.n != nil && ref.n.Sign() > 0 {
		// literal objects: a literal sub-object in a separate range
		e.nextClo++
		t = e.tt.Int(e.nextClo)
		e.tt.owner[t] = ref
	} else {
		un := "sub." + san(key)
		t = e.tt.App(un, sInt, ref)
		if !t.bound {
			inv := e.tt.App("own."+san(key), sInt, t)
			t.ax = append(t.ax, e.tt.Eq(inv, ref))
			if ref.hi != nil && ref.hi.Sign() <= 0 {
				t.hi = big.NewInt(-1)
			}
		}
		if t.hi == nil {
			t.ax = append(t.ax, e.tt.Not(e.tt.Eq(t, e.tt.Int(0))))
		}
	}
	e.subLit[k] = t
	e.subOf[t] = subInfo{owner: ref, key: key}
	return t
}

// load reads a value of type t at reference ref (ref points to a cell or a struct).
func (e *Engine) loadRef(st *State, ref *Term, t types.Type) Value {
	if s, ok := isStruct(t); ok {
		sv := &StructV{typ: s}
		for i := 0; i < s.NumFields(); i++ {
			sv.fields = append(sv.fields, e.loadField(st, ref, t, i))
		}
		return sv
	}
	if a, ok := under(t).(*types.Array); ok {
		sv := &StructV{}
		if a.Len() > 64 {
			unsup("array load")
		}
		for i := int64(0); i < a.Len(); i++ {
			sv.fields = append(sv.fields, e.loadElem(st, ref, e.tt.Int(i), a.Elem()))
		}
		return sv
	}
	key := "C:" + typeKey(t)
	return e.typed(e.tt.Select(e.heapArr(st, key, sortOf(t), t), ref), t)
}

func (e *Engine) loadField(st *State, ref *Term, stt types.Type, i int) Value {
	key, f := e.fieldKey(stt, i)
	if sortOf(f.Type()) == "" {
		return e.loadRef(st, e.subRef(ref, strings.TrimPrefix(key, "F:")), f.Type())
	}
	e.guard(st, key, ref, false)
	return e.typed(e.tt.Select(e.heapArr(st, key, sortOf(f.Type()), f.Type()), ref), f.Type())
}

func (e *Engine) storeRef(st *State, ref *Term, t types.Type, v Value) {
	if s, ok := isStruct(t); ok {
		sv, ok := v.(*StructV)
		if !ok {
			unsup("store of non-struct value")
		}
		for i := 0; i < s.NumFields(); i++ {
			e.storeField(st, ref, t, i, sv.fields[i])
		}
		return
	}
	if a, ok := under(t).(*types.Array); ok {
		sv := v.(*StructV)
		for i := int64(0); i < a.Len(); i++ {
			e.storeElem(st, ref, e.tt.Int(i), a.Elem(), sv.fields[i])
		}
		return
	}
	key := "C:" + typeKey(t)
	st.heap[key] = e.tt.Store(e.heapArr(st, key, sortOf(t), t), ref, e.term(v))
}

func (e *Engine) storeField(st *State, ref *Term, stt types.Type, i int, v Value) {
	key, f := e.fieldKey(stt, i)
	if sortOf(f.Type()) == "" {
		e.storeRef(st, e.subRef(ref, strings.TrimPrefix(key, "F:")), f.Type(), v)
		return
	}
	e.guard(st, key, ref, true)
	st.heap[key] = e.tt.Store(e.heapArr(st, key, sortOf(f.Type()), f.Type()), ref, e.term(v))
}

func memKey(elem types.Type) string { return "M:" + typeKey(elem) }

func (e *Engine) memArr(st *State, elem types.Type) *Term {
	s := sortOf(elem)
	if s == "" {
		unsup("slice of composite elements %s", elem)
	}
	return e.heapArr(st, memKey(elem), arr(s), elem)
}

func (e *Engine) elemRef(ref, idx *Term, elem types.Type) *Term {
	if ref.n != nil && idx.n != nil {
		k := fmt.Sprintf("el|%s|%s|%s", ref.n, idx.n, typeKey(elem))
		if t := e.subLit[k]; t != nil {
			return t
		}
		e.nextClo++
		t := e.tt.Int(e.nextClo)
		e.subLit[k] = t
		e.tt.owner[t] = ref
		return t
	}
	t := e.tt.App("elem."+san(typeKey(elem)), sInt, ref, idx)
	if t.hi == nil && ref.hi != nil && ref.hi.Sign() <= 0 {
		t.hi = big.NewInt(-1)
	}
	return t
}

func (e *Engine) loadElem(st *State, ref, idx *Term, elem types.Type) Value {
	if sortOf(elem) == "" {
		return e.loadRef(st, e.elemRef(ref, idx, elem), elem)
	}
	return e.typed(e.tt.Select(e.tt.Select(e.memArr(st, elem), ref), idx), elem)
}

func (e *Engine) storeElem(st *State, ref, idx *Term, elem types.Type, v Value) {
	if sortOf(elem) == "" {
		e.storeRef(st, e.elemRef(ref, idx, elem), elem, v)
		return
	}
	m := e.memArr(st, elem)
	st.heap[memKey(elem)] = e.tt.Store(m, ref, e.tt.Store(e.tt.Select(m, ref), idx, e.term(v)))
}

func (e *Engine) load(st *State, a Value, t types.Type) Value {
	switch x := a.(type) {
	case *Addr:
		if x.idx != nil {
			return e.loadElem(st, x.ref, x.idx, x.typ)
		}
		e.guard(st, x.key, x.ref, false)
		return e.typed(e.tt.Select(e.heapArr(st, x.key, sortOf(x.typ), x.typ), x.ref), x.typ)
	case *Term:
		e.nonNil(st, x, "load")
		return e.loadRef(st, x, t)
	}
	unsup("load from %T", a)
	return nil
}

func (e *Engine) store(st *State, a Value, t types.Type, v Value) {
	switch x := a.(type) {
	case *Addr:
		if x.idx != nil {
			e.storeElem(st, x.ref, x.idx, x.typ, v)
			return
		}
		e.guard(st, x.key, x.ref, true)
		st.heap[x.key] = e.tt.Store(e.heapArr(st, x.key, sortOf(x.typ), x.typ), x.ref, e.term(v))
		return
	case *Term:
		e.nonNil(st, x, "store")
		e.storeRef(st, x, t, v)
		return
	}
	unsup("store to %T", a)
}

func (e *Engine) nonNil(st *State, r *Term, what string) {
	if st.nonnil[r] {
		return
	}
	f := e.tt.Not(e.tt.Eq(r, e.tt.Int(0)))
	if !f.isTrue() {
		e.safe(st, "nil-"+what, f)
	}
	st.nonnil[r] = true
}

func (e *Engine) newRef(st *State) *Term {
	st.alloc++
	r := e.tt.Int(st.alloc)
	for k, a := range st.heap {
		if ghostAttr(k) && a != e.heap0[k] {
			switch arrElem(a.sort) {
			case sBool:
				st.heap[k] = e.tt.Store(a, r, e.tt.Bool(false))
			case sInt:
				st.heap[k] = e.tt.Store(a, r, e.tt.Int(0))
			}
		}
	}
	return r
}

// ghostAttr: ghost attributes of objects introduced by contracts start at zero.
func ghostAttr(k string) bool {
	return (strings.HasPrefix(k, "G:u.gb.") || strings.HasPrefix(k, "G:u.gi.")) && k != "G:u.gb.bufdead" || k == "G:once"
}

func (e *Engine) zero(st *State, t types.Type) Value {
	switch sortOf(t) {
	case sInt:
		return e.tt.Int(0)
	case sBool:
		return e.tt.Bool(false)
	case sStr:
		return e.tt.Str("")
	case sSlice:
		return e.nilSlice()
	case sIface:
		return e.tt.NilI()
	}
	if s, ok := isStruct(t); ok {
		sv := &StructV{typ: s}
		for i := 0; i < s.NumFields(); i++ {
			sv.fields = append(sv.fields, e.zero(st, s.Field(i).Type()))
		}
		return sv
	}
	if a, ok := under(t).(*types.Array); ok {
		if a.Len() > 64 {
			unsup("large array value")
		}
		sv := &StructV{}
		for i := int64(0); i < a.Len(); i++ {
			sv.fields = append(sv.fields, e.zero(st, a.Elem()))
		}
		return sv
	}
	if tp, ok := t.(*types.Tuple); ok {
		var tu Tuple
		for i := 0; i < tp.Len(); i++ {
			tu = append(tu, e.zero(st, tp.At(i).Type()))
		}
		return tu
	}
	unsup("zero of %s", t)
	return nil
}

func (e *Engine) nilSlice() *Term {
	z := e.tt.Int(0)
	return e.tt.MkS(z, z, z, z)
}

// fresh makes an unconstrained value of type t. refs point to foreign (pre) objects.
func (e *Engine) fresh(st *State, hint string, t types.Type) Value {
	return e.freshHi(st, hint, t, big.NewInt(0))
}

func (e *Engine) freshHi(st *State, hint string, t types.Type, rhi *big.Int) Value {
	switch s := sortOf(t); s {
	case "":
	default:
		v := e.tt.Var(hint, s)
		if s == sInt {
			if isRefType(t) {
				v.hi = rhi
			} else {
				e.typed(v, t)
			}
		}
		if s == sSlice || s == sIface {
			v.rhi = rhi
		}
		return v
	}
	if s, ok := isStruct(t); ok {
		sv := &StructV{typ: s}
		for i := 0; i < s.NumFields(); i++ {
			sv.fields = append(sv.fields, e.freshHi(st, hint+"."+s.Field(i).Name(), s.Field(i).Type(), rhi))
		}
		return sv
	}
	if tp, ok := t.(*types.Tuple); ok {
		var tu Tuple
		for i := 0; i < tp.Len(); i++ {
			tu = append(tu, e.freshHi(st, hint, tp.At(i).Type(), rhi))
		}
		return tu
	}
	if a, ok := under(t).(*types.Array); ok && a.Len() <= 64 {
		sv := &StructV{}
		for i := int64(0); i < a.Len(); i++ {
			sv.fields = append(sv.fields, e.freshHi(st, hint, a.Elem(), rhi))
		}
		return sv
	}
	unsup("fresh of %s", t)
	return nil
}

func (e *Engine) term(v Value) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *Addr:
		// address of a scalar field / element as a value
		if x.idx == nil {
			t := e.tt.App("addr."+san(x.key), sInt, x.ref)
			return t
		}
		return e.tt.App("addrel."+san(x.key), sInt, x.ref, x.idx)
	}
	unsup("no scalar term for %T", v)
	return nil
}

func (e *Engine) tag(t types.Type) *Term {
	k := typeKey(t)
	n, ok := e.tags[k]
	if !ok {
		n = int64(len(e.tags) + 1)
		e.tags[k] = n
		e.tagType[n] = t
	}
	return e.tt.Int(n)
}

func (e *Engine) pseudoTag(k string) *Term {
	n, ok := e.tags[k]
	if !ok {
		n = int64(len(e.tags) + 1)
		e.tags[k] = n
	}
	return e.tt.Int(n)
}

// iface boxes a value of concrete type t.
func (e *Engine) iface(st *State, v Value, t types.Type) *Term {
	if _, ok := under(t).(*types.Interface); ok {
		return e.term(v)
	}
	tag := e.tag(t)
	if isRefType(t) {
		return e.tt.MkI(tag, e.term(v))
	}
	if sv, ok := v.(*StructV); ok {
		r := e.newRef(st)
		e.storeRef(st, r, t, sv)
		return e.tt.MkI(tag, r)
	}
	x := e.term(v)
	b := e.tt.App("box."+san(typeKey(t)), sInt, x)
	if !b.bound && len(b.ax) == 0 {
		b.ax = append(b.ax, e.tt.Eq(e.tt.App("unbox."+san(typeKey(t)), x.sort, b), x))
	}
	return e.tt.MkI(tag, b)
}

func (e *Engine) unbox(st *State, i *Term, t types.Type) Value {
	if isRefType(t) {
		return e.tt.IVal(i)
	}
	if _, ok := isStruct(t); ok {
		return e.loadRef(st, e.tt.IVal(i), t)
	}
	v := e.tt.IVal(i)
	if v.op == "app" && v.name == "box."+san(typeKey(t)) {
		return v.args[0]
	}
	r := e.tt.App("unbox."+san(typeKey(t)), sortOf(t), v)
	if r.rhi == nil && (r.sort == sSlice || r.sort == sIface) {
		r.rhi = i.rhi
	}
	return e.typed(r, t)
}

func (e *Engine) closure(st *State, c *Closure) *Term {
	e.nextClo++
	e.clos[e.nextClo] = c
	return e.tt.Int(e.nextClo)
}

func (e *Engine) fnValue(f *ssa.Function) *Term {
	if n, ok := e.fnLit[f]; ok {
		return e.tt.Int(n)
	}
	e.nextClo++
	e.fnLit[f] = e.nextClo
	e.clos[e.nextClo] = &Closure{fn: f}
	return e.tt.Int(e.nextClo)
}

func (e *Engine) closureOf(st *State, t *Term) *Closure {
	if c := st.known[t]; c != nil {
		return c
	}
	if t.n != nil && t.n.IsInt64() {
		return e.clos[t.n.Int64()]
	}
	return nil
}

// norm wraps an arithmetic result into the range of its type.
func (e *Engine) norm(st *State, v *Term, t types.Type) *Term {
	lo, hi, bits, signed := intRange(t)
	if bits == 0 {
		return v
	}
	if v.lo != nil && v.hi != nil && v.lo.Cmp(lo) >= 0 && v.hi.Cmp(hi) <= 0 {
		return v
	}
	if v.op != "int" && len(st.pc) > 0 {
		if e.valid(st, e.tt.And(e.tt.Le(e.tt.IntB(lo), v), e.tt.Le(v, e.tt.IntB(hi))), 1000) {
			return v
		}
	}
	m := e.tt.IntB(pow2(bits))
	if !signed {
		return e.tt.Mod(v, m)
	}
	h := e.tt.IntB(pow2(bits - 1))
	return e.tt.Sub(e.tt.Mod(e.tt.Add(v, h), m), h)
}

// ---------- report helpers

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

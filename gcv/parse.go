package main

// Contract language: lexer, expression and item parser.

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type tok struct {
	k    string // "id" "int" "str" "op" "meta" "eof"
	s    string
	line int
}

type parser struct {
	file string
	toks []tok
	i    int
}

type Expr struct {
	op   string
	s    string
	n    *big.Int
	args []*Expr
	bv   []string
	bt   []string
	line int
	src  string
}

type Stmt struct {
	kind  string // assert assume set havoc if call return copy let setmem
	name  string
	names []string
	props []string
	label string
	e     *Expr
	es    []*Expr
	body  []*Stmt
	els   []*Stmt
	line  int
}

type Hook struct {
	kind   string // call dyn go send recv close wait acquire release closeany
	pat    string
	e      *Expr // dyn: function value; channel events: channel
	args   []string
	res    []string
	body   []*Stmt
	after  []*Stmt
	inline bool
	opt    bool
	id     string
}

type Clause struct {
	props []string
	label string
	e     *Expr
}

// Position is a value which the index of a loop may have at its head.
type Position struct{ e, when *Expr }

type FuncSpec struct {
	Name          string
	Args, Res     []string
	Props         []string
	Safety        []string
	Requires      []*Expr
	Lets          []*Stmt
	Ghosts        []*Stmt
	Hooks         []*Hook
	Uses          []string
	Ensures       []Clause
	ThreadEnsures []Clause
	Invs          []*Expr
	After         []*Stmt // executed when the function has returned
	Unroll        int
	Pure          bool
	NoReturn      bool
	ClosableChans bool
	NoUnroll      bool
	NestDiv       bool
	StrExt        bool
	Positions     []Position
	Expand        []string
	Framed        bool
	Modifies      []*Expr
	News          []string
	Decreases     []*Expr
	Timeout       int
	File          string
	Bounded       string
	NoSafety      bool
	Loops         string
}

func (fs *FuncSpec) hasMonitor(n string) bool { return true }

// monitorProps lists the properties a function contributes to because it
// works on monitored state.
func (cs *Contracts) monitorProps(fs *FuncSpec) []string {
	var out []string
	for _, m := range cs.Monitors {
		for _, a := range m.Applies {
			if matchName(a, fs.Name) {
				out = append(append(out, m.Props...), m.LockProps...)
				for _, c := range m.Steps {
					out = append(out, c.props...)
				}
			}
		}
	}
	return out
}

// Assumes lists the assume statements of the contract.
func (fs *FuncSpec) Assumes() []string {
	var out []string
	var walk func(ss []*Stmt)
	walk = func(ss []*Stmt) {
		for _, s := range ss {
			if s.kind == "assume" && s.e != nil {
				out = append(out, s.e.src)
			}
			walk(s.body)
			walk(s.els)
		}
	}
	for _, h := range fs.Hooks {
		walk(h.body)
		walk(h.after)
	}
	return out
}

// allProps lists the properties a function contract contributes to.
func (fs *FuncSpec) allProps() []string {
	m := map[string]bool{}
	add := func(l []string) {
		for _, p := range l {
			m[p] = true
		}
	}
	add(fs.Props)
	add(fs.Safety)
	var st func(ss []*Stmt)
	st = func(ss []*Stmt) {
		for _, s := range ss {
			add(s.props)
			st(s.body)
			st(s.els)
		}
	}
	for _, h := range fs.Hooks {
		st(h.body)
		st(h.after)
	}
	for _, c := range fs.Ensures {
		add(c.props)
	}
	for _, c := range fs.ThreadEnsures {
		add(c.props)
	}
	return sortedKeys(m)
}

type SpecFun struct {
	args []string
	e    *Expr
}

type Contracts struct {
	Funcs    []*FuncSpec
	ByName   map[string]*FuncSpec
	Monitors []*Monitor
	Groups   map[string]*FuncSpec
	Specs    map[string]*SpecFun
}

func lex(file, src string) []tok {
	var ts []tok
	line := 1
	i := 0
	isId := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_'
	}
	ops := []string{"<==>", "==>", "->", "&&", "||", "==", "!=", "<=", ">=", "::"}
next:
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '#' || c == '/' && i+1 < len(src) && src[i+1] == '/':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '"' || c == '`':
			j := i + 1
			for j < len(src) && src[j] != c {
				j++
			}
			ts = append(ts, tok{"str", src[i+1 : j], line})
			i = j + 1
		case c == '$':
			j := i + 1
			for j < len(src) && isId(src[j]) {
				j++
			}
			ts = append(ts, tok{"meta", src[i:j], line})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && src[j] >= '0' && src[j] <= '9' {
				j++
			}
			if j < len(src) && isId(src[j]) { // property ids like 12a are not numbers
				for j < len(src) && isId(src[j]) {
					j++
				}
				ts = append(ts, tok{"id", src[i:j], line})
			} else {
				ts = append(ts, tok{"int", src[i:j], line})
			}
			i = j
		case isId(c):
			j := i
			for j < len(src) && isId(src[j]) {
				j++
			}
			ts = append(ts, tok{"id", src[i:j], line})
			i = j
		default:
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					ts = append(ts, tok{"op", o, line})
					i += len(o)
					continue next
				}
			}
			ts = append(ts, tok{"op", string(c), line})
			i++
		}
	}
	return append(ts, tok{"eof", "", line})
}

func (p *parser) peek() tok { return p.toks[p.i] }
func (p *parser) next() tok { t := p.toks[p.i]; p.i++; return t }
func (p *parser) fail(f string, a ...any) {
	panic(fmt.Errorf("%s:%d: %s", p.file, p.peek().line, fmt.Sprintf(f, a...)))
}
func (p *parser) is(s string) bool {
	t := p.peek()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q, found %q", s, p.peek().s)
	}
}
func (p *parser) ident() string {
	t := p.next()
	if t.k != "id" {
		p.i--
		p.fail("expected a name, found %q", t.s)
	}
	return t.s
}
func (p *parser) str() string {
	t := p.next()
	if t.k != "str" {
		p.i--
		p.fail("expected a string, found %q", t.s)
	}
	return t.s
}
func (p *parser) idList() []string {
	var r []string
	p.expect("(")
	for !p.is(")") {
		if p.accept("_") {
			r = append(r, "_")
		} else {
			r = append(r, p.ident())
		}
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return r
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (p *parser) expr() *Expr {
	a := p.i
	e := p.bin(0)
	var sb []string
	for _, t := range p.toks[a:p.i] {
		if t.k == "str" {
			sb = append(sb, `"`+t.s+`"`)
		} else {
			sb = append(sb, t.s)
		}
	}
	e.src = strings.Join(sb, " ")
	return e
}

func (p *parser) bin(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := binPrec[t.s]
		if !ok || (t.k != "op" && t.s != "in") || pr <= min {
			return l
		}
		p.next()
		m := pr
		if t.s == "==>" {
			m = pr - 1 // right associative
		}
		r := p.bin(m)
		l = &Expr{op: "bin", s: t.s, args: []*Expr{l, r}, line: t.line}
	}
}

func (p *parser) unary() *Expr {
	t := p.peek()
	if p.accept("!") {
		return &Expr{op: "un", s: "!", args: []*Expr{p.unary()}, line: t.line}
	}
	if p.accept("-") {
		return &Expr{op: "un", s: "-", args: []*Expr{p.unary()}, line: t.line}
	}
	if t.k == "id" && (t.s == "forall" || t.s == "exists") {
		p.next()
		q := &Expr{op: t.s, line: t.line}
		for {
			n := p.ident()
			ty := "int"
			if p.accept(":") {
				ty = p.ident()
			}
			q.bv = append(q.bv, n)
			q.bt = append(q.bt, ty)
			if !p.accept(",") {
				break
			}
		}
		p.expect("::")
		q.args = []*Expr{p.bin(0)}
		return q
	}
	return p.postfix(p.primary())
}

func (p *parser) primary() *Expr {
	t := p.next()
	switch t.k {
	case "int":
		n, _ := new(big.Int).SetString(t.s, 10)
		return &Expr{op: "int", n: n, line: t.line}
	case "str":
		return &Expr{op: "str", s: t.s, line: t.line}
	case "meta":
		return &Expr{op: "meta", s: t.s, line: t.line}
	case "id":
		switch t.s {
		case "true", "false", "nil":
			return &Expr{op: t.s, line: t.line}
		}
		if p.is("(") {
			p.next()
			c := &Expr{op: "call", s: t.s, line: t.line}
			for !p.is(")") {
				c.args = append(c.args, p.bin(0))
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			return c
		}
		return &Expr{op: "id", s: t.s, line: t.line}
	case "op":
		if t.s == "(" {
			e := p.bin(0)
			p.expect(")")
			return e
		}
	}
	p.i--
	p.fail("unexpected %q in expression", t.s)
	return nil
}

func (p *parser) postfix(e *Expr) *Expr {
	for {
		t := p.peek()
		switch {
		case p.accept("."):
			e = &Expr{op: "field", s: p.ident(), args: []*Expr{e}, line: t.line}
		case t.s == "[" && p.accept("["):
			var lo, hi *Expr
			if !p.is(":") {
				lo = p.bin(0)
			}
			if p.accept(":") {
				if !p.is("]") {
					hi = p.bin(0)
				}
				p.expect("]")
				e = &Expr{op: "slice", args: []*Expr{e, lo, hi}, line: t.line}
				continue
			}
			p.expect("]")
			e = &Expr{op: "index", args: []*Expr{e, lo}, line: t.line}
		default:
			return e
		}
	}
}

// ---- items

func isProp(s string) bool {
	return len(s) == 3 && s[0] == 'C' && s[1] >= '0' && s[1] <= '9' && s[2] >= '0' && s[2] <= '9'
}

func (p *parser) props() []string {
	var r []string
	for p.peek().k == "id" && isProp(p.peek().s) {
		r = append(r, p.next().s)
		p.accept(",")
	}
	return r
}

func (p *parser) stmts() []*Stmt {
	var r []*Stmt
	p.expect("{")
	for !p.accept("}") {
		r = append(r, p.stmt())
		p.accept(";")
	}
	return r
}

func (p *parser) stmt() *Stmt {
	t := p.next()
	s := &Stmt{kind: t.s, line: t.line}
	switch t.s {
	case "assert":
		s.props = p.props()
		if p.peek().k == "str" {
			s.label = p.str()
			p.expect(":")
		}
		s.e = p.expr()
		if s.label == "" {
			s.label = fmt.Sprintf("assert@%d", s.line)
		}
	case "assume":
		s.e = p.expr()
	case "set", "let":
		s.name = p.ident()
		p.expect("=")
		s.e = p.expr()
	case "havoc":
		s.name = p.ident()
	case "if":
		s.e = p.expr()
		s.body = p.stmts()
		if p.accept("else") {
			if p.is("if") {
				s.els = []*Stmt{p.stmt()}
			} else {
				s.els = p.stmts()
			}
		}
	case "call":
		// call recv.Method(args) -> (names)   |   call fn(args)
		e := &Expr{op: "str", line: t.line}
		if p.peek().k == "str" { // a function by name
			e.s = p.str()
		} else {
			e = p.expr2()
		}
		s.e = e
		p.expect("(")
		for !p.is(")") {
			s.es = append(s.es, p.expr())
			if !p.accept(",") {
				break
			}
		}
		p.expect(")")
		if p.accept("->") {
			s.names = p.idList()
		}
	case "return":
		s.es = append(s.es, p.expr())
		for p.accept(",") {
			s.es = append(s.es, p.expr())
		}
	case "stop":
	case "write": // write DST, N, SRC, OFF  : first N bytes of slice DST come from array SRC at OFF
		s.es = append(s.es, p.expr())
		for p.accept(",") {
			s.es = append(s.es, p.expr())
		}
	case "store": // store ptr.field = e
		s.es = append(s.es, p.expr2full())
		p.expect("=")
		s.e = p.expr()
	case "clobber": // the bytes of a slice's backing array change arbitrarily
		s.e = p.expr()
	default:
		p.i--
		p.fail("unknown statement %q", t.s)
	}
	return s
}

// expr2 parses a path expression without a trailing call.
func (p *parser) expr2() *Expr {
	t := p.peek()
	var e *Expr
	if p.accept("(") {
		e = p.bin(0)
		p.expect(")")
	} else {
		e = &Expr{op: "id", s: p.ident(), line: t.line}
	}
	for p.accept(".") {
		e = &Expr{op: "field", s: p.ident(), args: []*Expr{e}, line: t.line}
	}
	return e
}

func (p *parser) expr2full() *Expr { return p.postfix(p.primary()) }

func (p *parser) funcBody(fs *FuncSpec) {
	p.expect("{")
	for !p.accept("}") {
		t := p.next()
		switch t.s {
		case "props":
			fs.Props = append(fs.Props, p.props()...)
		case "safety":
			fs.Safety = append(fs.Safety, p.props()...)
		case "nosafety":
			fs.NoSafety = true
		case "requires":
			fs.Requires = append(fs.Requires, p.expr())
		case "ghost", "let":
			s := &Stmt{kind: t.s, line: t.line, name: p.ident()}
			if p.accept(":") {
				s.label = p.ident()
			}
			if p.accept("=") {
				s.e = p.expr()
			}
			fs.Lets = append(fs.Lets, s)
		case "use":
			fs.Uses = append(fs.Uses, p.ident())
		case "on":
			h := &Hook{kind: p.ident(), id: fmt.Sprintf("%s:%d", filepath.Base(p.file), t.line)}
			if h.kind == "optional" {
				h.opt = true
				h.kind = p.ident()
			}
			switch h.kind {
			case "call", "go":
				h.pat = p.str()
				if p.is("(") {
					h.args = p.idList()
				}
				if p.accept("->") {
					h.res = p.idList()
				}
			case "dyn":
				p.expect("(")
				h.e = p.expr()
				p.expect(")")
				h.args = p.idList()
				if p.accept("->") {
					h.res = p.idList()
				}
			case "send", "recv":
				p.expect("(")
				h.e = p.expr()
				p.expect(")")
				h.args = p.idList()
			case "close", "idle":
				p.expect("(")
				h.e = p.expr()
				p.expect(")")
			case "acquire", "release":
				if p.accept("(") { // of one lock
					h.e = p.expr()
					p.expect(")")
				}
			case "wait", "spawn":
			default:
				p.fail("unknown event %q", h.kind)
			}
			h.body = p.stmts()
			if p.accept("inline") {
				h.inline = true
				if p.accept("after") {
					h.after = p.stmts()
				}
			}
			fs.Hooks = append(fs.Hooks, h)
		case "ensures", "threadensures":
			c := Clause{props: p.props()}
			if p.peek().k == "str" {
				c.label = p.str()
				p.expect(":")
			}
			c.e = p.expr()
			if c.label == "" {
				c.label = fmt.Sprintf("ensures@%d", t.line)
			}
			if t.s == "ensures" {
				fs.Ensures = append(fs.Ensures, c)
			} else {
				fs.ThreadEnsures = append(fs.ThreadEnsures, c)
			}
		case "inv":
			fs.Invs = append(fs.Invs, p.expr())
		case "after":
			fs.After = append(fs.After, p.stmts()...)
		case "pure":
			fs.Pure = true
		case "noreturn":
			fs.NoReturn = true
		case "modifies": // cells the function may change besides ghosts
			fs.Framed = true
			for {
				fs.Modifies = append(fs.Modifies, p.expr())
				if !p.accept(",") {
					break
				}
			}
		case "allocates": // types of objects the function may allocate and hand out
			fs.Framed = true
			for p.peek().k == "str" {
				fs.News = append(fs.News, p.str())
			}
		case "decreases":
			fs.Decreases = append(fs.Decreases, p.expr())
		case "expand": // functions whose bodies are executed here although they have a contract
			for p.peek().k == "str" {
				fs.Expand = append(fs.Expand, p.str())
			}
		case "position": // position E when C: a value of the index at the head of a loop
			c := Position{e: p.expr()}
			p.expect("when")
			c.when = p.expr()
			fs.Positions = append(fs.Positions, c)
		case "nounroll":
			fs.NoUnroll = true
		case "unroll": // unroll N: loops run up to N iterations before an invariant is needed
			fmt.Sscan(p.next().s, &fs.Unroll)
		case "strext": // equal bytes make equal strings, at comparisons in the code
			fs.StrExt = true
		case "nestdiv": // keep repeated divisions as written
			fs.NestDiv = true
		case "closable":
			fs.ClosableChans = true
		case "timeout":
			fmt.Sscan(p.next().s, &fs.Timeout)
		case "bounded":
			fs.Bounded = p.str()
		default:
			p.i--
			p.fail("unknown clause %q", t.s)
		}
		p.accept(";")
	}
}

func (p *parser) items(cs *Contracts) {
	for p.peek().k != "eof" {
		t := p.next()
		switch t.s {
		case "func":
			fs := &FuncSpec{Name: p.str(), File: filepath.Base(p.file)}
			if p.is("(") {
				fs.Args = p.idList()
			}
			if p.accept("->") {
				fs.Res = p.idList()
			}
			p.funcBody(fs)
			cs.Funcs = append(cs.Funcs, fs)
			if fs.Pure || fs.Framed {
				cs.ByName[fs.Name] = fs
			}
		case "group":
			fs := &FuncSpec{Name: p.ident()}
			if cs.Groups[fs.Name] != nil {
				p.fail("group %s defined twice", fs.Name)
			}
			p.funcBody(fs)
			cs.Groups[fs.Name] = fs
		case "spec":
			n := p.ident()
			a := p.idList()
			p.expect("=")
			if cs.Specs[n] != nil {
				p.fail("spec %s defined twice", n)
			}
			cs.Specs[n] = &SpecFun{args: a, e: p.expr()}
		case "monitor":
			m := &Monitor{Name: p.ident()}
			p.expect("{")
			for !p.accept("}") {
				c := p.next()
				switch c.s {
				case "struct":
					m.StructKey = p.str()
				case "lock":
					m.Lock = p.str()
				case "guards":
					for p.peek().k == "str" {
						m.Guards = append(m.Guards, p.str())
					}
				case "owns":
					for p.peek().k == "str" {
						m.Owns = append(m.Owns, p.str())
					}
				case "frozen":
					for p.peek().k == "str" {
						m.Frozen = append(m.Frozen, p.str())
					}
					p.expect("when")
					m.FrozenIf = p.expr()
				case "maps":
					for p.peek().k == "str" {
						m.mapNames = append(m.mapNames, p.str())
					}
				case "inv":
					m.Invs = append(m.Invs, p.expr())
				case "rely":
					m.Relies = append(m.Relies, p.expr())
				case "step":
					c := Clause{props: p.props()}
					if p.peek().k == "str" {
						c.label = p.str()
						p.expect(":")
					}
					c.e = p.expr()
					m.Steps = append(m.Steps, c)
				case "props":
					m.Props = p.props()
				case "lockprops":
					m.LockProps = p.props()
				case "applies":
					for p.peek().k == "str" {
						m.Applies = append(m.Applies, p.str())
					}
				default:
					p.i--
					p.fail("unknown monitor clause %q", c.s)
				}
			}
			cs.Monitors = append(cs.Monitors, m)
		default:
			p.i--
			p.fail("unknown item %q", t.s)
		}
	}
}

func ParseContracts(dir string, gen bool) (cs *Contracts, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	cs = &Contracts{ByName: map[string]*FuncSpec{}, Groups: map[string]*FuncSpec{}, Specs: map[string]*SpecFun{}}
	fs, err := filepath.Glob(filepath.Join(dir, "*.gc"))
	if err != nil {
		return nil, err
	}
	sort.Strings(fs)
	if gen {
		g, _ := filepath.Glob(filepath.Join(dir, "gen", "*.gc"))
		sort.Strings(g)
		fs = append(fs, g...)
	}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		p := &parser{file: f, toks: lex(f, string(b))}
		p.items(cs)
	}
	// groups
	for _, f := range cs.Funcs {
		seen := map[string]bool{}
		var use func(names []string)
		use = func(names []string) {
			for _, u := range names {
				if seen[u] {
					continue
				}
				seen[u] = true
				g := cs.Groups[u]
				if g == nil {
					panic(fmt.Errorf("%s: unknown group %s in %s", f.File, u, f.Name))
				}
				use(g.Uses)
				f.Lets = append(append([]*Stmt{}, g.Lets...), f.Lets...)
				f.Hooks = append(f.Hooks, g.Hooks...)
				f.Requires = append(f.Requires, g.Requires...)
				f.Ensures = append(f.Ensures, g.Ensures...)
				f.Invs = append(f.Invs, g.Invs...)
				f.Decreases = append(f.Decreases, g.Decreases...)
				f.NoUnroll = f.NoUnroll || g.NoUnroll
				f.NestDiv = f.NestDiv || g.NestDiv
				f.StrExt = f.StrExt || g.StrExt
				f.Unroll = max(f.Unroll, g.Unroll)
			}
		}
		use(f.Uses)
	}
	return cs, nil
}

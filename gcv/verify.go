package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FuncReport struct {
	Spec    *FuncSpec
	Obls    []*Obl
	Inlined []string
	Modular []string
	Unmod   []string
	Intr    []string
	Invs    []string
	Hooks   []string
	Steps   int
	Returns int
	Wall    time.Duration
	Digest  string
}

func ghostInit(e *Engine, st *State, s *Stmt) SV {
	switch s.label {
	case "", "int":
		if s.e == nil {
			return plain(e.tt.Var("gh."+s.name, sInt), tInt)
		}
	case "bool":
		if s.e == nil {
			return plain(e.tt.Var("gh."+s.name, sBool), tBool)
		}
	case "string":
		if s.e == nil {
			return plain(e.tt.Var("gh."+s.name, sStr), tString)
		}
	case "error", "iface":
		if s.e == nil {
			v := e.tt.Var("gh."+s.name, sIface)
			return plain(v, tErr)
		}
	case "slice":
		if s.e == nil {
			return plain(e.tt.Var("gh."+s.name, sSlice), tBytes)
		}
	case "bytes":
		if s.e == nil {
			return SV{v: e.tt.Var("gh."+s.name, arr(sInt)), t: types.Typ[types.Uint8], k: "bytes"}
		}
	case "ints":
		if s.e == nil {
			return SV{v: e.tt.Var("gh."+s.name, arr(sInt)), t: tInt}
		}
	case "strings":
		if s.e == nil {
			return SV{v: e.tt.Var("gh."+s.name, arr(sStr)), t: tString}
		}
	case "bools":
		if s.e == nil {
			return SV{v: e.tt.Var("gh."+s.name, arr(sBool)), t: tBool}
		}
	}
	v := e.specVal(st, e.fenv(st), s.e)
	if v.k == "nil" {
		switch s.label {
		case "slice":
			return plain(e.nilSlice(), tBytes)
		case "error", "iface":
			return plain(e.tt.NilI(), tErr)
		}
		return plain(e.tt.Int(0), tInt)
	}
	if v.k == "content" {
		panic(specErr{fmt.Sprintf("line %d: ghost of content", s.line)})
	}
	return v
}

// verifyFunc generates and discharges the obligations of one contract.
func verifyFunc(ld *Loader, cs *Contracts, fs *FuncSpec, only string, deadline time.Time, thorough bool) (rep *FuncReport) {
	t0 := time.Now()
	rep = &FuncReport{Spec: fs}
	e := NewEngine(ld, cs)
	e.fs = fs
	e.qt = os.Getenv("GCV_QT") != ""
	e.tt.nestDiv = fs.NestDiv
	e.strExt = fs.StrExt
	e.fname = fs.Name
	e.only = only
	e.deadl = deadline
	e.thorough = thorough
	if thorough {
		e.timeout = 30000
	}
	if fs.Timeout > 0 {
		e.timeout = fs.Timeout * 1000
	}
	failProps := fs.allProps()
	if only != "" {
		failProps = []string{only}
	}
	defer func() {
		if r := recover(); r != nil {
			msg := ""
			switch x := r.(type) {
			case Unsupported:
				msg = "the code uses something the verifier does not model: " + x.msg
			case specErr:
				msg = "the contract cannot be evaluated on this code: " + x.msg
			default:
				msg = fmt.Sprintf("verifier error: %v", r)
				if os.Getenv("GCV_DEBUG") != "" {
					msg += "\n" + string(debug.Stack())
				}
			}
			if os.Getenv("GCV_DEBUG") != "" {
				msg += "\n" + string(debug.Stack())
			}
			e.obls = append(e.obls, &Obl{Name: fs.Name + "/verifiable", Func: fs.Name, Props: failProps, Result: "failed", Reason: msg})
		}
		if e.sol != nil {
			e.sol.close()
		}
		rep.Obls = e.obls
		rep.Inlined, rep.Modular, rep.Unmod, rep.Intr = sortedKeys(e.inlined), sortedKeys(e.modular), sortedKeys(e.unmod), sortedKeys(e.usedInt)
		rep.Invs = sortedKeys(e.invOK)
		rep.Steps, rep.Returns = e.steps, e.returns
		rep.Wall = time.Since(t0)
	}()
	fn := ld.funcs[fs.Name]
	if fn == nil || len(fn.Blocks) == 0 {
		unsup("no function %s in the code", fs.Name)
	}
	if p := pkgOf(fn); strings.HasPrefix(p, modPath+"/") {
		e.curPkg = p[len(modPath)+1:]
	}
	st := e.newState()
	env := map[string]SV{}
	var args []Value
	for i, p := range fn.Params {
		v := e.fresh(st, "arg."+p.Name(), p.Type())
		args = append(args, v)
		if i < len(fs.Args) && fs.Args[i] != "_" {
			env[fs.Args[i]] = plain(v, p.Type())
		}
	}
	if len(fs.Args) != len(fn.Params) {
		unsup("the contract names %d parameters, the function has %d", len(fs.Args), len(fn.Params))
	}
	var binds []Value
	for _, p := range fn.FreeVars {
		binds = append(binds, e.fresh(st, "free."+p.Name(), p.Type()))
	}
	st.spec = &SpecCtx{env: (&Env{}).with(env), fs: fs}
	st.ghost["$bcast"] = plain(e.tt.Bool(false), tBool)
	st.spec.entry = st.snap()
	for _, s := range fs.Lets {
		if s.kind == "ghost" {
			st.ghost[s.name] = ghostInit(e, st, s)
			continue
		}
		env[s.name] = e.specVal(st, e.fenv(st), s.e)
	}
	for _, r := range fs.Requires {
		st.assume(e.specBool(st, e.fenv(st), r))
	}
	e.tt.learnNeq(st.pc)
	st.spec.entry = st.snap()
	rts := resultTypes(tupleOrSingle(fn.Signature.Results()))
	k := func(st *State, res Value) []*State {
		if st.dead {
			return nil
		}
		// is this exit reachable at all?
		if e.ask(st.pc, 2000) == Unsat {
			return nil
		}
		e.returns++
		m := map[string]SV{}
		vs := unpackRes(res, len(rts))
		for i, n := range fs.Res {
			if i < len(vs) && n != "_" {
				m[n] = plain(vs[i], rts[i])
			}
		}
		done := func(st *State, renv *Env) []*State {
			for _, c := range fs.Ensures {
				props := c.props
				if len(props) == 0 {
					props = fs.Props
				}
				e.oblige(st, c.label, props, e.specBool(st, renv, c.e))
			}
			if fs.Pure || fs.Framed {
				e.checkFrame(st, fs)
			}
			if len(st.held) > 0 {
				e.failObl(st, "safety.lock-held", e.safetyProps(), "returns with a lock held")
			}
			return nil
		}
		if len(fs.After) > 0 {
			return e.runStmts(st, e.fenv(st).with(m), fs.After, done)
		}
		return done(st, e.fenv(st).with(m))
	}
	sts := e.push(st, fn, args, binds, k)
	e.run(sts)
	if os.Getenv("GCV_LOOP") != "" {
		fmt.Println("VARIANTS", len(e.variants), len(fs.Decreases))
	}
	for _, k := range sortedVars(e.variants) {
		v := e.variants[k]
		if len(v.alive) == 0 {
			e.failObl(v.st, "terminates."+v.at, e.safetyProps(), "no variant of the contract decreases in every iteration of this loop")
		} else {
			e.okObl(v.st, "terminates."+v.at, e.safetyProps())
		}
	}
	// vacuity: every labelled obligation was generated, and a return was reached
	failed := false
	for _, o := range e.obls {
		if o.Result == "failed" {
			failed = true
		}
	}
	if !failed {
		if e.returns == 0 && !fs.NoReturn {
			e.obls = append(e.obls, &Obl{Name: fs.Name + "/vacuity.return", Func: fs.Name, Props: failProps, Result: "failed", Reason: "no reachable return: the contract's assumptions exclude every execution"})
		}
		var walk func(h *Hook, ss []*Stmt)
		walk = func(h *Hook, ss []*Stmt) {
			for _, s := range ss {
				if s.kind == "assert" && !e.covers[s.label] && !strings.HasPrefix(s.label, "never") {
					ps := s.props
					if len(ps) == 0 {
						ps = fs.Props
					}
					if only != "" && !contains(ps, only) {
						continue
					}
					e.obls = append(e.obls, &Obl{Name: fs.Name + "/reached." + s.label, Func: fs.Name, Props: ps, Result: "failed", Reason: "the code never reaches the event this obligation is attached to"})
				}
				walk(h, s.body)
				walk(h, s.els)
			}
		}
		walk(nil, fs.After)
		for _, h := range fs.Hooks {
			if !h.opt {
				walk(h, h.body)
				walk(h, h.after)
			}
		}
	}
	return rep
}

var _ = ssa.BuilderMode(0)

package main

// Loading of the code under verification: go/packages + go/ssa on /repo's
// current working tree.

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/aperturerobotics/starpc"

// dependencies with functions under contract
var depPkgs = map[string]bool{"github.com/aperturerobotics/protobuf-go-lite": true, "github.com/aperturerobotics/util/broadcast": true, "github.com/aperturerobotics/protobuf-go-lite/json": true}

type Loader struct {
	repo    string
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package // by import path
	funcs   map[string]*ssa.Function
	stored  map[*ssa.Global]bool // in-repo globals stored outside init
	initVal map[*ssa.Global]ssa.Value
	loops   map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	srcFile map[string]bool
}

type Loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

// short names: strip the module path.
func short(s string) string {
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath, "starpc")
	s = strings.ReplaceAll(s, "github.com/aperturerobotics/protobuf-go-lite.", "protobuf-go-lite.")
	s = strings.ReplaceAll(s, "github.com/aperturerobotics/util/broadcast.", "broadcast.")
	s = strings.ReplaceAll(s, "github.com/aperturerobotics/protobuf-go-lite/json.", "json.")
	return s
}

func typeKey(t types.Type) string {
	switch x := t.(type) {
	case *types.Basic:
		return types.Typ[x.Kind()].Name()
	case *types.Alias:
		return typeKey(types.Unalias(x))
	case *types.Named:
		return short(types.TypeString(x, nil))
	case *types.Pointer:
		return "*" + typeKey(x.Elem())
	case *types.Slice:
		return "[]" + typeKey(x.Elem())
	case *types.Map:
		return "map[" + typeKey(x.Key()) + "]" + typeKey(x.Elem())
	case *types.Chan:
		return "chan " + typeKey(x.Elem())
	}
	return short(types.TypeString(t, nil))
}

func goEnv() []string {
	env := []string{}
	for _, v := range os.Environ() {
		if strings.HasPrefix(v, "PATH=") || strings.HasPrefix(v, "GOFLAGS=") || strings.HasPrefix(v, "GOTOOLCHAIN=") || strings.HasPrefix(v, "GOPROXY=") || strings.HasPrefix(v, "GOWORK=") || strings.HasPrefix(v, "GOROOT=") {
			continue
		}
		env = append(env, v)
	}
	return append(env, "PATH=/opt/veriftools/go1.24.13/bin:"+os.Getenv("PATH"), "GOFLAGS=-mod=readonly", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off")
}

func Load(repo string, overlay map[string][]byte) (*Loader, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: goEnv(), Overlay: overlay}
	ps, err := packages.Load(cfg, "./srpc", "./rpcstream", "./echo", "./mock")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	ld := &Loader{repo: repo, prog: prog, pkgs: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{},
		stored: map[*ssa.Global]bool{}, initVal: map[*ssa.Global]ssa.Value{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, srcFile: map[string]bool{}}
	for _, p := range prog.AllPackages() {
		ld.pkgs[p.Pkg.Path()] = p
		if strings.HasPrefix(p.Pkg.Path(), modPath) || p.Pkg.Path() == "context" || p.Pkg.Path() == "io" || depPkgs[p.Pkg.Path()] {
			p.Build()
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg == nil && f.Origin() == nil && f.Object() == nil {
			continue
		}
		n := short(f.String())
		if inRepo(f) || depPkgs[pkgOf(f)] {
			if o := ld.funcs[n]; o == nil || len(o.Blocks) == 0 {
				ld.funcs[n] = f
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") && false {
							ld.initVal[g] = s.Val
						} else {
							ld.stored[g] = true
						}
					}
				}
			}
		}
	}
	for _, p := range ps {
		for _, f := range p.GoFiles {
			if r, err := filepath.Rel(repo, f); err == nil {
				ld.srcFile[r] = true
			}
		}
	}
	return ld, nil
}

func pkgOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil {
		return pkgOf(o)
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func inRepo(f *ssa.Function) bool {
	p := pkgOf(f)
	return p == modPath || strings.HasPrefix(p, modPath+"/")
}

// body makes sure the function is built and has blocks.
func (ld *Loader) body(f *ssa.Function) bool {
	if len(f.Blocks) > 0 {
		return true
	}
	buildMu.Lock()
	defer buildMu.Unlock()
	if len(f.Blocks) > 0 {
		return true
	}
	g := f
	for g.Parent() != nil {
		g = g.Parent()
	}
	if g.Pkg != nil {
		g.Pkg.Build()
	} else if o := g.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
	return len(f.Blocks) > 0
}

// method is the method of a concrete type, or nil when it has none.
func (ld *Loader) method(t types.Type, m *types.Func) *ssa.Function {
	buildMu.Lock()
	defer buildMu.Unlock()
	if types.NewMethodSet(t).Lookup(m.Pkg(), m.Name()) == nil {
		return nil
	}
	return ld.prog.LookupMethod(t, m.Pkg(), m.Name())
}

// loopsOf computes the natural loops (merged per header).
func (ld *Loader) loopsOf(f *ssa.Function) map[*ssa.BasicBlock]*Loop {
	buildMu.Lock()
	defer buildMu.Unlock()
	if l, ok := ld.loops[f]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]*Loop{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := res[s]
				if l == nil {
					l = &Loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					res[s] = l
				}
				// all blocks reaching b without passing s
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	ld.loops[f] = res
	return res
}

func (ld *Loader) funcNames() []string {
	var r []string
	for n := range ld.funcs {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

// lookupType resolves a type written in a contract, e.g. "*srpc.CallData".
func (ld *Loader) lookupType(s string) (types.Type, error) {
	s = strings.TrimSpace(s)
	switch {
	case strings.HasPrefix(s, "*"):
		t, err := ld.lookupType(s[1:])
		if err != nil {
			return nil, err
		}
		return types.NewPointer(t), nil
	case strings.HasPrefix(s, "[]"):
		t, err := ld.lookupType(s[2:])
		if err != nil {
			return nil, err
		}
		return types.NewSlice(t), nil
	case s == "error":
		return types.Universe.Lookup("error").Type(), nil
	case s == "byte":
		return types.Typ[types.Uint8], nil
	}
	for _, b := range types.Typ {
		if b.Name() == s {
			return b, nil
		}
	}
	i := strings.LastIndexByte(s, '.')
	if i < 0 {
		return nil, fmt.Errorf("unknown type %q", s)
	}
	pn, tn := s[:i], s[i+1:]
	for _, path := range []string{modPath + "/" + pn, pn} {
		if p := ld.pkgs[path]; p != nil {
			if o := p.Pkg.Scope().Lookup(tn); o != nil {
				return o.Type(), nil
			}
		}
	}
	var found types.Type
	for path, p := range ld.pkgs {
		if strings.HasSuffix(path, "/"+pn) {
			if o := p.Pkg.Scope().Lookup(tn); o != nil {
				if found != nil {
					return nil, fmt.Errorf("ambiguous type %q", s)
				}
				found = o.Type()
			}
		}
	}
	if found != nil {
		return found, nil
	}
	return nil, fmt.Errorf("unknown type %q", s)
}

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"
)

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	ex, err := os.Executable()
	if err == nil {
		d := filepath.Dir(filepath.Dir(ex))
		if _, err := os.Stat(filepath.Join(d, "contracts")); err == nil {
			return d
		}
	}
	return "/verif"
}

func repoDir() string {
	if d := os.Getenv("GCV_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: gcv check PROPERTY | func NAME [PROPERTY] | all | dump NAME | names")
	os.Exit(2)
}

func overlayFiles(repo string) map[string][]byte {
	ov := map[string][]byte{}
	dir := filepath.Join(verifDir(), "overlay")
	_ = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		r, _ := filepath.Rel(dir, p)
		b, err := os.ReadFile(p)
		if err == nil {
			ov[filepath.Join(repo, r)] = b
		}
		return nil
	})
	return ov
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	cmd, args := os.Args[1], os.Args[2:]
	repo := repoDir()
	if cmd == "check" {
		if len(args) != 1 {
			usage()
		}
		os.Exit(runCheck(repo, args[0]))
	}
	ov := overlayFiles(repo)
	if genWanted("") {
		var err error
		if ov, err = genOverlay(repo, ov); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	ld, err := Load(repo, ov)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	switch cmd {
	case "names":
		for _, n := range ld.funcNames() {
			fmt.Println(n)
		}
	case "dump":
		f := ld.funcs[args[0]]
		if f == nil {
			fmt.Println("no such function")
			os.Exit(2)
		}
		f.WriteTo(os.Stdout)
		for _, a := range f.AnonFuncs {
			a.WriteTo(os.Stdout)
		}
	case "func", "all":
		cs, err := ParseContracts(filepath.Join(verifDir(), "contracts"), genWanted(""))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, m := range cs.Monitors {
			if err := m.resolve(ld); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
		}
		only, pat := "", "*"
		if cmd == "func" {
			pat = args[0]
			if len(args) > 1 {
				only = args[1]
			}
		} else if len(args) > 0 {
			only = args[0]
		}
		var sel []*FuncSpec
		for _, fs := range cs.Funcs {
			if skip := os.Getenv("GCV_SKIP"); skip != "" && regexp.MustCompile(skip).MatchString(fs.Name) {
				continue
			}
			if matchName(pat, fs.Name) || strings.Contains(fs.Name, pat) {
				if only == "" || contains(fs.allProps(), only) {
					sel = append(sel, fs)
				}
			}
		}
		reps := verifyAll(ld, cs, sel, only, time.Now().Add(800*time.Second), false)
		bad := 0
		for _, r := range reps {
			n := 0
			for _, o := range r.Obls {
				if o.Result == "discharged" {
					n++
				}
			}
			fmt.Printf("%-60s %d/%d obligations, %d returns, %d steps, %.1fs\n", r.Spec.Name, n, len(r.Obls), r.Returns, r.Steps, r.Wall.Seconds())
			if os.Getenv("GCV_V") != "" {
				fmt.Println("   inlined:", r.Inlined, "\n   unmodelled:", r.Unmod, "\n   intrinsics:", r.Intr, "\n   invs:", r.Invs)
				for _, o := range r.Obls {
					fmt.Println("   ", o.Result, o.Name, o.By, o.Ms, "ms", o.Pos)
				}
			}
			seen := map[string]bool{}
			for _, o := range r.Obls {
				if o.Result != "discharged" {
					bad++
					if seen[o.Name+o.Pos] {
						continue
					}
					seen[o.Name+o.Pos] = true
					fmt.Println("   FAILED", o.Name, o.Props, o.Pos, "--", o.Reason)
					if os.Getenv("GCV_TRACE") != "" {
						for _, t := range o.Trace {
							fmt.Println("        ", t)
						}
					}
				}
			}
		}
		if bad > 0 {
			os.Exit(1)
		}
	default:
		usage()
	}
}

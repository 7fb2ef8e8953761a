package main

// SMT solver processes.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

var (
	solverNanos   int64
	solverQueries int64
)

type Solver struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	bin string
}

func startSolver(bin string, args ...string) (*Solver, error) {
	c := exec.Command(bin, args...)
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	c.Stderr = io.Discard
	if err := c.Start(); err != nil {
		return nil, err
	}
	return &Solver{cmd: c, in: in, out: bufio.NewReaderSize(out, 1<<16), bin: bin}, nil
}

func (s *Solver) close() {
	if s == nil || s.cmd == nil {
		return
	}
	_ = s.in.Close()
	_ = s.cmd.Process.Kill()
	_ = s.cmd.Wait()
	s.cmd = nil
}

// check runs one query from a clean solver context.
func (s *Solver) check(script string, timeoutMs int, wantModel bool) (Result, string) {
	t0 := time.Now()
	defer func() {
		atomic.AddInt64(&solverNanos, int64(time.Since(t0)))
		atomic.AddInt64(&solverQueries, 1)
	}()
	var sb strings.Builder
	sb.WriteString("(reset)\n")
	fmt.Fprintf(&sb, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :timeout %d)\n", timeoutMs)
	if wantModel {
		sb.WriteString("(set-option :produce-models true)\n")
	}
	sb.WriteString(script)
	sb.WriteString("(check-sat)\n(echo \"@@done\")\n")
	done := make(chan struct{})
	go func() {
		select {
		case <-done:
		case <-time.After(time.Duration(timeoutMs)*time.Millisecond + 10*time.Second):
			_ = s.cmd.Process.Kill()
		}
	}()
	defer close(done)
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		return Unknown, "solver died"
	}
	res := Unknown
	var extra []string
	bad := false
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return Unknown, "solver died"
		}
		l = strings.TrimSpace(l)
		switch {
		case l == "@@done" || l == "\"@@done\"":
			if bad {
				res = Unknown
			}
			return res, strings.Join(extra, "\n")
		case l == "sat":
			res = Sat
		case l == "unsat":
			res = Unsat
		case strings.HasPrefix(l, "(error"):
			extra = append(extra, l)
			bad = true
			if os.Getenv("GCV_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "SOLVER ERROR", l)
				_ = os.WriteFile("/tmp/gcv_err.smt2", []byte(sb.String()), 0o644)
			}
		}
	}
}

// runOnce runs a query in a fresh solver process (used for the fall-back solvers).
func runOnce(bin string, args []string, script string, timeoutMs int) (Result, string) {
	t0 := time.Now()
	defer func() {
		atomic.AddInt64(&solverNanos, int64(time.Since(t0)))
		atomic.AddInt64(&solverQueries, 1)
	}()
	c := exec.Command(bin, args...)
	c.Stdin = strings.NewReader(script)
	var out strings.Builder
	c.Stdout = &out
	if err := c.Start(); err != nil {
		return Unknown, err.Error()
	}
	fin := make(chan error, 1)
	go func() { fin <- c.Wait() }()
	select {
	case <-fin:
	case <-time.After(time.Duration(timeoutMs) * time.Millisecond):
		_ = c.Process.Kill()
		<-fin
		return Unknown, "timeout"
	}
	o := out.String()
	for _, l := range strings.Split(o, "\n") {
		switch strings.TrimSpace(l) {
		case "sat":
			return Sat, o
		case "unsat":
			return Unsat, o
		}
	}
	return Unknown, o
}

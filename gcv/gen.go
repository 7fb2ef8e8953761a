package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// The code generator (cmd/protoc-gen-go-starpc) is built from the tree and run
// on the committed descriptions in gen/request.bin; its output is loaded as
// part of the tree and verified like any other code of it.

// genProps are the properties decided on the generator's output.
var genProps = map[string]bool{"C31": true}

func genWanted(prop string) bool { return genProps[prop] || os.Getenv("GCV_GEN") != "" }

// genFiles runs the generator and returns its output, as file name (relative to
// the repository) and contents.
func genFiles(repo string) (map[string][]byte, error) {
	req, err := os.ReadFile(filepath.Join(verifDir(), "gen", "request.bin"))
	if err != nil {
		return nil, err
	}
	tmp, err := os.MkdirTemp("", "gcvgen")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	run := func(stdin []byte, dir, name string, args ...string) ([]byte, error) {
		ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
		defer cancel()
		c := exec.CommandContext(ctx, name, args...)
		c.Dir = dir
		c.Env = goEnv()
		c.Stdin = bytes.NewReader(stdin)
		c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
		c.WaitDelay = 2 * time.Second
		var o, e bytes.Buffer
		c.Stdout, c.Stderr = &o, &e
		if err := c.Run(); err != nil {
			s := e.String()
			if len(s) > 3000 {
				s = s[:3000]
			}
			return nil, fmt.Errorf("%s: %v: %s", filepath.Base(name), err, s)
		}
		return o.Bytes(), nil
	}
	bin := filepath.Join(tmp, "gen")
	if _, err := run(nil, repo, "/opt/veriftools/go1.24.13/bin/go", "build", "-o", bin, "./cmd/protoc-gen-go-starpc"); err != nil {
		return nil, err
	}
	out, err := run(req, tmp, bin)
	if err != nil {
		return nil, fmt.Errorf("the generator failed: %v", err)
	}
	files := map[string][]byte{}
	perr := protoFields(out, func(num int, b []byte) {
		switch num {
		case 1:
			err = fmt.Errorf("the generator reports: %s", b)
		case 15:
			var name string
			var content []byte
			_ = protoFields(b, func(n int, b []byte) {
				switch n {
				case 1:
					name = string(b)
				case 15:
					content = b
				}
			})
			files[strings.TrimPrefix(name, modPath+"/")] = content
		}
	})
	if err == nil {
		err = perr
	}
	return files, err
}

// protoFields calls f for each length-delimited field of a message.
func protoFields(b []byte, f func(int, []byte)) error {
	for len(b) > 0 {
		tag, n := binary.Uvarint(b)
		if n <= 0 {
			return fmt.Errorf("malformed answer of the generator")
		}
		b = b[n:]
		v, n := binary.Uvarint(b)
		if n <= 0 || tag&7 != 0 && tag&7 != 2 {
			return fmt.Errorf("malformed answer of the generator")
		}
		b = b[n:]
		if tag&7 == 2 {
			if v > uint64(len(b)) {
				return fmt.Errorf("malformed answer of the generator")
			}
			f(int(tag>>3), b[:v])
			b = b[v:]
		}
	}
	return nil
}

// genOverlay is overlayFiles with the generator's output and its users.
func genOverlay(repo string, ov map[string][]byte) (map[string][]byte, error) {
	files, err := genFiles(repo)
	if err != nil {
		return ov, err
	}
	for n, b := range files {
		ov[filepath.Join(repo, filepath.Dir(n), "zz_verif_"+filepath.Base(n))] = b
	}
	use, _ := filepath.Glob(filepath.Join(verifDir(), "gen", "use", "*", "*.go"))
	for _, u := range use {
		b, err := os.ReadFile(u)
		if err != nil {
			return ov, err
		}
		ov[filepath.Join(repo, filepath.Base(filepath.Dir(u)), filepath.Base(u))] = b
	}
	return ov, nil
}

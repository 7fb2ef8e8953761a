package srpc_test

import (
	"context"
	"strings"
	"testing"

	"github.com/aperturerobotics/starpc/srpc"
)

// C15: random prefix lists and service ids.
func TestVerifReplay_C15(t *testing.T) {
	r := vrRand()
	alpha := []string{"a", "b", "a/", "ab", "b/a", "aa"}
	for round := 0; round < 20000; round++ {
		var ps []string
		for i := r.Intn(4); i > 0; i-- {
			p := alpha[r.Intn(len(alpha))]
			if r.Intn(2) == 0 {
				p += alpha[r.Intn(len(alpha))]
			}
			ps = append(ps, p)
		}
		id := ""
		for i := r.Intn(4); i > 0; i-- {
			id += alpha[r.Intn(len(alpha))]
		}
		wantID, ok, matched := id, len(ps) == 0, ""
		for _, p := range ps {
			if strings.HasPrefix(id, p) {
				wantID, ok, matched = id[len(p):], true, p
				break
			}
		}
		if g, m := srpc.CheckStripPrefix(id, ps); g != wantID || m != matched {
			vrFail(t, "CheckStripPrefix(%q, %q) = %q, %q", id, ps, g, m)
		}
		strm := &vrStream{}
		in, out := srpc.NewRawMessage(nil, false), srpc.NewRawMessage(nil, false)
		ctx, cancel := context.WithCancel(context.Background())
		n := 0
		var e error
		if r.Intn(2) == 0 {
			e = errVrA
		}
		inv := srpc.NewPrefixInvoker(srpc.InvokerFunc(func(s, m string, st srpc.Stream) (bool, error) {
			n++
			if s != wantID || m != "meth" || st != srpc.Stream(strm) {
				vrFail(t, "prefixes %q service %q forwarded as %q %q", ps, id, s, m)
			}
			return e == nil, e
		}), ps)
		f, err := inv.InvokeMethod(id, "meth", strm)
		if ok && (n != 1 || f != (e == nil) || err != e) || !ok && (n != 0 || f || err != nil) {
			vrFail(t, "prefixes %q service %q: %d calls answered (%v, %v)", ps, id, n, f, err)
		}
		n = 0
		c := srpc.NewPrefixClient(&vrClient{
			exec: func(x context.Context, s, m string, i, o srpc.Message) error {
				n++
				if x != ctx || s != wantID || m != "meth" || i != srpc.Message(in) || o != srpc.Message(out) {
					vrFail(t, "prefixes %q service %q: ExecCall forwarded as %q %q", ps, id, s, m)
				}
				return e
			},
			open: func(x context.Context, s, m string, i srpc.Message) (srpc.Stream, error) {
				n++
				if x != ctx || s != wantID || m != "meth" || i != srpc.Message(in) {
					vrFail(t, "prefixes %q service %q: NewStream forwarded as %q %q", ps, id, s, m)
				}
				return strm, e
			},
		}, ps)
		err = c.ExecCall(ctx, id, "meth", in, out)
		if ok && (n != 1 || err != e) || !ok && (n != 0 || err != srpc.ErrUnimplemented) {
			vrFail(t, "prefixes %q service %q: ExecCall made %d calls, answered %v", ps, id, n, err)
		}
		n = 0
		st, err := c.NewStream(ctx, id, "meth", in)
		if ok && (n != 1 || err != e || st != srpc.Stream(strm)) || !ok && (n != 0 || err != srpc.ErrUnimplemented || st != nil) {
			vrFail(t, "prefixes %q service %q: NewStream made %d calls, answered %v %v", ps, id, n, st, err)
		}
		cancel()
	}
}

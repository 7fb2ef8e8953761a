package srpc_test

import (
	"context"
	"errors"
	"fmt"
	"io"
	"testing"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/sirupsen/logrus"
)

type vrMux26 struct {
	log *[]string
	b   bool
	err error
}

func (m *vrMux26) InvokeMethod(s, x string, st srpc.Stream) (bool, error) {
	*m.log = append(*m.log, fmt.Sprintf("invoke(%q,%q,%p)", s, x, st))
	return m.b, m.err
}
func (m *vrMux26) Register(h srpc.Handler) error {
	*m.log = append(*m.log, fmt.Sprintf("register(%p)", h))
	return m.err
}
func (m *vrMux26) HasService(s string) bool {
	*m.log = append(*m.log, fmt.Sprintf("has(%q)", s))
	return m.b
}
func (m *vrMux26) HasServiceMethod(s, x string) bool {
	*m.log = append(*m.log, fmt.Sprintf("hasm(%q,%q)", s, x))
	return m.b
}

type vrStream26 struct {
	log *[]string
	err error
	ctx context.Context
}

func (s *vrStream26) add(f string, a ...any) { *s.log = append(*s.log, fmt.Sprintf(f, a...)) }
func (s *vrStream26) Context() context.Context {
	s.add("ctx")
	return s.ctx
}
func (s *vrStream26) MsgSend(m srpc.Message) error     { s.add("send(%p)", m); return s.err }
func (s *vrStream26) MsgRecv(m srpc.Message) error     { s.add("recv(%p)", m); return s.err }
func (s *vrStream26) CloseSend() error                 { s.add("closesend"); return s.err }
func (s *vrStream26) Close() error                     { s.add("close"); return s.err }
func (s *vrStream26) WritePacket(p *srpc.Packet) error { s.add("write(%p)", p); return s.err }

func TestVerifReplay_C26(t *testing.T) {
	lg := logrus.New()
	lg.SetOutput(io.Discard)
	lg.SetLevel(logrus.DebugLevel)
	le := logrus.NewEntry(lg)
	errs := append([]error{nil}, vrErrs...)
	names := []string{"", "s", "a/b", "%s%d", "method"}
	var log []string
	want := func(what, w string) {
		if len(log) != 1 || log[0] != w {
			vrFail(t, "%s: calls %v, want exactly %q", what, log, w)
		}
		log = nil
	}
	for _, e := range errs {
		for _, s := range names {
			for _, m := range names {
				in, out, strm := srpc.NewRawMessage(nil, false), srpc.NewRawMessage(nil, false), &vrStream{id: 3}
				ctx, cancel := context.WithCancel(context.Background())
				for k := 0; k < 2; k++ {
					c := srpc.NewVClient(&vrClient{
						exec: func(x context.Context, a, b string, i, o srpc.Message) error {
							log = append(log, fmt.Sprintf("exec(%p,%q,%q,%p,%p)", x, a, b, i, o))
							return e
						},
						open: func(x context.Context, a, b string, f srpc.Message) (srpc.Stream, error) {
							log = append(log, fmt.Sprintf("open(%p,%q,%q,%p)", x, a, b, f))
							return strm, e
						},
					}, le)
					if err := c.ExecCall(ctx, s, m, in, out); err != e {
						vrFail(t, "ExecCall returned %v, want %v", err, e)
					}
					want("ExecCall", fmt.Sprintf("exec(%p,%q,%q,%p,%p)", ctx, s, m, in, out))
					st, err := c.NewStream(ctx, s, m, in)
					if err != e || st != srpc.Stream(strm) {
						vrFail(t, "NewStream returned (%v, %v), want (%v, %v)", st, err, strm, e)
					}
					want("NewStream", fmt.Sprintf("open(%p,%q,%q,%p)", ctx, s, m, in))
					cancel()
				}
				for _, b := range []bool{false, true} {
					for _, vv := range []bool{false, true} {
						v := srpc.NewVMux(&vrMux26{&log, b, e}, le, vv)
						if d, err := v.InvokeMethod(s, m, strm); d != b || err != e {
							vrFail(t, "mux InvokeMethod returned (%v, %v), want (%v, %v)", d, err, b, e)
						}
						want("InvokeMethod", fmt.Sprintf("invoke(%q,%q,%p)", s, m, strm))
						h := &vrHandler{svc: s}
						if err := v.Register(h); err != e {
							vrFail(t, "mux Register returned %v, want %v", err, e)
						}
						want("Register", fmt.Sprintf("register(%p)", h))
						if d := v.HasService(s); d != b {
							vrFail(t, "HasService returned %v", d)
						}
						want("HasService", fmt.Sprintf("has(%q)", s))
						if d := v.HasServiceMethod(s, m); d != b {
							vrFail(t, "HasServiceMethod returned %v", d)
						}
						want("HasServiceMethod", fmt.Sprintf("hasm(%q,%q)", s, m))
					}
				}
			}
		}
		for _, ce := range []error{nil, errors.New("callback"), context.Canceled} {
			inner := &vrStream26{&log, e, context.WithValue(context.Background(), vrStream26{}, 1)}
			we := e
			if e == nil {
				we = ce
			}
			closed := func(what string, err error) {
				if fmt.Sprint(log) != "[close cb]" && fmt.Sprint(log) != "[cb close]" {
					vrFail(t, "%s close: calls %v", what, log)
				}
				if err != we {
					vrFail(t, "%s close with inner error %v and callback error %v returned %v", what, e, ce, err)
				}
				log = nil
			}
			cb := func() error { log = append(log, "cb"); return ce }
			st := srpc.NewStreamWithClose(inner, cb)
			msg := srpc.NewRawMessage(nil, false)
			if err := st.MsgSend(msg); err != e {
				vrFail(t, "MsgSend returned %v", err)
			}
			want("MsgSend", fmt.Sprintf("send(%p)", msg))
			if err := st.MsgRecv(msg); err != e {
				vrFail(t, "MsgRecv returned %v", err)
			}
			want("MsgRecv", fmt.Sprintf("recv(%p)", msg))
			if err := st.CloseSend(); err != e {
				vrFail(t, "CloseSend returned %v", err)
			}
			want("CloseSend", "closesend")
			if c := st.Context(); c != inner.ctx {
				vrFail(t, "Context changed")
			}
			want("Context", "ctx")
			closed("stream", st.Close())
			w := srpc.NewPacketWriterWithClose(inner, cb)
			pkt := &srpc.Packet{}
			if err := w.WritePacket(pkt); err != e {
				vrFail(t, "WritePacket returned %v", err)
			}
			want("WritePacket", fmt.Sprintf("write(%p)", pkt))
			closed("writer", w.Close())
		}
	}
}

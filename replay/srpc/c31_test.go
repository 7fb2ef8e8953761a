package srpc_test

// Made by tools/gen_c31_replay.py: calls between clients and handlers made by the code generator.

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sort"
	"testing"
	"time"

	"github.com/aperturerobotics/protobuf-go-lite/types/known/emptypb"
	"github.com/aperturerobotics/starpc/echo"
	e2e_mock "github.com/aperturerobotics/starpc/mock"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
)

func c31Set(m any, s string) {
	switch x := m.(type) {
	case *echo.EchoMsg:
		x.Body = s
	case *e2e_mock.MockMsg:
		x.Body = s
	case *rpcstream.RpcStreamPacket:
		x.Body = &rpcstream.RpcStreamPacket_Data{Data: []byte(s)}
	}
}

func c31Get(m any) string {
	switch x := m.(type) {
	case *echo.EchoMsg:
		return x.GetBody()
	case *e2e_mock.MockMsg:
		return x.GetBody()
	case *rpcstream.RpcStreamPacket:
		return string(x.GetData())
	}
	return ""
}

// c31Text is what is left of s in a message of the type of m.
func c31Text(m any, s string) string { c31Set(m, s); return c31Get(m) }

type c31Base struct {
	log []string
	err error
}

func (b *c31Base) end(t *testing.T, what, want string, got error) {
	if b.err == nil {
		if got != nil && got != io.EOF {
			vrFail(t, "%s: %v, want no error", what, got)
		}
	} else if got == nil || got.Error() != b.err.Error() {
		vrFail(t, "%s: error %v, want %v", what, got, b.err)
	}
	if len(b.log) != 1 || b.log[0] != want {
		vrFail(t, "%s: the implementation ran %q, want [%q]", what, b.log, want)
	}
}

func c31Handler(t *testing.T, name string, h srpc.Handler, id string, kinds map[string]string) {
	if h.GetServiceID() != id {
		vrFail(t, "%s: service id %q, want %q", name, h.GetServiceID(), id)
	}
	var want []string
	for k := range kinds {
		want = append(want, k)
	}
	got := append([]string(nil), h.GetMethodIDs()...)
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		vrFail(t, "%s: method ids %v, want %v", name, got, want)
	}
	for _, c := range [][2]string{{id, "nope"}, {id, ""}, {"", "nope"}, {id + "x", "Unary"}, {id + "x", "C"}, {id + "x", "Up"}, {id + "x", "one"}} {
		s := &c31Touch{}
		if ok, err := h.InvokeMethod(c[0], c[1], s); ok || err != nil || s.n != 0 {
			vrFail(t, "%s: unknown %q: %v %v after %d uses of the stream", name, c, ok, err, s.n)
		}
	}
	for m, k := range kinds {
		for _, sv := range []string{id, ""} {
			s := &c31Touch{recv: errors.New("no request")}
			ok, err := h.InvokeMethod(sv, m, s)
			if !ok || (k == "unary" || k == "server") && err != s.recv {
				vrFail(t, "%s: %s with a failing request: %v %v", name, m, ok, err)
			}
		}
	}
}

type c31Touch struct {
	vrStream
	n    int
	recv error
}

func (s *c31Touch) Context() context.Context     { s.n++; return context.Background() }
func (s *c31Touch) MsgSend(m srpc.Message) error { s.n++; return nil }
func (s *c31Touch) MsgRecv(m srpc.Message) error { s.n++; return s.recv }
func (s *c31Touch) CloseSend() error             { s.n++; return nil }
func (s *c31Touch) Close() error                 { s.n++; return nil }

// c31Client fails, and notes what it was asked.
type c31Client struct {
	log  []string
	strm srpc.Stream
	err  error
}

func (c *c31Client) ExecCall(ctx context.Context, service, method string, in, out srpc.Message) error {
	c.log = append(c.log, service+"/"+method)
	return c.err
}

func (c *c31Client) NewStream(ctx context.Context, service, method string, first srpc.Message) (srpc.Stream, error) {
	c.log = append(c.log, fmt.Sprint(service, "/", method, " ", first != nil))
	if c.err != nil {
		return nil, c.err
	}
	return c.strm, nil
}

type c31CloseErr struct {
	vrStream
	err error
}

func (s *c31CloseErr) CloseSend() error { return s.err }

func c31Asked(t *testing.T, what string, c *c31Client, want string, got, err error) {
	if len(c.log) != 1 || c.log[0] != want || got != err {
		vrFail(t, "%s: asked %q: %v, want %q: %v", what, c.log, got, want, err)
	}
	c.log = nil
}

func TestVerifReplay_C31(t *testing.T) {
	vrWithin(t, 60*time.Second, "generated calls", func() {
		c31GenKinds(t)
		c31GenNames(t)
		c31GenNone(t)
		c31GenA_B(t)
		c31GenA(t)
		c31GenSolo(t)
		c31GenPlain(t)
		c31GenDown(t)
	})
}

var _ = errors.New
var _ emptypb.Empty

type c31ImplGenKinds struct{ c31Base }

func (i *c31ImplGenKinds) Unary(ctx context.Context, in *echo.EchoMsg) (*rpcstream.RpcStreamPacket, error) {
	i.log = append(i.log, "Unary:"+c31Get(in))
	if i.err != nil {
		return nil, i.err
	}
	out := &rpcstream.RpcStreamPacket{}
	c31Set(out, "reply of Unary")
	return out, nil
}

func (i *c31ImplGenKinds) Down(in *echo.EchoMsg, s echo.SRPCGenKinds_DownStream) error {
	i.log = append(i.log, "Down:"+c31Get(in))
	for k := 0; k < 3; k++ {
		out := &rpcstream.RpcStreamPacket{}
		c31Set(out, fmt.Sprint("Down says ", k))
		if k == 2 && i.err == nil {
			return s.SendAndClose(out)
		}
		if err := s.Send(out); err != nil {
			return err
		}
	}
	return i.err
}

func (i *c31ImplGenKinds) Up(s echo.SRPCGenKinds_UpStream) (*emptypb.Empty, error) {
	l := "Up:"
	for k := 0; ; k++ {
		in := &rpcstream.RpcStreamPacket{}
		var err error
		if k%2 == 0 {
			in, err = s.Recv()
		} else {
			err = s.RecvTo(in)
		}
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		l += c31Get(in) + ";"
	}
	i.log = append(i.log, l)
	if i.err != nil {
		return nil, i.err
	}
	out := &emptypb.Empty{}
	c31Set(out, "reply of Up")
	return out, nil
}

func (i *c31ImplGenKinds) Both(s echo.SRPCGenKinds_BothStream) error {
	l := "Both:"
	for k := 0; k < 3; k++ {
		in := &rpcstream.RpcStreamPacket{}
		var err error
		if k%2 == 0 {
			in, err = s.Recv()
		} else {
			err = s.RecvTo(in)
		}
		if err != nil {
			return err
		}
		l += c31Get(in) + ";"
		out := &echo.EchoMsg{}
		c31Set(out, fmt.Sprint("Both says ", k))
		if err := s.Send(out); err != nil {
			return err
		}
	}
	i.log = append(i.log, l)
	if i.err != nil {
		return i.err
	}
	return s.SendAndClose(nil)
}

func c31GenKinds(t *testing.T) {
	if echo.SRPCGenKindsServiceID != "verif.alpha.v1.GenKinds" {
		vrFail(t, "GenKinds: service id %q", echo.SRPCGenKindsServiceID)
	}
	c31Handler(t, "GenKinds", echo.NewSRPCGenKindsHandler(&c31ImplGenKinds{}, ""), "verif.alpha.v1.GenKinds", map[string]string{"Unary": "unary", "Down": "server", "Up": "client", "Both": "bidi"})
	c31Handler(t, "GenKinds", echo.NewSRPCGenKindsHandler(&c31ImplGenKinds{}, "own/id"), "own/id", map[string]string{"Unary": "unary", "Down": "server", "Up": "client", "Both": "bidi"})
	for round := 0; round < 8; round++ {
		id, own := "verif.alpha.v1.GenKinds", round%2 == 1
		impl := &c31ImplGenKinds{}
		if round >= 4 {
			impl.err = errors.New("impl failed")
		}
		mux := srpc.NewMux()
		reg := echo.SRPCRegisterGenKinds(mux, impl)
		cc := srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(mux)))
		c := echo.NewSRPCGenKindsClient(cc)
		if round&3 == 2 {
			c = echo.NewSRPCGenKindsClientWithServiceID(cc, "")
		}
		if own {
			id = "own/id"
			mux = srpc.NewMux()
			reg = mux.Register(echo.NewSRPCGenKindsHandler(impl, id))
			cc = srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(mux)))
			c = echo.NewSRPCGenKindsClientWithServiceID(cc, id)
		}
		if reg != nil || c.SRPCClient() != cc {
			vrFail(t, "GenKinds: cannot register, or another client: %v", reg)
		}
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		fc := &c31Client{}
		f := echo.NewSRPCGenKindsClientWithServiceID(fc, id)
		_, _, _ = ctx, f, fc
		{ // Unary
			impl.log = nil
			in := &echo.EchoMsg{}
			c31Set(in, "request of Unary")
			out, err := c.Unary(ctx, in)
			impl.end(t, "GenKinds.Unary", "Unary:"+c31Text(&echo.EchoMsg{}, "request of Unary"), err)
			if (err == nil) != (out != nil) || err == nil && c31Get(out) != c31Text(&rpcstream.RpcStreamPacket{}, "reply of Unary") {
				vrFail(t, "%s: reply %v", "GenKinds.Unary", out)
			}
			fc.err = errors.New("no call")
			out, err = f.Unary(ctx, in)
			c31Asked(t, "GenKinds.Unary", fc, id+"/Unary", err, fc.err)
			if out != nil {
				vrFail(t, "%s: a reply with an error", "GenKinds.Unary")
			}
		}
		{ // Down
			impl.log = nil
			in := &echo.EchoMsg{}
			c31Set(in, "request of Down")
			s, err := c.Down(ctx, in)
			if err != nil {
				vrFail(t, "%s: %v", "GenKinds.Down", err)
			}
			want := "Down:"
			want += c31Text(&echo.EchoMsg{}, "request of Down")
			for k := 0; k < 3; k++ {
				out := &rpcstream.RpcStreamPacket{}
				if k%2 == 0 {
					out, err = s.Recv()
				} else {
					err = s.RecvTo(out)
				}
				if err != nil || c31Get(out) != c31Text(&rpcstream.RpcStreamPacket{}, fmt.Sprint("Down says ", k)) {
					vrFail(t, "%s: message %d: %v %v", "GenKinds.Down", k, out, err)
				}
			}
			out, err := s.Recv()
			if err == nil || out != nil {
				vrFail(t, "%s: a message after the end: %v", "GenKinds.Down", out)
			}
			impl.end(t, "GenKinds.Down", want, err)
			_ = s.Close()
			fc.err = errors.New("no stream")
			n, err := f.Down(ctx, in)
			c31Asked(t, "GenKinds.Down", fc, fmt.Sprint(id, "/Down ", true), err, fc.err)
			if n != nil {
				vrFail(t, "%s: a stream with an error", "GenKinds.Down")
			}
			cs := &c31CloseErr{err: errors.New("cannot half-close")}
			fc.err, fc.strm = nil, cs
			n, err = f.Down(ctx, in)
			c31Asked(t, "GenKinds.Down", fc, fmt.Sprint(id, "/Down true"), err, cs.err)
			if n != nil {
				vrFail(t, "%s: a stream with an error", "GenKinds.Down")
			}
		}
		{ // Up
			impl.log = nil
			s, err := c.Up(ctx)
			if err != nil {
				vrFail(t, "%s: %v", "GenKinds.Up", err)
			}
			want := "Up:"
			for k := 0; k < 3; k++ {
				in := &rpcstream.RpcStreamPacket{}
				want += c31Text(in, fmt.Sprint("Up request ", k)) + ";"
				if err := s.Send(in); err != nil {
					vrFail(t, "%s: send: %v", "GenKinds.Up", err)
				}
				if err := s.Send(nil); err != nil {
					vrFail(t, "%s: send nil: %v", "GenKinds.Up", err)
				}
			}
			out, err := s.CloseAndRecv()
			impl.end(t, "GenKinds.Up", want, err)
			if (err == nil) != (out != nil) || err == nil && c31Get(out) != c31Text(&emptypb.Empty{}, "reply of Up") {
				vrFail(t, "%s: reply %v", "GenKinds.Up", out)
			}
			_ = s.Close()
			fc.err = errors.New("no stream")
			n, err := f.Up(ctx)
			c31Asked(t, "GenKinds.Up", fc, fmt.Sprint(id, "/Up ", false), err, fc.err)
			if n != nil {
				vrFail(t, "%s: a stream with an error", "GenKinds.Up")
			}
		}
		{ // Both
			impl.log = nil
			s, err := c.Both(ctx)
			if err != nil {
				vrFail(t, "%s: %v", "GenKinds.Both", err)
			}
			want := "Both:"
			for k := 0; k < 3; k++ {
				in := &rpcstream.RpcStreamPacket{}
				want += c31Text(in, fmt.Sprint("Both request ", k)) + ";"
				if err := s.Send(in); err != nil {
					vrFail(t, "%s: send: %v", "GenKinds.Both", err)
				}
				out := &echo.EchoMsg{}
				if k%2 == 0 {
					out, err = s.Recv()
				} else {
					err = s.RecvTo(out)
				}
				if err != nil || c31Get(out) != c31Text(&echo.EchoMsg{}, fmt.Sprint("Both says ", k)) {
					vrFail(t, "%s: message %d: %v %v", "GenKinds.Both", k, out, err)
				}
			}
			out, err := s.Recv()
			if err == nil || out != nil {
				vrFail(t, "%s: a message after the end: %v", "GenKinds.Both", out)
			}
			impl.end(t, "GenKinds.Both", want, err)
			_ = s.Close()
			fc.err = errors.New("no stream")
			n, err := f.Both(ctx)
			c31Asked(t, "GenKinds.Both", fc, fmt.Sprint(id, "/Both ", false), err, fc.err)
			if n != nil {
				vrFail(t, "%s: a stream with an error", "GenKinds.Both")
			}
		}
		cancel()
	}
}

type c31ImplGenNames struct{ c31Base }

func (i *c31ImplGenNames) BothOne(s echo.SRPCGenNames_BothOneStream) error {
	l := "BothOne:"
	for k := 0; k < 3; k++ {
		in := &echo.EchoMsg{}
		var err error
		if k%2 == 0 {
			in, err = s.Recv()
		} else {
			err = s.RecvTo(in)
		}
		if err != nil {
			return err
		}
		l += c31Get(in) + ";"
		out := &emptypb.Empty{}
		c31Set(out, fmt.Sprint("BothOne says ", k))
		if err := s.Send(out); err != nil {
			return err
		}
	}
	i.log = append(i.log, l)
	if i.err != nil {
		return i.err
	}
	return s.SendAndClose(nil)
}

func (i *c31ImplGenNames) UpOne(s echo.SRPCGenNames_UpOneStream) (*rpcstream.RpcStreamPacket, error) {
	l := "UpOne:"
	for k := 0; ; k++ {
		in := &echo.EchoMsg{}
		var err error
		if k%2 == 0 {
			in, err = s.Recv()
		} else {
			err = s.RecvTo(in)
		}
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		l += c31Get(in) + ";"
	}
	i.log = append(i.log, l)
	if i.err != nil {
		return nil, i.err
	}
	out := &rpcstream.RpcStreamPacket{}
	c31Set(out, "reply of UpOne")
	return out, nil
}

func (i *c31ImplGenNames) Down_One(in *emptypb.Empty, s echo.SRPCGenNames_Down__OneStream) error {
	i.log = append(i.log, "Down_One:"+c31Get(in))
	for k := 0; k < 3; k++ {
		out := &echo.EchoMsg{}
		c31Set(out, fmt.Sprint("Down_One says ", k))
		if k == 2 && i.err == nil {
			return s.SendAndClose(out)
		}
		if err := s.Send(out); err != nil {
			return err
		}
	}
	return i.err
}

func (i *c31ImplGenNames) One(ctx context.Context, in *emptypb.Empty) (*echo.EchoMsg, error) {
	i.log = append(i.log, "One:"+c31Get(in))
	if i.err != nil {
		return nil, i.err
	}
	out := &echo.EchoMsg{}
	c31Set(out, "reply of One")
	return out, nil
}

func (i *c31ImplGenNames) One2(ctx context.Context, in *rpcstream.RpcStreamPacket) (*echo.EchoMsg, error) {
	i.log = append(i.log, "One2:"+c31Get(in))
	if i.err != nil {
		return nil, i.err
	}
	out := &echo.EchoMsg{}
	c31Set(out, "reply of One2")
	return out, nil
}

func (i *c31ImplGenNames) Down2(in *rpcstream.RpcStreamPacket, s echo.SRPCGenNames_Down2Stream) error {
	i.log = append(i.log, "Down2:"+c31Get(in))
	for k := 0; k < 3; k++ {
		out := &emptypb.Empty{}
		c31Set(out, fmt.Sprint("Down2 says ", k))
		if k == 2 && i.err == nil {
			return s.SendAndClose(out)
		}
		if err := s.Send(out); err != nil {
			return err
		}
	}
	return i.err
}

func (i *c31ImplGenNames) Up2(s echo.SRPCGenNames_Up2Stream) (*echo.EchoMsg, error) {
	l := "Up2:"
	for k := 0; ; k++ {
		in := &emptypb.Empty{}
		var err error
		if k%2 == 0 {
			in, err = s.Recv()
		} else {
			err = s.RecvTo(in)
		}
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		l += c31Get(in) + ";"
	}
	i.log = append(i.log, l)
	if i.err != nil {
		return nil, i.err
	}
	out := &echo.EchoMsg{}
	c31Set(out, "reply of Up2")
	return out, nil
}

func (i *c31ImplGenNames) BOTH(s echo.SRPCGenNames_BOTHStream) error {
	l := "BOTH:"
	for k := 0; k < 3; k++ {
		in := &emptypb.Empty{}
		var err error
		if k%2 == 0 {
			in, err = s.Recv()
		} else {
			err = s.RecvTo(in)
		}
		if err != nil {
			return err
		}
		l += c31Get(in) + ";"
		out := &emptypb.Empty{}
		c31Set(out, fmt.Sprint("BOTH says ", k))
		if err := s.Send(out); err != nil {
			return err
		}
	}
	i.log = append(i.log, l)
	if i.err != nil {
		return i.err
	}
	return s.SendAndClose(nil)
}

func c31GenNames(t *testing.T) {
	if echo.SRPCGenNamesServiceID != "verif.alpha.v1.gen_names" {
		vrFail(t, "GenNames: service id %q", echo.SRPCGenNamesServiceID)
	}
	c31Handler(t, "GenNames", echo.NewSRPCGenNamesHandler(&c31ImplGenNames{}, ""), "verif.alpha.v1.gen_names", map[string]string{"both_one": "bidi", "up_one": "client", "Down_One": "server", "one": "unary", "One2": "unary", "down2": "server", "Up2": "client", "BOTH": "bidi"})
	c31Handler(t, "GenNames", echo.NewSRPCGenNamesHandler(&c31ImplGenNames{}, "own/id"), "own/id", map[string]string{"both_one": "bidi", "up_one": "client", "Down_One": "server", "one": "unary", "One2": "unary", "down2": "server", "Up2": "client", "BOTH": "bidi"})
	for round := 0; round < 8; round++ {
		id, own := "verif.alpha.v1.gen_names", round%2 == 1
		impl := &c31ImplGenNames{}
		if round >= 4 {
			impl.err = errors.New("impl failed")
		}
		mux := srpc.NewMux()
		reg := echo.SRPCRegisterGenNames(mux, impl)
		cc := srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(mux)))
		c := echo.NewSRPCGenNamesClient(cc)
		if round&3 == 2 {
			c = echo.NewSRPCGenNamesClientWithServiceID(cc, "")
		}
		if own {
			id = "own/id"
			mux = srpc.NewMux()
			reg = mux.Register(echo.NewSRPCGenNamesHandler(impl, id))
			cc = srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(mux)))
			c = echo.NewSRPCGenNamesClientWithServiceID(cc, id)
		}
		if reg != nil || c.SRPCClient() != cc {
			vrFail(t, "GenNames: cannot register, or another client: %v", reg)
		}
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		fc := &c31Client{}
		f := echo.NewSRPCGenNamesClientWithServiceID(fc, id)
		_, _, _ = ctx, f, fc
		{ // BothOne
			impl.log = nil
			s, err := c.BothOne(ctx)
			if err != nil {
				vrFail(t, "%s: %v", "GenNames.BothOne", err)
			}
			want := "BothOne:"
			for k := 0; k < 3; k++ {
				in := &echo.EchoMsg{}
				want += c31Text(in, fmt.Sprint("BothOne request ", k)) + ";"
				if err := s.Send(in); err != nil {
					vrFail(t, "%s: send: %v", "GenNames.BothOne", err)
				}
				out := &emptypb.Empty{}
				if k%2 == 0 {
					out, err = s.Recv()
				} else {
					err = s.RecvTo(out)
				}
				if err != nil || c31Get(out) != c31Text(&emptypb.Empty{}, fmt.Sprint("BothOne says ", k)) {
					vrFail(t, "%s: message %d: %v %v", "GenNames.BothOne", k, out, err)
				}
			}
			out, err := s.Recv()
			if err == nil || out != nil {
				vrFail(t, "%s: a message after the end: %v", "GenNames.BothOne", out)
			}
			impl.end(t, "GenNames.BothOne", want, err)
			_ = s.Close()
			fc.err = errors.New("no stream")
			n, err := f.BothOne(ctx)
			c31Asked(t, "GenNames.BothOne", fc, fmt.Sprint(id, "/both_one ", false), err, fc.err)
			if n != nil {
				vrFail(t, "%s: a stream with an error", "GenNames.BothOne")
			}
		}
		{ // UpOne
			impl.log = nil
			s, err := c.UpOne(ctx)
			if err != nil {
				vrFail(t, "%s: %v", "GenNames.UpOne", err)
			}
			want := "UpOne:"
			for k := 0; k < 3; k++ {
				in := &echo.EchoMsg{}
				want += c31Text(in, fmt.Sprint("UpOne request ", k)) + ";"
				if err := s.Send(in); err != nil {
					vrFail(t, "%s: send: %v", "GenNames.UpOne", err)
				}
				if err := s.Send(nil); err != nil {
					vrFail(t, "%s: send nil: %v", "GenNames.UpOne", err)
				}
			}
			out, err := s.CloseAndRecv()
			impl.end(t, "GenNames.UpOne", want, err)
			if (err == nil) != (out != nil) || err == nil && c31Get(out) != c31Text(&rpcstream.RpcStreamPacket{}, "reply of UpOne") {
				vrFail(t, "%s: reply %v", "GenNames.UpOne", out)
			}
			_ = s.Close()
			fc.err = errors.New("no stream")
			n, err := f.UpOne(ctx)
			c31Asked(t, "GenNames.UpOne", fc, fmt.Sprint(id, "/up_one ", false), err, fc.err)
			if n != nil {
				vrFail(t, "%s: a stream with an error", "GenNames.UpOne")
			}
		}
		{ // Down_One
			impl.log = nil
			in := &emptypb.Empty{}
			c31Set(in, "request of Down_One")
			s, err := c.Down_One(ctx, in)
			if err != nil {
				vrFail(t, "%s: %v", "GenNames.Down_One", err)
			}
			want := "Down_One:"
			want += c31Text(&emptypb.Empty{}, "request of Down_One")
			for k := 0; k < 3; k++ {
				out := &echo.EchoMsg{}
				if k%2 == 0 {
					out, err = s.Recv()
				} else {
					err = s.RecvTo(out)
				}
				if err != nil || c31Get(out) != c31Text(&echo.EchoMsg{}, fmt.Sprint("Down_One says ", k)) {
					vrFail(t, "%s: message %d: %v %v", "GenNames.Down_One", k, out, err)
				}
			}
			out, err := s.Recv()
			if err == nil || out != nil {
				vrFail(t, "%s: a message after the end: %v", "GenNames.Down_One", out)
			}
			impl.end(t, "GenNames.Down_One", want, err)
			_ = s.Close()
			fc.err = errors.New("no stream")
			n, err := f.Down_One(ctx, in)
			c31Asked(t, "GenNames.Down_One", fc, fmt.Sprint(id, "/Down_One ", true), err, fc.err)
			if n != nil {
				vrFail(t, "%s: a stream with an error", "GenNames.Down_One")
			}
			cs := &c31CloseErr{err: errors.New("cannot half-close")}
			fc.err, fc.strm = nil, cs
			n, err = f.Down_One(ctx, in)
			c31Asked(t, "GenNames.Down_One", fc, fmt.Sprint(id, "/Down_One true"), err, cs.err)
			if n != nil {
				vrFail(t, "%s: a stream with an error", "GenNames.Down_One")
			}
		}
		{ // One
			impl.log = nil
			in := &emptypb.Empty{}
			c31Set(in, "request of One")
			out, err := c.One(ctx, in)
			impl.end(t, "GenNames.One", "One:"+c31Text(&emptypb.Empty{}, "request of One"), err)
			if (err == nil) != (out != nil) || err == nil && c31Get(out) != c31Text(&echo.EchoMsg{}, "reply of One") {
				vrFail(t, "%s: reply %v", "GenNames.One", out)
			}
			fc.err = errors.New("no call")
			out, err = f.One(ctx, in)
			c31Asked(t, "GenNames.One", fc, id+"/one", err, fc.err)
			if out != nil {
				vrFail(t, "%s: a reply with an error", "GenNames.One")
			}
		}
		{ // One2
			impl.log = nil
			in := &rpcstream.RpcStreamPacket{}
			c31Set(in, "request of One2")
			out, err := c.One2(ctx, in)
			impl.end(t, "GenNames.One2", "One2:"+c31Text(&rpcstream.RpcStreamPacket{}, "request of One2"), err)
			if (err == nil) != (out != nil) || err == nil && c31Get(out) != c31Text(&echo.EchoMsg{}, "reply of One2") {
				vrFail(t, "%s: reply %v", "GenNames.One2", out)
			}
			fc.err = errors.New("no call")
			out, err = f.One2(ctx, in)
			c31Asked(t, "GenNames.One2", fc, id+"/One2", err, fc.err)
			if out != nil {
				vrFail(t, "%s: a reply with an error", "GenNames.One2")
			}
		}
		{ // Down2
			impl.log = nil
			in := &rpcstream.RpcStreamPacket{}
			c31Set(in, "request of Down2")
			s, err := c.Down2(ctx, in)
			if err != nil {
				vrFail(t, "%s: %v", "GenNames.Down2", err)
			}
			want := "Down2:"
			want += c31Text(&rpcstream.RpcStreamPacket{}, "request of Down2")
			for k := 0; k < 3; k++ {
				out := &emptypb.Empty{}
				if k%2 == 0 {
					out, err = s.Recv()
				} else {
					err = s.RecvTo(out)
				}
				if err != nil || c31Get(out) != c31Text(&emptypb.Empty{}, fmt.Sprint("Down2 says ", k)) {
					vrFail(t, "%s: message %d: %v %v", "GenNames.Down2", k, out, err)
				}
			}
			out, err := s.Recv()
			if err == nil || out != nil {
				vrFail(t, "%s: a message after the end: %v", "GenNames.Down2", out)
			}
			impl.end(t, "GenNames.Down2", want, err)
			_ = s.Close()
			fc.err = errors.New("no stream")
			n, err := f.Down2(ctx, in)
			c31Asked(t, "GenNames.Down2", fc, fmt.Sprint(id, "/down2 ", true), err, fc.err)
			if n != nil {
				vrFail(t, "%s: a stream with an error", "GenNames.Down2")
			}
			cs := &c31CloseErr{err: errors.New("cannot half-close")}
			fc.err, fc.strm = nil, cs
			n, err = f.Down2(ctx, in)
			c31Asked(t, "GenNames.Down2", fc, fmt.Sprint(id, "/down2 true"), err, cs.err)
			if n != nil {
				vrFail(t, "%s: a stream with an error", "GenNames.Down2")
			}
		}
		{ // Up2
			impl.log = nil
			s, err := c.Up2(ctx)
			if err != nil {
				vrFail(t, "%s: %v", "GenNames.Up2", err)
			}
			want := "Up2:"
			for k := 0; k < 3; k++ {
				in := &emptypb.Empty{}
				want += c31Text(in, fmt.Sprint("Up2 request ", k)) + ";"
				if err := s.Send(in); err != nil {
					vrFail(t, "%s: send: %v", "GenNames.Up2", err)
				}
				if err := s.Send(nil); err != nil {
					vrFail(t, "%s: send nil: %v", "GenNames.Up2", err)
				}
			}
			out, err := s.CloseAndRecv()
			impl.end(t, "GenNames.Up2", want, err)
			if (err == nil) != (out != nil) || err == nil && c31Get(out) != c31Text(&echo.EchoMsg{}, "reply of Up2") {
				vrFail(t, "%s: reply %v", "GenNames.Up2", out)
			}
			_ = s.Close()
			fc.err = errors.New("no stream")
			n, err := f.Up2(ctx)
			c31Asked(t, "GenNames.Up2", fc, fmt.Sprint(id, "/Up2 ", false), err, fc.err)
			if n != nil {
				vrFail(t, "%s: a stream with an error", "GenNames.Up2")
			}
		}
		{ // BOTH
			impl.log = nil
			s, err := c.BOTH(ctx)
			if err != nil {
				vrFail(t, "%s: %v", "GenNames.BOTH", err)
			}
			want := "BOTH:"
			for k := 0; k < 3; k++ {
				in := &emptypb.Empty{}
				want += c31Text(in, fmt.Sprint("BOTH request ", k)) + ";"
				if err := s.Send(in); err != nil {
					vrFail(t, "%s: send: %v", "GenNames.BOTH", err)
				}
				out := &emptypb.Empty{}
				if k%2 == 0 {
					out, err = s.Recv()
				} else {
					err = s.RecvTo(out)
				}
				if err != nil || c31Get(out) != c31Text(&emptypb.Empty{}, fmt.Sprint("BOTH says ", k)) {
					vrFail(t, "%s: message %d: %v %v", "GenNames.BOTH", k, out, err)
				}
			}
			out, err := s.Recv()
			if err == nil || out != nil {
				vrFail(t, "%s: a message after the end: %v", "GenNames.BOTH", out)
			}
			impl.end(t, "GenNames.BOTH", want, err)
			_ = s.Close()
			fc.err = errors.New("no stream")
			n, err := f.BOTH(ctx)
			c31Asked(t, "GenNames.BOTH", fc, fmt.Sprint(id, "/BOTH ", false), err, fc.err)
			if n != nil {
				vrFail(t, "%s: a stream with an error", "GenNames.BOTH")
			}
		}
		cancel()
	}
}

type c31ImplGenNone struct{ c31Base }

func c31GenNone(t *testing.T) {
	if echo.SRPCGenNoneServiceID != "verif.alpha.v1.GenNone" {
		vrFail(t, "GenNone: service id %q", echo.SRPCGenNoneServiceID)
	}
	c31Handler(t, "GenNone", echo.NewSRPCGenNoneHandler(&c31ImplGenNone{}, ""), "verif.alpha.v1.GenNone", map[string]string{})
	c31Handler(t, "GenNone", echo.NewSRPCGenNoneHandler(&c31ImplGenNone{}, "own/id"), "own/id", map[string]string{})
	for round := 0; round < 8; round++ {
		id, own := "verif.alpha.v1.GenNone", round%2 == 1
		impl := &c31ImplGenNone{}
		if round >= 4 {
			impl.err = errors.New("impl failed")
		}
		mux := srpc.NewMux()
		reg := echo.SRPCRegisterGenNone(mux, impl)
		cc := srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(mux)))
		c := echo.NewSRPCGenNoneClient(cc)
		if round&3 == 2 {
			c = echo.NewSRPCGenNoneClientWithServiceID(cc, "")
		}
		if own {
			id = "own/id"
			mux = srpc.NewMux()
			reg = mux.Register(echo.NewSRPCGenNoneHandler(impl, id))
			cc = srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(mux)))
			c = echo.NewSRPCGenNoneClientWithServiceID(cc, id)
		}
		if reg != nil || c.SRPCClient() != cc {
			vrFail(t, "GenNone: cannot register, or another client: %v", reg)
		}
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		fc := &c31Client{}
		f := echo.NewSRPCGenNoneClientWithServiceID(fc, id)
		_, _, _ = ctx, f, fc
		cancel()
	}
}

type c31ImplGenA_B struct{ c31Base }

func (i *c31ImplGenA_B) C(s echo.SRPCGenA__B_CStream) error {
	l := "C:"
	for k := 0; k < 3; k++ {
		in := &echo.EchoMsg{}
		var err error
		if k%2 == 0 {
			in, err = s.Recv()
		} else {
			err = s.RecvTo(in)
		}
		if err != nil {
			return err
		}
		l += c31Get(in) + ";"
		out := &echo.EchoMsg{}
		c31Set(out, fmt.Sprint("C says ", k))
		if err := s.Send(out); err != nil {
			return err
		}
	}
	i.log = append(i.log, l)
	if i.err != nil {
		return i.err
	}
	return s.SendAndClose(nil)
}

func c31GenA_B(t *testing.T) {
	if echo.SRPCGenA_BServiceID != "verif.alpha.v1.GenA_B" {
		vrFail(t, "GenA_B: service id %q", echo.SRPCGenA_BServiceID)
	}
	c31Handler(t, "GenA_B", echo.NewSRPCGenA_BHandler(&c31ImplGenA_B{}, ""), "verif.alpha.v1.GenA_B", map[string]string{"C": "bidi"})
	c31Handler(t, "GenA_B", echo.NewSRPCGenA_BHandler(&c31ImplGenA_B{}, "own/id"), "own/id", map[string]string{"C": "bidi"})
	for round := 0; round < 8; round++ {
		id, own := "verif.alpha.v1.GenA_B", round%2 == 1
		impl := &c31ImplGenA_B{}
		if round >= 4 {
			impl.err = errors.New("impl failed")
		}
		mux := srpc.NewMux()
		reg := echo.SRPCRegisterGenA_B(mux, impl)
		cc := srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(mux)))
		c := echo.NewSRPCGenA_BClient(cc)
		if round&3 == 2 {
			c = echo.NewSRPCGenA_BClientWithServiceID(cc, "")
		}
		if own {
			id = "own/id"
			mux = srpc.NewMux()
			reg = mux.Register(echo.NewSRPCGenA_BHandler(impl, id))
			cc = srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(mux)))
			c = echo.NewSRPCGenA_BClientWithServiceID(cc, id)
		}
		if reg != nil || c.SRPCClient() != cc {
			vrFail(t, "GenA_B: cannot register, or another client: %v", reg)
		}
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		fc := &c31Client{}
		f := echo.NewSRPCGenA_BClientWithServiceID(fc, id)
		_, _, _ = ctx, f, fc
		{ // C
			impl.log = nil
			s, err := c.C(ctx)
			if err != nil {
				vrFail(t, "%s: %v", "GenA_B.C", err)
			}
			want := "C:"
			for k := 0; k < 3; k++ {
				in := &echo.EchoMsg{}
				want += c31Text(in, fmt.Sprint("C request ", k)) + ";"
				if err := s.Send(in); err != nil {
					vrFail(t, "%s: send: %v", "GenA_B.C", err)
				}
				out := &echo.EchoMsg{}
				if k%2 == 0 {
					out, err = s.Recv()
				} else {
					err = s.RecvTo(out)
				}
				if err != nil || c31Get(out) != c31Text(&echo.EchoMsg{}, fmt.Sprint("C says ", k)) {
					vrFail(t, "%s: message %d: %v %v", "GenA_B.C", k, out, err)
				}
			}
			out, err := s.Recv()
			if err == nil || out != nil {
				vrFail(t, "%s: a message after the end: %v", "GenA_B.C", out)
			}
			impl.end(t, "GenA_B.C", want, err)
			_ = s.Close()
			fc.err = errors.New("no stream")
			n, err := f.C(ctx)
			c31Asked(t, "GenA_B.C", fc, fmt.Sprint(id, "/C ", false), err, fc.err)
			if n != nil {
				vrFail(t, "%s: a stream with an error", "GenA_B.C")
			}
		}
		cancel()
	}
}

type c31ImplGenA struct{ c31Base }

func (i *c31ImplGenA) B_C(s echo.SRPCGenA_B__CStream) error {
	l := "B_C:"
	for k := 0; k < 3; k++ {
		in := &echo.EchoMsg{}
		var err error
		if k%2 == 0 {
			in, err = s.Recv()
		} else {
			err = s.RecvTo(in)
		}
		if err != nil {
			return err
		}
		l += c31Get(in) + ";"
		out := &echo.EchoMsg{}
		c31Set(out, fmt.Sprint("B_C says ", k))
		if err := s.Send(out); err != nil {
			return err
		}
	}
	i.log = append(i.log, l)
	if i.err != nil {
		return i.err
	}
	return s.SendAndClose(nil)
}

func (i *c31ImplGenA) SRPCClient2(ctx context.Context, in *echo.EchoMsg) (*echo.EchoMsg, error) {
	i.log = append(i.log, "SRPCClient2:"+c31Get(in))
	if i.err != nil {
		return nil, i.err
	}
	out := &echo.EchoMsg{}
	c31Set(out, "reply of SRPCClient2")
	return out, nil
}

func c31GenA(t *testing.T) {
	if echo.SRPCGenAServiceID != "verif.alpha.v1.GenA" {
		vrFail(t, "GenA: service id %q", echo.SRPCGenAServiceID)
	}
	c31Handler(t, "GenA", echo.NewSRPCGenAHandler(&c31ImplGenA{}, ""), "verif.alpha.v1.GenA", map[string]string{"B_C": "bidi", "SRPCClient2": "unary"})
	c31Handler(t, "GenA", echo.NewSRPCGenAHandler(&c31ImplGenA{}, "own/id"), "own/id", map[string]string{"B_C": "bidi", "SRPCClient2": "unary"})
	for round := 0; round < 8; round++ {
		id, own := "verif.alpha.v1.GenA", round%2 == 1
		impl := &c31ImplGenA{}
		if round >= 4 {
			impl.err = errors.New("impl failed")
		}
		mux := srpc.NewMux()
		reg := echo.SRPCRegisterGenA(mux, impl)
		cc := srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(mux)))
		c := echo.NewSRPCGenAClient(cc)
		if round&3 == 2 {
			c = echo.NewSRPCGenAClientWithServiceID(cc, "")
		}
		if own {
			id = "own/id"
			mux = srpc.NewMux()
			reg = mux.Register(echo.NewSRPCGenAHandler(impl, id))
			cc = srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(mux)))
			c = echo.NewSRPCGenAClientWithServiceID(cc, id)
		}
		if reg != nil || c.SRPCClient() != cc {
			vrFail(t, "GenA: cannot register, or another client: %v", reg)
		}
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		fc := &c31Client{}
		f := echo.NewSRPCGenAClientWithServiceID(fc, id)
		_, _, _ = ctx, f, fc
		{ // B_C
			impl.log = nil
			s, err := c.B_C(ctx)
			if err != nil {
				vrFail(t, "%s: %v", "GenA.B_C", err)
			}
			want := "B_C:"
			for k := 0; k < 3; k++ {
				in := &echo.EchoMsg{}
				want += c31Text(in, fmt.Sprint("B_C request ", k)) + ";"
				if err := s.Send(in); err != nil {
					vrFail(t, "%s: send: %v", "GenA.B_C", err)
				}
				out := &echo.EchoMsg{}
				if k%2 == 0 {
					out, err = s.Recv()
				} else {
					err = s.RecvTo(out)
				}
				if err != nil || c31Get(out) != c31Text(&echo.EchoMsg{}, fmt.Sprint("B_C says ", k)) {
					vrFail(t, "%s: message %d: %v %v", "GenA.B_C", k, out, err)
				}
			}
			out, err := s.Recv()
			if err == nil || out != nil {
				vrFail(t, "%s: a message after the end: %v", "GenA.B_C", out)
			}
			impl.end(t, "GenA.B_C", want, err)
			_ = s.Close()
			fc.err = errors.New("no stream")
			n, err := f.B_C(ctx)
			c31Asked(t, "GenA.B_C", fc, fmt.Sprint(id, "/B_C ", false), err, fc.err)
			if n != nil {
				vrFail(t, "%s: a stream with an error", "GenA.B_C")
			}
		}
		{ // SRPCClient2
			impl.log = nil
			in := &echo.EchoMsg{}
			c31Set(in, "request of SRPCClient2")
			out, err := c.SRPCClient2(ctx, in)
			impl.end(t, "GenA.SRPCClient2", "SRPCClient2:"+c31Text(&echo.EchoMsg{}, "request of SRPCClient2"), err)
			if (err == nil) != (out != nil) || err == nil && c31Get(out) != c31Text(&echo.EchoMsg{}, "reply of SRPCClient2") {
				vrFail(t, "%s: reply %v", "GenA.SRPCClient2", out)
			}
			fc.err = errors.New("no call")
			out, err = f.SRPCClient2(ctx, in)
			c31Asked(t, "GenA.SRPCClient2", fc, id+"/SRPCClient2", err, fc.err)
			if out != nil {
				vrFail(t, "%s: a reply with an error", "GenA.SRPCClient2")
			}
		}
		cancel()
	}
}

type c31ImplGenSolo struct{ c31Base }

func (i *c31ImplGenSolo) Up(s e2e_mock.SRPCGenSolo_UpStream) (*e2e_mock.MockMsg, error) {
	l := "Up:"
	for k := 0; ; k++ {
		in := &e2e_mock.MockMsg{}
		var err error
		if k%2 == 0 {
			in, err = s.Recv()
		} else {
			err = s.RecvTo(in)
		}
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		l += c31Get(in) + ";"
	}
	i.log = append(i.log, l)
	if i.err != nil {
		return nil, i.err
	}
	out := &e2e_mock.MockMsg{}
	c31Set(out, "reply of Up")
	return out, nil
}

func c31GenSolo(t *testing.T) {
	if e2e_mock.SRPCGenSoloServiceID != "GenSolo" {
		vrFail(t, "GenSolo: service id %q", e2e_mock.SRPCGenSoloServiceID)
	}
	c31Handler(t, "GenSolo", e2e_mock.NewSRPCGenSoloHandler(&c31ImplGenSolo{}, ""), "GenSolo", map[string]string{"Up": "client"})
	c31Handler(t, "GenSolo", e2e_mock.NewSRPCGenSoloHandler(&c31ImplGenSolo{}, "own/id"), "own/id", map[string]string{"Up": "client"})
	for round := 0; round < 8; round++ {
		id, own := "GenSolo", round%2 == 1
		impl := &c31ImplGenSolo{}
		if round >= 4 {
			impl.err = errors.New("impl failed")
		}
		mux := srpc.NewMux()
		reg := e2e_mock.SRPCRegisterGenSolo(mux, impl)
		cc := srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(mux)))
		c := e2e_mock.NewSRPCGenSoloClient(cc)
		if round&3 == 2 {
			c = e2e_mock.NewSRPCGenSoloClientWithServiceID(cc, "")
		}
		if own {
			id = "own/id"
			mux = srpc.NewMux()
			reg = mux.Register(e2e_mock.NewSRPCGenSoloHandler(impl, id))
			cc = srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(mux)))
			c = e2e_mock.NewSRPCGenSoloClientWithServiceID(cc, id)
		}
		if reg != nil || c.SRPCClient() != cc {
			vrFail(t, "GenSolo: cannot register, or another client: %v", reg)
		}
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		fc := &c31Client{}
		f := e2e_mock.NewSRPCGenSoloClientWithServiceID(fc, id)
		_, _, _ = ctx, f, fc
		{ // Up
			impl.log = nil
			s, err := c.Up(ctx)
			if err != nil {
				vrFail(t, "%s: %v", "GenSolo.Up", err)
			}
			want := "Up:"
			for k := 0; k < 3; k++ {
				in := &e2e_mock.MockMsg{}
				want += c31Text(in, fmt.Sprint("Up request ", k)) + ";"
				if err := s.Send(in); err != nil {
					vrFail(t, "%s: send: %v", "GenSolo.Up", err)
				}
				if err := s.Send(nil); err != nil {
					vrFail(t, "%s: send nil: %v", "GenSolo.Up", err)
				}
			}
			out, err := s.CloseAndRecv()
			impl.end(t, "GenSolo.Up", want, err)
			if (err == nil) != (out != nil) || err == nil && c31Get(out) != c31Text(&e2e_mock.MockMsg{}, "reply of Up") {
				vrFail(t, "%s: reply %v", "GenSolo.Up", out)
			}
			_ = s.Close()
			fc.err = errors.New("no stream")
			n, err := f.Up(ctx)
			c31Asked(t, "GenSolo.Up", fc, fmt.Sprint(id, "/Up ", false), err, fc.err)
			if n != nil {
				vrFail(t, "%s: a stream with an error", "GenSolo.Up")
			}
		}
		cancel()
	}
}

type c31ImplGenPlain struct{ c31Base }

func (i *c31ImplGenPlain) Unary(ctx context.Context, in *e2e_mock.MockMsg) (*e2e_mock.MockMsg, error) {
	i.log = append(i.log, "Unary:"+c31Get(in))
	if i.err != nil {
		return nil, i.err
	}
	out := &e2e_mock.MockMsg{}
	c31Set(out, "reply of Unary")
	return out, nil
}

func c31GenPlain(t *testing.T) {
	if e2e_mock.SRPCGenPlainServiceID != "GenPlain" {
		vrFail(t, "GenPlain: service id %q", e2e_mock.SRPCGenPlainServiceID)
	}
	c31Handler(t, "GenPlain", e2e_mock.NewSRPCGenPlainHandler(&c31ImplGenPlain{}, ""), "GenPlain", map[string]string{"Unary": "unary"})
	c31Handler(t, "GenPlain", e2e_mock.NewSRPCGenPlainHandler(&c31ImplGenPlain{}, "own/id"), "own/id", map[string]string{"Unary": "unary"})
	for round := 0; round < 8; round++ {
		id, own := "GenPlain", round%2 == 1
		impl := &c31ImplGenPlain{}
		if round >= 4 {
			impl.err = errors.New("impl failed")
		}
		mux := srpc.NewMux()
		reg := e2e_mock.SRPCRegisterGenPlain(mux, impl)
		cc := srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(mux)))
		c := e2e_mock.NewSRPCGenPlainClient(cc)
		if round&3 == 2 {
			c = e2e_mock.NewSRPCGenPlainClientWithServiceID(cc, "")
		}
		if own {
			id = "own/id"
			mux = srpc.NewMux()
			reg = mux.Register(e2e_mock.NewSRPCGenPlainHandler(impl, id))
			cc = srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(mux)))
			c = e2e_mock.NewSRPCGenPlainClientWithServiceID(cc, id)
		}
		if reg != nil || c.SRPCClient() != cc {
			vrFail(t, "GenPlain: cannot register, or another client: %v", reg)
		}
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		fc := &c31Client{}
		f := e2e_mock.NewSRPCGenPlainClientWithServiceID(fc, id)
		_, _, _ = ctx, f, fc
		{ // Unary
			impl.log = nil
			in := &e2e_mock.MockMsg{}
			c31Set(in, "request of Unary")
			out, err := c.Unary(ctx, in)
			impl.end(t, "GenPlain.Unary", "Unary:"+c31Text(&e2e_mock.MockMsg{}, "request of Unary"), err)
			if (err == nil) != (out != nil) || err == nil && c31Get(out) != c31Text(&e2e_mock.MockMsg{}, "reply of Unary") {
				vrFail(t, "%s: reply %v", "GenPlain.Unary", out)
			}
			fc.err = errors.New("no call")
			out, err = f.Unary(ctx, in)
			c31Asked(t, "GenPlain.Unary", fc, id+"/Unary", err, fc.err)
			if out != nil {
				vrFail(t, "%s: a reply with an error", "GenPlain.Unary")
			}
		}
		cancel()
	}
}

type c31ImplGenDown struct{ c31Base }

func (i *c31ImplGenDown) Down(in *e2e_mock.MockMsg, s e2e_mock.SRPCGenDown_DownStream) error {
	i.log = append(i.log, "Down:"+c31Get(in))
	for k := 0; k < 3; k++ {
		out := &e2e_mock.MockMsg{}
		c31Set(out, fmt.Sprint("Down says ", k))
		if k == 2 && i.err == nil {
			return s.SendAndClose(out)
		}
		if err := s.Send(out); err != nil {
			return err
		}
	}
	return i.err
}

func c31GenDown(t *testing.T) {
	if e2e_mock.SRPCGenDownServiceID != "GenDown" {
		vrFail(t, "GenDown: service id %q", e2e_mock.SRPCGenDownServiceID)
	}
	c31Handler(t, "GenDown", e2e_mock.NewSRPCGenDownHandler(&c31ImplGenDown{}, ""), "GenDown", map[string]string{"Down": "server"})
	c31Handler(t, "GenDown", e2e_mock.NewSRPCGenDownHandler(&c31ImplGenDown{}, "own/id"), "own/id", map[string]string{"Down": "server"})
	for round := 0; round < 8; round++ {
		id, own := "GenDown", round%2 == 1
		impl := &c31ImplGenDown{}
		if round >= 4 {
			impl.err = errors.New("impl failed")
		}
		mux := srpc.NewMux()
		reg := e2e_mock.SRPCRegisterGenDown(mux, impl)
		cc := srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(mux)))
		c := e2e_mock.NewSRPCGenDownClient(cc)
		if round&3 == 2 {
			c = e2e_mock.NewSRPCGenDownClientWithServiceID(cc, "")
		}
		if own {
			id = "own/id"
			mux = srpc.NewMux()
			reg = mux.Register(e2e_mock.NewSRPCGenDownHandler(impl, id))
			cc = srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(mux)))
			c = e2e_mock.NewSRPCGenDownClientWithServiceID(cc, id)
		}
		if reg != nil || c.SRPCClient() != cc {
			vrFail(t, "GenDown: cannot register, or another client: %v", reg)
		}
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		fc := &c31Client{}
		f := e2e_mock.NewSRPCGenDownClientWithServiceID(fc, id)
		_, _, _ = ctx, f, fc
		{ // Down
			impl.log = nil
			in := &e2e_mock.MockMsg{}
			c31Set(in, "request of Down")
			s, err := c.Down(ctx, in)
			if err != nil {
				vrFail(t, "%s: %v", "GenDown.Down", err)
			}
			want := "Down:"
			want += c31Text(&e2e_mock.MockMsg{}, "request of Down")
			for k := 0; k < 3; k++ {
				out := &e2e_mock.MockMsg{}
				if k%2 == 0 {
					out, err = s.Recv()
				} else {
					err = s.RecvTo(out)
				}
				if err != nil || c31Get(out) != c31Text(&e2e_mock.MockMsg{}, fmt.Sprint("Down says ", k)) {
					vrFail(t, "%s: message %d: %v %v", "GenDown.Down", k, out, err)
				}
			}
			out, err := s.Recv()
			if err == nil || out != nil {
				vrFail(t, "%s: a message after the end: %v", "GenDown.Down", out)
			}
			impl.end(t, "GenDown.Down", want, err)
			_ = s.Close()
			fc.err = errors.New("no stream")
			n, err := f.Down(ctx, in)
			c31Asked(t, "GenDown.Down", fc, fmt.Sprint(id, "/Down ", true), err, fc.err)
			if n != nil {
				vrFail(t, "%s: a stream with an error", "GenDown.Down")
			}
			cs := &c31CloseErr{err: errors.New("cannot half-close")}
			fc.err, fc.strm = nil, cs
			n, err = f.Down(ctx, in)
			c31Asked(t, "GenDown.Down", fc, fmt.Sprint(id, "/Down true"), err, cs.err)
			if n != nil {
				vrFail(t, "%s: a stream with an error", "GenDown.Down")
			}
		}
		cancel()
	}
}

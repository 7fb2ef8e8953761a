package srpc_test

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sort"
	"testing"
	"time"

	"github.com/aperturerobotics/protobuf-go-lite/types/known/emptypb"
	"github.com/aperturerobotics/starpc/echo"
	e2e_mock "github.com/aperturerobotics/starpc/mock"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
)

// c24Impl records which method ran with what.
type c24Impl struct {
	log  []string
	err  error
	n    int // messages to stream
	tag  string
	strm bool
	both bool // return a reply together with the error
}

func (i *c24Impl) Echo(ctx context.Context, m *echo.EchoMsg) (*echo.EchoMsg, error) {
	i.log = append(i.log, "Echo:"+m.GetBody())
	if i.err != nil && !i.both {
		return nil, i.err
	}
	return &echo.EchoMsg{Body: i.tag + m.GetBody()}, i.err
}
func (i *c24Impl) EchoServerStream(m *echo.EchoMsg, s echo.SRPCEchoer_EchoServerStreamStream) error {
	i.log = append(i.log, "EchoServerStream:"+m.GetBody())
	for k := 0; k < i.n; k++ {
		o := &echo.EchoMsg{Body: fmt.Sprint(i.tag, k, m.GetBody())}
		if k == i.n-1 && i.err == nil {
			return s.SendAndClose(o)
		}
		if err := s.Send(o); err != nil {
			return err
		}
	}
	return i.err
}
func (i *c24Impl) EchoClientStream(s echo.SRPCEchoer_EchoClientStreamStream) (*echo.EchoMsg, error) {
	i.log = append(i.log, "EchoClientStream")
	all := i.tag
	for k := 0; ; k++ {
		m := &echo.EchoMsg{}
		var err error
		if k%2 == 0 {
			m, err = s.Recv()
		} else {
			err = s.RecvTo(m)
		}
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		all += m.GetBody() + ";"
	}
	if i.err != nil && !i.both {
		return nil, i.err
	}
	return &echo.EchoMsg{Body: all}, i.err
}
func (i *c24Impl) EchoBidiStream(s echo.SRPCEchoer_EchoBidiStreamStream) error {
	i.log = append(i.log, "EchoBidiStream")
	for k := 0; k < i.n; k++ {
		m := &echo.EchoMsg{}
		var err error
		if k%2 == 0 {
			m, err = s.Recv()
		} else {
			err = s.RecvTo(m)
		}
		if err != nil {
			return err
		}
		if err := s.Send(&echo.EchoMsg{Body: i.tag + m.GetBody()}); err != nil {
			return err
		}
	}
	if i.err != nil {
		return i.err
	}
	return s.SendAndClose(&echo.EchoMsg{Body: "bye"})
}
func (i *c24Impl) RpcStream(s echo.SRPCEchoer_RpcStreamStream) error {
	i.log = append(i.log, "RpcStream")
	for k := 0; k < i.n; k++ {
		m := &rpcstream.RpcStreamPacket{}
		var err error
		if k%2 == 0 {
			m, err = s.Recv()
		} else {
			err = s.RecvTo(m)
		}
		if err != nil {
			return err
		}
		if err := s.Send(m); err != nil {
			return err
		}
	}
	if i.err != nil {
		return i.err
	}
	return s.SendAndClose(nil)
}
func (i *c24Impl) DoNothing(ctx context.Context, e *emptypb.Empty) (*emptypb.Empty, error) {
	i.log = append(i.log, "DoNothing")
	return e, i.err
}
func (i *c24Impl) MockRequest(ctx context.Context, m *e2e_mock.MockMsg) (*e2e_mock.MockMsg, error) {
	i.log = append(i.log, "MockRequest:"+m.GetBody())
	if i.err != nil && !i.both {
		return nil, i.err
	}
	return &e2e_mock.MockMsg{Body: i.tag + m.GetBody()}, i.err
}

// c24Touch notices every use of a stream.
type c24Touch struct {
	vrStream
	n     int
	sends int
	recv  error
	send  error
}

func (s *c24Touch) Context() context.Context     { s.n++; return context.Background() }
func (s *c24Touch) MsgSend(m srpc.Message) error { s.n++; s.sends++; return s.send }
func (s *c24Touch) MsgRecv(m srpc.Message) error {
	if s.n++; s.recv == nil && s.n > 3 {
		return io.EOF
	}
	return s.recv
}
func (s *c24Touch) CloseSend() error { s.n++; return nil }
func (s *c24Touch) Close() error     { s.n++; return nil }

func c24Err(got, want error) bool {
	if want == nil {
		return got == nil || got == io.EOF
	}
	return got != nil && got.Error() == want.Error()
}

// C24: generated echo and mock clients against generated handlers.
func TestVerifReplay_C24(t *testing.T) {
	vrWithin(t, 60*time.Second, "generated calls", func() { c24Calls(t) })
	c24Handlers(t)
	c24Clients(t)
}

func c24Calls(t *testing.T) {
	r := vrRand()
	for round := 0; round < 150; round++ {
		impl := &c24Impl{tag: fmt.Sprint("r", round, ":"), n: r.Intn(4)}
		if r.Intn(3) == 0 {
			impl.err = errors.New("impl failed")
		}
		svc := []string{"", "custom/svc"}[r.Intn(2)]
		mux := srpc.NewMux()
		if svc == "" {
			if echo.SRPCRegisterEchoer(mux, impl) != nil || e2e_mock.SRPCRegisterMock(mux, impl) != nil {
				vrFail(t, "cannot register")
			}
		} else if mux.Register(echo.NewSRPCEchoerHandler(impl, svc)) != nil || mux.Register(e2e_mock.NewSRPCMockHandler(impl, svc+"m")) != nil {
			vrFail(t, "cannot register")
		}
		cc := srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(mux)))
		var ec echo.SRPCEchoerClient
		var mc e2e_mock.SRPCMockClient
		if svc == "" && r.Intn(2) == 0 {
			ec, mc = echo.NewSRPCEchoerClient(cc), e2e_mock.NewSRPCMockClient(cc)
		} else if svc == "" {
			ec, mc = echo.NewSRPCEchoerClientWithServiceID(cc, ""), e2e_mock.NewSRPCMockClientWithServiceID(cc, "")
		} else {
			ec, mc = echo.NewSRPCEchoerClientWithServiceID(cc, svc), e2e_mock.NewSRPCMockClientWithServiceID(cc, svc+"m")
		}
		if ec.SRPCClient() != cc || mc.SRPCClient() != cc {
			vrFail(t, "another underlying client")
		}
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		ran := func(want string) {
			if len(impl.log) != 1 || impl.log[0] != want {
				vrFail(t, "round %d: implementation ran %v, want [%s]", round, impl.log, want)
			}
		}
		body := fmt.Sprint("b", r.Intn(1000))
		switch r.Intn(7) {
		case 0:
			out, err := ec.Echo(ctx, &echo.EchoMsg{Body: body})
			ran("Echo:" + body)
			if !c24Err(err, impl.err) || (err == nil) != (out != nil) || err == nil && out.GetBody() != impl.tag+body {
				vrFail(t, "Echo: %v %v", out, err)
			}
		case 1:
			out, err := mc.MockRequest(ctx, &e2e_mock.MockMsg{Body: body})
			ran("MockRequest:" + body)
			if !c24Err(err, impl.err) || (err == nil) != (out != nil) || err == nil && out.GetBody() != impl.tag+body {
				vrFail(t, "MockRequest: %v %v", out, err)
			}
		case 2:
			out, err := ec.DoNothing(ctx, &emptypb.Empty{})
			ran("DoNothing")
			if !c24Err(err, impl.err) || (err == nil) != (out != nil) {
				vrFail(t, "DoNothing: %v %v", out, err)
			}
		case 3:
			s, err := ec.EchoServerStream(ctx, &echo.EchoMsg{Body: body})
			if err == io.ErrClosedPipe {
				// the server was done before the client closed its side of the pipe
				cancel()
				continue
			}
			if err != nil {
				vrFail(t, "EchoServerStream: %v", err)
			}
			for k := 0; k < impl.n; k++ {
				m := &echo.EchoMsg{}
				if k%2 == 0 {
					m, err = s.Recv()
				} else {
					err = s.RecvTo(m)
				}
				if want := fmt.Sprint(impl.tag, k, body); err != nil || m.GetBody() != want {
					vrFail(t, "EchoServerStream message %d: %v %v", k, m, err)
				}
			}
			if m, err := s.Recv(); err == nil || m != nil || !c24Err(err, impl.err) {
				vrFail(t, "EchoServerStream end: %v %v, want %v", m, err, impl.err)
			}
			ran("EchoServerStream:" + body)
			_ = s.Close()
		case 4:
			s, err := ec.EchoClientStream(ctx)
			if err != nil {
				vrFail(t, "EchoClientStream: %v", err)
			}
			want := impl.tag
			for k := 0; k < impl.n; k++ {
				b := fmt.Sprint(body, k)
				if err := s.Send(&echo.EchoMsg{Body: b}); err != nil {
					vrFail(t, "EchoClientStream send: %v", err)
				}
				if err := s.Send(nil); err != nil {
					vrFail(t, "EchoClientStream send nil: %v", err)
				}
				want += b + ";"
			}
			m, err := s.CloseAndRecv()
			if !c24Err(err, impl.err) || (err == nil) != (m != nil) || err == nil && m.GetBody() != want {
				vrFail(t, "EchoClientStream: %v %v, want %q", m, err, want)
			}
			ran("EchoClientStream")
			_ = s.Close()
		case 5:
			s, err := ec.EchoBidiStream(ctx)
			if err != nil {
				vrFail(t, "EchoBidiStream: %v", err)
			}
			for k := 0; k < impl.n; k++ {
				b := fmt.Sprint(body, k)
				if err := s.Send(&echo.EchoMsg{Body: b}); err != nil {
					vrFail(t, "EchoBidiStream send: %v", err)
				}
				m := &echo.EchoMsg{}
				if k%2 == 0 {
					m, err = s.Recv()
				} else {
					err = s.RecvTo(m)
				}
				if err != nil || m.GetBody() != impl.tag+b {
					vrFail(t, "EchoBidiStream message %d: %v %v", k, m, err)
				}
			}
			m, err := s.Recv()
			if impl.err == nil {
				if err != nil || m.GetBody() != "bye" {
					vrFail(t, "EchoBidiStream last: %v %v", m, err)
				}
			} else if !c24Err(err, impl.err) {
				vrFail(t, "EchoBidiStream end: %v %v", m, err)
			}
			ran("EchoBidiStream")
			_ = s.Close()
		case 6:
			s, err := ec.RpcStream(ctx)
			if err != nil {
				vrFail(t, "RpcStream: %v", err)
			}
			for k := 0; k < impl.n; k++ {
				b := []byte(fmt.Sprint(body, k))
				if err := s.Send(&rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Data{Data: b}}); err != nil {
					vrFail(t, "RpcStream send: %v", err)
				}
				m := &rpcstream.RpcStreamPacket{}
				if k%2 == 0 {
					m, err = s.Recv()
				} else {
					err = s.RecvTo(m)
				}
				if err != nil || string(m.GetData()) != string(b) {
					vrFail(t, "RpcStream message %d: %v %v", k, m, err)
				}
			}
			if m, err := s.Recv(); err == nil || !c24Err(err, impl.err) {
				vrFail(t, "RpcStream end: %v %v", m, err)
			}
			ran("RpcStream")
			_ = s.Close()
		}
		cancel()
	}
}

func c24Handlers(t *testing.T) {
	kinds := map[string]string{"Echo": "unary", "EchoServerStream": "server", "EchoClientStream": "client", "EchoBidiStream": "bidi", "RpcStream": "bidi", "DoNothing": "unary", "MockRequest": "unary"}
	for _, svc := range []string{"", "x"} {
		for which := 0; which < 2; which++ {
			impl := &c24Impl{err: errVrA}
			h := echo.NewSRPCEchoerHandler(impl, svc)
			id, ids := "echo.Echoer", []string{"DoNothing", "Echo", "EchoBidiStream", "EchoClientStream", "EchoServerStream", "RpcStream"}
			if which == 1 {
				h = e2e_mock.NewSRPCMockHandler(impl, svc)
				id, ids = "e2e.mock.Mock", []string{"MockRequest"}
			}
			if svc != "" {
				id = svc
			}
			got := append([]string(nil), h.GetMethodIDs()...)
			sort.Strings(got)
			if h.GetServiceID() != id || fmt.Sprint(got) != fmt.Sprint(ids) {
				vrFail(t, "handler of %q: service %q methods %v", id, h.GetServiceID(), got)
			}
			for _, s := range []string{id, "", "other", id + "x", "echo.Echoer ", "ECHO.ECHOER", "echo.Echoer", "e2e.mock.Mock"} {
				for _, m := range append([]string{"", "echo", "Echo2", "Ech", "mockRequest", "Echo ", "DoNothing\x00"}, ids...) {
					impl.log = nil
					touch := &c24Touch{}
					ok, err := h.InvokeMethod(s, m, touch)
					_, known := kinds[m]
					known = known && (s == "" || s == id)
					if known != ok {
						vrFail(t, "service %q method %q of %q: found %v", s, m, id, ok)
					}
					if !known && (err != nil || touch.n != 0 || len(impl.log) != 0) {
						vrFail(t, "unknown service %q method %q: %v, %d uses of the stream, ran %v", s, m, err, touch.n, impl.log)
					}
					if known && len(impl.log) != 1 {
						vrFail(t, "service %q method %q: ran %v", s, m, impl.log)
					}
				}
			}
			for _, m := range ids {
				// the request fails
				impl.log, impl.err = nil, errVrA
				touch := &c24Touch{recv: io.ErrNoProgress}
				ok, err := h.InvokeMethod(id, m, touch)
				if k := kinds[m]; k == "unary" || k == "server" {
					if !ok || err != io.ErrNoProgress || len(impl.log) != 0 {
						vrFail(t, "%s with a failing request: %v %v, ran %v", m, ok, err, impl.log)
					}
				}
				// the implementation fails and returns a reply
				if k := kinds[m]; k == "unary" || k == "client" {
					impl.log, impl.err, impl.both = nil, errVrA, true
					touch = &c24Touch{}
					ok, err := h.InvokeMethod(id, m, touch)
					impl.both = false
					if !ok || err != errVrA || touch.sends != 0 {
						vrFail(t, "%s with a failing implementation: %v %v, %d replies", m, ok, err, touch.sends)
					}
				}
				// the implementation succeeds, the reply fails
				impl.log, impl.err = nil, nil
				touch = &c24Touch{send: io.ErrShortWrite}
				if k := kinds[m]; k == "unary" {
					if ok, err := h.InvokeMethod(id, m, touch); !ok || err != io.ErrShortWrite {
						vrFail(t, "%s with a failing reply: %v %v", m, ok, err)
					}
				}
			}
		}
	}
}

func c24Clients(t *testing.T) {
	for _, id := range []string{"", "other"} {
		for _, e := range []error{nil, errVrA} {
			want := id
			var log []string
			cl := &vrClient{}
			cl.exec = func(ctx context.Context, s, m string, in, out srpc.Message) error {
				log = append(log, s+"/"+m)
				return e
			}
			st := &c24Touch{}
			cl.open = func(ctx context.Context, s, m string, f srpc.Message) (srpc.Stream, error) {
				log = append(log, s+"/"+m)
				if (f != nil) != (m == "EchoServerStream") {
					vrFail(t, "%s opened with first message %v", m, f)
				}
				if e != nil {
					return nil, e
				}
				return st, nil
			}
			if want == "" {
				want = "echo.Echoer"
			}
			ec := echo.NewSRPCEchoerClientWithServiceID(cl, id)
			ctx := context.Background()
			_, e1 := ec.Echo(ctx, &echo.EchoMsg{})
			_, e2 := ec.DoNothing(ctx, &emptypb.Empty{})
			_, e3 := ec.EchoServerStream(ctx, &echo.EchoMsg{})
			_, e4 := ec.EchoClientStream(ctx)
			_, e5 := ec.EchoBidiStream(ctx)
			_, e6 := ec.RpcStream(ctx)
			exp := []string{}
			for _, m := range []string{"Echo", "DoNothing", "EchoServerStream", "EchoClientStream", "EchoBidiStream", "RpcStream"} {
				exp = append(exp, want+"/"+m)
			}
			if fmt.Sprint(log) != fmt.Sprint(exp) {
				vrFail(t, "client called %v, want %v", log, exp)
			}
			for i, x := range []error{e1, e2, e3, e4, e5, e6} {
				if x != e {
					vrFail(t, "client call %d returned %v, want %v", i, x, e)
				}
			}
		}
	}
}

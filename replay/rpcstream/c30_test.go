package rpcstream_test

import (
	"context"
	"errors"
	"io"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/echo"
	mock "github.com/aperturerobotics/starpc/mock"
	"github.com/aperturerobotics/starpc/srpc"
)

// vrEcho is a scripted echo stream: receives recv, then recvErr; the send with
// index failAt fails; onSend runs after each send.
type vrEcho struct {
	srpc.Stream
	ctx     context.Context
	recv    []string
	recvErr error
	failAt  int
	sendErr error
	onSend  func(n int)
	sent    []string
	echoed  []*echo.EchoMsg
	given   []*echo.EchoMsg
}

func (s *vrEcho) Context() context.Context { return s.ctx }

func (s *vrEcho) Send(m *echo.EchoMsg) error { return s.MsgSend(m) }

func (s *vrEcho) SendAndClose(m *echo.EchoMsg) error { return s.MsgSend(m) }

func (s *vrEcho) MsgSend(m srpc.Message) error {
	if len(s.sent) == s.failAt {
		return s.sendErr
	}
	s.sent = append(s.sent, m.(*echo.EchoMsg).GetBody())
	if s.onSend != nil {
		s.onSend(len(s.sent))
	}
	return nil
}

func (s *vrEcho) Recv() (*echo.EchoMsg, error) {
	if len(s.recv) == 0 {
		return nil, s.recvErr
	}
	m := &echo.EchoMsg{Body: s.recv[0]}
	s.recv = s.recv[1:]
	s.given = append(s.given, m)
	return m, nil
}

func (s *vrEcho) RecvTo(m *echo.EchoMsg) error { return s.MsgRecv(m) }

func (s *vrEcho) MsgRecv(m srpc.Message) error {
	x, err := s.Recv()
	if err == nil {
		m.(*echo.EchoMsg).Body = x.Body
	}
	return err
}

type vrEchoMux struct {
	srpc.Mux
	h []srpc.Handler
	e error
}

func (m *vrEchoMux) Register(h srpc.Handler) error { m.h = append(m.h, h); return m.e }

func TestVerifReplayC30(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			vrFail(t, "panic: %v", e)
		}
	}()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	boom := errors.New("boom")
	inner := srpc.NewMux()
	s := echo.NewEchoServer(inner)

	m := &echo.EchoMsg{Body: "hello"}
	out, err := s.Echo(ctx, m)
	m.Body = "changed"
	if err != nil || out == m || out.GetBody() != "hello" {
		vrFail(t, "Echo gave %v, %v", out, err)
	}
	if out, err := s.DoNothing(ctx, nil); err != nil || out == nil {
		vrFail(t, "DoNothing gave %v, %v", out, err)
	}
	for _, e := range []error{nil, boom} {
		mx := &vrEchoMux{e: e}
		if err := s.Register(mx); err != e || len(mx.h) != 1 || mx.h[0].GetServiceID() != "echo.Echoer" {
			vrFail(t, "Register gave %v, %v", mx.h, err)
		}
		mx = &vrEchoMux{e: e}
		if err := (&mock.MockServer{}).Register(mx); err != e || len(mx.h) != 1 || mx.h[0].GetServiceID() != "e2e.mock.Mock" {
			vrFail(t, "Register of the mock server gave %v, %v", mx.h, err)
		}
	}

	// server stream: five replies, or the reason why not
	for _, f := range []int{-1, 0, 1, 3, 4} {
		st := &vrEcho{ctx: ctx, failAt: f, sendErr: boom}
		err := s.EchoServerStream(&echo.EchoMsg{Body: "x"}, st)
		if f < 0 && (err != nil || len(st.sent) != 5) || f >= 0 && (err != boom || len(st.sent) != f) {
			vrFail(t, "EchoServerStream with send %d failing: %d sent, %v", f, len(st.sent), err)
		}
		for _, x := range st.sent {
			if x != "x" {
				vrFail(t, "EchoServerStream sent %q", x)
			}
		}
	}
	for _, at := range []int{1, 3} {
		cx, stop := context.WithCancel(ctx)
		st := &vrEcho{ctx: cx, failAt: -1, onSend: func(n int) {
			if n == at {
				stop()
			}
		}}
		t0 := time.Now()
		err := s.EchoServerStream(&echo.EchoMsg{Body: "x"}, st)
		stop()
		if err != context.Canceled || len(st.sent) < at || len(st.sent) > at+1 || time.Since(t0) > 2*time.Second {
			vrFail(t, "EchoServerStream cancelled after %d: %d sent, %v", at, len(st.sent), err)
		}
	}

	// client stream: the first message
	for _, e := range []error{io.EOF, boom, io.ErrUnexpectedEOF, context.Canceled, io.ErrClosedPipe} {
		out, err := s.EchoClientStream(&vrEcho{ctx: ctx, failAt: -1, recv: []string{"a", "b"}, recvErr: e})
		if err != nil || out.GetBody() != "a" {
			vrFail(t, "EchoClientStream gave %v, %v", out, err)
		}
		if _, err := s.EchoClientStream(&vrEcho{ctx: ctx, failAt: -1, recvErr: e}); err != e {
			vrFail(t, "EchoClientStream gave %v and not %v", err, e)
		}
	}

	// bidi stream: greeting, then each message
	for n := 0; n < 6; n++ {
		for _, e := range []error{io.EOF, boom, io.ErrUnexpectedEOF, context.Canceled, io.ErrClosedPipe} {
			for f := -1; f <= n; f++ {
				var in []string
				for i := 0; i < n; i++ {
					in = append(in, string(rune('a'+i)))
				}
				st := &vrEcho{ctx: ctx, recv: append([]string{}, in...), recvErr: e, failAt: f, sendErr: boom}
				err := s.EchoBidiStream(st)
				want := append([]string{"hello from server"}, in...)
				wantErr := e
				if e == io.EOF {
					wantErr = nil
				}
				if f >= 0 {
					want, wantErr = want[:f], boom
				}
				if err != wantErr || len(st.sent) != len(want) {
					vrFail(t, "EchoBidiStream of %d messages, send %d failing: sent %q, %v", n, f, st.sent, err)
				}
				for i := range want {
					if st.sent[i] != want[i] {
						vrFail(t, "EchoBidiStream sent %q and not %q", st.sent, want)
					}
				}
			}
		}
	}
	st := &vrEcho{ctx: ctx, recv: []string{"a", "", "b"}, recvErr: io.EOF, failAt: -1}
	if err := s.EchoBidiStream(st); err == nil || len(st.sent) != 2 {
		vrFail(t, "EchoBidiStream with an empty message: sent %q, %v", st.sent, err)
	}

	// mock
	if _, err := (&mock.MockServer{}).MockRequest(ctx, nil); err != srpc.ErrUnimplemented {
		vrFail(t, "MockRequest without a callback gave %v", err)
	}
	calls := 0
	ms := &mock.MockServer{MockRequestCb: func(c context.Context, m *mock.MockMsg) (*mock.MockMsg, error) {
		calls++
		if c != ctx {
			vrFail(t, "MockRequest passed another context")
		}
		return m, boom
	}}
	q := &mock.MockMsg{Body: "q"}
	if o, err := ms.MockRequest(ctx, q); o != q || err != boom || calls != 1 {
		vrFail(t, "MockRequest gave %v, %v after %d calls", o, err, calls)
	}
}

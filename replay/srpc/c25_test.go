package srpc_test

import (
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/coder/websocket"
	"github.com/libp2p/go-libp2p/core/network"
	"github.com/libp2p/go-yamux/v4"
)

// c25Invoker echoes; a request starting with B blocks until the call ends.
type c25Invoker struct {
	tag     string
	blocked atomic.Int32
	calls   atomic.Int32
}

func (i *c25Invoker) InvokeMethod(s, m string, strm srpc.Stream) (bool, error) {
	var msg srpc.RawMessage
	i.calls.Add(1)
	if err := strm.MsgRecv(&msg); err != nil {
		return true, err
	}
	b := append([]byte(nil), msg.GetData()...)
	if len(b) > 0 && b[0] == 'B' {
		i.blocked.Add(1)
		<-strm.Context().Done()
		i.blocked.Add(-1)
		return true, strm.Context().Err()
	}
	return true, strm.MsgSend(srpc.NewRawMessage(append([]byte(i.tag), b...), true))
}

type c25Conn struct {
	net.Conn
	closed atomic.Int32
}

func (c *c25Conn) Close() error { c.closed.Add(1); return c.Conn.Close() }

type c25Listener struct {
	mu     sync.Mutex
	conns  chan *c25Conn
	err    error
	after  atomic.Int32
	failed atomic.Bool
	closed atomic.Int32
}

func (l *c25Listener) Accept() (net.Conn, error) {
	if l.failed.Load() {
		l.after.Add(1)
	}
	c, ok := <-l.conns
	if !ok {
		l.failed.Store(true)
		return nil, l.err
	}
	return c, nil
}
func (l *c25Listener) Close() error   { l.closed.Add(1); return nil }
func (l *c25Listener) Addr() net.Addr { return &net.TCPAddr{} }

func c25Call(ctx context.Context, cl srpc.Client, req string) (string, error) {
	var out srpc.RawMessage
	err := cl.ExecCall(ctx, "s", "m", srpc.NewRawMessage([]byte(req), true), &out)
	return string(out.GetData()), err
}

// C25: roles and serving.
func TestVerifReplay_C25(t *testing.T) {
	c25Roles(t)
	c25Accept(t)
	c25Sessions(t)
	c25Listen(t)
	c25Pipe(t)
	c25Open(t)
	c25Stream(t)
	c25WebSocket(t)
	c25WebSocketRoles(t)
}

// each constructor against a plain yamux peer of the opposite role
func c25Roles(t *testing.T) {
	conf := srpc.NewYamuxConfig()
	if conf == nil {
		vrFail(t, "no default configuration")
	}
	for _, outbound := range []bool{true, false} {
		for kind := 0; kind < 3; kind++ {
			a, b := net.Pipe()
			var m network.MuxedConn
			var err error
			what := fmt.Sprintf("kind %d outbound %v", kind, outbound)
			switch kind {
			case 0:
				m, err = srpc.NewMuxedConn(a, outbound, nil)
			case 1:
				m, err = srpc.NewMuxedConn(a, outbound, conf)
			case 2:
				m, err = srpc.NewMuxedConnWithRwc(context.Background(), a, outbound, nil)
			}
			if err != nil || m == nil {
				vrFail(t, "%s: %v", what, err)
			}
			var peer *yamux.Session
			if outbound {
				peer, err = yamux.Server(b, conf, nil)
			} else {
				peer, err = yamux.Client(b, conf, nil)
			}
			if err != nil {
				t.Fatal(err)
			}
			vrWithin(t, 20*time.Second, what, func() {
				for i := 0; i < 2; i++ { // streams of both directions side by side
					s1, err := m.OpenStream(context.Background())
					if err != nil {
						vrFail(t, "%s: open %v", what, err)
						return
					}
					go func() { _, _ = s1.Write([]byte{'x', byte(i)}) }()
					p1, err := peer.AcceptStream()
					if err != nil {
						vrFail(t, "%s: the peer did not get the stream: %v", what, err)
						return
					}
					// the outbound side owns the odd stream identifiers
					if odd := p1.StreamID()%2 == 1; odd != outbound {
						vrFail(t, "%s: opened stream %d as the wrong side", what, p1.StreamID())
					}
					buf := make([]byte, 2)
					if _, err := io.ReadFull(p1, buf); err != nil || buf[1] != byte(i) {
						vrFail(t, "%s: stream data %v %v", what, buf, err)
					}
				}
			})
			_ = peer.Close()
			_ = m.Close()
		}
	}
	if _, err := srpc.NewMuxedConn(&c25Conn{}, true, &yamux.Config{}); err == nil {
		vrFail(t, "an invalid configuration was replaced by another one")
	}
	// a client on an accepted connection, a server on a dialled one
	for _, outbound := range []bool{true, false} {
		a, b := net.Pipe()
		cl, err := srpc.NewClientWithConn(a, outbound, nil)
		if err != nil {
			vrFail(t, "client: %v", err)
		}
		m, err := srpc.NewMuxedConn(b, !outbound, nil)
		if err != nil {
			vrFail(t, "conn: %v", err)
		}
		srv := srpc.NewServer(&c25Invoker{tag: "r"})
		go func() { _ = srv.AcceptMuxedConn(context.Background(), m) }()
		vrWithin(t, 20*time.Second, "call between matching roles", func() {
			if out, err := c25Call(context.Background(), cl, "q"); err != nil || out != "rq" {
				vrFail(t, "call with outbound=%v: %q %v", outbound, out, err)
			}
		})
		_ = m.Close()
	}
}

// several connections with several streams, some blocked, some broken
func c25Accept(t *testing.T) {
	r := vrRand()
	for round := 0; round < 12; round++ {
		inv := &c25Invoker{tag: "e"}
		srv := srpc.NewServer(inv)
		if srv.GetInvoker() != srpc.Invoker(inv) {
			vrFail(t, "server has another invoker")
		}
		l := &c25Listener{conns: make(chan *c25Conn), err: errVrA}
		ctx, cancel := context.WithCancel(context.Background())
		ret := make(chan error, 1)
		go func() { ret <- srpc.AcceptMuxedListener(ctx, l, srv, nil) }()
		n := 2 + r.Intn(4)
		var conns []*c25Conn
		var sess []network.MuxedConn
		var clients []srpc.Client
		blockCtx, unblock := context.WithCancel(context.Background())
		var wg sync.WaitGroup
		blocked := int32(0)
		for i := 0; i < n; i++ {
			a, b := net.Pipe()
			c := &c25Conn{Conn: b}
			select {
			case l.conns <- c:
			case <-time.After(20 * time.Second):
				vrFail(t, "connection %d of %d is never accepted", i, n)
			}
			conns = append(conns, c)
			m, err := srpc.NewMuxedConn(a, true, nil)
			if err != nil {
				t.Fatal(err)
			}
			cl := srpc.NewClientWithMuxedConn(m)
			sess = append(sess, m)
			clients = append(clients, cl)
			if r.Intn(2) == 0 {
				blocked++
				wg.Add(1)
				go func() { defer wg.Done(); _, _ = c25Call(blockCtx, cl, "Block") }()
			}
		}
		vrEventually(t, "blocked calls reach the server", func() bool { return inv.blocked.Load() == blocked })
		vrWithin(t, 30*time.Second, "calls on all connections while others are blocked", func() {
			var cw sync.WaitGroup
			for i, cl := range clients {
				for j := 0; j < 4; j++ {
					cw.Add(1)
					go func() {
						defer cw.Done()
						q := fmt.Sprintf("q%d.%d", i, j)
						if out, err := c25Call(context.Background(), cl, q); err != nil || out != "e"+q {
							vrFail(t, "connection %d call %d: %q %v", i, j, out, err)
						}
					}()
				}
			}
			cw.Wait()
		})
		for i, c := range conns {
			if c.closed.Load() != 0 {
				vrFail(t, "connection %d was closed while it was served", i)
			}
		}
		// one peer goes away: only its connection is closed
		gone := r.Intn(n)
		_ = sess[gone].Close()
		vrEventually(t, "the ended connection is closed", func() bool { return conns[gone].closed.Load() > 0 })
		for i, cl := range clients {
			if i == gone {
				continue
			}
			vrWithin(t, 20*time.Second, "call after another connection ended", func() {
				if out, err := c25Call(context.Background(), cl, "z"); err != nil || out != "ez" {
					vrFail(t, "connection %d after connection %d ended: %q %v", i, gone, out, err)
				}
			})
		}
		unblock()
		wg.Wait()
		close(l.conns)
		select {
		case err := <-ret:
			if err != errVrA {
				vrFail(t, "accept error came back as %v", err)
			}
		case <-time.After(20 * time.Second):
			vrFail(t, "accept error does not end accepting")
		}
		if l.after.Load() != 0 {
			vrFail(t, "accepts after the accept error")
		}
		for _, m := range sess {
			_ = m.Close()
		}
		for i, c := range conns {
			vrEventually(t, fmt.Sprintf("connection %d is closed at the end", i), func() bool { return c.closed.Load() > 0 })
		}
		cancel()
	}
}

// c25Session is a scripted session.
type c25Session struct {
	network.MuxedConn
	streams []network.MuxedStream
	err     error
	closed  bool
	onEmpty func()
	n       int
	opened  func(ctx context.Context) (network.MuxedStream, error)
}

func (s *c25Session) IsClosed() bool { return s.closed }
func (s *c25Session) AcceptStream() (network.MuxedStream, error) {
	if s.n < len(s.streams) {
		s.n++
		return s.streams[s.n-1], nil
	}
	if s.onEmpty != nil {
		s.onEmpty()
	}
	return nil, s.err
}
func (s *c25Session) OpenStream(ctx context.Context) (network.MuxedStream, error) {
	return s.opened(ctx)
}

type c25MuxedStream struct {
	network.MuxedStream
	net.Conn
}

func (s *c25MuxedStream) Read(b []byte) (int, error)         { return s.Conn.Read(b) }
func (s *c25MuxedStream) Write(b []byte) (int, error)        { return s.Conn.Write(b) }
func (s *c25MuxedStream) Close() error                       { return s.Conn.Close() }
func (s *c25MuxedStream) SetDeadline(d time.Time) error      { return s.Conn.SetDeadline(d) }
func (s *c25MuxedStream) SetReadDeadline(d time.Time) error  { return s.Conn.SetReadDeadline(d) }
func (s *c25MuxedStream) SetWriteDeadline(d time.Time) error { return s.Conn.SetWriteDeadline(d) }

func c25Sessions(t *testing.T) {
	for _, e := range vrErrs {
		for _, n := range []int{0, 1, 5} {
			inv := &c25Invoker{tag: "s"}
			srv := srpc.NewServer(inv)
			s := &c25Session{err: e}
			var peers []net.Conn
			for i := 0; i < n; i++ {
				a, b := net.Pipe()
				s.streams = append(s.streams, &c25MuxedStream{Conn: b})
				peers = append(peers, a)
			}
			ctx, cancel := context.WithCancel(context.Background())
			var err error
			vrWithin(t, 20*time.Second, "accepting streams", func() { err = srv.AcceptMuxedConn(ctx, s) })
			if err != e {
				vrFail(t, "accept error %v came back as %v", e, err)
			}
			for i, p := range peers {
				cl := srpc.NewClient(func(ctx context.Context, h srpc.PacketDataHandler, ch srpc.CloseHandler) (srpc.PacketWriter, error) {
					prw := srpc.NewPacketReadWriter(p)
					go prw.ReadPump(h, ch)
					return prw, nil
				})
				vrWithin(t, 20*time.Second, "call on an accepted stream", func() {
					q := fmt.Sprint("i", i)
					if out, err := c25Call(context.Background(), cl, q); err != nil || out != "s"+q {
						vrFail(t, "stream %d of %d is not served: %q %v", i, n, out, err)
					}
				})
			}
			if c := inv.calls.Load(); int(c) != n {
				vrFail(t, "%d calls for %d streams", c, n)
			}
			cancel()
		}
	}
	// a closed session, a cancelled context
	srv := srpc.NewServer(&c25Invoker{})
	if err := srv.AcceptMuxedConn(context.Background(), &c25Session{closed: true, err: errVrA}); err != io.EOF {
		vrFail(t, "closed session: %v", err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	if err := srv.AcceptMuxedConn(ctx, &c25Session{err: errVrA}); err != context.Canceled {
		vrFail(t, "cancelled context: %v", err)
	}
}

func c25FreeAddr(t *testing.T) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip("no loopback network: " + err.Error())
	}
	defer l.Close()
	return l.Addr().String()
}

func c25Listen(t *testing.T) {
	for mode := 0; mode < 4; mode++ {
		addr := c25FreeAddr(t)
		ctx, cancel := context.WithCancel(context.Background())
		errCh := make(chan error, 1)
		ret := make(chan error, 1)
		srv := srpc.NewServer(&c25Invoker{tag: "l"})
		var ec <-chan error = errCh
		if mode == 3 {
			ec = nil
		}
		go func() { ret <- srpc.Listen(ctx, addr, srv, ec) }()
		var clients []srpc.Client
		vrEventually(t, "listening", func() bool {
			cl, err := srpc.Dial(addr)
			if err == nil {
				clients = append(clients, cl)
			}
			return err == nil
		})
		for i := 0; i < 2; i++ {
			cl, err := srpc.Dial(addr)
			if err != nil {
				vrFail(t, "dial %d: %v", i, err)
			}
			clients = append(clients, cl)
		}
		vrWithin(t, 20*time.Second, "calls over TCP", func() {
			for i, cl := range clients {
				if out, err := c25Call(context.Background(), cl, "x"); err != nil || out != "lx" {
					vrFail(t, "dialled connection %d: %q %v", i, out, err)
				}
			}
		})
		want := error(context.Canceled)
		switch mode {
		case 0, 3:
			cancel()
		case 1:
			errCh <- errVrA
			want = errVrA
		case 2:
			// the address is taken: the listen error comes back
			if err := srpc.Listen(context.Background(), addr, srv, nil); err == nil {
				vrFail(t, "listening twice on %s succeeded", addr)
			}
			cancel()
		}
		select {
		case err := <-ret:
			if err != want {
				vrFail(t, "listen returned %v, expected %v", err, want)
			}
		case <-time.After(20 * time.Second):
			vrFail(t, "listen does not return in mode %d", mode)
		}
		l, err := net.Listen("tcp", addr)
		if err != nil {
			vrFail(t, "the listener is still open after listen returned: %v", err)
		}
		_ = l.Close()
		cancel()
	}
	if cl, err := srpc.Dial(c25FreeAddr(t)); err == nil || cl != nil {
		vrFail(t, "dialling a closed port: %v %v", cl, err)
	}
}

func c25Pipe(t *testing.T) {
	cl := srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(&c25Invoker{tag: "p"})))
	for i := 0; i < 20; i++ {
		vrWithin(t, 20*time.Second, "call over a pipe", func() {
			q := fmt.Sprint("q", i)
			if out, err := c25Call(context.Background(), cl, q); err != nil || out != "p"+q {
				vrFail(t, "pipe call: %q %v", out, err)
			}
		})
	}
}

type c25Timeout struct{ t bool }

func (c25Timeout) Error() string   { return "timeout?" }
func (c c25Timeout) Timeout() bool { return c.t }

func c25Open(t *testing.T) {
	for _, e := range append([]error{c25Timeout{true}, c25Timeout{false}, nil}, vrErrs...) {
		for _, cancelled := range []bool{false, true} {
			ctx, cancel := context.WithCancel(context.Background())
			if cancelled {
				cancel()
			}
			var a, b net.Conn
			n := 0
			s := &c25Session{opened: func(c context.Context) (network.MuxedStream, error) {
				n++
				if c != ctx {
					vrFail(t, "stream opened with another context")
				}
				if e != nil {
					return nil, e
				}
				a, b = net.Pipe()
				return &c25MuxedStream{Conn: b}, nil
			}}
			got := make(chan string, 10)
			ended := make(chan error, 10)
			w, err := srpc.NewOpenStreamWithMuxedConn(s)(ctx, func(d []byte) error { got <- string(d); return nil }, func(err error) { ended <- err })
			if n != 1 {
				vrFail(t, "%d streams opened", n)
			}
			if e != nil {
				if w != nil || (err != e && !(err == context.Canceled && cancelled)) {
					vrFail(t, "open error %v came back as %v", e, err)
				}
				cancel()
				continue
			}
			if err != nil || w == nil {
				vrFail(t, "open: %v", err)
			}
			for _, p := range []string{"one", "two", "3"} {
				go func() { _, _ = a.Write(vrFrame([]byte(p))) }()
				select {
				case g := <-got:
					if g != p {
						vrFail(t, "stream delivered %q for %q", g, p)
					}
				case <-time.After(20 * time.Second):
					vrFail(t, "the opened stream is not pumped to the handler")
				}
			}
			wrote := make(chan error, 1)
			pkt := srpc.NewCallCancelPacket()
			go func() { wrote <- w.WritePacket(pkt) }()
			enc, _ := pkt.MarshalVT()
			buf := make([]byte, len(vrFrame(enc)))
			vrWithin(t, 20*time.Second, "packet on the opened stream", func() { _, _ = io.ReadFull(a, buf) })
			if string(buf) != string(vrFrame(enc)) || <-wrote != nil {
				vrFail(t, "the writer does not write to the opened stream")
			}
			_ = a.Close()
			select {
			case <-ended:
			case <-time.After(20 * time.Second):
				vrFail(t, "the end of the stream is not reported")
			}
			cancel()
		}
	}
}

// the call of a stream ends with its stream
func c25Stream(t *testing.T) {
	inv := &c25Invoker{tag: "h"}
	srv := srpc.NewServer(inv)
	a, b := net.Pipe()
	done := make(chan struct{})
	go func() { defer close(done); srv.HandleStream(context.Background(), b) }()
	cl := srpc.NewClient(func(ctx context.Context, h srpc.PacketDataHandler, ch srpc.CloseHandler) (srpc.PacketWriter, error) {
		prw := srpc.NewPacketReadWriter(a)
		go prw.ReadPump(h, ch)
		return prw, nil
	})
	go func() { _, _ = c25Call(context.Background(), cl, "B") }()
	vrEventually(t, "the call is running", func() bool { return inv.blocked.Load() == 1 })
	select {
	case <-done:
		vrFail(t, "handling ended while the stream is open")
	default:
	}
	_ = a.Close()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		vrFail(t, "handling does not end with the stream")
	}
	vrEventually(t, "the call's context ends with its stream", func() bool { return inv.blocked.Load() == 0 })
}

// every stream of every websocket is served, concurrently; other paths are not upgraded
func c25WebSocket(t *testing.T) {
	for _, path := range []string{"", "/rpc"} {
		inv := &c25Invoker{tag: "ws:"}
		mux := srpc.NewMux(inv)
		hs, err := srpc.NewHTTPServer(mux, path, nil)
		if err != nil {
			vrFail(t, "NewHTTPServer: %v", err)
		}
		left := make(chan struct{}, 10)
		ts := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			hs.ServeHTTP(w, r)
			left <- struct{}{}
		}))
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		url := strings.Replace(ts.URL, "http", "ws", 1)
		if path != "" {
			if _, _, err := websocket.Dial(ctx, url+"/other", nil); err == nil {
				vrFail(t, "a websocket was accepted on /other, the server's path is %q", path)
			}
			<-left
		}
		for k := 0; k < 2; k++ {
			c, _, err := websocket.Dial(ctx, url+path, nil)
			if err != nil {
				vrFail(t, "websocket on the server's path %q refused: %v", path, err)
			}
			mc, err := srpc.NewWebSocketConn(ctx, c, false, nil)
			if err != nil {
				vrFail(t, "NewWebSocketConn: %v", err)
			}
			cl := srpc.NewClientWithMuxedConn(mc)
			for j := 0; j < 2; j++ { // these block
				bctx, bcancel := context.WithCancel(ctx)
				defer bcancel()
				go func() { _, _ = c25Call(bctx, cl, "B") }()
			}
			vrEventually(t, "two calls of one websocket being served at once", func() bool { return int(inv.blocked.Load()) == 2 })
			for j := 0; j < 3; j++ {
				vrWithin(t, 10*time.Second, "a call over a websocket while two other calls block", func() {
					out, err := c25Call(ctx, cl, fmt.Sprint("q", j))
					if err != nil || out != fmt.Sprint("ws:q", j) {
						vrFail(t, "call %d over websocket %d: %q, %v", j, k, out, err)
					}
				})
			}
			_ = c.CloseNow()
			vrWithin(t, 10*time.Second, "ServeHTTP returning after its websocket ended", func() { <-left })
			vrEventually(t, "calls of a closed websocket being cancelled", func() bool { return inv.blocked.Load() == 0 })
		}
		cancel()
		ts.Close()
	}
}

// both ends of a websocket against a plain yamux peer of the opposite role
func c25WebSocketRoles(t *testing.T) {
	for _, isServer := range []bool{true, false} {
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		conns := make(chan *websocket.Conn, 1)
		release := make(chan struct{})
		ts := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			c, err := websocket.Accept(w, r, nil)
			if err != nil {
				return
			}
			conns <- c
			<-release
		}))
		near, _, err := websocket.Dial(ctx, strings.Replace(ts.URL, "http", "ws", 1), nil)
		if err != nil {
			t.Fatal(err)
		}
		far := <-conns
		m, err := srpc.NewWebSocketConn(ctx, near, isServer, nil)
		if err != nil {
			vrFail(t, "NewWebSocketConn: %v", err)
		}
		peerConn := websocket.NetConn(ctx, far, websocket.MessageBinary)
		var peer *yamux.Session
		if isServer {
			peer, err = yamux.Client(peerConn, srpc.NewYamuxConfig(), nil)
		} else {
			peer, err = yamux.Server(peerConn, srpc.NewYamuxConfig(), nil)
		}
		if err != nil {
			t.Fatal(err)
		}
		vrWithin(t, 20*time.Second, fmt.Sprintf("a stream over a websocket with isServer=%v", isServer), func() {
			s1, err := m.OpenStream(ctx)
			if err != nil {
				vrFail(t, "isServer=%v: open %v", isServer, err)
				return
			}
			go func() { _, _ = s1.Write([]byte{7}) }()
			p1, err := peer.AcceptStream()
			if err != nil {
				vrFail(t, "isServer=%v: the peer did not get the stream: %v", isServer, err)
				return
			}
			// the client side owns the odd stream identifiers
			if odd := p1.StreamID()%2 == 1; odd == isServer {
				vrFail(t, "isServer=%v: opened stream %d as the wrong side", isServer, p1.StreamID())
			}
		})
		close(release)
		_ = near.CloseNow()
		_ = far.CloseNow()
		cancel()
		ts.Close()
	}
}

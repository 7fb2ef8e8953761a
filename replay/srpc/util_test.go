package srpc_test

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
)

// helpers shared by the replay programs; exported API only.

func vrSeed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func vrRand() *rand.Rand { return rand.New(rand.NewSource(vrSeed())) }

func vrFail(t *testing.T, f string, a ...any) {
	t.Helper()
	t.Fatalf("REPLAY-FAIL: "+f, a...)
}

// vrWithin runs f and fails when it does not return in time.
func vrWithin(t *testing.T, d time.Duration, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(d):
		vrFail(t, "%s: no result after %v", what, d)
	}
}

type vrStream struct{ id int }

func (s *vrStream) Context() context.Context       { return context.Background() }
func (s *vrStream) MsgSend(msg srpc.Message) error { return nil }
func (s *vrStream) MsgRecv(msg srpc.Message) error { return nil }
func (s *vrStream) CloseSend() error               { return nil }
func (s *vrStream) Close() error                   { return nil }

type vrInvoker struct {
	name  string
	found bool
	err   error
	log   *[]string
}

func (i *vrInvoker) InvokeMethod(s, m string, strm srpc.Stream) (bool, error) {
	*i.log = append(*i.log, fmt.Sprintf("%s(%q,%q,%p)", i.name, s, m, strm))
	return i.found, i.err
}

type vrHandler struct {
	vrInvoker
	svc string
	ids []string
}

func (h *vrHandler) GetServiceID() string   { return h.svc }
func (h *vrHandler) GetMethodIDs() []string { return append([]string(nil), h.ids...) }

var errVrA = errors.New("error a")

// errors the code might be tempted to treat specially
var vrErrs = []error{errVrA, context.Canceled, context.DeadlineExceeded, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe,
	srpc.ErrUnimplemented, srpc.ErrCompleted, srpc.ErrEmptyPacket, errors.New("")}

type vrClient struct {
	name string
	exec func(ctx context.Context, s, m string, in, out srpc.Message) error
	open func(ctx context.Context, s, m string, f srpc.Message) (srpc.Stream, error)
}

func (c *vrClient) ExecCall(ctx context.Context, s, m string, in, out srpc.Message) error {
	return c.exec(ctx, s, m, in, out)
}

func (c *vrClient) NewStream(ctx context.Context, s, m string, f srpc.Message) (srpc.Stream, error) {
	return c.open(ctx, s, m, f)
}

// vrWriter records the packets written.
type vrWriter struct {
	mu     sync.Mutex
	pkts   []*srpc.Packet
	ops    []string
	closed int
	// fail is returned by the write with this index (when >= 0)
	failAt int
	fail   error
	onPkt  func(*srpc.Packet)
}

func newVrWriter() *vrWriter { return &vrWriter{failAt: -1} }

func (w *vrWriter) WritePacket(p *srpc.Packet) error {
	w.mu.Lock()
	i := len(w.pkts)
	w.pkts = append(w.pkts, p.CloneVT())
	w.ops = append(w.ops, "write")
	on := w.onPkt
	w.mu.Unlock()
	if on != nil {
		on(p)
	}
	if w.failAt == i {
		return w.fail
	}
	return nil
}

func (w *vrWriter) Close() error {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.closed++
	w.ops = append(w.ops, "close")
	return nil
}

func (w *vrWriter) snap() ([]*srpc.Packet, int, []string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]*srpc.Packet(nil), w.pkts...), w.closed, append([]string(nil), w.ops...)
}

// vrPkt describes a packet.
func vrPkt(p *srpc.Packet) string {
	switch b := p.GetBody().(type) {
	case *srpc.Packet_CallStart:
		return fmt.Sprintf("start(%q,%q,%x,%v)", b.CallStart.GetRpcService(), b.CallStart.GetRpcMethod(), b.CallStart.GetData(), b.CallStart.GetDataIsZero())
	case *srpc.Packet_CallData:
		return fmt.Sprintf("data(%x,%v,%v,%q)", b.CallData.GetData(), b.CallData.GetDataIsZero(), b.CallData.GetComplete(), b.CallData.GetError())
	case *srpc.Packet_CallCancel:
		return fmt.Sprintf("cancel(%v)", b.CallCancel)
	}
	return "none"
}

// vrDataPkt builds a data packet by hand.
func vrDataPkt(data []byte, zero, complete bool, e string) *srpc.Packet {
	return &srpc.Packet{Body: &srpc.Packet_CallData{CallData: &srpc.CallData{Data: data, DataIsZero: zero, Complete: complete, Error: e}}}
}

func vrStartPkt(svc, m string, data []byte, zero bool) *srpc.Packet {
	return &srpc.Packet{Body: &srpc.Packet_CallStart{CallStart: &srpc.CallStart{RpcService: svc, RpcMethod: m, Data: data, DataIsZero: zero}}}
}

func vrCancelPkt(b bool) *srpc.Packet {
	return &srpc.Packet{Body: &srpc.Packet_CallCancel{CallCancel: b}}
}

// vrEventually waits for a condition.
func vrEventually(t *testing.T, what string, f func() bool) {
	t.Helper()
	end := time.Now().Add(5 * time.Second)
	for !f() {
		if time.Now().After(end) {
			vrFail(t, "%s did not happen", what)
		}
		time.Sleep(time.Millisecond)
	}
}

// vrRPC is what a client and a server call have in common.
type vrRPC interface {
	Context() context.Context
	HandlePacket(p *srpc.Packet) error
	HandlePacketData(b []byte) error
	HandleStreamClose(err error)
	ReadOne() ([]byte, error)
	Wait(ctx context.Context) error
	WriteCallData(data []byte, complete bool, err error) error
	WriteCallCancel() error
}

// vrModel is the specified state of a call.
type vrModel struct {
	q      [][]byte
	closed bool
	err    string // text of the outcome, "" for end of stream
	isErr  bool
	done   bool
}

func (m *vrModel) terminal(e error) {
	if !m.closed && e != nil {
		m.err, m.isErr = e.Error(), true
	}
	m.closed, m.done = true, true
}

// data applies a valid data packet.
func (m *vrModel) data(d []byte, zero, complete bool, e string) (accepted bool) {
	if m.closed {
		return false
	}
	if len(d) != 0 || zero {
		m.q = append(m.q, append([]byte(nil), d...))
	}
	if e != "" {
		m.err, m.isErr, complete = e, true, true
	}
	if complete {
		m.closed = true
	}
	return true
}

// vrFrame is a length-prefixed frame.
func vrFrame(b []byte) []byte {
	return append(binary.LittleEndian.AppendUint32(nil, uint32(len(b))), b...)
}

// vrCallRounds drives clients and servers with random events and compares what
// the reader sees with the specified state.
// vrHandle passes the packet on parsed or encoded.
func vrHandle(r *rand.Rand, rpc vrRPC, p *srpc.Packet) error {
	if r.Intn(2) == 0 {
		b, err := p.MarshalVT()
		if err == nil {
			return rpc.HandlePacketData(b)
		}
	}
	return rpc.HandlePacket(p)
}

func vrCallRounds(t *testing.T, rounds int) {
	r := vrRand()
	errs := []error{nil, errVrA, errors.New("error b"), io.EOF, io.ErrUnexpectedEOF, context.Canceled}
	for round := 0; round < rounds; round++ {
		w := newVrWriter()
		server := r.Intn(2) == 0
		var rpc vrRPC
		var log []string
		m := &vrModel{}
		started := false
		var cl *srpc.ClientRPC
		release := make(chan struct{})
		if server {
			rpc = srpc.NewServerRPC(context.Background(), srpc.InvokerFunc(func(s, mm string, strm srpc.Stream) (bool, error) {
				<-release
				return true, nil
			}), w)
		} else {
			cl = srpc.NewClientRPC(context.Background(), "s", "m")
			_ = cl.Start(w, false, nil)
			rpc = cl
		}
		read := func() {
			var b []byte
			var e error
			vrWithin(t, 5*time.Second, fmt.Sprint(log, " then read"), func() { b, e = rpc.ReadOne() })
			log = append(log, fmt.Sprintf("read=%x,%v", b, e))
			if len(m.q) > 0 {
				if e != nil || string(b) != string(m.q[0]) {
					vrFail(t, "server=%v %v: want message %x", server, log, m.q[0])
				}
				m.q = m.q[1:]
				return
			}
			want := m.err
			if !m.isErr {
				want = "EOF"
			}
			if e == nil || len(b) != 0 || e.Error() != want {
				vrFail(t, "server=%v %v: want outcome %q", server, log, want)
			}
		}
		for k := 1 + r.Intn(10); k > 0; k-- {
			switch op := r.Intn(12); {
			case op < 5:
				d := make([]byte, []int{0, 0, 1, 3}[r.Intn(4)])
				r.Read(d)
				z, c, e := r.Intn(3) == 0, r.Intn(6) == 0, ""
				if r.Intn(8) == 0 {
					e = "remote " + strconv.Itoa(r.Intn(9))
				}
				if len(d) == 0 && r.Intn(2) == 0 {
					d = nil
				}
				p := vrDataPkt(d, z, c, e)
				err := vrHandle(r, rpc, p)
				log = append(log, fmt.Sprintf("%s=%v", vrPkt(p), err))
				if len(d) == 0 && !z && !c && e == "" {
					if err == nil {
						vrFail(t, "server=%v %v: invalid packet accepted", server, log)
					}
					break
				}
				if ok := m.data(d, z, c, e); ok != (err == nil) {
					vrFail(t, "server=%v %v: accepted=%v, want %v", server, log, err == nil, ok)
				}
			case op == 5 && server:
				d := make([]byte, r.Intn(3))
				r.Read(d)
				z := r.Intn(2) == 0
				if len(d) == 0 && r.Intn(2) == 0 {
					d = nil
				}
				err := vrHandle(r, rpc, vrStartPkt("s", "m", d, z))
				log = append(log, fmt.Sprintf("start(%x,%v)=%v", d, z, err))
				ok := !started && !m.closed
				if ok != (err == nil) {
					vrFail(t, "server=%v %v: start accepted=%v, want %v", server, log, err == nil, ok)
				}
				if ok {
					started = true
					if len(d) != 0 || z {
						m.q = append(m.q, d)
					}
				}
			case op == 6 && r.Intn(3) == 0:
				log = append(log, "cancel packet")
				if err := rpc.HandlePacket(vrCancelPkt(true)); err != nil {
					vrFail(t, "server=%v %v: %v", server, log, err)
				}
				m.terminal(context.Canceled)
			case op == 7 && r.Intn(3) == 0:
				e := errs[r.Intn(len(errs))]
				log = append(log, fmt.Sprintf("stream close %v", e))
				rpc.HandleStreamClose(e)
				m.terminal(e)
			case op == 8 && cl != nil && r.Intn(3) == 0:
				log = append(log, "Close")
				cl.Close()
				m.terminal(context.Canceled)
			case op == 10 && r.Intn(2) == 0:
				// valid packets followed by a field that is cut off
				ps := []*srpc.Packet{vrDataPkt([]byte{1}, false, false, ""), vrDataPkt(nil, false, true, ""), vrDataPkt(nil, false, false, "bad"),
					vrStartPkt("s", "m", []byte{2}, false), vrCancelPkt(true)}
				b, _ := ps[r.Intn(len(ps))].MarshalVT()
				b = append(b, [][]byte{{0x0a}, {0x0a, 5}, {0xff}, {0x12, 9, 1}}[r.Intn(4)]...)
				err := rpc.HandlePacketData(b)
				log = append(log, fmt.Sprintf("undecodable %x=%v", b, err))
				if err == nil {
					vrFail(t, "server=%v %v: undecodable packet accepted", server, log)
				}
			case op == 9:
				log = append(log, "no-op cancel")
				if err := rpc.HandlePacket(vrCancelPkt(false)); err != nil {
					vrFail(t, "server=%v %v: %v", server, log, err)
				}
			default:
				if len(m.q) > 0 || m.closed {
					read()
				}
			}
			if (rpc.Context().Err() != nil) != m.done {
				vrFail(t, "server=%v %v: context error %v, want ended=%v", server, log, rpc.Context().Err(), m.done)
			}
		}
		if !m.closed {
			_ = rpc.HandlePacket(vrDataPkt(nil, false, true, ""))
			m.data(nil, false, true, "")
			log = append(log, "complete")
		}
		for len(m.q) > 0 {
			read()
		}
		read()
		read()
		if m.isErr && m.closed {
			var e error
			vrWithin(t, 5*time.Second, fmt.Sprint(log, " then wait"), func() { e = rpc.Wait(context.Background()) })
			if e == nil || e.Error() != m.err {
				vrFail(t, "server=%v %v: Wait returned %v, want %q", server, log, e, m.err)
			}
		}
		close(release)
		rpc.HandleStreamClose(nil)
	}
}

// vrMsg is a message which may fail to encode.
type vrMsg struct {
	srpc.RawMessage
	enc error
	dec error
}

func (m *vrMsg) MarshalVT() ([]byte, error) {
	if m.enc != nil {
		return nil, m.enc
	}
	return m.RawMessage.MarshalVT()
}

func (m *vrMsg) UnmarshalVT(b []byte) error {
	if m.dec != nil {
		return m.dec
	}
	return m.RawMessage.UnmarshalVT(b)
}

func vrMkMsg(b []byte) *vrMsg {
	m := &vrMsg{}
	m.SetData(b)
	return m
}

func vrPkts(ps []*srpc.Packet) string {
	var s []string
	for _, p := range ps {
		s = append(s, vrPkt(p))
	}
	return strings.Join(s, " ")
}

// vrSink is a byte stream that accepts writes partly and fails at a given point.
type vrSink struct {
	mu     sync.Mutex
	got    []byte
	limit  func(n int) int
	failAt int // fails once this many bytes were accepted, <0: never
	err    error
	failed bool
	after  int // writes after the error
	inside bool
	overl  bool
}

func (s *vrSink) Read(b []byte) (int, error) { return 0, io.EOF }
func (s *vrSink) Close() error               { return nil }
func (s *vrSink) Write(b []byte) (int, error) {
	s.mu.Lock()
	if s.inside {
		s.overl = true
	}
	s.inside = true
	s.mu.Unlock()
	runtime.Gosched()
	s.mu.Lock()
	defer s.mu.Unlock()
	s.inside = false
	if s.failed {
		s.after++
	}
	n := len(b)
	if s.limit != nil {
		n = s.limit(n)
	}
	if s.failAt >= 0 && len(s.got)+n >= s.failAt {
		n = s.failAt - len(s.got)
		if n < 0 {
			n = 0
		}
		s.got = append(s.got, b[:n]...)
		s.failed = true
		return n, s.err
	}
	s.got = append(s.got, b[:n]...)
	return n, nil
}

// vrUndecodable checks that bytes which are no packet are refused without an effect.
func vrUndecodable(t *testing.T) {
	ps := []*srpc.Packet{vrDataPkt([]byte{1}, false, false, ""), vrDataPkt(nil, false, true, ""), vrDataPkt(nil, false, false, "bad"),
		vrStartPkt("s", "m", []byte{2}, false), vrCancelPkt(true)}
	for _, p := range ps {
		for _, tail := range [][]byte{{0x0a}, {0x0a, 5}, {0xff}, {0x12, 9, 1}, {0x1a, 0xff, 0xff}} {
			b, _ := p.MarshalVT()
			b = append(b, tail...)
			for _, server := range []bool{false, true} {
				var rpc vrRPC
				called := make(chan struct{}, 1)
				if server {
					rpc = srpc.NewServerRPC(context.Background(), srpc.InvokerFunc(func(s, m string, strm srpc.Stream) (bool, error) {
						called <- struct{}{}
						return true, nil
					}), newVrWriter())
				} else {
					cl := srpc.NewClientRPC(context.Background(), "s", "m")
					_ = cl.Start(newVrWriter(), false, nil)
					rpc = cl
				}
				if err := rpc.HandlePacketData(b); err == nil {
					vrFail(t, "server=%v: undecodable packet %x accepted", server, b)
				}
				if rpc.Context().Err() != nil {
					vrFail(t, "server=%v: undecodable packet %x cancelled the call", server, b)
				}
				if err := rpc.HandlePacket(vrDataPkt([]byte("mark"), false, false, "")); err != nil {
					vrFail(t, "server=%v: call ended by the undecodable packet %x: %v", server, b, err)
				}
				vrWithin(t, 5*time.Second, "reading", func() {
					if d, err := rpc.ReadOne(); err != nil || string(d) != "mark" {
						vrFail(t, "server=%v: undecodable packet %x had an effect: read %x, %v", server, b, d, err)
					}
				})
				select {
				case <-called:
					vrFail(t, "undecodable packet %x invoked the service", b)
				default:
				}
				rpc.HandleStreamClose(nil)
			}
		}
	}
}

func vrGuard(t *testing.T, what string, f func()) {
	vrWithin(t, 10*time.Second, what, func() {
		defer func() {
			if p := recover(); p != nil {
				vrFail(t, "%s: panic: %v\n%s", what, p, debug.Stack())
			}
		}()
		f()
	})
}

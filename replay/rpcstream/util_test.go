package rpcstream_test

import (
	"context"
	"errors"
	"io"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
)

// helpers shared by the replay programs; exported API only.

func vrSeed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func vrRand() *rand.Rand { return rand.New(rand.NewSource(vrSeed())) }

func vrFail(t *testing.T, f string, a ...any) {
	t.Helper()
	t.Fatalf("REPLAY-FAIL: "+f, a...)
}

// vrWithin runs f and fails when it does not return in time.
func vrWithin(t *testing.T, d time.Duration, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(d):
		vrFail(t, "%s: no result after %v", what, d)
	}
}

func vrEventually(t *testing.T, what string, f func() bool) {
	t.Helper()
	for end := time.Now().Add(3 * time.Second); !f(); {
		if time.Now().After(end) {
			vrFail(t, "%s: not after 3s", what)
		}
		time.Sleep(time.Millisecond)
	}
}

// vrStrm is a scripted stream: the messages of in are received in order, then
// inErr; everything sent is recorded. With live set, receivers wait for feed.
type vrStrm struct {
	mtx     sync.Mutex
	ctx     context.Context
	in      [][]byte
	inErr   error
	live    bool
	wake    chan struct{}
	out     [][]byte
	sends   int
	sendErr map[int]error // by number of the send
	closed  int
	ended   int
	log     []string
}

func newVrStrm() *vrStrm {
	return &vrStrm{ctx: context.Background(), inErr: io.EOF, wake: make(chan struct{}, 1024), sendErr: map[int]error{}}
}

func (s *vrStrm) Context() context.Context { return s.ctx }

func (s *vrStrm) feed(b ...[]byte) {
	s.mtx.Lock()
	s.in = append(s.in, b...)
	s.mtx.Unlock()
	for i := 0; i < 4; i++ {
		select {
		case s.wake <- struct{}{}:
		default:
		}
	}
}

func (s *vrStrm) finish(err error) {
	s.mtx.Lock()
	s.live = false
	s.inErr = err
	s.mtx.Unlock()
	s.feed()
}

var errVrClosed = errors.New("stream closed")

func (s *vrStrm) next() ([]byte, error) {
	for {
		s.mtx.Lock()
		if len(s.in) > 0 {
			b := s.in[0]
			s.in = s.in[1:]
			s.mtx.Unlock()
			return b, nil
		}
		if s.closed > 0 {
			s.mtx.Unlock()
			return nil, errVrClosed
		}
		if !s.live {
			err := s.inErr
			s.mtx.Unlock()
			return nil, err
		}
		s.mtx.Unlock()
		<-s.wake
	}
}

func (s *vrStrm) put(b []byte) error {
	s.mtx.Lock()
	defer s.mtx.Unlock()
	n := s.sends
	s.sends++
	if err := s.sendErr[n]; err != nil {
		return err
	}
	s.out = append(s.out, append([]byte(nil), b...))
	return nil
}

func (s *vrStrm) MsgSend(m srpc.Message) error {
	b, err := m.MarshalVT()
	if err != nil {
		return err
	}
	return s.put(b)
}

func (s *vrStrm) MsgRecv(m srpc.Message) error {
	b, err := s.next()
	if err != nil {
		return err
	}
	return m.UnmarshalVT(b)
}

func (s *vrStrm) Send(p *rpcstream.RpcStreamPacket) error { return s.MsgSend(p) }

func (s *vrStrm) Recv() (*rpcstream.RpcStreamPacket, error) {
	p := &rpcstream.RpcStreamPacket{}
	if err := s.MsgRecv(p); err != nil {
		return nil, err
	}
	return p, nil
}

func (s *vrStrm) CloseSend() error {
	s.mtx.Lock()
	s.ended++
	s.mtx.Unlock()
	return nil
}

func (s *vrStrm) Close() error {
	s.mtx.Lock()
	s.closed++
	s.mtx.Unlock()
	s.feed()
	return nil
}

func (s *vrStrm) snap() (out [][]byte, ended, closed int) {
	s.mtx.Lock()
	defer s.mtx.Unlock()
	return append([][]byte(nil), s.out...), s.ended, s.closed
}

func vrEnc(t *testing.T, m srpc.Message) []byte {
	b, err := m.MarshalVT()
	if err != nil {
		t.Fatal(err)
	}
	return b
}

func vrData(t *testing.T, b []byte) []byte {
	return vrEnc(t, &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Data{Data: b}})
}

func vrAck(t *testing.T, e string) []byte {
	return vrEnc(t, &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Ack{Ack: &rpcstream.RpcAck{Error: e}}})
}

func vrInit(t *testing.T, id string) []byte {
	return vrEnc(t, &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Init{Init: &rpcstream.RpcStreamInit{ComponentId: id}}})
}

func vrDec(t *testing.T, b []byte) *rpcstream.RpcStreamPacket {
	p := &rpcstream.RpcStreamPacket{}
	if err := p.UnmarshalVT(b); err != nil {
		vrFail(t, "sent message %x does not decode: %v", b, err)
	}
	return p
}

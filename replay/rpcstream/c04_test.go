package rpcstream_test

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"runtime/debug"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
)

// C04: hostile bytes and packet sequences on nested streams.
func TestVerifReplay_C04(t *testing.T) {
	r := vrRand()
	guard := func(what string, f func()) {
		vrWithin(t, 20*time.Second, what, func() {
			defer func() {
				if p := recover(); p != nil {
					vrFail(t, "%s: panic: %v\n%s", what, p, debug.Stack())
				}
			}()
			f()
		})
	}
	start := vrEnc(t, srpc.NewCallStartPacket("svc", "m", []byte("q"), false))
	pool := [][]byte{
		vrInit(t, "a"), vrInit(t, ""), vrAck(t, ""), vrAck(t, "x"), vrData(t, nil), vrData(t, []byte("d")), vrData(t, start), {},
		vrEnc(t, &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Init{}}),
		vrEnc(t, &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Ack{}}),
	}
	bytesOf := func() []byte {
		var b []byte
		if r.Intn(4) == 0 {
			for k := r.Intn(20); k > 0; k-- {
				b = append(b, byte(r.Intn(256)))
			}
			return b
		}
		for k := 1 + r.Intn(2); k > 0; k-- {
			b = append(b, pool[r.Intn(len(pool))]...)
		}
		if r.Intn(3) == 0 && len(b) > 0 {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
		if r.Intn(6) == 0 {
			b = b[:r.Intn(len(b)+1)]
		}
		if r.Intn(8) == 0 {
			b = append(b, 0x0a, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, byte(0x7f+r.Intn(3)), byte(r.Intn(3)))
		}
		return b
	}
	end := time.Now().Add(10 * time.Second)
	for i := 0; i < 200000 && time.Now().Before(end); i++ {
		b := bytesOf()
		func() {
			defer func() {
				if p := recover(); p != nil {
					vrFail(t, "decoding %x: panic: %v", b, p)
				}
			}()
			for _, m := range []srpc.Message{&rpcstream.RpcStreamPacket{}, &rpcstream.RpcStreamInit{}, &rpcstream.RpcAck{}} {
				_ = m.UnmarshalVT(b)
				_ = m.UnmarshalVT(b)
				_ = m.SizeVT()
			}
		}()
	}
	end = time.Now().Add(25 * time.Second)
	for i := 0; i < 20000 && time.Now().Before(end); i++ {
		var in [][]byte
		if r.Intn(3) != 0 {
			in = append(in, pool[r.Intn(4)])
		}
		for k := r.Intn(5); k >= 0; k-- {
			in = append(in, bytesOf())
		}
		s := newVrStrm()
		s.in = append([][]byte{}, in...)
		role := i % 6
		guard(fmt.Sprintf("role %d receiving %x", role, in), func() {
			switch role {
			case 0:
				_ = rpcstream.HandleRpcStream(s, func(ctx context.Context, id string) (srpc.Invoker, func(), error) {
					if id == "" {
						return nil, nil, nil
					}
					return &c04Invoker{}, nil, nil
				})
			case 1:
				_ = rpcstream.HandleRawRpcStream(s, func(ctx context.Context, id string) (io.ReadWriteCloser, func(), error) {
					rd, wr := io.Pipe()
					return &c04Rwc{rd, wr}, nil, nil
				})
			case 2:
				_, _ = rpcstream.OpenRpcStream(context.Background(), func(ctx context.Context) (rpcstream.RpcStream, error) { return s, nil }, "c", true)
			case 3:
				rpcstream.ReadPump(s, func(b []byte) error { return (&srpc.Packet{}).UnmarshalVT(b) }, func(error) {})
			case 4:
				rw := rpcstream.NewRpcStreamReadWriter(s)
				buf := make([]byte, 1+r.Intn(5))
				for {
					if _, err := rw.Read(buf); err != nil {
						break
					}
				}
			case 5:
				o := newVrStrm()
				o.in = [][]byte{pool[2]}
				_ = rpcstream.HandleProxyRpcStream(s, func(ctx context.Context, id string) (rpcstream.RpcStreamCaller[rpcstream.RpcStream], string, func(), error) {
					return func(ctx context.Context) (rpcstream.RpcStream, error) { return o, nil }, "other", nil, nil
				})
			}
		})
	}
	time.Sleep(50 * time.Millisecond)
}

type c04Invoker struct{}

func (i *c04Invoker) InvokeMethod(s, m string, strm srpc.Stream) (bool, error) {
	msg := srpc.NewRawMessage(nil, true)
	if err := strm.MsgRecv(msg); err != nil {
		return true, err
	}
	return true, strm.MsgSend(msg)
}

type c04Rwc struct {
	r *io.PipeReader
	w *io.PipeWriter
}

func (c *c04Rwc) Read(b []byte) (int, error)  { return c.r.Read(b) }
func (c *c04Rwc) Write(b []byte) (int, error) { return len(b), nil }
func (c *c04Rwc) Close() error                { _ = c.w.Close(); return c.r.Close() }

var _ = rand.Int

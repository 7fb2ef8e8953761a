package srpc_test

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math/rand"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/echo"
	mock "github.com/aperturerobotics/starpc/mock"
	"github.com/aperturerobotics/starpc/srpc"
)

// vrBytes makes hostile input: random, truncated, overlong, or nearly valid.
func vrBytes(r *rand.Rand) []byte {
	var b []byte
	tag := func() byte { return byte(r.Intn(6)<<3 | r.Intn(8)) }
	varint := func() {
		switch r.Intn(5) {
		case 0:
			for k := r.Intn(12); k > 0; k-- {
				b = append(b, byte(0x80|r.Intn(128)))
			}
			b = append(b, byte(r.Intn(128)))
		case 1:
			b = append(b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, byte(0x7f+r.Intn(3)), byte(r.Intn(3)))
		default:
			b = append(b, byte(r.Intn(20)))
		}
	}
	switch r.Intn(3) {
	case 0:
		for k := r.Intn(30); k > 0; k-- {
			b = append(b, byte(r.Intn(256)))
		}
	case 1:
		for k := r.Intn(6); k > 0; k-- {
			b = append(b, tag())
			varint()
			for j := r.Intn(12); j > 0; j-- {
				b = append(b, byte(r.Intn(40)))
			}
		}
	default:
		ps := []*srpc.Packet{
			vrStartPkt("svc", "m", []byte{1, 2}, false), vrStartPkt("", "", nil, true), vrDataPkt([]byte("data"), false, true, "err"),
			vrDataPkt(nil, true, false, ""), vrCancelPkt(true), vrCancelPkt(false),
			{Body: &srpc.Packet_CallStart{}}, {Body: &srpc.Packet_CallData{}},
		}
		for k := 1 + r.Intn(3); k > 0; k-- {
			e, _ := ps[r.Intn(len(ps))].MarshalVT()
			b = append(b, e...)
		}
		for k := r.Intn(3); k > 0 && len(b) > 0; k-- {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
		if r.Intn(3) == 0 {
			b = b[:r.Intn(len(b)+1)]
		}
	}
	return b
}

// C04: hostile bytes and packet sequences.
func TestVerifReplay_C04(t *testing.T) {
	vrUndecodable(t)
	r := vrRand()
	end := time.Now().Add(20 * time.Second)
	// decoders
	for i := 0; i < 400000 && time.Now().Before(end); i++ {
		b := vrBytes(r)
		f := func() {
			for _, m := range []srpc.Message{&srpc.Packet{}, &srpc.CallStart{}, &srpc.CallData{}, &echo.EchoMsg{}, &mock.MockMsg{}, &srpc.RawMessage{}} {
				_ = m.UnmarshalVT(b)
				_ = m.UnmarshalVT(b)
				_ = m.SizeVT()
			}
			p := &srpc.Packet{}
			_ = p.UnmarshalVT(b)
			_ = p.Validate()
			switch x := p.GetBody().(type) {
			case *srpc.Packet_CallStart:
				if x == nil || x.CallStart == nil {
					vrFail(t, "bytes %x decode to a call start without content", b)
				}
			case *srpc.Packet_CallData:
				if x == nil || x.CallData == nil {
					vrFail(t, "bytes %x decode to call data without content", b)
				}
			}
		}
		if i < 3000 {
			vrGuard(t, fmt.Sprintf("decoding %x", b), f)
		} else {
			func() {
				defer func() {
					if p := recover(); p != nil {
						vrFail(t, "decoding %x: panic: %v", b, p)
					}
				}()
				f()
			}()
		}
	}
	// handlers
	end = time.Now().Add(25 * time.Second)
	for i := 0; i < 30000 && time.Now().Before(end); i++ {
		w := newVrWriter()
		inv := srpc.InvokerFunc(func(s, m string, strm srpc.Stream) (bool, error) {
			raw := srpc.NewRawMessage(nil, true)
			for k := 0; k < 3; k++ {
				if err := strm.MsgRecv(raw); err != nil {
					return true, err
				}
			}
			return true, nil
		})
		ctx, cancel := context.WithCancel(context.Background())
		var rpc vrRPC
		var start func()
		if r.Intn(2) == 0 {
			rpc = srpc.NewServerRPC(ctx, inv, w)
			start = func() {}
		} else {
			c := srpc.NewClientRPC(ctx, "s", "m")
			start = func() { _ = c.Start(w, r.Intn(2) == 0, []byte("x")) }
			rpc = c
		}
		hist := ""
		step := func(what string, f func()) {
			hist += what + "; "
			vrGuard(t, hist, f)
		}
		started := r.Intn(4) != 0
		if started {
			step("start", start)
		}
		for k := r.Intn(6); k >= 0; k-- {
			switch r.Intn(8) {
			case 0:
				step("stream close", func() { rpc.HandleStreamClose(nil) })
			case 1:
				step("stream close with error", func() { rpc.HandleStreamClose(io.ErrUnexpectedEOF) })
			case 2:
				step("local cancel", cancel)
			case 3:
				ps := []*srpc.Packet{vrStartPkt("a", "b", nil, false), vrStartPkt("a", "b", nil, true), vrDataPkt([]byte("d"), false, false, ""), vrDataPkt(nil, false, true, ""), vrDataPkt(nil, false, false, "e"), vrCancelPkt(true), vrCancelPkt(false), {}, {Body: &srpc.Packet_CallStart{}}, {Body: &srpc.Packet_CallData{}}}
				p := ps[r.Intn(len(ps))]
				step(vrPkt(p), func() { _ = rpc.HandlePacket(p) })
			case 4:
				b := vrBytes(r)
				frames := append([]byte{}, vrFrame(b)...)
				frames = append(frames, vrBytes(r)...)
				step(fmt.Sprintf("stream bytes %x", frames), func() {
					srpc.NewPacketReadWriter(&vrRwc{bytes.NewReader(frames)}).ReadPump(rpc.HandlePacketData, func(err error) { rpc.HandleStreamClose(err) })
				})
			default:
				b := vrBytes(r)
				step(fmt.Sprintf("packet %x", b), func() { _ = rpc.HandlePacketData(b) })
			}
		}
		cancel()
	}
	time.Sleep(100 * time.Millisecond)
}

type vrRwc struct{ io.Reader }

func (*vrRwc) Write(b []byte) (int, error) { return len(b), nil }
func (*vrRwc) Close() error                { return nil }

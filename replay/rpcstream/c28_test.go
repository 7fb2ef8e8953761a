package rpcstream_test

import (
	"bytes"
	"math/rand"
	"testing"

	"github.com/aperturerobotics/starpc/echo"
	mock "github.com/aperturerobotics/starpc/mock"
	"github.com/aperturerobotics/starpc/rpcstream"
)

type vrMsg interface {
	SizeVT() int
	MarshalVT() ([]byte, error)
	MarshalToSizedBufferVT([]byte) (int, error)
	MarshalToVT([]byte) (int, error)
	UnmarshalVT([]byte) error
}

// vrC28Len is a length near a boundary of the encoding.
func vrC28Len(r *rand.Rand) int {
	switch r.Intn(10) {
	case 0, 1:
		return 0
	case 2:
		return 126 + r.Intn(4)
	case 3:
		return 120 + r.Intn(12)
	case 4:
		return 16370 + r.Intn(30)
	case 5:
		return 100 + r.Intn(17000)
	case 6:
		if r.Intn(20) == 0 {
			return 2097140 + r.Intn(30)
		}
		return 255 + r.Intn(3)
	default:
		return r.Intn(20)
	}
}

// vrC28Make gives a message, an empty one of its type, and a comparison of the
// decoded message with the contents drawn.
func vrC28Make(r *rand.Rand) (vrMsg, vrMsg, func() string) {
	b := make([]byte, vrC28Len(r))
	_, _ = r.Read(b)
	s := string(b)
	diff := func(ok bool, what string) string {
		if ok {
			return ""
		}
		return what
	}
	switch r.Intn(9) {
	case 0:
		d := &rpcstream.RpcStreamInit{}
		return &rpcstream.RpcStreamInit{ComponentId: s}, d, func() string { return diff(d.ComponentId == s, "component id of an init") }
	case 1:
		d := &rpcstream.RpcAck{}
		return &rpcstream.RpcAck{Error: s}, d, func() string { return diff(d.Error == s, "error of an ack") }
	case 2:
		d := &echo.EchoMsg{}
		return &echo.EchoMsg{Body: s}, d, func() string { return diff(d.Body == s, "body of an echo message") }
	case 3:
		d := &mock.MockMsg{}
		return &mock.MockMsg{Body: s}, d, func() string { return diff(d.Body == s, "body of a mock message") }
	case 4:
		d := &rpcstream.RpcStreamPacket{}
		return &rpcstream.RpcStreamPacket{}, d, func() string { return diff(d.Body == nil, "empty packet") }
	case 5:
		d := &rpcstream.RpcStreamPacket{}
		return &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Init{Init: &rpcstream.RpcStreamInit{ComponentId: s}}}, d, func() string {
			x, ok := d.Body.(*rpcstream.RpcStreamPacket_Init)
			return diff(ok && x.Init != nil && x.Init.ComponentId == s, "init packet")
		}
	case 6:
		d := &rpcstream.RpcStreamPacket{}
		return &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Ack{Ack: &rpcstream.RpcAck{Error: s}}}, d, func() string {
			x, ok := d.Body.(*rpcstream.RpcStreamPacket_Ack)
			return diff(ok && x.Ack != nil && x.Ack.Error == s, "ack packet")
		}
	default:
		d := &rpcstream.RpcStreamPacket{}
		return &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Data{Data: b}}, d, func() string {
			x, ok := d.Body.(*rpcstream.RpcStreamPacket_Data)
			return diff(ok && string(x.Data) == s, "data packet")
		}
	}
}

func TestVerifReplayC28(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			vrFail(t, "panic: %v", e)
		}
	}()
	r := vrRand()
	for i := 0; i < 6000; i++ {
		m, out, diff := vrC28Make(r)
		size := m.SizeVT()
		enc, err := m.MarshalVT()
		if err != nil || len(enc) != size {
			vrFail(t, "%T: SizeVT announced %d bytes, the encoder made %d (%v)", m, size, len(enc), err)
		}
		pad := r.Intn(5)
		buf := bytes.Repeat([]byte{0xaa}, size+pad+3)
		n, err := m.MarshalToSizedBufferVT(buf[:size+pad])
		if err != nil || n != size {
			vrFail(t, "%T.MarshalToSizedBufferVT: %d, %v; announced %d", m, n, err, size)
		}
		if !bytes.Equal(buf[pad:pad+size], enc) || !bytes.Equal(buf[:pad], bytes.Repeat([]byte{0xaa}, pad)) || !bytes.Equal(buf[pad+size:], []byte{0xaa, 0xaa, 0xaa}) {
			vrFail(t, "%T.MarshalToSizedBufferVT wrote outside of the announced bytes, or other bytes", m)
		}
		to := bytes.Repeat([]byte{0xaa}, size+2+r.Intn(2)*r.Intn(2*size+20))
		n, err = m.MarshalToVT(to)
		if err != nil || n != size || !bytes.Equal(to[:size], enc) || !bytes.Equal(to[size:], bytes.Repeat([]byte{0xaa}, len(to)-size)) {
			vrFail(t, "%T.MarshalToVT wrote outside of the announced bytes, or other bytes (%d of %d, %v)", m, n, size, err)
		}
		if err := out.UnmarshalVT(enc); err != nil {
			vrFail(t, "decoding the encoding of a %T failed: %v", m, err)
		}
		for j := range enc { // the buffer is used again
			enc[j] ^= 0xff
		}
		if d := diff(); d != "" {
			vrFail(t, "%s (%d bytes encoded) decoded with other contents, or changed when the buffer was used again", d, size)
		}
	}
}

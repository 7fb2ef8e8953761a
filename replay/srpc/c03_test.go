package srpc_test

import (
	"bytes"
	"fmt"
	"math/rand"
	"testing"

	"github.com/aperturerobotics/starpc/srpc"
)

// vrLen is a length near a boundary of the encoding.
func vrLen(r *rand.Rand) int {
	switch r.Intn(12) {
	case 0, 1, 2:
		return 0
	case 3:
		return 126 + r.Intn(4)
	case 4:
		return 110 + r.Intn(30)
	case 5:
		return 16370 + r.Intn(30)
	case 6:
		return 100 + r.Intn(17000)
	case 7:
		if r.Intn(20) == 0 {
			return 2097140 + r.Intn(30)
		}
		return 255 + r.Intn(3)
	default:
		return r.Intn(20)
	}
}

func vrRandBytes(r *rand.Rand) []byte {
	n := vrLen(r)
	if n == 0 && r.Intn(2) == 0 {
		return nil
	}
	b := make([]byte, n)
	_, _ = r.Read(b)
	return b
}

func vrRandPacket(r *rand.Rand) *srpc.Packet {
	switch r.Intn(7) {
	case 0:
		return &srpc.Packet{Body: &srpc.Packet_CallCancel{CallCancel: r.Intn(2) == 0}}
	case 1:
		return &srpc.Packet{}
	case 2, 3, 4:
		if r.Intn(15) == 0 {
			return &srpc.Packet{Body: &srpc.Packet_CallStart{}}
		}
		return &srpc.Packet{Body: &srpc.Packet_CallStart{CallStart: &srpc.CallStart{
			RpcService: string(vrRandBytes(r)), RpcMethod: string(vrRandBytes(r)), Data: vrRandBytes(r), DataIsZero: r.Intn(2) == 0,
		}}}
	default:
		if r.Intn(15) == 0 {
			return &srpc.Packet{Body: &srpc.Packet_CallData{}}
		}
		return &srpc.Packet{Body: &srpc.Packet_CallData{CallData: &srpc.CallData{
			Data: vrRandBytes(r), DataIsZero: r.Intn(2) == 0, Complete: r.Intn(2) == 0, Error: string(vrRandBytes(r)),
		}}}
	}
}

// vrSamePacket compares by hand: nothing generated is trusted here.
func vrSamePacket(a, b *srpc.Packet) string {
	switch x := a.Body.(type) {
	case nil:
		if b.Body != nil {
			return fmt.Sprintf("the decoded packet has a body %T", b.Body)
		}
	case *srpc.Packet_CallCancel:
		y, ok := b.Body.(*srpc.Packet_CallCancel)
		if !ok {
			return fmt.Sprintf("cancel packet decoded as %T", b.Body)
		}
		if x.CallCancel != y.CallCancel {
			return fmt.Sprintf("cancel %v decoded as %v", x.CallCancel, y.CallCancel)
		}
	case *srpc.Packet_CallStart:
		y, ok := b.Body.(*srpc.Packet_CallStart)
		if !ok || y.CallStart == nil {
			return fmt.Sprintf("start packet decoded as %T", b.Body)
		}
		s := x.CallStart
		if s == nil {
			s = &srpc.CallStart{}
		}
		d := y.CallStart
		if s.RpcService != d.RpcService || s.RpcMethod != d.RpcMethod || !bytes.Equal(s.Data, d.Data) || s.DataIsZero != d.DataIsZero {
			return fmt.Sprintf("start packet (service %d bytes, method %d, data %d, zero %v) decoded with different fields (%d, %d, %d, %v)",
				len(s.RpcService), len(s.RpcMethod), len(s.Data), s.DataIsZero, len(d.RpcService), len(d.RpcMethod), len(d.Data), d.DataIsZero)
		}
	case *srpc.Packet_CallData:
		y, ok := b.Body.(*srpc.Packet_CallData)
		if !ok || y.CallData == nil {
			return fmt.Sprintf("data packet decoded as %T", b.Body)
		}
		s := x.CallData
		if s == nil {
			s = &srpc.CallData{}
		}
		d := y.CallData
		if s.Error != d.Error || s.Complete != d.Complete || !bytes.Equal(s.Data, d.Data) || s.DataIsZero != d.DataIsZero {
			return fmt.Sprintf("data packet (data %d bytes, zero %v, complete %v, error %d) decoded with different fields (%d, %v, %v, %d)",
				len(s.Data), s.DataIsZero, s.Complete, len(s.Error), len(d.Data), d.DataIsZero, d.Complete, len(d.Error))
		}
	}
	return ""
}

func vrClonePacket(p *srpc.Packet) *srpc.Packet {
	cp := func(b []byte) []byte {
		if b == nil {
			return nil
		}
		return append([]byte{}, b...)
	}
	switch x := p.Body.(type) {
	case *srpc.Packet_CallStart:
		if s := x.CallStart; s != nil {
			return &srpc.Packet{Body: &srpc.Packet_CallStart{CallStart: &srpc.CallStart{
				RpcService: string(cp([]byte(s.RpcService))), RpcMethod: string(cp([]byte(s.RpcMethod))), Data: cp(s.Data), DataIsZero: s.DataIsZero}}}
		}
	case *srpc.Packet_CallData:
		if s := x.CallData; s != nil {
			return &srpc.Packet{Body: &srpc.Packet_CallData{CallData: &srpc.CallData{
				Data: cp(s.Data), DataIsZero: s.DataIsZero, Complete: s.Complete, Error: string(cp([]byte(s.Error)))}}}
		}
	}
	return &srpc.Packet{Body: p.Body}
}

// vrFilled gives a packet without a message an empty one.
func vrFilled(p *srpc.Packet) *srpc.Packet {
	switch x := p.Body.(type) {
	case *srpc.Packet_CallStart:
		if x.CallStart == nil {
			return &srpc.Packet{Body: &srpc.Packet_CallStart{CallStart: &srpc.CallStart{}}}
		}
	case *srpc.Packet_CallData:
		if x.CallData == nil {
			return &srpc.Packet{Body: &srpc.Packet_CallData{CallData: &srpc.CallData{}}}
		}
	}
	return p
}

func TestVerifReplayC03(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			vrFail(t, "panic: %v", e)
		}
	}()
	r := vrRand()
	for i := 0; i < 6000; i++ {
		p := vrRandPacket(r)
		want := vrClonePacket(p)
		size := p.SizeVT()
		enc, err := p.MarshalVT()
		if err != nil {
			vrFail(t, "encoding failed: %v", err)
		}
		if len(enc) != size {
			vrFail(t, "SizeVT announced %d bytes, the encoder made %d", size, len(enc))
		}
		// into the end of a larger buffer
		pad := r.Intn(5)
		buf := make([]byte, size+pad+3)
		for j := range buf {
			buf[j] = 0xaa
		}
		n, err := p.MarshalToSizedBufferVT(buf[:size+pad])
		if err != nil || n != size {
			vrFail(t, "MarshalToSizedBufferVT: %d, %v; announced %d", n, err, size)
		}
		if !bytes.Equal(buf[pad:pad+size], enc) || !bytes.Equal(buf[:pad], bytes.Repeat([]byte{0xaa}, pad)) || !bytes.Equal(buf[pad+size:], []byte{0xaa, 0xaa, 0xaa}) {
			vrFail(t, "MarshalToSizedBufferVT wrote outside of the announced bytes, or other bytes")
		}
		if d := vrSamePacket(want, vrFilled(p)); d != "" {
			vrFail(t, "encoding changed the packet: %s", d)
		}
		out := &srpc.Packet{}
		if err := out.UnmarshalVT(enc); err != nil {
			vrFail(t, "decoding the encoding of a %T failed: %v", p.Body, err)
		}
		for j := range enc { // the buffer is used again
			enc[j] ^= 0xff
		}
		if d := vrSamePacket(want, out); d != "" {
			vrFail(t, "after reuse of the buffer: %s", d)
		}
	}
}

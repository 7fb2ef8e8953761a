package rpcstream_test

import (
	"bytes"
	"fmt"
	"math/rand"
	"testing"

	"github.com/aperturerobotics/starpc/echo"
	mock "github.com/aperturerobotics/starpc/mock"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
)

// vrDesc describes a message; two messages are the same when their
// descriptions have the same key.
type vrDesc struct {
	kind    int // 0 nil
	a, b, d string
	nilData bool
	f1, f2  bool
	nilSub  bool
	unknown int // number of unknown fields
	suknown int // of the inner message
}

func vrC29Str(r *rand.Rand) string {
	b := make([]byte, r.Intn(4))
	for i := range b {
		b[i] = byte('a' + r.Intn(2))
	}
	return string(b)
}

func vrC29Desc(r *rand.Rand) vrDesc {
	d := vrDesc{kind: r.Intn(13), a: vrC29Str(r), b: vrC29Str(r), d: vrC29Str(r), nilData: r.Intn(4) == 0, f1: r.Intn(2) == 0, f2: r.Intn(2) == 0, nilSub: r.Intn(6) == 0}
	if r.Intn(3) == 0 {
		d.unknown = r.Intn(3)
		d.suknown = r.Intn(3)
	}
	return d
}

// vrC29Near changes at most one part of d.
func vrC29Near(r *rand.Rand, d vrDesc) vrDesc {
	flip := func(s string) string {
		if len(s) == 0 {
			return "a"
		}
		if r.Intn(2) == 0 {
			return s[:len(s)-1]
		}
		i := r.Intn(len(s))
		return s[:i] + string([]byte{s[i] ^ 3}) + s[i+1:]
	}
	switch r.Intn(12) {
	case 0:
		d.a = flip(d.a)
	case 1:
		d.b = flip(d.b)
	case 2:
		d.d = flip(d.d)
	case 3:
		d.f1 = !d.f1
	case 4:
		d.f2 = !d.f2
	case 5:
		d.unknown = (d.unknown + 1) % 3
	case 6:
		d.suknown = (d.suknown + 1) % 3
	case 7:
		d.nilData = !d.nilData
	case 8:
		d.nilSub = !d.nilSub
	}
	return d
}

func (d vrDesc) key() string {
	if d.nilData {
		d.d = ""
	}
	cs := fmt.Sprintf("start %q %q %q %v", d.a, d.b, d.d, d.f1)
	cd := fmt.Sprintf("data %q %v %v %q", d.d, d.f1, d.f2, d.a)
	one := fmt.Sprintf("%q", d.a)
	su := d.suknown
	if d.nilSub {
		cs, cd, one, su = `start "" "" "" false`, `data "" false false ""`, `""`, 0
	}
	switch d.kind {
	case 0:
		return "nil"
	case 1:
		return fmt.Sprint("packet ", d.unknown)
	case 2:
		return fmt.Sprint("packet ", cs, d.unknown, su)
	case 3:
		return fmt.Sprint("packet ", cd, d.unknown, su)
	case 4:
		return fmt.Sprint("packet cancel ", d.f1, d.unknown)
	case 5:
		return fmt.Sprint("call start ", d.a, "|", d.b, "|", d.d, "|", d.f1, d.unknown)
	case 6:
		return fmt.Sprint("call data ", d.d, "|", d.f1, d.f2, "|", d.a, d.unknown)
	case 7:
		return fmt.Sprint("nested ", d.unknown)
	case 8:
		return fmt.Sprint("nested init ", one, d.unknown, su)
	case 9:
		return fmt.Sprint("nested ack ", one, d.unknown, su)
	case 10:
		return fmt.Sprint("nested data ", d.d, d.unknown)
	}
	return fmt.Sprint(d.kind, d.a, d.unknown)
}

type vrUnmarshaler interface{ UnmarshalVT([]byte) error }

func vrUnknown(t *testing.T, m vrUnmarshaler, n int) {
	for i := 0; i < n; i++ {
		if err := m.UnmarshalVT([]byte{0xf8, 0x07, byte(5 + i)}); err != nil {
			vrFail(t, "decoding an unknown field: %v", err)
		}
	}
}

// vrC29 is a message with its operations, and the buffers of its fields.
type vrC29 struct {
	m     any
	isNil func(any) bool
	clone func() any
	equal func(any) bool
	bufs  func(any) [][]byte
}

func vrOf[T any](m *T, clone func(*T) *T, equal func(a, b *T) bool, bufs func(*T) [][]byte) *vrC29 {
	return &vrC29{m: m, isNil: func(x any) bool { return x.(*T) == nil }, clone: func() any { return clone(m) }, equal: func(x any) bool { return equal(m, x.(*T)) }, bufs: func(x any) [][]byte {
		if x.(*T) == nil {
			return nil
		}
		return bufs(x.(*T))
	}}
}

func vrC29Make(t *testing.T, d vrDesc, base int) *vrC29 {
	var data []byte
	if !d.nilData {
		data = []byte(d.d)
	}
	start := &srpc.CallStart{RpcService: d.a, RpcMethod: d.b, Data: data, DataIsZero: d.f1}
	cdata := &srpc.CallData{Data: data, DataIsZero: d.f1, Complete: d.f2, Error: d.a}
	init := &rpcstream.RpcStreamInit{ComponentId: d.a}
	ack := &rpcstream.RpcAck{Error: d.a}
	pk, np := &srpc.Packet{}, &rpcstream.RpcStreamPacket{}
	if d.kind >= 1 && d.kind <= 4 || d.kind >= 7 && d.kind <= 10 {
		vrUnknown(t, start, d.suknown)
		vrUnknown(t, cdata, d.suknown)
		vrUnknown(t, init, d.suknown)
		vrUnknown(t, ack, d.suknown)
	} else {
		vrUnknown(t, start, d.unknown)
		vrUnknown(t, cdata, d.unknown)
	}
	vrUnknown(t, pk, d.unknown)
	vrUnknown(t, np, d.unknown)
	if d.nilSub {
		if d.kind < 5 {
			start, cdata = nil, nil
		}
		init, ack = nil, nil
	}
	switch d.kind {
	case 0:
		pk, np = nil, nil
	case 2:
		pk.Body = &srpc.Packet_CallStart{CallStart: start}
	case 3:
		pk.Body = &srpc.Packet_CallData{CallData: cdata}
	case 4:
		pk.Body = &srpc.Packet_CallCancel{CallCancel: d.f1}
	case 8:
		np.Body = &rpcstream.RpcStreamPacket_Init{Init: init}
	case 9:
		np.Body = &rpcstream.RpcStreamPacket_Ack{Ack: ack}
	case 10:
		np.Body = &rpcstream.RpcStreamPacket_Data{Data: data}
	}
	k := d.kind
	if k == 0 {
		k = base
	}
	switch {
	case k <= 4:
		return vrOf(pk, (*srpc.Packet).CloneVT, (*srpc.Packet).EqualVT, func(p *srpc.Packet) [][]byte {
			return [][]byte{p.GetCallStart().GetData(), p.GetCallData().GetData()}
		})
	case k == 5:
		if d.kind == 0 {
			start = nil
		}
		return vrOf(start, (*srpc.CallStart).CloneVT, (*srpc.CallStart).EqualVT, func(p *srpc.CallStart) [][]byte { return [][]byte{p.Data} })
	case k == 6:
		if d.kind == 0 {
			cdata = nil
		}
		return vrOf(cdata, (*srpc.CallData).CloneVT, (*srpc.CallData).EqualVT, func(p *srpc.CallData) [][]byte { return [][]byte{p.Data} })
	case k <= 10:
		return vrOf(np, (*rpcstream.RpcStreamPacket).CloneVT, (*rpcstream.RpcStreamPacket).EqualVT, func(p *rpcstream.RpcStreamPacket) [][]byte { return [][]byte{p.GetData()} })
	case k == 11:
		m := &echo.EchoMsg{Body: d.a}
		vrUnknown(t, m, d.unknown)
		if d.kind == 0 {
			m = nil
		}
		return vrOf(m, (*echo.EchoMsg).CloneVT, (*echo.EchoMsg).EqualVT, func(*echo.EchoMsg) [][]byte { return nil })
	}
	m := &mock.MockMsg{Body: d.a}
	vrUnknown(t, m, d.unknown)
	if d.kind == 0 {
		m = nil
	}
	return vrOf(m, (*mock.MockMsg).CloneVT, (*mock.MockMsg).EqualVT, func(*mock.MockMsg) [][]byte { return nil })
}

func vrFamily(k int) int {
	switch {
	case k <= 4:
		return 1
	case k >= 7 && k <= 10:
		return 7
	}
	return k
}

func TestVerifReplayC29(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			vrFail(t, "panic: %v", e)
		}
	}()
	r := vrRand()
	for i := 0; i < 60000; i++ {
		d := vrC29Desc(r)
		base := d.kind
		if base == 0 {
			base = 1 + r.Intn(12)
		}
		o := vrC29Near(r, d)
		if r.Intn(4) == 0 {
			o = vrC29Desc(r)
			o.kind = base
			if f := vrFamily(base); f == 1 {
				o.kind = 1 + r.Intn(4)
			} else if f == 7 {
				o.kind = 7 + r.Intn(4)
			}
			if r.Intn(10) == 0 {
				o.kind = 0
			}
		}
		m, x := vrC29Make(t, d, base), vrC29Make(t, o, base)
		if want := d.key() == o.key(); m.equal(x.m) != want {
			vrFail(t, "EqualVT of %q and %q gave %v", d.key(), o.key(), !want)
		}
		c := m.clone()
		if m.isNil(m.m) != m.isNil(c) {
			vrFail(t, "the clone of %q is nil or not nil unlike it", d.key())
		}
		same := vrC29Make(t, d, base)
		if !same.equal(c) {
			vrFail(t, "the clone of %q has other contents", d.key())
		}
		if m.isNil(m.m) {
			continue
		}
		if fmt.Sprintf("%p", c) == fmt.Sprintf("%p", m.m) {
			vrFail(t, "the clone of %q is the message itself", d.key())
		}
		mb, cb := m.bufs(m.m), m.bufs(c)
		for j := range mb {
			if !bytes.Equal(mb[j], cb[j]) {
				vrFail(t, "the clone of %q has other data", d.key())
			}
			for k := range mb[j] {
				mb[j][k] ^= 0xff
			}
		}
		if !same.equal(c) {
			vrFail(t, "changing %q changed its clone", d.key())
		}
	}
}

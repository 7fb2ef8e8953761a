package srpc_test

import (
	"bytes"
	"encoding/binary"
	"errors"
	"sync"
	"testing"

	"github.com/aperturerobotics/starpc/srpc"
)

// C01: frames written through random partial writes and failures.
func TestVerifReplay_C01(t *testing.T) {
	r := vrRand()
	rb := func(n int) []byte {
		b := make([]byte, n)
		r.Read(b)
		return b
	}
	pkt := func() *srpc.Packet {
		n := r.Intn(40)
		switch r.Intn(30) {
		case 0:
			n = 200 + r.Intn(400)
		case 1:
			n = 65000 + r.Intn(2000)
		}
		switch r.Intn(5) {
		case 0:
			return vrCancelPkt(r.Intn(2) == 0)
		case 1:
			return vrStartPkt(string(rb(r.Intn(9))), string(rb(r.Intn(9))), rb(n), r.Intn(2) == 0)
		case 2:
			return &srpc.Packet{}
		}
		return vrDataPkt(rb(n), r.Intn(2) == 0, r.Intn(2) == 0, string(rb(r.Intn(5))))
	}
	for round := 0; round < 3000; round++ {
		s := &vrSink{failAt: -1, err: vrErrs[r.Intn(len(vrErrs))]}
		switch r.Intn(4) {
		case 0:
			s.limit = func(n int) int { return 1 }
		case 1:
			s.limit = func(n int) int { return 1 + r.Intn(n) }
		case 2:
			s.limit = func(n int) int {
				if n > 4 {
					return 4
				}
				return n
			}
		}
		if round%3 == 0 && len(s.got) < 100 {
			s.failAt = r.Intn(120)
		}
		prw := srpc.NewPacketReadWriter(s)
		var want []byte
		for k := 0; k < 1+r.Intn(4); k++ {
			p := pkt()
			enc, err := p.MarshalVT()
			if err != nil {
				continue
			}
			err = prw.WritePacket(p)
			want = append(want, vrFrame(enc)...)
			if s.failed {
				if err == nil || !errors.Is(err, s.err) {
					vrFail(t, "write of %s failed with %v but WritePacket returned %v", vrPkt(p), s.err, err)
				}
				if s.after != 0 {
					vrFail(t, "kept writing after the error %v", s.err)
				}
				if !bytes.Equal(s.got, want[:len(s.got)]) {
					vrFail(t, "bytes before the error are %x, want a prefix of %x", s.got, want)
				}
				break
			}
			if err != nil {
				vrFail(t, "WritePacket(%s): %v", vrPkt(p), err)
			}
			if !bytes.Equal(s.got, want) {
				vrFail(t, "after %s the stream holds %.200x, want %.200x", vrPkt(p), s.got, want)
			}
		}
	}
	// concurrent writers
	for round := 0; round < 300; round++ {
		s := &vrSink{failAt: -1, limit: func(n int) int { return (n + 2) / 3 }}
		prw := srpc.NewPacketReadWriter(s)
		var wg sync.WaitGroup
		want := map[string]int{}
		for g := 0; g < 4; g++ {
			for k := 0; k < 3; k++ {
				p := vrDataPkt(bytes.Repeat([]byte{byte(16*g + k)}, 1+7*g+k), false, false, "")
				enc, _ := p.MarshalVT()
				want[string(enc)]++
				wg.Add(1)
				go func() {
					defer wg.Done()
					_ = prw.WritePacket(p)
				}()
			}
		}
		wg.Wait()
		rest := s.got
		for len(rest) > 0 {
			if len(rest) < 4 || len(rest)-4 < int(binary.LittleEndian.Uint32(rest)) {
				vrFail(t, "concurrent writes interleaved: %x", s.got)
			}
			n := int(binary.LittleEndian.Uint32(rest))
			f := string(rest[4 : 4+n])
			if want[f] == 0 {
				vrFail(t, "concurrent writes interleaved: frame %x was never written (stream %x)", f, s.got)
			}
			want[f]--
			rest = rest[4+n:]
		}
		for f, n := range want {
			if n != 0 {
				vrFail(t, "frame %x lost", f)
			}
		}
		if s.overl {
			vrFail(t, "two writes at the same time")
		}
	}
}

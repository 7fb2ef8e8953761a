package rpcstream_test

import (
	"bytes"
	"errors"
	"io"
	"testing"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
)

// C18: the byte-stream adapters against the concatenation of the messages.
func TestVerifReplay_C18(t *testing.T) {
	r := vrRand()
	rnd := func() []byte {
		n := []int{0, 1, 2, 3, 5, 8, 40, 700}[r.Intn(8)]
		if n > 2 {
			n = r.Intn(n)
		}
		b := make([]byte, n)
		r.Read(b)
		return b
	}
	for round := 0; round < 4000; round++ {
		rpc := round%2 == 0
		s := newVrStrm()
		end := error(io.EOF)
		if r.Intn(2) == 0 {
			end = errors.New("broken stream")
		}
		s.inErr = end
		wantErr := end.Error()
		var want []byte
		var sizes []int
		for k := r.Intn(6); k > 0; k-- {
			d := rnd()
			sizes = append(sizes, len(d))
			want = append(want, d...)
			if rpc {
				d = vrData(t, d)
			}
			s.in = append(s.in, d)
			if rpc && r.Intn(4) == 0 {
				s.in = append(s.in, vrAck(t, ""))
			}
		}
		if rpc && r.Intn(4) == 0 {
			s.in = append(s.in, vrAck(t, "refused"), vrData(t, []byte("x")))
			wantErr = "refused"
		}
		var rw io.ReadWriteCloser
		name := "StreamRwc"
		if rpc {
			rw = rpcstream.NewRpcStreamReadWriter(s)
			name = "RpcStreamReadWriter"
		} else {
			rw = srpc.NewStreamRwc(s)
		}
		var got []byte
		var reads []int
		vrWithin(t, 5e9, name+": reading", func() {
			for k := 0; k < 5000; k++ {
				p := make([]byte, []int{0, 1, 2, 3, 7, 64, 1000}[r.Intn(7)])
				for i := range p {
					p[i] = 0xEE
				}
				n, err := rw.Read(p)
				reads = append(reads, n)
				if n < 0 || n > len(p) {
					vrFail(t, "%s: Read(%d bytes) = %d, %v", name, len(p), n, err)
				}
				if n == 0 && err == nil && len(p) != 0 {
					vrFail(t, "%s: Read(%d bytes) = 0, nil", name, len(p))
				}
				got = append(got, p[:n]...)
				if !bytes.HasPrefix(want, got) {
					vrFail(t, "%s: messages of %v bytes, reads %v: read %x, sent %x", name, sizes, reads, got, want)
				}
				if err != nil {
					if err.Error() != wantErr || len(got) != len(want) {
						vrFail(t, "%s: messages of %v bytes, reads %v: error %v with %d of %d bytes read, want %v at the end", name, sizes, reads, err, len(got), len(want), wantErr)
					}
					return
				}
			}
			vrFail(t, "%s: messages of %v bytes: the end is not reported", name, sizes)
		})
		// writes
		for k := r.Intn(4); k > 0; k-- {
			d := rnd()
			orig := append([]byte(nil), d...)
			before := len(s.out)
			var serr error
			if r.Intn(3) == 0 {
				serr = errors.New("send failed")
				s.sendErr[s.sends] = serr
			}
			n, err := rw.Write(d)
			if !bytes.Equal(d, orig) {
				vrFail(t, "%s: Write changed its argument from %x to %x", name, orig, d)
			}
			if rpc && len(d) == 0 {
				serr = nil
				delete(s.sendErr, s.sends)
			}
			if serr != nil {
				if n != 0 || err != serr {
					vrFail(t, "%s: Write(%d bytes) with a failing stream = %d, %v", name, len(d), n, err)
				}
				continue
			}
			if n != len(d) || err != nil {
				vrFail(t, "%s: Write(%d bytes) = %d, %v", name, len(d), n, err)
			}
			if rpc && len(d) == 0 {
				if len(s.out) != before {
					vrFail(t, "%s: an empty write sent a message", name)
				}
				continue
			}
			if len(s.out) != before+1 {
				vrFail(t, "%s: Write(%d bytes) sent %d messages", name, len(d), len(s.out)-before)
			}
			m := s.out[before]
			if rpc {
				m = vrDec(t, m).GetData()
			}
			if !bytes.Equal(m, orig) {
				vrFail(t, "%s: Write(%x) sent %x", name, orig, m)
			}
		}
	}
	// the message given to the stream is a copy
	k := &vrKeep{}
	p := []byte("abc")
	if n, err := srpc.NewStreamRwc(k).Write(p); n != 3 || err != nil {
		vrFail(t, "Write = %d, %v", n, err)
	}
	p[0] = 'z'
	if string(k.got) != "abc" {
		vrFail(t, "StreamRwc.Write: the sent message changed to %q with the caller's buffer", k.got)
	}
}

type vrKeep struct {
	vrStrm
	got []byte
}

func (k *vrKeep) MsgSend(m srpc.Message) (err error) {
	k.got, err = m.MarshalVT()
	return err
}

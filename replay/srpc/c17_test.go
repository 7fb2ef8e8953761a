package srpc_test

import (
	"bytes"
	"testing"

	"github.com/aperturerobotics/starpc/srpc"
)

// C17: random operation sequences on raw messages against a byte-slice oracle.
func TestVerifReplay_C17(t *testing.T) {
	r := vrRand()
	rnd := func() []byte {
		n := r.Intn(12)
		if r.Intn(50) == 0 {
			n = 200 + r.Intn(5000)
		}
		b := make([]byte, n, n+r.Intn(9))
		r.Read(b)
		return b
	}
	for round := 0; round < 30000; round++ {
		cp := r.Intn(2) == 0
		init := rnd()
		m := srpc.NewRawMessage(init, cp)
		want := append([]byte(nil), init...)
		var log []string
		check := func(op string) {
			log = append(log, op)
			if !bytes.Equal(m.GetData(), want) || m.SizeVT() != len(want) {
				vrFail(t, "copy=%v after %v: holds %x (size %d), want %x", cp, log, m.GetData(), m.SizeVT(), want)
			}
		}
		check("new")
		for k := r.Intn(8); k >= 0; k-- {
			switch r.Intn(6) {
			case 0, 1:
				src := rnd()
				orig := append([]byte(nil), src...)
				prev := m.GetData()
				prevc := append([]byte(nil), prev...)
				if r.Intn(2) == 0 {
					m.SetData(src)
				} else if err := m.UnmarshalVT(src); err != nil {
					vrFail(t, "unmarshal: %v", err)
				}
				want = orig
				check("set")
				if !bytes.Equal(src, orig) {
					vrFail(t, "source changed by set")
				}
				if cp {
					for i := range src {
						src[i] ^= 0xff
					}
					if cap(src) > len(src) {
						s2 := src[:cap(src)]
						s2[len(src)] ^= 0xff
					}
					check("scribble-source")
				} else {
					if len(src) > 0 && &m.GetData()[0] != &src[0] {
						vrFail(t, "copy=false does not keep the given buffer")
					}
					if !bytes.Equal(prev, prevc) {
						vrFail(t, "copy=false wrote to the previous buffer")
					}
				}
			case 2:
				d, err := m.MarshalVT()
				if err != nil || !bytes.Equal(d, want) {
					vrFail(t, "copy=%v marshal of %x gave %x, %v", cp, want, d, err)
				}
				if cp {
					for i := range d {
						d[i] ^= 0xff
					}
					check("scribble-encoded")
					d2, _ := m.MarshalVT()
					keep := append([]byte(nil), d2...)
					src := rnd()
					m.SetData(src)
					want = append([]byte(nil), src...)
					check("set-after-encode")
					if !bytes.Equal(d2, keep) {
						vrFail(t, "encoded result changed by a later set")
					}
				} else if len(d) > 0 && &d[0] != &m.GetData()[0] {
					vrFail(t, "copy=false does not hand through the buffer")
				}
			case 3:
				buf := rnd()
				if r.Intn(2) == 0 {
					buf = make([]byte, len(want))
				}
				old := append([]byte(nil), buf...)
				n, err := m.MarshalToSizedBufferVT(buf)
				if len(buf) == len(want) {
					if err != nil || n != len(want) || !bytes.Equal(buf, want) {
						vrFail(t, "sized marshal of %x gave %x, %d, %v", want, buf, n, err)
					}
				} else if err == nil || n != 0 || !bytes.Equal(old, buf) {
					vrFail(t, "sized marshal of %d bytes into %d gave %d, %v", len(want), len(buf), n, err)
				}
				check("sized")
			case 4:
				m.Clear()
				want = nil
				check("clear")
			case 5:
				m.Reset()
				want = nil
				check("reset")
				if m.GetData() != nil {
					vrFail(t, "reset kept the buffer")
				}
			}
		}
	}
}

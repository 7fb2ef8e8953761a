package srpc_test

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"io"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
)

type vrSource struct {
	data  []byte
	chunk func(max int) int
	end   error
	with  bool // return the end together with the last bytes
	done  bool
	late  int
}

func (s *vrSource) Write(b []byte) (int, error) { return len(b), nil }
func (s *vrSource) Close() error                { return nil }
func (s *vrSource) Read(b []byte) (int, error) {
	if s.done {
		s.late++
		return 0, s.end
	}
	n := s.chunk(len(b))
	if n > len(b) {
		n = len(b)
	}
	if n > len(s.data) {
		n = len(s.data)
	}
	copy(b, s.data[:n])
	s.data = s.data[n:]
	if len(s.data) == 0 && (s.with || n == 0) {
		s.done = true
		return n, s.end
	}
	return n, nil
}

// C02: random frames, cut points, terminations and handler errors.
func TestVerifReplay_C02(t *testing.T) {
	r := vrRand()
	for round := 0; round < 12000; round++ {
		var stream []byte
		var frames [][]byte
		bad := ""
		for k := r.Intn(6); k > 0; k-- {
			n := 1 + r.Intn(30)
			switch r.Intn(40) {
			case 0:
				n = 2030 + r.Intn(40)
			case 1:
				n = 4000 + r.Intn(9000)
			}
			f := make([]byte, n)
			r.Read(f)
			if r.Intn(4) == 0 {
				// payloads that look like prefixes
				for i := range f {
					f[i] = byte(i % 4 / 3)
				}
			}
			frames = append(frames, f)
			stream = append(stream, vrFrame(f)...)
		}
		switch r.Intn(8) {
		case 0:
			bad = "zero prefix"
			stream = append(stream, 0, 0, 0, 0)
			stream = append(stream, vrFrame([]byte{9})...)
		case 1:
			bad = "over-limit prefix"
			stream = binary.LittleEndian.AppendUint32(stream, []uint32{10000001, 1 << 31, 0xffffffff, 0xfffffffc, 1 << 24}[r.Intn(5)])
			stream = append(stream, 1, 2, 3, 4, 5, 6, 7, 8)
		case 2:
			bad = ""
			f := vrFrame([]byte{1, 2, 3, 4, 5, 6})
			stream = append(stream, f[:r.Intn(len(f))]...)
		}
		ends := []error{io.EOF, context.Canceled, errVrA, io.ErrUnexpectedEOF, context.DeadlineExceeded, io.ErrClosedPipe}
		src := &vrSource{data: stream, end: ends[r.Intn(len(ends))], with: r.Intn(2) == 0}
		switch r.Intn(4) {
		case 0:
			src.chunk = func(int) int { return 1 }
		case 1:
			src.chunk = func(m int) int { return m }
		case 2:
			src.chunk = func(int) int { return 1 + r.Intn(9) }
		case 3:
			src.chunk = func(int) int { return r.Intn(40) }
		}
		herr := -1
		if r.Intn(4) == 0 {
			herr = r.Intn(6)
		}
		he := vrErrs[r.Intn(len(vrErrs))]
		var got [][]byte
		var raw [][]byte
		cb := func(d []byte) error {
			raw = append(raw, d)
			got = append(got, append([]byte(nil), d...))
			if len(got) > len(frames) {
				return errors.New("too many frames")
			}
			if len(got)-1 == herr {
				return he
			}
			return nil
		}
		want := frames
		var wantErr string
		switch {
		case herr >= 0 && herr < len(frames):
			want = frames[:herr+1]
			wantErr = "handler"
		case bad != "":
			wantErr = bad
		case src.end != io.EOF && src.end != context.Canceled:
			wantErr = "read"
		}
		prw := srpc.NewPacketReadWriter(src)
		var err error
		closes := 0
		pump := r.Intn(2) == 0
		vrWithin(t, 10*time.Second, "reading", func() {
			if pump {
				prw.ReadPump(cb, func(e error) { closes++; err = e })
			} else {
				err = prw.ReadToHandler(cb)
			}
		})
		if pump && closes != 1 {
			vrFail(t, "close handler called %d times", closes)
		}
		if len(got) != len(want) {
			vrFail(t, "stream %.100x (end %v, with data %v): handed out %d payloads, want %d", stream, src.end, src.with, len(got), len(want))
		}
		for i := range want {
			if !bytes.Equal(got[i], want[i]) {
				vrFail(t, "payload %d is %.80x, want %.80x", i, got[i], want[i])
			}
		}
		_ = raw
		switch wantErr {
		case "":
			if err != nil {
				vrFail(t, "ended with %v after a clean end (%v)", err, src.end)
			}
		case "handler":
			if err != he {
				vrFail(t, "handler error %v reported as %v", he, err)
			}
		case "read":
			if !errors.Is(err, src.end) {
				vrFail(t, "read error %v reported as %v", src.end, err)
			}
		default:
			if err == nil {
				vrFail(t, "no error for a %s", wantErr)
			}
		}
	}
}

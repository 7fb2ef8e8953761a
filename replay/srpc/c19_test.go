package srpc_test

import (
	"bytes"
	"context"
	"errors"
	"io"
	"os"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
)

// vrRwc hands out scripted packets, then the end; it records writes.
type vrRwc struct {
	mtx    sync.Mutex
	pkts   [][]byte
	end    error // reported with or after the last packet; nil: block
	joined bool
	closed chan struct{}
	more   chan struct{}
	wrote  []byte
	room   int // bytes accepted before writes fail; < 0: no limit
	werr   error
}

func newVrRwc() *vrRwc {
	return &vrRwc{closed: make(chan struct{}), more: make(chan struct{}, 16), room: -1}
}

func (w *vrRwc) add(b []byte) {
	w.mtx.Lock()
	w.pkts = append(w.pkts, b)
	w.mtx.Unlock()
	w.more <- struct{}{}
}

func (w *vrRwc) Read(p []byte) (int, error) {
	for {
		w.mtx.Lock()
		if len(w.pkts) > 0 {
			n := copy(p, w.pkts[0])
			if n == len(w.pkts[0]) {
				w.pkts = w.pkts[1:]
			} else {
				w.pkts[0] = w.pkts[0][n:]
			}
			var err error
			if len(w.pkts) == 0 && w.joined {
				err = w.end
			}
			w.mtx.Unlock()
			return n, err
		}
		end := w.end
		w.mtx.Unlock()
		if end != nil {
			return 0, end
		}
		select {
		case <-w.more:
		case <-w.closed:
			return 0, io.ErrClosedPipe
		}
	}
}

func (w *vrRwc) Write(p []byte) (int, error) {
	n := len(p)
	if w.room >= 0 && n > w.room {
		n = w.room
	}
	w.wrote = append(w.wrote, p[:n]...)
	if w.room >= 0 {
		w.room -= n
	}
	if n < len(p) {
		return n, w.werr
	}
	return n, nil
}

func (w *vrRwc) Close() error {
	select {
	case <-w.closed:
	default:
		close(w.closed)
	}
	return nil
}

// C19: a connection over a packet stream against the concatenated packets.
func TestVerifReplay_C19(t *testing.T) {
	r := vrRand()
	pktSize := func() int { return []int{0, 1, 3, 50, 2047, 2048, 2049, 5000}[r.Intn(8)] }
	for round := 0; round < 1500; round++ {
		w := newVrRwc()
		w.joined = r.Intn(2) == 0
		want := error(io.EOF)
		if r.Intn(2) == 0 {
			want = errors.New("read failed")
		}
		w.end = want
		var all []byte
		var sizes []int
		for k := r.Intn(20); k > 0; k-- {
			b := make([]byte, pktSize())
			r.Read(b)
			sizes = append(sizes, len(b))
			all = append(all, b...)
			w.pkts = append(w.pkts, append([]byte(nil), b...))
		}
		c := srpc.NewRwcConn(context.Background(), w, nil, nil, []int{0, 1, 3, 20}[r.Intn(4)])
		if r.Intn(3) == 0 {
			time.Sleep(time.Millisecond)
		}
		var got []byte
		var reads []int
		vrWithin(t, 10*time.Second, "reading", func() {
			for {
				p := make([]byte, []int{1, 2, 10, 100, 2048, 4000}[r.Intn(6)])
				if len(all) > 500 && len(p) < 100 && r.Intn(50) != 0 {
					p = make([]byte, 700)
				}
				n, err := c.Read(p)
				reads = append(reads, n)
				if n < 0 || n > len(p) {
					vrFail(t, "Read(%d bytes) = %d, %v", len(p), n, err)
				}
				got = append(got, p[:n]...)
				if !bytes.HasPrefix(all, got) {
					vrFail(t, "packets of %v bytes, reads %v: wrong bytes after %d", sizes, reads, len(got)-n)
				}
				if err != nil {
					if err != want || len(got) != len(all) {
						vrFail(t, "packets of %v bytes, reads %v: %v with %d of %d bytes read, want %v", sizes, reads, err, len(got), len(all), want)
					}
					break
				}
			}
		})
		// writes
		var sent []byte
		for k := r.Intn(4); k > 0; k-- {
			b := make([]byte, pktSize())
			r.Read(b)
			orig := append([]byte(nil), b...)
			wantN, wantErr := len(b), error(nil)
			if r.Intn(3) == 0 && len(b) > 0 {
				w.room, w.werr = r.Intn(len(b)), errors.New("write failed")
				wantN, wantErr = w.room, w.werr
			}
			n, err := c.Write(b)
			w.room = -1
			if n != wantN || err != wantErr || !bytes.Equal(b, orig) {
				vrFail(t, "Write(%d bytes) = %d, %v, want %d, %v", len(b), n, err, wantN, wantErr)
			}
			sent = append(sent, b[:n]...)
			if !bytes.Equal(w.wrote, sent) {
				vrFail(t, "Write(%d bytes): the stream holds %d bytes, want %d", len(b), len(w.wrote), len(sent))
			}
		}
		_ = c.Close()
		select {
		case <-w.closed:
		default:
			vrFail(t, "Close did not close the stream")
		}
	}
	read := func(c *srpc.RwcConn, n int) (b []byte, err error) {
		vrWithin(t, 3*time.Second, "Read with a deadline or a cancelled connection", func() {
			b = make([]byte, n)
			n, err = c.Read(b)
			b = b[:n]
		})
		return
	}
	// deadlines and cancellation
	for round := 0; round < 30; round++ {
		w := newVrRwc()
		ctx, cancel := context.WithCancel(context.Background())
		c := srpc.NewRwcConn(ctx, w, nil, nil, 4)
		if round%2 == 0 {
			_ = c.SetReadDeadline(time.Now().Add(2 * time.Millisecond))
		} else {
			_ = c.SetDeadline(time.Now().Add(-time.Second))
		}
		if b, err := read(c, 8); err != os.ErrDeadlineExceeded || len(b) != 0 {
			vrFail(t, "read past its deadline: %x, %v", b, err)
		}
		_ = c.SetReadDeadline(time.Time{})
		_ = c.SetWriteDeadline(time.Now().Add(-time.Hour))
		w.add([]byte("abc"))
		if b, err := read(c, 2); err != nil || string(b) != "ab" {
			vrFail(t, "read after the deadline was cleared: %x, %v", b, err)
		}
		_ = c.SetReadDeadline(time.Now().Add(time.Hour))
		if b, err := read(c, 2); err != nil || string(b) != "c" {
			vrFail(t, "read of the rest: %x, %v", b, err)
		}
		if round%3 == 0 {
			_ = c.SetReadDeadline(time.Time{})
		}
		cancel()
		if b, err := read(c, 2); err != context.Canceled || len(b) != 0 {
			vrFail(t, "read of a cancelled connection: %x, %v", b, err)
		}
		_ = c.Close()
	}
}

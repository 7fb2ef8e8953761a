package rpcstream_test

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
)

// C21: packets written to and read from a nested stream.
func TestVerifReplay_C21(t *testing.T) {
	r := vrRand()
	rnd := func() []byte {
		b := make([]byte, []int{0, 1, 3, 17, 300, 70000}[r.Intn(6)])
		r.Read(b)
		return b
	}
	// writing
	for round := 0; round < 2000; round++ {
		s := newVrStrm()
		var pkt *srpc.Packet
		switch r.Intn(4) {
		case 0:
			pkt = srpc.NewCallStartPacket("svc", "m", rnd(), r.Intn(2) == 0)
		case 1:
			pkt = srpc.NewCallDataPacket(rnd(), r.Intn(2) == 0, r.Intn(2) == 0, nil)
		case 2:
			pkt = srpc.NewCallDataPacket(nil, false, true, errors.New("failed"))
		case 3:
			pkt = srpc.NewCallCancelPacket()
		}
		var se error
		if r.Intn(4) == 0 {
			se = io.ErrShortWrite
			s.sendErr[0] = se
		}
		enc := vrEnc(t, pkt)
		w := rpcstream.NewRpcStreamWriter(s)
		if err := w.WritePacket(pkt); err != se {
			vrFail(t, "writing %x returned %v, want %v", enc, err, se)
		}
		out, ended, closed := s.snap()
		if se == nil {
			d, ok := &rpcstream.RpcStreamPacket_Data{}, false
			if len(out) == 1 {
				d, ok = vrDec(t, out[0]).GetBody().(*rpcstream.RpcStreamPacket_Data)
			}
			if !ok || !bytes.Equal(d.Data, enc) {
				vrFail(t, "packet %x was sent as %d messages %x", enc, len(out), out)
			}
		}
		if s.sends != 1 || ended != 0 || closed != 0 {
			vrFail(t, "one packet made %d sends, %d ends, %d closes", s.sends, ended, closed)
		}
		if err := w.Close(); err != nil {
			vrFail(t, "close: %v", err)
		}
		if _, ended, closed := s.snap(); ended != 1 || closed != 0 {
			vrFail(t, "closing the writer made %d ends, %d closes", ended, closed)
		}
	}
	// reading
	for round := 0; round < 3000; round++ {
		s := newVrStrm()
		var want [][]byte
		var log []string
		for n := r.Intn(6); n > 0; n-- {
			switch r.Intn(5) {
			case 0:
				s.in = append(s.in, vrAck(t, []string{"", "late"}[r.Intn(2)]))
				log = append(log, "ack")
			case 1:
				s.in = append(s.in, []byte{})
				log = append(log, "nothing")
			default:
				b := rnd()
				s.in = append(s.in, vrData(t, b))
				log = append(log, fmt.Sprint("data", len(b)))
				if len(b) > 0 {
					want = append(want, b)
				}
			}
		}
		s.inErr = []error{io.EOF, errVrClosed, context.Canceled}[r.Intn(3)]
		end := s.inErr
		stop := -1
		he := []error{io.ErrClosedPipe, io.EOF}[r.Intn(2)]
		if len(want) > 0 && r.Intn(3) == 0 {
			stop = r.Intn(len(want))
			want = want[:stop+1]
			end = he
		}
		var got [][]byte
		var ends []error
		h := func(b []byte) error {
			got = append(got, b) // kept: later messages must not change it
			if len(ends) > 0 {
				vrFail(t, "%v: message after the end", log)
			}
			if len(got) == stop+1 && stop >= 0 {
				return he
			}
			return nil
		}
		if r.Intn(2) == 0 {
			vrWithin(t, 20*time.Second, fmt.Sprint(log), func() { rpcstream.ReadPump(s, h, func(e error) { ends = append(ends, e) }) })
		} else {
			vrWithin(t, 20*time.Second, fmt.Sprint(log), func() { ends = append(ends, rpcstream.ReadToHandler(s, h)) })
		}
		if len(ends) != 1 || ends[0] != end {
			vrFail(t, "%v: ended with %v, want %v once", log, ends, end)
		}
		if len(got) != len(want) {
			vrFail(t, "%v: %d messages handled, want %d", log, len(got), len(want))
		}
		for i := range want {
			if !bytes.Equal(got[i], want[i]) {
				vrFail(t, "%v: message %d is %.40x, want %.40x", log, i, got[i], want[i])
			}
		}
		rpcstream.ReadPump(newVrStrm(), h, nil)
	}
	// an opened nested stream passes on what arrives
	for round := 0; round < 200; round++ {
		s := newVrStrm()
		wait := r.Intn(2) == 0
		if wait {
			s.in = append(s.in, vrAck(t, ""))
		}
		var want [][]byte
		for n := r.Intn(4); n > 0; n-- {
			b := append([]byte{1}, rnd()...)
			s.in = append(s.in, vrData(t, b))
			want = append(want, b)
		}
		s.inErr = []error{io.EOF, errVrClosed}[r.Intn(2)]
		got := make(chan []byte, 8)
		ended := make(chan error, 2)
		open := rpcstream.NewRpcStreamOpenStream(func(ctx context.Context) (rpcstream.RpcStream, error) { return s, nil }, "c", wait)
		ctx, cancel := context.WithCancel(context.Background())
		late := r.Intn(3) == 0
		if late {
			s.live = true
		}
		w, err := open(ctx, func(b []byte) error { got <- b; return nil }, func(e error) { ended <- e })
		if err != nil || w == nil {
			vrFail(t, "open: %v", err)
		}
		cancel()
		if late {
			s.finish(s.inErr)
		}
		select {
		case e := <-ended:
			if e != s.inErr {
				vrFail(t, "an opened nested stream ended with %v, want %v", e, s.inErr)
			}
		case <-time.After(10 * time.Second):
			vrFail(t, "the end of an opened nested stream was not reported")
		}
		close(got)
		for i := 0; ; i++ {
			b, ok := <-got
			if !ok && i != len(want) || ok && (i >= len(want) || !bytes.Equal(b, want[i])) {
				vrFail(t, "an opened nested stream passed on %.40x as message %d of %d", b, i, len(want))
			}
			if !ok {
				break
			}
		}
	}
}

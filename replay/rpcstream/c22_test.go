package rpcstream_test

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
)

// C22: what a proxy relays.
func TestVerifReplay_C22(t *testing.T) {
	r := vrRand()
	for round := 0; round < 400; round++ {
		a, b := newVrStrm(), newVrStrm()
		a.live, b.live = true, true
		a.in = [][]byte{vrInit(t, "in")}
		var log []string
		rels, opens := 0, 0
		ret := make(chan error, 1)
		go func() {
			ret <- rpcstream.HandleProxyRpcStream(a, func(ctx context.Context, id string) (rpcstream.RpcStreamCaller[rpcstream.RpcStream], string, func(), error) {
				if id != "in" {
					vrFail(t, "looked up %q", id)
				}
				return func(ctx context.Context) (rpcstream.RpcStream, error) { opens++; return b, nil }, "out", func() { rels++ }, nil
			})
		}()
		var wantA, wantB [][]byte // relayed to a, to b
		n := r.Intn(30)
		b.feed(vrAck(t, ""))
		wantA = append(wantA, vrAck(t, ""))
		for i := 0; i < n; i++ {
			d := make([]byte, []int{0, 1, 5, 100, 5000}[r.Intn(5)])
			r.Read(d)
			m := vrData(t, d)
			if r.Intn(8) == 0 {
				m = nil
			}
			if r.Intn(2) == 0 {
				a.feed(m)
				if len(m) > 0 {
					wantB = append(wantB, m)
				}
				log = append(log, fmt.Sprintf(">%d", len(m)))
			} else {
				b.feed(m)
				if len(m) > 0 {
					wantA = append(wantA, m)
				}
				log = append(log, fmt.Sprintf("<%d", len(m)))
			}
		}
		vrEventually(t, fmt.Sprint(log, ": relaying"), func() bool {
			oa, _, _ := a.snap()
			ob, _, _ := b.snap()
			return len(oa) >= len(wantA) && len(ob) >= len(wantB)+1
		})
		if _, _, c := a.snap(); c != 0 {
			vrFail(t, "%v: closed before the end", log)
		}
		if _, _, c := b.snap(); c != 0 {
			vrFail(t, "%v: component stream closed before the end", log)
		}
		if rels != 0 {
			vrFail(t, "%v: released before the end", log)
		}
		end := []error{io.EOF, errVrClosed, io.ErrNoProgress}[r.Intn(3)]
		if r.Intn(2) == 0 {
			a.finish(end)
		} else {
			b.finish(end)
		}
		var err error
		select {
		case err = <-ret:
		case <-time.After(20 * time.Second):
			vrFail(t, "%v: proxy does not end with %v", log, end)
		}
		if err != nil && err != end && err != errVrClosed || err == nil && end == io.ErrNoProgress {
			vrFail(t, "%v: ended with %v, returned %v", log, end, err)
		}
		oa, _, ca := a.snap()
		ob, _, cb := b.snap()
		if opens != 1 || len(ob) == 0 || vrDec(t, ob[0]).GetInit().GetComponentId() != "out" {
			vrFail(t, "%v: %d streams opened, first message %x", log, opens, ob)
		}
		cmp := func(what string, got, want [][]byte) {
			if len(got) != len(want) {
				vrFail(t, "%v: %s got %d messages, want %d", log, what, len(got), len(want))
			}
			for i := range got {
				if !bytes.Equal(got[i], want[i]) {
					vrFail(t, "%v: %s got %.40x as message %d, want %.40x", log, what, got[i], i, want[i])
				}
			}
		}
		cmp("caller", oa, wantA)
		cmp("component", ob[1:], wantB)
		if ca == 0 || cb == 0 || rels != 1 {
			vrFail(t, "%v: closes %d and %d, releases %d at the end", log, ca, cb, rels)
		}
	}
	// a send error ends the relay
	a, b := newVrStrm(), newVrStrm()
	a.in = [][]byte{vrInit(t, "in"), vrData(t, []byte("1")), vrData(t, []byte("2")), vrData(t, []byte("3"))}
	a.live, b.live = true, true
	b.sendErr[2] = io.ErrShortWrite
	vrWithin(t, 20*time.Second, "relay with a send error", func() {
		_ = rpcstream.HandleProxyRpcStream(a, func(ctx context.Context, id string) (rpcstream.RpcStreamCaller[rpcstream.RpcStream], string, func(), error) {
			return func(ctx context.Context) (rpcstream.RpcStream, error) { return b, nil }, "out", nil, nil
		})
	})
	if b.sends != 3 {
		vrFail(t, "%d sends, the third failed", b.sends)
	}
	// every way the lookup and the open can fail: released once, closed
	for mask := 0; mask < 32; mask++ {
		a, b := newVrStrm(), newVrStrm()
		a.in = [][]byte{vrInit(t, "in")}
		rels := 0
		var lerr, oerr error
		if mask&1 != 0 {
			lerr = io.ErrNoProgress
		}
		if mask&2 != 0 {
			oerr = io.ErrShortBuffer
		}
		if mask&16 != 0 {
			b.sendErr[0] = io.ErrShortWrite
		}
		opened := false
		vrWithin(t, 20*time.Second, "failing lookup", func() {
			_ = rpcstream.HandleProxyRpcStream(a, func(ctx context.Context, id string) (rpcstream.RpcStreamCaller[rpcstream.RpcStream], string, func(), error) {
				var c rpcstream.RpcStreamCaller[rpcstream.RpcStream]
				if mask&4 != 0 {
					c = func(ctx context.Context) (rpcstream.RpcStream, error) {
						if mask&8 != 0 {
							opened = true
							return b, oerr
						}
						return nil, oerr
					}
				}
				return c, "out", func() { rels++ }, lerr
			})
		})
		_, _, cb := b.snap()
		if rels != 1 || opened && cb == 0 {
			vrFail(t, "lookup and open %05b: released %d times, opened %v and closed %d times", mask, rels, opened, cb)
		}
	}
	// a failed receive which left bytes in the message relays nothing
	{
		b := newVrStrm()
		var strm rpcstream.RpcStream = &vrTorn{vrStrm: b}
		a := newVrStrm()
		a.in = [][]byte{vrInit(t, "in")}
		a.live = true
		vrWithin(t, 20*time.Second, "failing receive", func() {
			_ = rpcstream.HandleProxyRpcStream(a, func(ctx context.Context, id string) (rpcstream.RpcStreamCaller[rpcstream.RpcStream], string, func(), error) {
				return func(ctx context.Context) (rpcstream.RpcStream, error) { return strm, nil }, "out", nil, nil
			})
		})
		if oa, _, _ := a.snap(); len(oa) != 0 {
			vrFail(t, "relayed %x, which failed to be received", oa)
		}
	}
}

// vrTorn fails every receive after it filled the message.
type vrTorn struct {
	*vrStrm
}

func (s *vrTorn) MsgRecv(m srpc.Message) error {
	_ = m.UnmarshalVT([]byte("torn"))
	return io.ErrUnexpectedEOF
}

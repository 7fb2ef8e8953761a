package srpc_test

import (
	"context"
	"errors"
	"fmt"
	"io"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
)

// C11: cancellation and stream loss at every stage of a call.
func TestVerifReplay_C11(t *testing.T) {
	r := vrRand()
	for round := 0; round < 400; round++ {
		// local cancellation ends blocked reads and waits
		for _, server := range []bool{false, true} {
			ctx, cancel := context.WithCancel(context.Background())
			w := newVrWriter()
			var rpc vrRPC
			if server {
				rpc = srpc.NewServerRPC(ctx, nil, w)
			} else {
				cl := srpc.NewClientRPC(ctx, "s", "m")
				_ = cl.Start(w, false, nil)
				rpc = cl
			}
			type res struct {
				what string
				err  error
			}
			out := make(chan res, 3)
			go func() { _, e := rpc.ReadOne(); out <- res{"read", e} }()
			go func() { out <- res{"wait", rpc.Wait(context.Background())} }()
			wctx, wcancel := context.WithCancel(context.Background())
			go func() {
				e := rpc.Wait(wctx)
				if e == nil {
					e = errors.New("nil")
				}
				out <- res{"wait with its own context", e}
			}()
			time.Sleep(time.Duration(r.Intn(200)) * time.Microsecond)
			if r.Intn(2) == 0 {
				wcancel()
				select {
				case x := <-out:
					if x.what != "wait with its own context" || !errors.Is(x.err, context.Canceled) {
						vrFail(t, "server=%v: %s ended with %v before the cancellation", server, x.what, x.err)
					}
					out <- x
				case <-time.After(5 * time.Second):
					vrFail(t, "server=%v: a cancelled wait still sleeps", server)
				}
			}
			cancel()
			for i := 0; i < 3; i++ {
				select {
				case x := <-out:
					if !errors.Is(x.err, context.Canceled) {
						vrFail(t, "server=%v: %s ended with %v after a local cancellation", server, x.what, x.err)
					}
				case <-time.After(5 * time.Second):
					vrFail(t, "server=%v: a read or wait still sleeps after a local cancellation", server)
				}
			}
			wcancel()
			// the cancelled reader has closed the call
			if _, c, _ := w.snap(); c == 0 {
				vrFail(t, "server=%v: a locally cancelled read left the writer open", server)
			}
			if err := rpc.HandlePacket(vrDataPkt([]byte{7}, false, false, "")); err == nil {
				vrFail(t, "server=%v: data accepted after a locally cancelled read", server)
			}
			vrWithin(t, 5*time.Second, "reading", func() {
				if b, err := rpc.ReadOne(); !errors.Is(err, context.Canceled) {
					t.Errorf("REPLAY-FAIL: server=%v: second read after a local cancellation gave %x, %v", server, b, err)
				}
			})
		}
		// closing a call
		for _, when := range []int{0, 1, 2} {
			cl := srpc.NewClientRPC(context.Background(), "s", "m")
			w := newVrWriter()
			if when > 0 {
				_ = cl.Start(w, false, nil)
			}
			if when > 1 {
				_ = cl.HandlePacket(vrDataPkt([]byte{5}, false, r.Intn(2) == 0, ""))
			}
			cl.Close()
			ps, closed, ops := w.snap()
			if cl.Context().Err() == nil {
				vrFail(t, "stage %d: context not cancelled by Close", when)
			}
			if when > 0 && (len(ps) != 2 || vrPkt(ps[1]) != "cancel(true)" || closed == 0) {
				vrFail(t, "stage %d: Close did %v, packets %s", when, ops, vrPkts(ps))
			}
			if when > 0 && fmt.Sprint(ops[:3]) != "[write write close]" {
				vrFail(t, "stage %d: Close did %v, want the cancel before the writer is closed", when, ops)
			}
			if when == 0 && len(ops) != 0 {
				vrFail(t, "Close before Start did %v", ops)
			}
			if when > 1 {
				if b, err := cl.ReadOne(); err != nil || len(b) != 1 {
					vrFail(t, "queued message lost by Close: %x, %v", b, err)
				}
			}
		}
		// cancel and stream close from the remote
		for _, server := range []bool{false, true} {
			for _, how := range []int{0, 1, 2} {
				w := newVrWriter()
				var rpc vrRPC
				if server {
					rpc = srpc.NewServerRPC(context.Background(), nil, w)
				} else {
					cl := srpc.NewClientRPC(context.Background(), "s", "m")
					_ = cl.Start(w, false, nil)
					rpc = cl
				}
				n := r.Intn(3)
				for i := 0; i < n; i++ {
					_ = rpc.HandlePacket(vrDataPkt([]byte{byte(i)}, false, false, ""))
				}
				var want error
				switch how {
				case 0:
					_ = rpc.HandlePacket(vrCancelPkt(true))
					want = context.Canceled
				case 1:
					rpc.HandleStreamClose(nil)
					want = io.EOF
				case 2:
					rpc.HandleStreamClose(errVrA)
					want = errVrA
				}
				if rpc.Context().Err() == nil {
					vrFail(t, "server=%v event %d: context still live", server, how)
				}
				if _, c, _ := w.snap(); server && c == 0 {
					vrFail(t, "server event %d: writer not closed", how)
				}
				vrWithin(t, 5*time.Second, "reading", func() {
					for i := 0; i < n; i++ {
						if b, err := rpc.ReadOne(); err != nil || len(b) != 1 || b[0] != byte(i) {
							t.Errorf("REPLAY-FAIL: server=%v event %d: message %d: %x, %v", server, how, i, b, err)
							return
						}
					}
					if _, err := rpc.ReadOne(); !errors.Is(err, want) {
						t.Errorf("REPLAY-FAIL: server=%v event %d: outcome %v, want %v", server, how, err, want)
					}
				})
				if t.Failed() {
					return
				}
			}
		}
	}
	// starting on a cancelled context, or with a failing writer
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	cl := srpc.NewClientRPC(ctx, "s", "m")
	w := newVrWriter()
	if err := cl.Start(w, true, []byte{1}); !errors.Is(err, context.Canceled) {
		vrFail(t, "start on a cancelled context: %v", err)
	}
	if ps, c, _ := w.snap(); len(ps) != 0 || c == 0 {
		vrFail(t, "start on a cancelled context sent %s, closed %d times", vrPkts(ps), c)
	}
	cl = srpc.NewClientRPC(context.Background(), "s", "m")
	w = newVrWriter()
	w.failAt, w.fail = 0, errVrA
	if err := cl.Start(w, true, []byte{1}); !errors.Is(err, errVrA) {
		vrFail(t, "start with a failing writer: %v", err)
	}
	if _, c, _ := w.snap(); c == 0 || cl.Context().Err() == nil {
		vrFail(t, "failed start did not release: closed %d, context %v", c, cl.Context().Err())
	}
	// the cancellation and a message at the same time
	for i := 0; i < 5000; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		w := newVrWriter()
		rpc := srpc.NewClientRPC(ctx, "s", "m")
		_ = rpc.Start(w, false, nil)
		done := make(chan error, 1)
		go func() {
			for {
				if _, err := rpc.ReadOne(); err != nil {
					done <- err
					return
				}
			}
		}()
		cancel()
		_ = rpc.HandlePacket(vrDataPkt([]byte("late"), false, false, ""))
		select {
		case err := <-done:
			if _, c, _ := w.snap(); c == 0 || !errors.Is(err, context.Canceled) {
				vrFail(t, "a read which reported %v left the writer of its cancelled call open (closed %d times)", err, c)
			}
		case <-time.After(10 * time.Second):
			vrFail(t, "a read still sleeps after a local cancellation")
		}
	}
	// a call that was never started has no writer yet
	ctx, cancel = context.WithCancel(context.Background())
	cl = srpc.NewClientRPC(ctx, "s", "m")
	cancel()
	vrGuard(t, "reading a call that was cancelled before it was started", func() {
		if _, err := cl.ReadOne(); !errors.Is(err, context.Canceled) {
			vrFail(t, "reading a call that was cancelled before it was started: %v", err)
		}
		cl.HandleStreamClose(nil)
		_ = cl.HandlePacket(vrCancelPkt(true))
	})
	// the stream package's closed raw connection
	prw := srpc.NewPacketReadWriter(&vrCloser{})
	if err := prw.Close(); err != errVrA {
		vrFail(t, "Close of the packet writer gave %v", err)
	}
}

type vrCloser struct{ vrSink }

func (c *vrCloser) Close() error { return errVrA }

package srpc_test

import (
	"context"
	"fmt"
	"io"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
)

// C08: a blocked reader and waiter against every event that must wake them.
func TestVerifReplay_C08(t *testing.T) {
	r := vrRand()
	type ev struct {
		name        string
		f           func(rpc vrRPC)
		read        bool
		wait        bool
		client, srv bool
	}
	evs := []ev{
		{"message", func(c vrRPC) { _ = c.HandlePacket(vrDataPkt([]byte{1}, false, false, "")) }, true, false, true, true},
		{"empty message", func(c vrRPC) { _ = c.HandlePacket(vrDataPkt(nil, true, false, "")) }, true, false, true, true},
		{"completion", func(c vrRPC) { _ = c.HandlePacket(vrDataPkt(nil, false, true, "")) }, true, false, true, true},
		{"remote error", func(c vrRPC) { _ = c.HandlePacket(vrDataPkt(nil, false, true, "e")) }, true, true, true, true},
		{"remote error without completion", func(c vrRPC) { _ = c.HandlePacket(vrDataPkt(nil, false, false, "e")) }, true, true, true, true},
		{"cancel", func(c vrRPC) { _ = c.HandlePacket(vrCancelPkt(true)) }, true, true, true, true},
		{"stream close", func(c vrRPC) { c.HandleStreamClose(nil) }, true, true, true, true},
		{"stream error", func(c vrRPC) { c.HandleStreamClose(io.ErrUnexpectedEOF) }, true, true, true, true},
		{"start with data", func(c vrRPC) { _ = c.HandlePacket(vrStartPkt("s", "m", []byte{2}, false)) }, true, false, false, true},
		{"start with empty message", func(c vrRPC) { _ = c.HandlePacket(vrStartPkt("s", "m", nil, true)) }, true, false, false, true},
		{"close", func(c vrRPC) { c.(*srpc.ClientRPC).Close() }, true, true, true, false},
	}
	for round := 0; round < 40; round++ {
		for _, e := range evs {
			for _, server := range []bool{false, true} {
				if server && !e.srv || !server && !e.client {
					continue
				}
				w := newVrWriter()
				var rpc vrRPC
				if server {
					rpc = srpc.NewServerRPC(context.Background(), srpc.InvokerFunc(func(s, m string, strm srpc.Stream) (bool, error) {
						<-strm.Context().Done()
						return true, nil
					}), w)
				} else {
					cl := srpc.NewClientRPC(context.Background(), "s", "m")
					_ = cl.Start(w, false, nil)
					rpc = cl
				}
				readers, waiters := 0, 0
				rd, wd := make(chan struct{}, 8), make(chan struct{}, 8)
				if e.read {
					readers = 1
					if e.name != "message" && e.name != "empty message" && e.name != "start with data" && e.name != "start with empty message" {
						readers = 1 + r.Intn(2)
					}
				}
				if e.wait {
					waiters = r.Intn(3)
				}
				for i := 0; i < readers; i++ {
					go func() { _, _ = rpc.ReadOne(); rd <- struct{}{} }()
				}
				for i := 0; i < waiters; i++ {
					go func() { _ = rpc.Wait(context.Background()); wd <- struct{}{} }()
				}
				if r.Intn(2) == 0 {
					time.Sleep(time.Duration(r.Intn(400)) * time.Microsecond)
				}
				e.f(rpc)
				tm := time.After(5 * time.Second)
				for i := 0; i < readers; i++ {
					select {
					case <-rd:
					case <-tm:
						vrFail(t, "server=%v: a reader still sleeps after: %s", server, e.name)
					}
				}
				for i := 0; i < waiters; i++ {
					select {
					case <-wd:
					case <-tm:
						vrFail(t, "server=%v: a waiter still sleeps after: %s", server, e.name)
					}
				}
				rpc.HandleStreamClose(nil)
			}
		}
	}
	// a reader racing with the messages gets all of them
	for round := 0; round < 300; round++ {
		cl := srpc.NewClientRPC(context.Background(), "s", "m")
		_ = cl.Start(newVrWriter(), false, nil)
		n := 1 + r.Intn(20)
		go func() {
			for i := 0; i < n; i++ {
				_ = cl.HandlePacket(vrDataPkt([]byte{byte(i)}, false, i == n-1, ""))
			}
		}()
		vrWithin(t, 5*time.Second, fmt.Sprintf("reading %d racing messages", n), func() {
			for i := 0; i < n; i++ {
				b, err := cl.ReadOne()
				if err != nil || len(b) != 1 || b[0] != byte(i) {
					t.Errorf("REPLAY-FAIL: message %d of %d: %x, %v", i, n, b, err)
					return
				}
			}
			if _, err := cl.ReadOne(); err != io.EOF {
				t.Errorf("REPLAY-FAIL: end: %v", err)
			}
		})
		if t.Failed() {
			return
		}
	}
	// readers and waiters racing with the event which ends the call
	for round := 0; round < 40000; round++ {
		cl := srpc.NewClientRPC(context.Background(), "s", "m")
		_ = cl.Start(newVrWriter(), false, nil)
		spin, mode := r.Intn(3000), r.Intn(2)
		done, ready := make(chan error, 1), make(chan struct{})
		go func() {
			close(ready)
			if mode == 0 {
				done <- cl.Wait(context.Background())
			} else {
				_, err := cl.ReadOne()
				done <- err
			}
		}()
		<-ready
		for i := 0; i < spin; i++ {
			vrSpin++
		}
		_ = cl.HandlePacket(vrDataPkt(nil, false, true, "boom"))
		select {
		case err := <-done:
			if err == nil || err.Error() != "boom" {
				vrFail(t, "racing reader or waiter got %v", err)
			}
		case <-time.After(3 * time.Second):
			vrFail(t, "reader=%v: sleeps although the call failed while it looked", mode == 1)
		}
	}
}

var vrSpin int

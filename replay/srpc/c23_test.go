package srpc_test

import (
	"context"
	"fmt"
	"io"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
)

// C23: concurrent use of shared objects under the race detector; every
// operation must return (no lock left held).
func TestVerifReplay_C23(t *testing.T) {
	r := vrRand()
	for round := 0; round < 60; round++ {
		mux := srpc.NewMux()
		var all []func()
		for g := 0; g < 4; g++ {
			h := &vrHandler{vrInvoker: vrInvoker{name: "h", found: true, log: &[]string{}}, svc: fmt.Sprint("s", g%2), ids: []string{"m0", "m1"}}
			all = append(all,
				func() { _ = mux.Register(h) },
				func() { _ = mux.HasService("s0"); _ = mux.HasServiceMethod("s0", "m1") },
				func() { _, _ = mux.InvokeMethod("s9", "m9", &vrStream{}) })
		}
		// a callback of the mux may use the mux
		_ = mux.Register(&vrReenter{mux: mux})
		all = append(all, func() { _, _ = mux.InvokeMethod("re", "m", &vrStream{}); _ = mux.HasServiceMethod("re", "m") })
		for _, server := range []bool{false, true} {
			w := newVrWriter()
			var rpc vrRPC
			ctx, cancel := context.WithCancel(context.Background())
			if server {
				rpc = srpc.NewServerRPC(ctx, mux, w)
				all = append(all, func() { _ = rpc.HandlePacket(vrStartPkt("re", "m", []byte{1}, false)) })
			} else {
				cl := srpc.NewClientRPC(ctx, "s", "m")
				rpc = cl
				started := make(chan struct{})
				all = append(all,
					func() { defer close(started); _ = cl.Start(w, true, []byte{1}) },
					func() {
						<-started
						_ = cl.WriteCallData([]byte{2}, false, nil)
						time.Sleep(time.Millisecond)
						cl.Close()
					})
			}
			all = append(all,
				func() {
					for i := 0; i < 5; i++ {
						_ = rpc.HandlePacket(vrDataPkt([]byte{byte(i)}, false, i == 4, ""))
					}
				},
				func() {
					for {
						if _, err := rpc.ReadOne(); err != nil {
							return
						}
					}
				},
				func() {
					wctx, wc := context.WithTimeout(context.Background(), 20*time.Millisecond)
					defer wc()
					_ = rpc.Wait(wctx)
				},
				func() { time.Sleep(2 * time.Millisecond); rpc.HandleStreamClose(nil) },
				func() { time.Sleep(3 * time.Millisecond); cancel() })
		}
		r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		vrWithin(t, 20*time.Second, "concurrent use of muxes and calls", func() {
			var wg sync.WaitGroup
			for _, f := range all {
				wg.Add(1)
				go func() { defer wg.Done(); f() }()
			}
			wg.Wait()
		})
	}
}

type vrReenter struct{ mux srpc.Mux }

func (h *vrReenter) GetServiceID() string { return "re" }
func (h *vrReenter) GetMethodIDs() []string {
	_ = h.mux.HasService("s0")
	return []string{"m"}
}

func (h *vrReenter) InvokeMethod(s, m string, strm srpc.Stream) (bool, error) {
	_ = h.mux.Register(&vrHandler{svc: "s3", ids: []string{"x"}})
	_ = h.mux.HasService("s3")
	return true, nil
}

// vrIdle is a byte stream that returns one byte at a time.
type vrIdle struct{ closed chan struct{} }

func (w *vrIdle) Read(p []byte) (int, error) {
	select {
	case <-w.closed:
		return 0, io.EOF
	case <-time.After(50 * time.Microsecond):
		p[0] = 1
		return 1, nil
	}
}
func (w *vrIdle) Write(p []byte) (int, error) { return len(p), nil }
func (w *vrIdle) Close() error                { close(w.closed); return nil }

// C23: a connection used from several goroutines.
func TestVerifReplay_C23Conn(t *testing.T) {
	for round := 0; round < 20; round++ {
		w := &vrIdle{closed: make(chan struct{})}
		c := srpc.NewRwcConn(context.Background(), w, nil, nil, 2)
		var wg sync.WaitGroup
		run := func(f func()) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 30; k++ {
					f()
				}
			}()
		}
		for g := 0; g < 2; g++ {
			run(func() { _, _ = c.Read(make([]byte, 1)) })
			run(func() { _ = c.SetReadDeadline(time.Now().Add(100 * time.Microsecond)) })
			run(func() { _ = c.SetDeadline(time.Time{}) })
			run(func() { _ = c.SetWriteDeadline(time.Time{}) })
			run(func() { _, _ = c.Write([]byte{1}) })
		}
		vrWithin(t, 10*time.Second, "connection used concurrently", wg.Wait)
		_ = c.Close()
	}
}

// C23: a call closed while it is started.
func TestVerifReplay_C23Start(t *testing.T) {
	for round := 0; round < 400; round++ {
		cl := srpc.NewClientRPC(context.Background(), "s", "m")
		var wg sync.WaitGroup
		for _, f := range []func(){
			func() { _ = cl.Start(newVrWriter(), true, []byte{1}) },
			func() { cl.Close() },
			func() { cl.HandleStreamClose(nil) },
			func() { _ = cl.HandlePacket(vrCancelPkt(true)) },
		} {
			if round%2 == 0 && round%4 == 0 {
				time.Sleep(time.Microsecond)
			}
			wg.Add(1)
			go func() { defer wg.Done(); f() }()
		}
		vrWithin(t, 20*time.Second, "starting and closing a call", wg.Wait)
	}
}

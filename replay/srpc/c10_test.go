package srpc_test

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
)

// C10: random start, data, cancel and close orders against a server call.
func TestVerifReplay_C10(t *testing.T) {
	// a start with only one name, given to the call itself
	for _, names := range [][2]string{{"", "m"}, {"s", ""}, {"s", "m"}} {
		var calls atomic.Int32
		rpc := srpc.NewServerRPC(context.Background(), srpc.InvokerFunc(func(s, m string, strm srpc.Stream) (bool, error) {
			calls.Add(1)
			<-strm.Context().Done()
			return true, nil
		}), newVrWriter())
		st := &srpc.CallStart{RpcService: names[0], RpcMethod: names[1]}
		if err := rpc.HandleCallStart(st); err == nil {
			if err := rpc.HandleCallStart(st); err == nil {
				vrFail(t, "a second start of (%q,%q) was accepted", names[0], names[1])
			}
			if err := rpc.HandleCallStart(&srpc.CallStart{RpcService: "x", RpcMethod: "y"}); err == nil {
				vrFail(t, "a second start after (%q,%q) was accepted", names[0], names[1])
			}
			vrEventually(t, "invocation", func() bool { return calls.Load() != 0 })
			time.Sleep(2 * time.Millisecond)
			if n := calls.Load(); n != 1 {
				vrFail(t, "(%q,%q): invoked %d times", names[0], names[1], n)
			}
		}
		rpc.HandleStreamClose(nil)
	}
	r := vrRand()
	for round := 0; round < 6000; round++ {
		w := newVrWriter()
		var mu sync.Mutex
		var calls []string
		ret, ok := error(nil), r.Intn(4) != 0
		if r.Intn(2) == 0 {
			ret = []error{errVrA, context.Canceled, srpc.ErrUnimplemented, errors.New("x"), errors.New("")}[r.Intn(5)]
		}
		wantFirst := ""
		release := make(chan struct{})
		early := r.Intn(2) == 0
		inv := srpc.InvokerFunc(func(s, m string, strm srpc.Stream) (bool, error) {
			mu.Lock()
			calls = append(calls, s+"/"+m)
			mu.Unlock()
			if !early {
				<-release
			}
			return ok, ret
		})
		rpc := srpc.NewServerRPC(context.Background(), inv, w)
		var log []string
		started, closed := false, false
		var start string
		for k := 1 + r.Intn(5); k > 0; k-- {
			switch r.Intn(6) {
			case 0, 1, 2:
				s, m := fmt.Sprint("s", r.Intn(3)), fmt.Sprint("m", r.Intn(3))
				d := []byte(fmt.Sprint(r.Intn(99)))
				bad := r.Intn(5) == 0
				if bad {
					if r.Intn(2) == 0 {
						s = ""
					} else {
						m = ""
					}
				}
				err := rpc.HandlePacket(vrStartPkt(s, m, d, false))
				log = append(log, fmt.Sprintf("start(%s,%s)=%v", s, m, err))
				if want := !bad && !started && !closed; want != (err == nil) {
					vrFail(t, "%v: accepted=%v, want %v", log, err == nil, want)
				} else if want {
					started = true
					start = s + "/" + m
					if wantFirst == "" {
						wantFirst = string(d)
					}
				}
			case 3:
				c := r.Intn(3) == 0
				d := fmt.Sprint("data", r.Intn(9))
				err := rpc.HandlePacket(vrDataPkt([]byte(d), false, c, ""))
				log = append(log, fmt.Sprintf("data(%v)=%v", c, err))
				if wantFirst == "" && !closed {
					wantFirst = d
				}
				closed = closed || c
			case 4:
				if r.Intn(2) == 0 {
					_ = rpc.HandlePacket(vrCancelPkt(true))
					log = append(log, "cancel")
					closed = true
				}
			case 5:
				if r.Intn(2) == 0 {
					rpc.HandleStreamClose(nil)
					log = append(log, "stream close")
					closed = true
				}
			}
		}
		if started {
			// the payload of the start is the first message unless data came before it
			b, err := rpc.ReadOne()
			if err != nil || string(b) != wantFirst {
				vrFail(t, "%v: first message %q, %v, want %q", log, b, err, wantFirst)
			}
		}
		if !early {
			ps, _, _ := w.snap()
			if len(ps) != 0 {
				vrFail(t, "%v: sent %s before the implementation returned", log, vrPkts(ps))
			}
		}
		close(release)
		if started {
			vrEventually(t, fmt.Sprint(log, ": context of the finished call cancelled"), func() bool {
				mu.Lock()
				defer mu.Unlock()
				ps, _, ops := w.snap()
				// the stream may have been closed before the call finished: wait for the close after the completion
				return len(calls) > 0 && rpc.Context().Err() != nil && len(ps) > 0 && ops[len(ops)-1] == "close"
			})
		}
		mu.Lock()
		want := ""
		if started {
			want = fmt.Sprint([]string{start})
		} else {
			want = fmt.Sprint([]string{})
		}
		if fmt.Sprint(calls) != want {
			vrFail(t, "%v: invoked %v, want %s", log, calls, want)
		}
		mu.Unlock()
		ps, _, ops := w.snap()
		if !started {
			if len(ps) != 0 {
				vrFail(t, "%v: sent %s without a call", log, vrPkts(ps))
			}
			continue
		}
		text := ""
		if ret != nil {
			text = ret.Error()
			if text == "" && len(ps) > 0 {
				// any text will do, but it has to be an error
				if text = ps[0].GetCallData().GetError(); text == "" {
					vrFail(t, "%v: an error without text was sent as success: %s", log, vrPkts(ps))
				}
			}
		} else if !ok {
			text = srpc.ErrUnimplemented.Error()
		}
		if exp := vrPkt(vrDataPkt(nil, false, true, text)); vrPkts(ps) != exp {
			vrFail(t, "%v: sent %s, want %s", log, vrPkts(ps), exp)
		}
		wr := -1
		for i, o := range ops {
			if o == "write" {
				wr = i
			}
		}
		if ops[len(ops)-1] != "close" || wr == len(ops)-1 {
			vrFail(t, "%v: writer operations %v, want a close after the completing packet", log, ops)
		}
	}
}

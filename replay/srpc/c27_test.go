package srpc_test

import (
	"context"
	"fmt"
	"io"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
)

// C27: the in-process pipe against two queues, then under concurrency.
func TestVerifReplay_C27(t *testing.T) {
	r := vrRand()
	msg := func(s string) srpc.Message { return srpc.NewRawMessage([]byte(s), true) }
	for round := 0; round < 3000; round++ {
		ctx, cancel := context.WithCancel(context.Background())
		var s [2]srpc.Stream
		s[0], s[1] = srpc.NewPipeStream(ctx)
		var q [2][]string // to be received by end i
		var shut, dead [2]bool
		n := 0
		var log []string
		for k := r.Intn(25); k >= 0; k-- {
			e := r.Intn(2)
			o := 1 - e
			switch op := r.Intn(10); {
			case op < 4: // send
				if len(q[o]) == 5 && !shut[e] && !dead[e] && !dead[o] {
					continue // would wait for room
				}
				m := fmt.Sprintf("m%d", n)
				n++
				var err error
				vrWithin(t, 3*time.Second, fmt.Sprintf("%v then send on end %d", log, e), func() { err = s[e].MsgSend(msg(m)) })
				log = append(log, fmt.Sprintf("send %d %s: %v", e, m, err))
				if err == nil {
					if shut[e] {
						vrFail(t, "%v: sent after the sending side was closed", log)
					}
					q[o] = append(q[o], m)
				} else if !shut[e] && !dead[e] && !dead[o] {
					vrFail(t, "%v: send failed on an open pipe", log)
				}
			case op < 8: // receive
				if len(q[e]) == 0 && !shut[o] && !dead[e] {
					continue // would wait for a message
				}
				in := srpc.NewRawMessage(nil, true)
				var err error
				vrWithin(t, 3*time.Second, fmt.Sprintf("%v then receive on end %d", log, e), func() { err = s[e].MsgRecv(in) })
				log = append(log, fmt.Sprintf("recv %d %q: %v", e, in.GetData(), err))
				if err == nil {
					if len(q[e]) == 0 || q[e][0] != string(in.GetData()) {
						vrFail(t, "%v: received, pending were %v", log, q[e])
					}
					q[e] = q[e][1:]
				} else if !dead[e] && (len(q[e]) != 0 || err != io.EOF) {
					vrFail(t, "%v: receive failed with %v pending", log, q[e])
				}
			case op == 8:
				err := s[e].CloseSend()
				log = append(log, fmt.Sprintf("closesend %d", e))
				if err != nil {
					vrFail(t, "%v: %v", log, err)
				}
				if s[e].Context().Err() != nil && !dead[e] {
					vrFail(t, "%v: half close cancelled the stream", log)
				}
				shut[e] = true
			default:
				if r.Intn(3) != 0 {
					continue
				}
				err := s[e].Close()
				log = append(log, fmt.Sprintf("close %d", e))
				if err != nil {
					vrFail(t, "%v: %v", log, err)
				}
				shut[e], dead[e] = true, true
				if s[e].Context().Err() == nil {
					vrFail(t, "%v: the closed end's context is not cancelled", log)
				}
				if !dead[o] && s[o].Context().Err() != nil {
					vrFail(t, "%v: the other end's context is cancelled", log)
				}
			}
		}
		cancel()
		if s[0].Context().Err() == nil || s[1].Context().Err() == nil {
			vrFail(t, "the parent context does not reach the ends")
		}
	}
	// a blocked sender is woken by the cancellation of either end
	for i := 0; i < 2; i++ {
		a, b := srpc.NewPipeStream(context.Background())
		for k := 0; k < 5; k++ {
			if err := a.MsgSend(msg("x")); err != nil {
				vrFail(t, "send %d: %v", k, err)
			}
		}
		done := make(chan error, 1)
		go func() { done <- a.MsgSend(msg("y")) }()
		time.Sleep(5 * time.Millisecond)
		if i == 0 {
			_ = a.Close()
		} else {
			_ = b.Close()
		}
		select {
		case err := <-done:
			if err == nil {
				vrFail(t, "send with a full buffer succeeded")
			}
		case <-time.After(3 * time.Second):
			vrFail(t, "send stays blocked after end %d was closed", i)
		}
	}
	// and a blocked receiver by the half close of the other end
	{
		a, b := srpc.NewPipeStream(context.Background())
		done := make(chan error, 1)
		go func() { done <- b.MsgRecv(srpc.NewRawMessage(nil, true)) }()
		time.Sleep(5 * time.Millisecond)
		_ = a.CloseSend()
		select {
		case err := <-done:
			if err != io.EOF {
				vrFail(t, "receive after half close: %v", err)
			}
		case <-time.After(3 * time.Second):
			vrFail(t, "receive stays blocked after the half close")
		}
	}
	// everything sent before the half close arrives, in order, before the end
	for round := 0; round < 400; round++ {
		a, b := srpc.NewPipeStream(context.Background())
		var wg sync.WaitGroup
		n := 1 + r.Intn(30)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < n; k++ {
				if err := a.MsgSend(msg(fmt.Sprint(k))); err != nil {
					t.Errorf("REPLAY-FAIL: send: %v", err)
				}
			}
			for k := 0; k < 3; k++ {
				wg.Add(1)
				go func() { defer wg.Done(); _ = a.CloseSend() }()
			}
		}()
		vrWithin(t, 5*time.Second, "receiving", func() {
			in := srpc.NewRawMessage(nil, true)
			for k := 0; ; k++ {
				err := b.MsgRecv(in)
				if err == io.EOF && k == n {
					return
				}
				if err != nil || string(in.GetData()) != fmt.Sprint(k) {
					t.Errorf("REPLAY-FAIL: message %d of %d: %q %v", k, n, in.GetData(), err)
					return
				}
			}
		})
		wg.Wait()
	}
}

package srpc_test

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
)

// C12: unary calls and streams failing at every step.
func TestVerifReplay_C12(t *testing.T) {
	if err := srpc.NewClientRPC(context.Background(), "s", "m").Start(nil, false, nil); err == nil {
		vrFail(t, "a call was started without a writer")
	}
	r := vrRand()
	type key struct{}
	for round := 0; round < 6000; round++ {
		parent, cancel := context.WithCancel(context.WithValue(context.Background(), key{}, round))
		w := newVrWriter()
		opened := 0
		var closeH srpc.CloseHandler
		var pdh srpc.PacketDataHandler
		var openErr error
		var log []string
		answer := func(p *srpc.Packet) {
			b, _ := p.MarshalVT()
			_ = pdh(b)
		}
		mode := r.Intn(10)
		reply := []byte(fmt.Sprint("reply", r.Intn(9)))
		if r.Intn(4) == 0 {
			reply = nil
		}
		e := []error{errVrA, io.EOF, context.Canceled, errors.New("e")}[r.Intn(4)]
		log = append(log, fmt.Sprintf("mode %d error %v reply %q", mode, e, reply))
		if mode == 1 {
			openErr = e
		}
		if mode == 2 {
			w.failAt, w.fail = 0, e
		}
		var want error
		cl := srpc.NewClient(func(ctx context.Context, h srpc.PacketDataHandler, ch srpc.CloseHandler) (srpc.PacketWriter, error) {
			opened++
			pdh, closeH = h, ch
			if ctx.Value(key{}) != round {
				vrFail(t, "open got another context")
			}
			if openErr != nil {
				return nil, openErr
			}
			return w, nil
		})
		w.onPkt = func(p *srpc.Packet) {
			if p.GetCallStart() == nil || mode == 2 {
				return
			}
			go func() {
				switch mode {
				case 3:
					answer(vrDataPkt(nil, false, true, "remote says no"))
				case 4:
					closeH(errVrA)
				case 5:
					closeH(nil)
				case 6:
					answer(vrDataPkt(nil, false, true, ""))
				case 7:
					cancel()
				case 9:
					answer(vrDataPkt(reply, len(reply) == 0, true, ""))
				default:
					answer(vrDataPkt(reply, len(reply) == 0, false, ""))
					answer(vrDataPkt(nil, false, true, ""))
				}
			}()
		}
		in, out := vrMkMsg([]byte(fmt.Sprint("req", r.Intn(9)))), vrMkMsg([]byte("old"))
		if r.Intn(4) == 0 {
			in.SetData(nil)
		}
		if mode == 0 {
			in.enc = e
		}
		if mode == 8 && r.Intn(2) == 0 {
			out.dec = errVrA
		}
		unary := r.Intn(2) == 0
		start := vrPkt(vrStartPkt("svc", "mth", in.GetData(), len(in.GetData()) == 0))
		if unary {
			var err error
			vrWithin(t, 5*time.Second, fmt.Sprint(log), func() { err = cl.ExecCall(parent, "svc", "mth", in, out) })
			text := ""
			switch mode {
			case 0, 1, 2:
				want = e
			case 3:
				text = "remote says no"
			case 4:
				want = errVrA
			case 5, 6:
				want = io.EOF
			case 7:
				want = context.Canceled
			default:
				if out.dec != nil {
					want = srpc.ErrInvalidMessage
				}
			}
			switch {
			case text != "":
				if err == nil || err.Error() != text {
					vrFail(t, "unary %v: %v, want %q", log, err, text)
				}
			case want == nil:
				if err != nil || string(out.GetData()) != string(reply) {
					vrFail(t, "unary %v: %v with reply %q, want %q", log, err, out.GetData(), reply)
				}
			case !errors.Is(err, want):
				vrFail(t, "unary %v: %v, want %v", log, err, want)
			}
			if wantOpen := mode != 0; (opened == 1) != wantOpen || opened > 1 {
				vrFail(t, "unary %v: opened %d streams", log, opened)
			}
			ps, c, _ := w.snap()
			if mode >= 2 {
				if c == 0 {
					vrFail(t, "unary %v: writer left open", log)
				}
				if len(ps) == 0 || vrPkt(ps[0]) != start {
					vrFail(t, "unary %v: sent %s, want first %s", log, vrPkts(ps), start)
				}
			}
		} else {
			var first srpc.Message = in
			if r.Intn(3) == 0 && mode != 0 {
				first = nil
				start = vrPkt(vrStartPkt("svc", "mth", nil, false))
			}
			strm, err := cl.NewStream(parent, "svc", "mth", first)
			if mode <= 2 {
				if strm != nil || !errors.Is(err, e) {
					vrFail(t, "stream %v: %v, %v", log, strm, err)
				}
				if _, c, _ := w.snap(); mode == 2 && c == 0 {
					vrFail(t, "stream %v: writer left open after a failed start", log)
				}
			} else {
				if err != nil || strm == nil {
					vrFail(t, "stream %v: %v", log, err)
				}
				ps, _, _ := w.snap()
				if len(ps) != 1 || vrPkt(ps[0]) != start {
					vrFail(t, "stream %v: sent %s, want %s", log, vrPkts(ps), start)
				}
				if mode >= 8 {
					if err := strm.MsgRecv(out); (err == nil) != (out.dec == nil) || out.dec == nil && string(out.GetData()) != string(reply) {
						vrFail(t, "stream %v: received %q, %v", log, out.GetData(), err)
					}
				}
				_ = strm.Close()
				ps, c, _ := w.snap()
				if c == 0 || vrPkt(ps[len(ps)-1]) != "cancel(true)" {
					vrFail(t, "stream %v: Close left the writer open (%d) or sent %s", log, c, vrPkts(ps))
				}
				// the context of the call was released: reads end
				vrWithin(t, 5*time.Second, fmt.Sprint(log, " read after close"), func() {
					for {
						if err := strm.MsgRecv(vrMkMsg(nil)); err != nil {
							return
						}
					}
				})
			}
		}
		cancel()
	}
	// the context of the call is released on every return and failure
	for mode := 0; mode < 10; mode++ {
		for _, unary := range []bool{true, false} {
			ctx := &vrCountCtx{Context: context.Background(), done: make(chan struct{})}
			w := newVrWriter()
			if mode == 2 {
				w.failAt, w.fail = 0, errVrA
			}
			cl := srpc.NewClient(func(_ context.Context, h srpc.PacketDataHandler, ch srpc.CloseHandler) (srpc.PacketWriter, error) {
				if mode == 1 {
					return nil, errVrA
				}
				if mode == 3 {
					ctx.cancel()
				}
				w.onPkt = func(p *srpc.Packet) {
					if p.GetCallStart() != nil && mode != 2 && unary {
						go ch(errVrA)
					}
				}
				return w, nil
			})
			in := vrMkMsg(nil)
			if mode == 0 {
				in.enc = errVrA
			}
			if unary {
				vrWithin(t, 5*time.Second, "unary", func() { _ = cl.ExecCall(ctx, "s", "m", in, vrMkMsg(nil)) })
			} else if strm, err := cl.NewStream(ctx, "s", "m", in); err == nil {
				if mode%2 == 0 {
					ctx.cancel()
				}
				_ = strm.Close()
			}
			if live := ctx.live(); live != 0 {
				vrFail(t, "unary=%v mode %d: %d contexts of the call not released", unary, mode, live)
			}
			if _, c, _ := w.snap(); mode >= 2 && c == 0 {
				vrFail(t, "unary=%v mode %d: the opened writer was left open", unary, mode)
			}
		}
	}
}

// vrCountCtx counts the contexts derived from it which are not released.
type vrCountCtx struct {
	context.Context
	mu   sync.Mutex
	done chan struct{}
	err  error
	fns  map[int]func()
	n    int
}

func (c *vrCountCtx) Done() <-chan struct{} { return c.done }
func (c *vrCountCtx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

// AfterFunc is used by the context package for contexts derived from c.
func (c *vrCountCtx) AfterFunc(f func()) func() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.err != nil {
		go f()
		return func() bool { return false }
	}
	if c.fns == nil {
		c.fns = map[int]func(){}
	}
	c.n++
	n := c.n
	c.fns[n] = f
	return func() bool {
		c.mu.Lock()
		defer c.mu.Unlock()
		_, ok := c.fns[n]
		delete(c.fns, n)
		return ok
	}
}

func (c *vrCountCtx) cancel() {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	c.err = context.Canceled
	fns := c.fns
	c.fns = nil
	close(c.done)
	c.mu.Unlock()
	for _, f := range fns {
		f()
	}
}

func (c *vrCountCtx) live() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.fns)
}

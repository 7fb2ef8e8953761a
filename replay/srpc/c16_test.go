package srpc_test

import (
	"context"
	"errors"
	"fmt"
	"testing"

	"github.com/aperturerobotics/starpc/srpc"
)

// C16: random client lists and answers, cancelled and live contexts.
func TestVerifReplay_C16(t *testing.T) {
	r := vrRand()
	for round := 0; round < 20000; round++ {
		ctx, cancel := context.WithCancel(context.Background())
		in, out := srpc.NewRawMessage(nil, false), srpc.NewRawMessage(nil, false)
		strm := &vrStream{}
		type ans struct {
			nil_, cancels bool
			err           error
		}
		var as []ans
		for i := r.Intn(6); i > 0; i-- {
			as = append(as, ans{nil_: r.Intn(5) == 0, cancels: r.Intn(8) == 0, err: []error{
				srpc.ErrUnimplemented, errors.New(srpc.ErrUnimplemented.Error()), context.Canceled, context.Canceled,
				srpc.ErrUnimplemented, srpc.ErrUnimplemented, errVrA, nil, context.DeadlineExceeded, srpc.ErrCompleted}[r.Intn(10)]})
		}
		pre := r.Intn(10) == 0
		for kind := 0; kind < 2; kind++ {
			cctx, ccancel := context.WithCancel(ctx)
			if pre {
				ccancel()
			}
			var log, want []string
			var list []srpc.Client
			for i, a := range as {
				if a.nil_ {
					list = append(list, nil)
					continue
				}
				f := func(x context.Context, s, m string, fm srpc.Message) error {
					log = append(log, fmt.Sprint(i))
					if x != cctx || s != "s" || m != "m" || fm != srpc.Message(in) {
						vrFail(t, "client %d got a different call", i)
					}
					if a.cancels {
						ccancel()
					}
					return a.err
				}
				list = append(list, &vrClient{
					exec: func(x context.Context, s, m string, fm, o srpc.Message) error {
						if o != srpc.Message(out) {
							vrFail(t, "client %d got another response message", i)
						}
						return f(x, s, m, fm)
					},
					open: func(x context.Context, s, m string, fm srpc.Message) (srpc.Stream, error) {
						if e := f(x, s, m, fm); e != nil {
							return nil, e
						}
						return strm, nil
					},
				})
			}
			// reference
			var wantErr error = srpc.ErrNoAvailableClients
			dead := pre
			for i, a := range as {
				if a.nil_ {
					continue
				}
				want = append(want, fmt.Sprint(i))
				dead = dead || a.cancels
				wantErr = srpc.ErrUnimplemented
				if a.err == context.Canceled {
					if dead {
						wantErr = context.Canceled
						break
					}
					continue
				}
				if a.err != nil && a.err.Error() == srpc.ErrUnimplemented.Error() {
					continue
				}
				wantErr = a.err
				break
			}
			set := srpc.NewClientSet(list)
			var err error
			var st srpc.Stream
			if kind == 0 {
				err = set.ExecCall(cctx, "s", "m", in, out)
			} else {
				st, err = set.NewStream(cctx, "s", "m", in)
				if err == nil && st != srpc.Stream(strm) {
					vrFail(t, "NewStream of %+v returned another stream", as)
				}
			}
			if fmt.Sprint(log) != fmt.Sprint(want) {
				vrFail(t, "clients %+v (context cancelled before: %v): asked %v, expected %v", as, pre, log, want)
			}
			if err != wantErr && !(pre && err == context.Canceled) {
				vrFail(t, "clients %+v (context cancelled before: %v): %v, expected %v", as, pre, err, wantErr)
			}
			ccancel()
		}
		cancel()
	}
}

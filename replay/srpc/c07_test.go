package srpc_test

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/aperturerobotics/starpc/srpc"
)

// C07: random operations of streams and calls against the packets they must send.
func TestVerifReplay_C07(t *testing.T) {
	r := vrRand()
	for round := 0; round < 20000; round++ {
		ctx, cancel := context.WithCancel(context.Background())
		w := newVrWriter()
		server := r.Intn(2) == 0
		var rpc vrRPC
		var want, log []string
		if r.Intn(4) == 0 {
			w.failAt, w.fail = r.Intn(4), vrErrs[r.Intn(len(vrErrs))]
		}
		// expect reports the error the next write must give
		expect := func(p *srpc.Packet) error {
			i := len(want)
			want = append(want, vrPkt(p))
			if i == w.failAt {
				return w.fail
			}
			return nil
		}
		same := func(what string, got, exp error) {
			log = append(log, fmt.Sprintf("%s=%v", what, got))
			if (got == nil) != (exp == nil) || exp != nil && !errors.Is(got, exp) {
				vrFail(t, "server=%v %v: want error %v", server, log, exp)
			}
			ps, _, _ := w.snap()
			if vrPkts(ps) != strings.Join(want, " ") {
				vrFail(t, "server=%v %v: sent %s, want %s", server, log, vrPkts(ps), want)
			}
		}
		rnd := func() []byte {
			b := make([]byte, []int{0, 0, 1, 2, 5}[r.Intn(5)])
			r.Read(b)
			return b
		}
		if server {
			rpc = srpc.NewServerRPC(ctx, nil, w)
		} else {
			svc, m := fmt.Sprint("s", r.Intn(9)), fmt.Sprint("m", r.Intn(9))
			cl := srpc.NewClientRPC(ctx, svc, m)
			if r.Intn(20) == 0 {
				cancel()
				same("cancelled start", cl.Start(w, true, rnd()), context.Canceled)
				continue
			}
			first := r.Intn(2) == 0
			var fm []byte
			if first {
				fm = rnd()
			}
			e := expect(vrStartPkt(svc, m, fm, first && len(fm) == 0))
			same(fmt.Sprintf("Start(%v,%x)", first, fm), cl.Start(w, first, fm), e)
			if e != nil {
				cancel()
				continue
			}
			rpc = cl
		}
		closed := 0
		strm := srpc.NewMsgStream(ctx, rpc, func() { closed++ })
		cancelled := false
		for k := r.Intn(6); k > 0; k-- {
			switch r.Intn(7) {
			case 0, 1:
				m := vrMkMsg(rnd())
				if r.Intn(6) == 0 {
					m.enc = errors.New("encoding failed")
				}
				var e error
				switch {
				case cancelled:
					e = context.Canceled
				case m.enc != nil:
					e = m.enc
				default:
					e = expect(vrDataPkt(m.GetData(), len(m.GetData()) == 0, false, ""))
				}
				same(fmt.Sprintf("MsgSend(%x)", m.GetData()), strm.MsgSend(m), e)
			case 2:
				e := expect(vrDataPkt(nil, false, true, ""))
				same("CloseSend", strm.CloseSend(), e)
			case 3:
				e := expect(vrCancelPkt(true))
				n := closed
				same("Close", strm.Close(), e)
				if closed != n+1 {
					vrFail(t, "%v: close callback ran %d times", log, closed-n)
				}
			case 4:
				d, c := rnd(), r.Intn(2) == 0
				we := errors.New("failed " + fmt.Sprint(r.Intn(5)))
				e := expect(vrDataPkt(d, false, true, we.Error()))
				same(fmt.Sprintf("WriteCallData(%x,%v,err)", d, c), rpc.WriteCallData(d, c, we), e)
			case 5:
				d, c := rnd(), r.Intn(2) == 0
				e := expect(vrDataPkt(d, len(d) == 0 && !c, c, ""))
				same(fmt.Sprintf("WriteCallData(%x,%v)", d, c), rpc.WriteCallData(d, c, nil), e)
			case 6:
				if r.Intn(3) == 0 {
					cancel()
					cancelled = true
				}
			}
		}
		// receiving decodes the payload and sends nothing
		p := rnd()
		if len(p) == 0 {
			p = []byte{7}
		}
		if rpc.Context().Err() == nil {
			_ = rpc.HandlePacket(vrDataPkt(p, false, false, ""))
			in := vrMkMsg(nil)
			same("MsgRecv", strm.MsgRecv(in), nil)
			if string(in.GetData()) != string(p) {
				vrFail(t, "%v: received %x, want %x", log, in.GetData(), p)
			}
			_ = rpc.HandlePacket(vrDataPkt(p, false, false, ""))
			in.dec = errVrA
			same("MsgRecv", strm.MsgRecv(in), errVrA)
		}
		// closing a started call
		if cl, ok := rpc.(*srpc.ClientRPC); ok {
			_ = expect(vrCancelPkt(true))
			cl.Close()
			same("client Close", nil, nil)
		}
		cancel()
	}
	// the server's completing packet
	for _, ret := range []struct {
		ok  bool
		err error
	}{{true, nil}, {false, nil}, {true, errVrA}, {false, errVrA}} {
		w := newVrWriter()
		rpc := srpc.NewServerRPC(context.Background(), srpc.InvokerFunc(func(s, m string, strm srpc.Stream) (bool, error) { return ret.ok, ret.err }), w)
		_ = rpc.HandlePacket(vrStartPkt("s", "m", nil, false))
		e := ret.err
		if e == nil && !ret.ok {
			e = srpc.ErrUnimplemented
		}
		text := ""
		if e != nil {
			text = e.Error()
		}
		vrEventually(t, "the end of the call", func() bool { _, c, _ := w.snap(); return c > 0 })
		ps, _, _ := w.snap()
		if want := vrPkt(vrDataPkt(nil, false, true, text)); vrPkts(ps) != want {
			vrFail(t, "answer of %v: sent %s, want %s", ret, vrPkts(ps), want)
		}
	}
}

package srpc_test

import (
	"context"
	"errors"
	"fmt"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
)

// C05: every combination of fields and kinds, against clients and servers.
func TestVerifReplay_C05(t *testing.T) {
	vrUndecodable(t)
	bools := []bool{false, true}
	texts := []string{"", "x", "longer text", "\x00"}
	datas := [][]byte{nil, {}, {0}, []byte("payload")}
	type tc struct {
		p    *srpc.Packet
		want error
	}
	var cases []tc
	for _, svc := range texts {
		for _, m := range texts {
			for _, d := range datas {
				for _, z := range bools {
					c := tc{p: vrStartPkt(svc, m, d, z)}
					if m == "" {
						c.want = srpc.ErrEmptyMethodID
					} else if svc == "" {
						c.want = srpc.ErrEmptyServiceID
					}
					cases = append(cases, c)
				}
			}
		}
	}
	for _, d := range datas {
		for _, z := range bools {
			for _, cm := range bools {
				for _, e := range texts {
					c := tc{p: vrDataPkt(d, z, cm, e)}
					if len(d) == 0 && !z && !cm && e == "" {
						c.want = srpc.ErrEmptyPacket
					}
					cases = append(cases, c)
				}
			}
		}
	}
	cases = append(cases, tc{vrCancelPkt(true), nil}, tc{vrCancelPkt(false), nil}, tc{&srpc.Packet{}, srpc.ErrUnrecognizedPacket})

	okErr := func(got, want error, p *srpc.Packet) bool {
		if want == nil {
			return got == nil
		}
		if errors.Is(got, want) {
			return true
		}
		// a start which lacks both names may name either
		if b, ok := p.GetBody().(*srpc.Packet_CallStart); ok && b.CallStart.GetRpcMethod() == "" && b.CallStart.GetRpcService() == "" {
			return errors.Is(got, srpc.ErrEmptyServiceID) || errors.Is(got, srpc.ErrEmptyMethodID)
		}
		return false
	}
	for _, c := range cases {
		if err := c.p.Validate(); !okErr(err, c.want, c.p) {
			vrFail(t, "Validate(%s) = %v, want %v", vrPkt(c.p), err, c.want)
		}
		for _, server := range bools {
			for _, raw := range bools {
				w := newVrWriter()
				called := make(chan string, 4)
				inv := srpc.InvokerFunc(func(s, m string, strm srpc.Stream) (bool, error) {
					called <- s + "/" + m
					<-strm.Context().Done()
					return true, nil
				})
				var rpc vrRPC
				if server {
					rpc = srpc.NewServerRPC(context.Background(), inv, w)
				} else {
					r := srpc.NewClientRPC(context.Background(), "s", "m")
					if err := r.Start(w, false, nil); err != nil {
						vrFail(t, "start: %v", err)
					}
					rpc = r
				}
				var err error
				if raw {
					enc, e := c.p.MarshalVT()
					if e != nil {
						vrFail(t, "encode: %v", e)
					}
					err = rpc.HandlePacketData(enc)
				} else {
					err = rpc.HandlePacket(c.p)
				}
				id := fmt.Sprintf("server=%v raw=%v %s", server, raw, vrPkt(c.p))
				_, isStart := c.p.GetBody().(*srpc.Packet_CallStart)
				switch {
				case isStart && !server:
					if err == nil {
						vrFail(t, "%s: client accepted a call start", id)
					}
				case !okErr(err, c.want, c.p):
					vrFail(t, "%s: got %v, want %v", id, err, c.want)
				}
				// effect
				wantMsg, wantEnd, wantCancel := false, false, false
				endText := ""
				if err == nil {
					switch b := c.p.GetBody().(type) {
					case *srpc.Packet_CallStart:
						wantMsg = len(b.CallStart.GetData()) != 0 || b.CallStart.GetDataIsZero()
						select {
						case got := <-called:
							if got != b.CallStart.GetRpcService()+"/"+b.CallStart.GetRpcMethod() {
								vrFail(t, "%s: invoked %q", id, got)
							}
						case <-time.After(5 * time.Second):
							vrFail(t, "%s: not invoked", id)
						}
					case *srpc.Packet_CallData:
						wantMsg = len(b.CallData.GetData()) != 0 || b.CallData.GetDataIsZero()
						wantEnd = b.CallData.GetComplete() || b.CallData.GetError() != ""
						endText = b.CallData.GetError()
						if endText == "" {
							endText = "EOF"
						}
					case *srpc.Packet_CallCancel:
						wantCancel = b.CallCancel
					}
				}
				if (rpc.Context().Err() != nil) != wantCancel {
					vrFail(t, "%s: context error %v, cancel expected %v", id, rpc.Context().Err(), wantCancel)
				}
				// read what arrived; a marker distinguishes "nothing"
				mark := []byte("\xffmark")
				open := !wantEnd && !wantCancel
				if merr := rpc.HandlePacket(vrDataPkt(mark, false, false, "")); (merr == nil) != open {
					vrFail(t, "%s: further data: %v", id, merr)
				}
				read := func() (b []byte, e error) {
					vrWithin(t, 5*time.Second, id, func() { b, e = rpc.ReadOne() })
					return
				}
				b, e := read()
				if wantMsg {
					var want []byte
					switch x := c.p.GetBody().(type) {
					case *srpc.Packet_CallStart:
						want = x.CallStart.GetData()
					case *srpc.Packet_CallData:
						want = x.CallData.GetData()
					}
					if e != nil || string(b) != string(want) {
						vrFail(t, "%s: read %x, %v", id, b, e)
					}
					b, e = read()
				}
				switch {
				case open:
					if e != nil || string(b) != string(mark) {
						vrFail(t, "%s: had an effect: read %x, %v", id, b, e)
					}
				case wantCancel:
					if !errors.Is(e, context.Canceled) {
						vrFail(t, "%s: read %x, %v after cancel", id, b, e)
					}
				default:
					if e == nil || e.Error() != endText {
						vrFail(t, "%s: outcome %v, want %q", id, e, endText)
					}
				}
				select {
				case got := <-called:
					vrFail(t, "%s: invoked %q", id, got)
				default:
				}
				rpc.HandleStreamClose(nil)
			}
		}
	}
}

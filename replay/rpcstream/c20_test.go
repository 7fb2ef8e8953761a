package rpcstream_test

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sync/atomic"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
)

type c20Invoker struct{ calls atomic.Int32 }

func (i *c20Invoker) InvokeMethod(s, m string, strm srpc.Stream) (bool, error) {
	i.calls.Add(1)
	msg := srpc.NewRawMessage(nil, true)
	if err := strm.MsgRecv(msg); err != nil {
		return true, err
	}
	return true, strm.MsgSend(srpc.NewRawMessage(append([]byte("re:"), msg.GetData()...), true))
}

// the first packets a remote may send, and the component a proper one names
func c20Firsts(t *testing.T) []struct {
	what string
	b    []byte
	id   string
	ok   bool
} {
	type f = struct {
		what string
		b    []byte
		id   string
		ok   bool
	}
	return []f{
		{"init a", vrInit(t, "a"), "a", true},
		{"init empty", vrInit(t, ""), "", true},
		{"init long", vrInit(t, string(make([]byte, 300))), string(make([]byte, 300)), true},
		{"ack", vrAck(t, ""), "", false},
		{"ack error", vrAck(t, "x"), "", false},
		{"data", vrData(t, []byte("d")), "", false},
		{"empty data", vrData(t, nil), "", false},
		{"nothing", []byte{}, "", false},
	}
}

var c20Errs = []error{nil, errors.New("lookup failed"), io.EOF, context.Canceled, rpcstream.ErrNoServerForComponent, errors.New("")}

// c20Ack checks the acknowledgement for an outcome.
func c20Ack(t *testing.T, what string, b []byte, found bool, err error) {
	t.Helper()
	p := vrDec(t, b)
	a, ok := p.GetBody().(*rpcstream.RpcStreamPacket_Ack)
	if !ok {
		vrFail(t, "%s: answered %v", what, p)
	}
	e := a.Ack.GetError()
	switch {
	case found && e != "":
		vrFail(t, "%s: found, but acknowledged with %q", what, e)
	case !found && e == "":
		vrFail(t, "%s: not found (%v), but acknowledged as success", what, err)
	case !found && err != nil && err.Error() != "" && e != err.Error():
		vrFail(t, "%s: failed with %v, acknowledged with %q", what, err, e)
	case !found && err == nil && e != rpcstream.ErrNoServerForComponent.Error():
		vrFail(t, "%s: not found, acknowledged with %q", what, e)
	}
}

// C20: the handshake of nested, raw and proxied streams, and of the opener.
func TestVerifReplay_C20(t *testing.T) {
	c20Serve(t)
	c20Raw(t)
	c20Open(t)
	c20Proxy(t)
}

func c20Serve(t *testing.T) {
	for _, f := range c20Firsts(t) {
		for _, le := range c20Errs {
			for mode := 0; mode < 6; mode++ {
				hasMux, hasRel, ackFails := mode&1 != 0, mode&2 != 0, mode >= 4
				what := fmt.Sprintf("first %s, lookup error %v, mux %v, release %v, ack fails %v", f.what, le, hasMux, hasRel, ackFails)
				s := newVrStrm()
				if ackFails {
					s.sendErr[0] = errVrClosed
				}
				s.live = true
				call := srpc.NewCallStartPacket("svc", "m", []byte("q"), false)
				s.in = [][]byte{f.b}
				inv := &c20Invoker{}
				looks, rels := 0, 0
				var ret error
				done := make(chan struct{})
				go func() {
					defer close(done)
					ret = rpcstream.HandleRpcStream(s, func(ctx context.Context, id string) (srpc.Invoker, func(), error) {
						looks++
						if id != f.id {
							vrFail(t, "%s: looked up %q", what, id)
						}
						if out, _, _ := s.snap(); len(out) != 0 {
							vrFail(t, "%s: answered before the lookup", what)
						}
						var i srpc.Invoker
						if hasMux {
							i = inv
						}
						var r func()
						if hasRel {
							r = func() { rels++ }
						}
						return i, r, le
					})
				}()
				found := f.ok && le == nil && hasMux
				if found && !ackFails {
					vrEventually(t, what+": acknowledged", func() bool { out, _, _ := s.snap(); return len(out) > 0 })
					time.Sleep(time.Millisecond)
					if inv.calls.Load() != 0 {
						vrFail(t, "%s: a call ran before it was started", what)
					}
					s.feed(vrData(t, vrEnc(t, call)))
				}
				select {
				case <-done:
				case <-time.After(20 * time.Second):
					vrFail(t, "%s: does not return", what)
				}
				out, _, _ := s.snap()
				if !f.ok {
					if ret != rpcstream.ErrUnexpectedPacket || looks != 0 || len(out) != 0 {
						vrFail(t, "%s: returned %v after %d lookups and %d answers", what, ret, looks, len(out))
					}
					continue
				}
				if looks != 1 {
					vrFail(t, "%s: %d lookups", what, looks)
				}
				if !ackFails {
					c20Ack(t, what, out[0], found, le)
				}
				if !found || ackFails {
					if inv.calls.Load() != 0 || len(out) > 1 {
						vrFail(t, "%s: %d calls, %d messages sent", what, inv.calls.Load(), len(out))
					}
					want := le
					if le == nil && !hasMux {
						want = rpcstream.ErrNoServerForComponent
					} else if le == nil {
						want = errVrClosed
					}
					if ret != want {
						vrFail(t, "%s: returned %v", what, ret)
					}
				} else {
					if inv.calls.Load() != 1 || len(out) != 3 {
						vrFail(t, "%s: %d calls, %d messages sent", what, inv.calls.Load(), len(out))
					}
					var p srpc.Packet
					_ = p.UnmarshalVT(vrDec(t, out[1]).GetData())
					if string(p.GetCallData().GetData()) != "re:q" {
						vrFail(t, "%s: the nested call answered %v", what, &p)
					}
				}
				if hasMux && hasRel && rels != 1 {
					vrFail(t, "%s: released %d times", what, rels)
				}
			}
		}
	}
	// nothing arrives at all
	s := newVrStrm()
	s.inErr = errVrClosed
	if err := rpcstream.HandleRpcStream(s, nil); err != errVrClosed {
		vrFail(t, "first receive fails: %v", err)
	}
}

type c20Rwc struct {
	io.Reader
	io.Writer
	closed atomic.Int32
}

func (r *c20Rwc) Close() error { r.closed.Add(1); return nil }

func c20Raw(t *testing.T) {
	for _, f := range c20Firsts(t) {
		for _, le := range c20Errs {
			for mode := 0; mode < 6; mode++ {
				hasRwc, hasRel, ackFails := mode&1 != 0, mode&2 != 0, mode >= 4
				what := fmt.Sprintf("raw: first %s, lookup error %v, stream %v, release %v, ack fails %v", f.what, le, hasRwc, hasRel, ackFails)
				s := newVrStrm()
				if ackFails {
					s.sendErr[0] = errVrClosed
				}
				s.in = [][]byte{f.b, vrData(t, []byte("hel")), vrData(t, []byte("lo"))}
				looks, rels := 0, 0
				pr, pw := io.Pipe()
				got := make(chan string, 1)
				go func() { b, _ := io.ReadAll(pr); got <- string(b) }()
				rd, wr := io.Pipe()
				rwc := &c20Rwc{Reader: rd, Writer: pw}
				go func() { _, _ = wr.Write([]byte("up")); _ = wr.CloseWithError(io.EOF) }()
				var ret error
				vrWithin(t, 20*time.Second, what, func() {
					ret = rpcstream.HandleRawRpcStream(s, func(ctx context.Context, id string) (io.ReadWriteCloser, func(), error) {
						looks++
						if id != f.id {
							vrFail(t, "%s: looked up %q", what, id)
						}
						var r func()
						if hasRel {
							r = func() { rels++ }
						}
						if !hasRwc {
							return nil, r, le
						}
						return rwc, r, le
					})
				})
				_ = pw.Close()
				_ = rd.Close()
				relayed := <-got
				out, _, _ := s.snap()
				if !f.ok {
					if ret != rpcstream.ErrUnexpectedPacket || looks != 0 || len(out) != 0 {
						vrFail(t, "%s: returned %v after %d lookups", what, ret, looks)
					}
					continue
				}
				found := le == nil && hasRwc
				if !ackFails {
					c20Ack(t, what, out[0], found, le)
				}
				if found && !ackFails {
					if len(out) > 1 && string(vrDec(t, out[1]).GetData()) != "up" {
						vrFail(t, "%s: relayed %q back", what, vrDec(t, out[1]).GetData())
					}
					if relayed != "hello" && relayed != "hel" && relayed != "" {
						vrFail(t, "%s: relayed %q", what, relayed)
					}
				} else if relayed != "" || len(out) > 1 {
					vrFail(t, "%s: relayed %q without a successful acknowledgement", what, relayed)
				}
				if hasRwc && rwc.closed.Load() == 0 {
					vrFail(t, "%s: stream left open", what)
				}
				if hasRel && rels != 1 {
					vrFail(t, "%s: released %d times", what, rels)
				}
			}
		}
	}
}

func c20Open(t *testing.T) {
	answers := []struct {
		what string
		b    []byte
		ok   bool
		text string
	}{
		{"ack", vrAck(t, ""), true, ""},
		{"ack error", vrAck(t, "not here"), false, "not here"},
		{"data", vrData(t, []byte("x")), false, ""},
		{"empty data", vrData(t, nil), false, ""},
		{"init", vrInit(t, "a"), false, ""},
		{"nothing", []byte{}, false, ""},
		{"receive error", nil, false, ""},
	}
	for _, id := range []string{"", "comp", string(make([]byte, 200))} {
		for _, a := range answers {
			for mode := 0; mode < 16; mode++ {
				wait, openFails, sendFails, wrap := mode&1 != 0, mode&2 != 0, mode&4 != 0, mode&8 != 0
				what := fmt.Sprintf("open %.5q: answer %s, wait %v, open fails %v, send fails %v", id, a.what, wait, openFails, sendFails)
				s := newVrStrm()
				if a.b != nil {
					s.in = [][]byte{a.b}
				}
				s.inErr = errVrClosed
				if sendFails {
					s.sendErr[0] = io.ErrShortWrite
				}
				opens := 0
				caller := func(ctx context.Context) (rpcstream.RpcStream, error) {
					opens++
					if openFails {
						return nil, io.ErrNoProgress
					}
					return s, nil
				}
				var err error
				var none bool
				vrWithin(t, 20*time.Second, what, func() {
					if wrap {
						var w srpc.PacketWriter
						w, err = rpcstream.NewRpcStreamOpenStream(caller, id, wait)(context.Background(), func([]byte) error { return nil }, func(error) {})
						none = w == nil
					} else {
						var w rpcstream.RpcStream
						w, err = rpcstream.OpenRpcStream(context.Background(), caller, id, wait)
						none = w == nil
						if w != nil && w != rpcstream.RpcStream(s) {
							vrFail(t, "%s: got another stream", what)
						}
					}
				})
				out, _, closed := s.snap()
				good := !openFails && !sendFails && (!wait || a.ok)
				if (err == nil) != good || none != (err != nil) {
					vrFail(t, "%s: returned %v", what, err)
				}
				if opens != 1 {
					vrFail(t, "%s: opened %d times", what, opens)
				}
				if !openFails && !sendFails && wait && a.what == "receive error" && err != errVrClosed {
					vrFail(t, "%s: returned %v", what, err)
				}
				if openFails {
					if err != io.ErrNoProgress {
						vrFail(t, "%s: returned %v", what, err)
					}
					continue
				}
				if sendFails && err != io.ErrShortWrite {
					vrFail(t, "%s: returned %v", what, err)
				}
				if !sendFails {
					if len(out) != 1 {
						vrFail(t, "%s: sent %d messages", what, len(out))
					}
					i, ok := vrDec(t, out[0]).GetBody().(*rpcstream.RpcStreamPacket_Init)
					if !ok || i.Init.GetComponentId() != id {
						vrFail(t, "%s: sent %v", what, vrDec(t, out[0]))
					}
				}
				if err != nil && closed == 0 {
					vrFail(t, "%s: stream left open after %v", what, err)
				}
				if err == nil && closed != 0 && !wrap {
					vrFail(t, "%s: returned a closed stream", what)
				}
			}
		}
	}
}

func c20Proxy(t *testing.T) {
	for _, f := range c20Firsts(t) {
		if f.ok {
			continue
		}
		s := newVrStrm()
		s.in = [][]byte{f.b}
		err := rpcstream.HandleProxyRpcStream(s, func(ctx context.Context, id string) (rpcstream.RpcStreamCaller[rpcstream.RpcStream], string, func(), error) {
			vrFail(t, "proxy: looked up %q for %s", id, f.what)
			return nil, "", nil, nil
		})
		if out, _, _ := s.snap(); err != rpcstream.ErrUnexpectedPacket || len(out) != 0 {
			vrFail(t, "proxy: first %s: %v, %d answers", f.what, err, len(out))
		}
	}
	for _, le := range c20Errs {
		for _, hasCaller := range []bool{false, true} {
			for _, oe := range c20Errs {
				for _, ie := range c20Errs {
					s := newVrStrm()
					s.in = [][]byte{vrInit(t, "x")}
					rs := newVrStrm()
					if ie != nil {
						rs.sendErr[0] = ie
					}
					rs.in = [][]byte{vrAck(t, "")}
					rels := 0
					what := fmt.Sprintf("proxy: lookup error %v, caller %v, open error %v, init error %v", le, hasCaller, oe, ie)
					var err error
					vrWithin(t, 20*time.Second, what, func() {
						err = rpcstream.HandleProxyRpcStream(s, func(ctx context.Context, id string) (rpcstream.RpcStreamCaller[rpcstream.RpcStream], string, func(), error) {
							if id != "x" {
								vrFail(t, "%s: looked up %q", what, id)
							}
							if !hasCaller {
								return nil, "y", func() { rels++ }, le
							}
							return func(ctx context.Context) (rpcstream.RpcStream, error) {
								if le != nil {
									vrFail(t, "%s: opened after a failed lookup", what)
								}
								if oe != nil {
									return nil, oe
								}
								return rs, nil
							}, "y", func() { rels++ }, le
						})
					})
					fail := le
					if fail == nil && !hasCaller {
						fail = rpcstream.ErrNoServerForComponent
					} else if fail == nil && oe != nil {
						fail = oe
					} else if fail == nil {
						fail = ie
					}
					out, _, _ := s.snap()
					if fail != nil {
						if err != fail || len(out) != 1 {
							vrFail(t, "%s: returned %v with %d answers", what, err, len(out))
						}
						c20Ack(t, what, out[0], false, fail)
						if sent, _, _ := rs.snap(); len(sent) != 0 {
							vrFail(t, "%s: relayed %d messages", what, len(sent))
						}
					} else {
						sent, _, _ := rs.snap()
						if len(sent) != 1 || vrDec(t, sent[0]).GetInit().GetComponentId() != "y" {
							vrFail(t, "%s: sent %d messages to the component", what, len(sent))
						}
						if len(out) > 1 || len(out) == 1 && vrDec(t, out[0]).GetAck() == nil {
							vrFail(t, "%s: answered %d messages", what, len(out))
						}
					}
					if rels != 1 {
						vrFail(t, "%s: released %d times", what, rels)
					}
				}
			}
		}
	}
}

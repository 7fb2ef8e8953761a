# Makes replay/srpc/c31_test.go and gen/use/*/zz_verif_genuse.go from the services in gen_c24.py.
import sys,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import gen_c24 as G
from gencontracts import us
V=G.V
PK={'echo':'echo','mock':'e2e_mock'}
def ty(t,pkg=None):
    p,n=t[1:].split('.'); p=PK.get(p,p)
    return n if pkg==t[1:].split('.')[0] else p+'.'+n
def sig(pkg,S,m,k,r,a,q,client):
    R='*'+ty(r,q); A='*'+ty(a,q); P='' if q else PK[pkg]+'.'
    if client:
        st=f'{P}SRPC{us(S)}_{us(m)}Client'
        return {'unary':f'{m}(ctx context.Context, in {R}) ({A}, error)','server':f'{m}(ctx context.Context, in {R}) ({st}, error)','client':f'{m}(ctx context.Context) ({st}, error)','bidi':f'{m}(ctx context.Context) ({st}, error)'}[k]
    st=f'{P}SRPC{us(S)}_{us(m)}Stream'
    return {'unary':f'{m}(ctx context.Context, in {R}) ({A}, error)','server':f'{m}(in {R}, s {st}) error','client':f'{m}(s {st}) ({A}, error)','bidi':f'{m}(s {st}) error'}[k]
# the public interface of the generated code, as its users rely on it
for pkg in ('echo','mock'):
    im={'echo':['github.com/aperturerobotics/protobuf-go-lite/types/known/emptypb','github.com/aperturerobotics/starpc/rpcstream','github.com/aperturerobotics/starpc/srpc'],'mock':['github.com/aperturerobotics/starpc/srpc']}[pkg]
    o=[f'package {PK[pkg]}\n\n// Made by tools/gen_c31_replay.py: uses of the generated interfaces.\n\nimport (\n\t"context"\n\n'+''.join(f'\t"{i}"\n' for i in im)+')\n\nvar _ context.Context\n']
    for p,S,sid,ms in G.gen:
        if p!=pkg: continue
        o.append(f'var _ interface {{\n\tSRPCClient() srpc.Client\n'+''.join('\t'+sig(p,S,m,k,r,a,pkg,True)+'\n' for m,k,r,a,d in ms)+f'}} = (SRPC{S}Client)(nil)\n')
        o.append(f'var _ SRPC{S}Server = (interface {{\n'+''.join('\t'+sig(p,S,m,k,r,a,pkg,False)+'\n' for m,k,r,a,d in ms)+'})(nil)\n')
        o.append(f'var _ func(srpc.Client) SRPC{S}Client = NewSRPC{S}Client\nvar _ func(srpc.Client, string) SRPC{S}Client = NewSRPC{S}ClientWithServiceID\nvar _ func(SRPC{S}Server, string) srpc.Handler = NewSRPC{S}Handler\nvar _ func(srpc.Mux, SRPC{S}Server) error = SRPCRegister{S}\n')
        o.append(f'const _ = uint(len(SRPC{S}ServiceID) - {len(sid)})\n')
        for m,k,r,a,d in ms:
            R='*'+ty(r,pkg); A='*'+ty(a,pkg)
            if k=='unary': continue
            c=['srpc.Stream']+([f'Send({R}) error'] if k!='server' else [])+([f'Recv() ({A}, error)',f'RecvTo({A}) error'] if k!='client' else [f'CloseAndRecv() ({A}, error)'])
            s=['srpc.Stream']+([f'Send({A}) error',f'SendAndClose({A}) error'] if k!='client' else [])+([f'Recv() ({R}, error)',f'RecvTo({R}) error'] if k!='server' else [])
            o.append(f'var _ interface {{\n'+''.join('\t'+x+'\n' for x in c)+f'}} = (SRPC{us(S)}_{us(m)}Client)(nil)\nvar _ interface {{\n'+''.join('\t'+x+'\n' for x in s)+f'}} = (SRPC{us(S)}_{us(m)}Stream)(nil)\n')
    os.makedirs(f'{V}/gen/use/{pkg}',exist_ok=True)
    open(f'{V}/gen/use/{pkg}/zz_verif_genuse.go','w').write('\n'.join(o))
o=['''package srpc_test

// Made by tools/gen_c31_replay.py: calls between clients and handlers made by the code generator.

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sort"
	"testing"
	"time"

	"github.com/aperturerobotics/protobuf-go-lite/types/known/emptypb"
	"github.com/aperturerobotics/starpc/echo"
	e2e_mock "github.com/aperturerobotics/starpc/mock"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
)

func c31Set(m any, s string) {
	switch x := m.(type) {
	case *echo.EchoMsg:
		x.Body = s
	case *e2e_mock.MockMsg:
		x.Body = s
	case *rpcstream.RpcStreamPacket:
		x.Body = &rpcstream.RpcStreamPacket_Data{Data: []byte(s)}
	}
}

func c31Get(m any) string {
	switch x := m.(type) {
	case *echo.EchoMsg:
		return x.GetBody()
	case *e2e_mock.MockMsg:
		return x.GetBody()
	case *rpcstream.RpcStreamPacket:
		return string(x.GetData())
	}
	return ""
}

// c31Text is what is left of s in a message of the type of m.
func c31Text(m any, s string) string { c31Set(m, s); return c31Get(m) }

type c31Base struct {
	log []string
	err error
}

func (b *c31Base) end(t *testing.T, what, want string, got error) {
	if b.err == nil {
		if got != nil && got != io.EOF {
			vrFail(t, "%s: %v, want no error", what, got)
		}
	} else if got == nil || got.Error() != b.err.Error() {
		vrFail(t, "%s: error %v, want %v", what, got, b.err)
	}
	if len(b.log) != 1 || b.log[0] != want {
		vrFail(t, "%s: the implementation ran %q, want [%q]", what, b.log, want)
	}
}

func c31Handler(t *testing.T, name string, h srpc.Handler, id string, kinds map[string]string) {
	if h.GetServiceID() != id {
		vrFail(t, "%s: service id %q, want %q", name, h.GetServiceID(), id)
	}
	var want []string
	for k := range kinds {
		want = append(want, k)
	}
	got := append([]string(nil), h.GetMethodIDs()...)
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		vrFail(t, "%s: method ids %v, want %v", name, got, want)
	}
	for _, c := range [][2]string{{id, "nope"}, {id, ""}, {"", "nope"}, {id + "x", "Unary"}, {id + "x", "C"}, {id + "x", "Up"}, {id + "x", "one"}} {
		s := &c31Touch{}
		if ok, err := h.InvokeMethod(c[0], c[1], s); ok || err != nil || s.n != 0 {
			vrFail(t, "%s: unknown %q: %v %v after %d uses of the stream", name, c, ok, err, s.n)
		}
	}
	for m, k := range kinds {
		for _, sv := range []string{id, ""} {
			s := &c31Touch{recv: errors.New("no request")}
			ok, err := h.InvokeMethod(sv, m, s)
			if !ok || (k == "unary" || k == "server") && err != s.recv {
				vrFail(t, "%s: %s with a failing request: %v %v", name, m, ok, err)
			}
		}
	}
}

type c31Touch struct {
	vrStream
	n    int
	recv error
}

func (s *c31Touch) Context() context.Context     { s.n++; return context.Background() }
func (s *c31Touch) MsgSend(m srpc.Message) error { s.n++; return nil }
func (s *c31Touch) MsgRecv(m srpc.Message) error { s.n++; return s.recv }
func (s *c31Touch) CloseSend() error             { s.n++; return nil }
func (s *c31Touch) Close() error                 { s.n++; return nil }

// c31Client fails, and notes what it was asked.
type c31Client struct {
	log  []string
	strm srpc.Stream
	err  error
}

func (c *c31Client) ExecCall(ctx context.Context, service, method string, in, out srpc.Message) error {
	c.log = append(c.log, service+"/"+method)
	return c.err
}

func (c *c31Client) NewStream(ctx context.Context, service, method string, first srpc.Message) (srpc.Stream, error) {
	c.log = append(c.log, fmt.Sprint(service, "/", method, " ", first != nil))
	if c.err != nil {
		return nil, c.err
	}
	return c.strm, nil
}

type c31CloseErr struct {
	vrStream
	err error
}

func (s *c31CloseErr) CloseSend() error { return s.err }

func c31Asked(t *testing.T, what string, c *c31Client, want string, got, err error) {
	if len(c.log) != 1 || c.log[0] != want || got != err {
		vrFail(t, "%s: asked %q: %v, want %q: %v", what, c.log, got, want, err)
	}
	c.log = nil
}

func TestVerifReplay_C31(t *testing.T) {
	vrWithin(t, 60*time.Second, "generated calls", func() {
''']
for p,S,sid,ms in G.gen: o.append(f'\t\tc31{S}(t)\n')
o.append('\t})\n}\n\nvar _ = errors.New\nvar _ emptypb.Empty\n')
for p,S,sid,ms in G.gen:
    P=PK[p]; T=f'c31Impl{S}'
    o.append(f'\ntype {T} struct{{ c31Base }}\n')
    for m,k,r,a,d in ms:
        R=ty(r);A=ty(a)
        o.append(f'\nfunc (i *{T}) '+sig(p,S,m,k,r,a,None,False)+' {\n')
        rep=f'''	if i.err != nil {{
		return nil, i.err
	}}
	out := &{A}{{}}
	c31Set(out, "reply of {m}")
	return out, nil
}}
'''
        if k=='unary': o.append(f'\ti.log = append(i.log, "{m}:"+c31Get(in))\n'+rep)
        elif k=='client': o.append(f'''	l := "{m}:"
	for k := 0; ; k++ {{
		in := &{R}{{}}
		var err error
		if k%2 == 0 {{
			in, err = s.Recv()
		}} else {{
			err = s.RecvTo(in)
		}}
		if err == io.EOF {{
			break
		}}
		if err != nil {{
			return nil, err
		}}
		l += c31Get(in) + ";"
	}}
	i.log = append(i.log, l)
'''+rep)
        elif k=='server': o.append(f'''	i.log = append(i.log, "{m}:"+c31Get(in))
	for k := 0; k < 3; k++ {{
		out := &{A}{{}}
		c31Set(out, fmt.Sprint("{m} says ", k))
		if k == 2 && i.err == nil {{
			return s.SendAndClose(out)
		}}
		if err := s.Send(out); err != nil {{
			return err
		}}
	}}
	return i.err
}}
''')
        else: o.append(f'''	l := "{m}:"
	for k := 0; k < 3; k++ {{
		in := &{R}{{}}
		var err error
		if k%2 == 0 {{
			in, err = s.Recv()
		}} else {{
			err = s.RecvTo(in)
		}}
		if err != nil {{
			return err
		}}
		l += c31Get(in) + ";"
		out := &{A}{{}}
		c31Set(out, fmt.Sprint("{m} says ", k))
		if err := s.Send(out); err != nil {{
			return err
		}}
	}}
	i.log = append(i.log, l)
	if i.err != nil {{
		return i.err
	}}
	return s.SendAndClose(nil)
}}
''')
    kinds='map[string]string{'+', '.join(f'"{d}": "{k}"' for m,k,r,a,d in ms)+'}'
    o.append(f'''
func c31{S}(t *testing.T) {{
	if {P}.SRPC{S}ServiceID != "{sid}" {{
		vrFail(t, "{S}: service id %q", {P}.SRPC{S}ServiceID)
	}}
	c31Handler(t, "{S}", {P}.NewSRPC{S}Handler(&{T}{{}}, ""), "{sid}", {kinds})
	c31Handler(t, "{S}", {P}.NewSRPC{S}Handler(&{T}{{}}, "own/id"), "own/id", {kinds})
	for round := 0; round < 8; round++ {{
		id, own := "{sid}", round%2 == 1
		impl := &{T}{{}}
		if round >= 4 {{
			impl.err = errors.New("impl failed")
		}}
		mux := srpc.NewMux()
		reg := {P}.SRPCRegister{S}(mux, impl)
		cc := srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(mux)))
		c := {P}.NewSRPC{S}Client(cc)
		if round&3 == 2 {{
			c = {P}.NewSRPC{S}ClientWithServiceID(cc, "")
		}}
		if own {{
			id = "own/id"
			mux = srpc.NewMux()
			reg = mux.Register({P}.NewSRPC{S}Handler(impl, id))
			cc = srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(mux)))
			c = {P}.NewSRPC{S}ClientWithServiceID(cc, id)
		}}
		if reg != nil || c.SRPCClient() != cc {{
			vrFail(t, "{S}: cannot register, or another client: %v", reg)
		}}
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		fc := &c31Client{{}}
		f := {P}.NewSRPC{S}ClientWithServiceID(fc, id)
		_, _, _ = ctx, f, fc
''')
    for m,k,r,a,d in ms:
        R=ty(r);A=ty(a); w=f'"{S}.{m}"'
        inn=f'in := &{R}{{}}\n\t\t\tc31Set(in, "request of {m}")\n' if k in('unary','server') else ''
        arg='ctx, in' if inn else 'ctx'
        o.append(f'\t\t{{ // {m}\n\t\t\timpl.log = nil\n\t\t\t{inn}')
        if k=='unary':
            o.append(f'''			out, err := c.{m}({arg})
			impl.end(t, {w}, "{m}:"+c31Text(&{R}{{}}, "request of {m}"), err)
			if (err == nil) != (out != nil) || err == nil && c31Get(out) != c31Text(&{A}{{}}, "reply of {m}") {{
				vrFail(t, "%s: reply %v", {w}, out)
			}}
			fc.err = errors.New("no call")
			out, err = f.{m}({arg})
			c31Asked(t, {w}, fc, id+"/{d}", err, fc.err)
			if out != nil {{
				vrFail(t, "%s: a reply with an error", {w})
			}}
		}}
''')
            continue
        o.append(f'''			s, err := c.{m}({arg})
			if err != nil {{
				vrFail(t, "%s: %v", {w}, err)
			}}
			want := "{m}:"
''')
        if k=='server':
            o.append(f'\t\t\twant += c31Text(&{R}{{}}, "request of {m}")\n')
        if k=='client':
            o.append(f'''			for k := 0; k < 3; k++ {{
				in := &{R}{{}}
				want += c31Text(in, fmt.Sprint("{m} request ", k)) + ";"
				if err := s.Send(in); err != nil {{
					vrFail(t, "%s: send: %v", {w}, err)
				}}
				if err := s.Send(nil); err != nil {{
					vrFail(t, "%s: send nil: %v", {w}, err)
				}}
			}}
			out, err := s.CloseAndRecv()
			impl.end(t, {w}, want, err)
			if (err == nil) != (out != nil) || err == nil && c31Get(out) != c31Text(&{A}{{}}, "reply of {m}") {{
				vrFail(t, "%s: reply %v", {w}, out)
			}}
''')
        else:
            snd=f'''				in := &{R}{{}}
				want += c31Text(in, fmt.Sprint("{m} request ", k)) + ";"
				if err := s.Send(in); err != nil {{
					vrFail(t, "%s: send: %v", {w}, err)
				}}
''' if k=='bidi' else ''
            o.append(f'''			for k := 0; k < 3; k++ {{
{snd}				out := &{A}{{}}
				if k%2 == 0 {{
					out, err = s.Recv()
				}} else {{
					err = s.RecvTo(out)
				}}
				if err != nil || c31Get(out) != c31Text(&{A}{{}}, fmt.Sprint("{m} says ", k)) {{
					vrFail(t, "%s: message %d: %v %v", {w}, k, out, err)
				}}
			}}
			out, err := s.Recv()
			if err == nil || out != nil {{
				vrFail(t, "%s: a message after the end: %v", {w}, out)
			}}
			impl.end(t, {w}, want, err)
''')
        o.append(f'''			_ = s.Close()
			fc.err = errors.New("no stream")
			n, err := f.{m}({arg})
			c31Asked(t, {w}, fc, fmt.Sprint(id, "/{d} ", {'true' if k=='server' else 'false'}), err, fc.err)
			if n != nil {{
				vrFail(t, "%s: a stream with an error", {w})
			}}
''')
        if k=='server':
            o.append(f'''			cs := &c31CloseErr{{err: errors.New("cannot half-close")}}
			fc.err, fc.strm = nil, cs
			n, err = f.{m}({arg})
			c31Asked(t, {w}, fc, fmt.Sprint(id, "/{d} true"), err, cs.err)
			if n != nil {{
				vrFail(t, "%s: a stream with an error", {w})
			}}
''')
        o.append('\t\t}\n')
    o.append('\t\tcancel()\n\t}\n}\n')
open(V+'/replay/srpc/c31_test.go','w').write(''.join(o))

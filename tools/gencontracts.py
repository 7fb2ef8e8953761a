# Contracts of generated clients and handlers, from a description of the services:
# (pkg, Go name of the service, service id, [(Go name, kind, req, resp, method id)])
def opt(c): return 'optional ' if c=='false' else ''
def us(s): return s.replace('_','__')
def emit(svcs,P,SP):
  global o
  o=[]
  _emit(svcs,P,SP)
  return ''.join(o)
def _emit(svcs,P,SP):
  for pkg,S,sid,ms in svcs:
      H=f'(*{pkg}.SRPC{S}Handler)'; C=f'(*{pkg}.srpc{S}Client)'
      q=lambda d:f'mid == "{d}"'
      need=' || '.join(q(d) for m,k,_,_,d in ms if k in('unary','server')) or 'false'
      answers=' || '.join(q(d) for m,k,_,_,d in ms if k in('unary','client')) or 'false'
      known=' || '.join(q(d) for *_,d in ms) or 'false'
      reqt=' && '.join(f'({q(d)} ==> typeis(m, "{r}"))' for m,k,r,_,d in ms if k in('unary','server')) or 'true'
      rest=' && '.join(f'({q(d)} ==> typeis(m, "{r}"))' for m,k,_,r,d in ms if k in('unary','client')) or 'true'
      o.append(f'''func "{H}.InvokeMethod"(d, sid, mid, strm)->(ok, err) {{
  props {P}
  safety {SP}
  requires d != nil && d.impl != nil && strm != nil
  let mine = sid == "" || sid == d.serviceID
  ghost recvs = 0
  ghost re:error = nil
  ghost req = 0
  ghost calls = 0
  ghost ie:error = nil
  ghost out = 0
  ghost sends = 0
  ghost se:error = nil
  ghost cx:iface = nil
  on {opt(need)}call "srpc.Stream.MsgRecv"(x, m)->(e) {{
    assert "receives-one-request-first": mine && ({need}) && x == strm && recvs == 0 && calls == 0
    assert "request-of-this-method": {reqt}
    set recvs = 1; set re = e; set req = ref(m)
  }}
  on call "srpc.Stream.Context"(x)->(c) {{ assume x == strm && c != nil; if cx != nil {{ assume c == cx }}; set cx = c }}
  on {opt(answers)}call "srpc.Stream.MsgSend"(x, m)->(e) {{
    assert "answers-with-the-reply": mine && ({answers}) && x == strm && calls == 1 && ie == nil && sends == 0 && ref(m) == out
    assert "reply-of-this-method": {rest}
    set sends = 1; set se = e
  }}
''')
      for m,k,r,a,d in ms:
          I=f'{pkg}.SRPC{S}Server.{m}'
          if k=='unary':
              o.append(f'''  on call "{I}"(i, c, r)->(x, e) {{ assert "{m}-invokes-{m}": mine && mid == "{d}" && i == d.impl && calls == 0 && recvs == 1 && re == nil && ref(r) == req && c == cx; set calls = 1; set ie = e; set out = ref(x) }}\n''')
          elif k=='server':
              o.append(f'''  on call "{I}"(i, r, s)->(e) {{ assert "{m}-invokes-{m}": mine && mid == "{d}" && i == d.impl && calls == 0 && recvs == 1 && re == nil && ref(r) == req && typeis(s, "*{pkg}.srpc{us(S)}_{us(m)}Stream") && as(s, "*{pkg}.srpc{us(S)}_{us(m)}Stream").Stream == strm; set calls = 1; set ie = e }}\n''')
          elif k=='client':
              o.append(f'''  on call "{I}"(i, s)->(x, e) {{ assert "{m}-invokes-{m}": mine && mid == "{d}" && i == d.impl && calls == 0 && recvs == 0 && typeis(s, "*{pkg}.srpc{us(S)}_{us(m)}Stream") && as(s, "*{pkg}.srpc{us(S)}_{us(m)}Stream").Stream == strm; set calls = 1; set ie = e; set out = ref(x) }}\n''')
          else:
              o.append(f'''  on call "{I}"(i, s)->(e) {{ assert "{m}-invokes-{m}": mine && mid == "{d}" && i == d.impl && calls == 0 && recvs == 0 && typeis(s, "*{pkg}.srpc{us(S)}_{us(m)}Stream") && as(s, "*{pkg}.srpc{us(S)}_{us(m)}Stream").Stream == strm; set calls = 1; set ie = e }}\n''')
      o.append(f'''  ensures "unknown-is-not-found": !mine || !({known}) ==> !ok && err == nil && recvs == 0 && calls == 0 && sends == 0
  ensures "known-is-found": mine && ({known}) ==> ok
  ensures "request-error-reported": re != nil ==> err == re && calls == 0
  ensures "implementation-runs-once": mine && ({known}) && re == nil ==> calls == 1
  ensures "implementation-error-reported": ie != nil ==> err == ie
  ensures "reply-sent-once": calls == 1 && ie == nil ==> ite({answers}, sends == 1 && err == se, sends == 0 && err == nil)
}}
''')
      o.append(f'''func "{H}.GetServiceID"(d)->(id) {{
  props {P}
  requires d != nil
  ensures "own-service": id == d.serviceID
}}
func "({pkg}.SRPC{S}Handler).GetMethodIDs"(d)->(ids) {{
  props {P}
  ensures "lists-exactly-the-methods": len(ids) == {len(ms)}
''')
      for *_,d in ms:
          o.append('  ensures "answers-%s": %s\n'%(d,' || '.join(f'ids[{i}] == "{d}"' for i in range(len(ms)))))
      o.append(f'''}}
func "{pkg}.NewSRPC{S}Handler"(impl, id)->(h) {{
  props {P}
  ensures "serves-the-implementation": typeis(h, "*{pkg}.SRPC{S}Handler") && fresh(as(h, "*{pkg}.SRPC{S}Handler")) && as(h, "*{pkg}.SRPC{S}Handler").impl == impl && as(h, "*{pkg}.SRPC{S}Handler").serviceID == ite(id == "", "{sid}", id)
}}
func "{pkg}.SRPCRegister{S}"(mux, impl)->(err) {{
  props {P}
  requires mux != nil
  ghost n = 0
  ghost re:error = nil
  on call "srpc.Mux.Register"(x, h)->(e) {{
    assert "registers-under-the-default-service": x == mux && n == 0 && typeis(h, "*{pkg}.SRPC{S}Handler") && as(h, "*{pkg}.SRPC{S}Handler").impl == impl && as(h, "*{pkg}.SRPC{S}Handler").serviceID == "{sid}"
    set n = 1; set re = e
  }}
  ensures "registered-once": n == 1 && err == re
}}
func "{pkg}.NewSRPC{S}Client"(cc)->(c) {{
  props {P}
  ensures "calls-the-default-service": typeis(c, "{C[1:-1]}") && as(c, "{C[1:-1]}").cc == cc && as(c, "{C[1:-1]}").serviceID == "{sid}"
}}
func "{pkg}.NewSRPC{S}ClientWithServiceID"(cc, id)->(c) {{
  props {P}
  ensures "calls-the-given-service": typeis(c, "{C[1:-1]}") && as(c, "{C[1:-1]}").cc == cc && as(c, "{C[1:-1]}").serviceID == ite(id == "", "{sid}", id)
}}
func "{C}.SRPCClient"(c)->(x) {{
  props {P}
  requires c != nil
  ensures "underlying-client": x == c.cc
}}
''')
      for m,k,r,a,d in ms:
          if k=='unary':
              o.append(f'''func "{C}.{m}"(c, ctx, in)->(out, err) {{
  props {P}
  safety {P}
  requires c != nil && c.cc != nil
  ghost n = 0
  ghost ce:error = nil
  ghost res = 0
  on call "srpc.Client.ExecCall"(x, cx, s, m, i, o)->(e) {{
    assert "calls-its-method": x == c.cc && n == 0 && cx == ctx && s == c.serviceID && m == "{d}" && typeis(i, "{r}") && ref(i) == ref(in) && typeis(o, "{a}") && ref(o) != nil && fresh(as(o, "{a}"))
    set n = 1; set ce = e; set res = ref(o)
  }}
  ensures "reply-or-error": n == 1 && ite(ce != nil, out == nil && err == ce, err == nil && ref(out) == res)
}}
''')
          else:
              first='typeis(f, "%s") && ref(f) == ref(in)'%r if k=='server' else 'f == nil'
              args='c, ctx, in' if k=='server' else 'c, ctx'
              T=f'*{pkg}.srpc{us(S)}_{us(m)}Client'
              cs='''  on call "srpc.Stream.CloseSend"(x)->(e) { assert "half-closes-after-the-request": n == 1 && oe == nil && x == s && cs == 0; set cs = 1; set se = e }
''' if k=='server' else ''
              good='oe == nil && se == nil && cs == %d'%(1 if k=='server' else 0)
              o.append(f'''func "{C}.{m}"({args})->(w, err) {{
  props {P}
  safety {P}
  requires c != nil && c.cc != nil
  ghost n = 0
  ghost oe:error = nil
  ghost se:error = nil
  ghost s:iface = nil
  ghost cs = 0
  on call "srpc.Client.NewStream"(x, cx, sv, m, f)->(st, e) {{
    assert "opens-its-method": x == c.cc && n == 0 && cx == ctx && sv == c.serviceID && m == "{d}" && {first}
    set n = 1; set oe = e; set s = st; if e == nil {{ assume st != nil }}
  }}
{cs}  ensures "stream-or-error": n == 1 && ite(err == nil, {good} && typeis(w, "{T}") && as(w, "{T}").Stream == s, w == nil && (oe != nil && err == oe || se != nil && err == se))
}}
''')
      # stream wrappers
      def send(T,t,nilskip):
          o.append(f'''func "({T}).Send"(x, m)->(err) {{
  props {P}
  safety {P}
  requires x != nil && x.Stream != nil
  ghost n = 0
  ghost se:error = nil
  on call "srpc.Stream.MsgSend"(s, p)->(e) {{ assert "sends-the-message": s == x.Stream && n == 0 && typeis(p, "{t}") && ref(p) == ref(m); set n = 1; set se = e }}
  ensures "sent-once": n == {'ite(m == nil, 0, 1)' if nilskip else '1'} && err == se
}}
''')
      def recv(T,t):
          o.append(f'''func "({T}).Recv"(x)->(m, err) {{
  props {P}
  safety {P}
  requires x != nil && x.Stream != nil
  ghost n = 0
  ghost re:error = nil
  ghost res = 0
  on call "srpc.Stream.MsgRecv"(s, p)->(e) {{ assert "receives-a-new-message": s == x.Stream && n == 0 && typeis(p, "{t}") && ref(p) != nil && fresh(as(p, "{t}")); set n = 1; set re = e; set res = ref(p) }}
  ensures "message-or-error": n == 1 && ite(re != nil, m == nil && err == re, err == nil && ref(m) == res)
}}
func "({T}).RecvTo"(x, m)->(err) {{
  props {P}
  safety {P}
  requires x != nil && x.Stream != nil
  ghost n = 0
  ghost re:error = nil
  on call "srpc.Stream.MsgRecv"(s, p)->(e) {{ assert "receives-into-the-message": s == x.Stream && n == 0 && typeis(p, "{t}") && ref(p) == ref(m); set n = 1; set re = e }}
  ensures "received-once": n == 1 && err == re
}}
''')
      def sac(T,t):
          o.append(f'''func "({T}).SendAndClose"(x, m)->(err) {{
  props {P}
  safety {P}
  requires x != nil && x.Stream != nil
  ghost n = 0
  ghost k = 0
  ghost se:error = nil
  ghost ce:error = nil
  on call "srpc.Stream.MsgSend"(s, p)->(e) {{ assert "sends-the-message": s == x.Stream && n == 0 && k == 0 && typeis(p, "{t}") && ref(p) == ref(m); set n = 1; set se = e }}
  on call "srpc.Stream.CloseSend"(s)->(e) {{ assert "half-closes-after-sending": s == x.Stream && k == 0 && n == ite(m == nil, 0, 1) && se == nil; set k = 1; set ce = e }}
  ensures "sent-and-half-closed": n == ite(m == nil, 0, 1) && ite(se != nil, err == se && k == 0, k == 1 && err == ce)
}}
''')
      for m,k,r,a,d in ms:
          cT=f'*{pkg}.srpc{us(S)}_{us(m)}Client'; sT=f'*{pkg}.srpc{us(S)}_{us(m)}Stream'
          if k in('client','bidi'): send(cT,r,True)
          if k in('server','bidi'): recv(cT,a)
          if k=='client':
              for nm,args,ret in (('CloseAndRecv','x','m, err'),('CloseAndMsgRecv','x, m','err')):
                  o.append(f'''func "({cT}).{nm}"({args})->({ret}) {{
  props {P}
  safety {P}
  requires x != nil && x.Stream != nil
  ghost n = 0
  ghost k = 0
  ghost ce:error = nil
  ghost re:error = nil
  ghost res = 0
  on call "srpc.Stream.CloseSend"(s)->(e) {{ assert "half-closes-first": s == x.Stream && k == 0 && n == 0; set k = 1; set ce = e }}
  on call "srpc.Stream.MsgRecv"(s, p)->(e) {{ assert "receives-the-reply": s == x.Stream && n == 0 && k == 1 && ce == nil && typeis(p, "{a}"){' && ref(p) == ref(m)' if nm!='CloseAndRecv' else ' && ref(p) != nil && fresh(as(p, "%s"))'%a}; set n = 1; set re = e; set res = ref(p) }}
  ensures "reply-or-error": k == 1 && ite(ce != nil, err == ce && n == 0, n == 1 && err == re){' && (err != nil ==> m == nil) && (err == nil ==> ref(m) == res)' if nm=='CloseAndRecv' else ''}
}}
''')
          if k in('server','bidi'): send(sT,a,False); sac(sT,a)
          if k in('client','bidi'): recv(sT,r)

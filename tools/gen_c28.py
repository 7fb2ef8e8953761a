#!/usr/bin/env python3
# Writes contracts/c28_messages.gc: the codec of the nested-stream packets and
# of the messages of the bundled services.
o=['# C28: nested-stream packets and messages of the bundled services round-trip.','# (written by tools/gen_c28.py; predicates of c03_codec.gc)','']
P='  props C28\n  safety C28\n  nestdiv'
def simple(pkg,T,F,x):
    t=f'(*{pkg}.{T})'
    o.append(f'''# {pkg}.{T}
spec {x}sz(m) = ite(m == nil, 0, fsz(m.{F}) + len(m.unknownFields))
spec {x}lay(a, p, m) = m != nil ==> fld(a, p, 10, m.{F}) && raw(a, p + fsz(m.{F}), m.unknownFields)
spec {x}small(m) = m != nil ==> small(m.{F}) && small(m.unknownFields)
spec {x}dec(m, s) = samebytes(m.{F}, s.{F}) && len(m.unknownFields) == 0
spec {x}empty(m) = len(m.{F}) == 0 && len(m.unknownFields) == 0
func "{t}.SizeVT"(m)->(n) {{
  pure
{P}
  requires {x}small(m)
  ensures "size": n == {x}sz(m)
}}
func "{t}.MarshalToSizedBufferVT"(m, dAtA)->(n, err) {{
{P}
  requires {x}small(m) && len(dAtA) >= {x}sz(m)
  requires m != nil ==> ref(dAtA) != ref(m.unknownFields)
  modifies elems(dAtA)
  ensures "announced-size": err == nil && n == {x}sz(m)
  ensures "encoded-at-end": {x}lay(dAtA, len(dAtA) - n, m)
  ensures "rest-unchanged": restsame(dAtA, len(dAtA) - n, len(dAtA))
}}
func "{t}.MarshalToVT"(m, dAtA)->(n, err) {{
{P}
  requires {x}small(m) && len(dAtA) >= {x}sz(m)
  requires m != nil ==> ref(dAtA) != ref(m.unknownFields)
  modifies elems(dAtA)
  ensures "announced-size": err == nil && n == {x}sz(m)
  ensures "encoded": {x}lay(dAtA, 0, m)
  ensures "rest-unchanged": restsame(dAtA, 0, n)
}}
func "{t}.MarshalVT"(m)->(d, err) {{
{P}
  requires {x}small(m)
  allocates "[]byte"
  ensures "announced-size": err == nil && len(d) == {x}sz(m)
  ensures "encoded": {x}lay(d, 0, m) && (m != nil ==> fresh(d))
}}
func "{pkg}.verifDecode{T}"(src, m, dAtA)->(err) {{
  props C28
  safety C28
  requires src != nil && m != nil && src != m && {x}small(src) && len(src.unknownFields) == 0
  requires len(dAtA) == {x}sz(src) && {x}lay(dAtA, 0, src)
  requires len(m.{F}) == 0 && m.unknownFields == nil
  modifies fields(m)
  allocates "[]byte"
  expand "{t}.UnmarshalVT"''')
    for n in range(1,8): o.append(f'  position 0 when len(src.{F}) > 0 && dAtA[0] == 10 && dv{n}(dAtA, 1, len(src.{F}))')
    o.append(f'''  position fsz(src.{F}) when true
  inv $i == 0 || $i == fsz(src.{F})
  inv m.unknownFields == nil
  inv $i >= fsz(src.{F}) ==> samebytes(m.{F}, src.{F})
  inv $i < fsz(src.{F}) ==> len(m.{F}) == 0
  ensures "decodes-the-encoding": err == nil && {x}dec(m, src)
}}
func "{pkg}.verifDecodeNo{T}"(m, dAtA)->(err) {{
  props C28
  safety C28
  requires m != nil && len(dAtA) == 0 && {x}empty(m)
  modifies fields(m)
  allocates "[]byte"
  expand "{t}.UnmarshalVT"
  inv $i == 0
  inv {x}empty(m)
  ensures "decodes-the-encoding": err == nil && {x}empty(m)
}}
func "{pkg}.verifRoundTrip{T}"(m)->(out, err) {{
  props C28
  safety C28
  requires m != nil && {x}small(m) && len(m.unknownFields) == 0
  ensures "round-trip": err == nil && {x}dec(out, m)
}}
''')
simple('rpcstream','RpcStreamInit','ComponentId','ri')
simple('rpcstream','RpcAck','Error','ra')
simple('echo','EchoMsg','Body','em')
simple('mock','MockMsg','Body','mm')
o.append('''# rpcstream.RpcStreamPacket and its bodies
spec dsub(s) = 1 + vsz(len(s)) + len(s)
spec dlay(a, p, s) = a[p] == 26 && ven(a, p + 1, len(s)) && (forall j :: 0 <= j && j < len(s) ==> a[p + 1 + vsz(len(s)) + j] == s[j])''')
for B,T,x,tag in (('Init','RpcStreamInit','ri',10),('Ack','RpcAck','ra',18)):
    o.append(f'''func "(*rpcstream.RpcStreamPacket_{B}).SizeVT"(m)->(n) {{
  pure
{P}
  requires m != nil && {x}small(m.{B})
  ensures "size": n == sub({x}sz(m.{B}))
}}
func "(*rpcstream.RpcStreamPacket_{B}).MarshalToSizedBufferVT"(m, dAtA)->(n, err) {{
{P}
  requires m != nil && {x}small(m.{B}) && len(dAtA) >= sub({x}sz(m.{B}))
  requires m.{B} != nil ==> ref(dAtA) != ref(m.{B}.unknownFields)
  modifies elems(dAtA)
  ensures "announced-size": err == nil && n == sub({x}sz(m.{B}))
  ensures "tagged-and-sized": dAtA[len(dAtA) - n] == {tag} && ven(dAtA, len(dAtA) - n + 1, {x}sz(m.{B}))
  ensures "encoded-at-end": {x}lay(dAtA, len(dAtA) - {x}sz(m.{B}), m.{B})
  ensures "rest-unchanged": restsame(dAtA, len(dAtA) - n, len(dAtA))
}}''')
o.append(f'''func "(*rpcstream.RpcStreamPacket_Data).SizeVT"(m)->(n) {{
  pure
{P}
  requires m != nil && small(m.Data)
  ensures "size": n == dsub(m.Data)
}}
func "(*rpcstream.RpcStreamPacket_Data).MarshalToSizedBufferVT"(m, dAtA)->(n, err) {{
{P}
  requires m != nil && small(m.Data) && len(dAtA) >= dsub(m.Data) && ref(dAtA) != ref(m.Data)
  modifies elems(dAtA)
  ensures "announced-size": err == nil && n == dsub(m.Data)
  ensures "encoded-at-end": dlay(dAtA, len(dAtA) - n, m.Data)
  ensures "rest-unchanged": restsame(dAtA, len(dAtA) - n, len(dAtA))
}}
spec rsbody(p) = p.Body == nil || isinit(p) || isack(p) || isrsdata(p)
spec rssmall(p) = p != nil ==> rsbody(p) && rswf(p) && small(p.unknownFields) && (isinit(p) ==> rismall(initof(p))) && (isack(p) ==> rasmall(ackof(p))) && (isrsdata(p) ==> small(rsdataof(p)))
spec rsbsz(p) = ite(isinit(p), sub(risz(initof(p))), ite(isack(p), sub(rasz(ackof(p))), ite(isrsdata(p), dsub(rsdataof(p)), 0)))
spec rssz(p) = ite(p == nil, 0, rsbsz(p) + len(p.unknownFields))
spec initlay(a, p, m) = a[p] == 10 && ven(a, p + 1, risz(initof(m))) && rilay(a, p + 1 + vsz(risz(initof(m))), initof(m))
spec acklay(a, p, m) = a[p] == 18 && ven(a, p + 1, rasz(ackof(m))) && ralay(a, p + 1 + vsz(rasz(ackof(m))), ackof(m))
spec rslay(a, p, m) = m != nil ==> (isinit(m) ==> initlay(a, p, m)) && (isack(m) ==> acklay(a, p, m)) && (isrsdata(m) ==> dlay(a, p, rsdataof(m))) && raw(a, p + rsbsz(m), m.unknownFields)
spec rsapart(a, m) = m != nil ==> ref(a) != ref(m.unknownFields) && (isinit(m) && initof(m) != nil ==> ref(a) != ref(initof(m).unknownFields)) && (isack(m) && ackof(m) != nil ==> ref(a) != ref(ackof(m).unknownFields)) && (isrsdata(m) ==> ref(a) != ref(rsdataof(m)))
func "(*rpcstream.RpcStreamPacket).SizeVT"(m)->(n) {{
  pure
{P}
  requires rssmall(m)
  ensures "size": n == rssz(m)
}}
func "(*rpcstream.RpcStreamPacket).MarshalToSizedBufferVT"(m, dAtA)->(n, err) {{
{P}
  requires rssmall(m) && len(dAtA) >= rssz(m) && rsapart(dAtA, m)
  modifies elems(dAtA)
  ensures "announced-size": err == nil && n == rssz(m)
  ensures "encoded-init": m != nil && isinit(m) ==> initlay(dAtA, len(dAtA) - n, m)
  ensures "encoded-ack": m != nil && isack(m) ==> acklay(dAtA, len(dAtA) - n, m)
  ensures "encoded-data": m != nil && isrsdata(m) ==> dlay(dAtA, len(dAtA) - n, rsdataof(m))
  ensures "encoded-unknown": m != nil ==> raw(dAtA, len(dAtA) - len(m.unknownFields), m.unknownFields)
  ensures "rest-unchanged": restsame(dAtA, len(dAtA) - n, len(dAtA))
}}
func "(*rpcstream.RpcStreamPacket).MarshalToVT"(m, dAtA)->(n, err) {{
{P}
  requires rssmall(m) && len(dAtA) >= rssz(m) && rsapart(dAtA, m)
  modifies elems(dAtA)
  ensures "announced-size": err == nil && n == rssz(m)
  ensures "encoded": rslay(dAtA, 0, m)
  ensures "rest-unchanged": restsame(dAtA, 0, n)
}}
func "(*rpcstream.RpcStreamPacket).MarshalVT"(m)->(d, err) {{
{P}
  requires rssmall(m)
  allocates "[]byte"
  ensures "announced-size": err == nil && len(d) == rssz(m)
  ensures "encoded": rslay(d, 0, m) && (m != nil ==> fresh(d))
}}
spec rsdec(m, s) = (isinit(m) <==> isinit(s)) && (isack(m) <==> isack(s)) && (isrsdata(m) <==> isrsdata(s)) && rswf(m) && (isinit(s) ==> initof(m) != nil && ite(initof(s) != nil, ridec(initof(m), initof(s)), riempty(initof(m)))) && (isack(s) ==> ackof(m) != nil && ite(ackof(s) != nil, radec(ackof(m), ackof(s)), raempty(ackof(m)))) && (isrsdata(s) ==> samebytes(rsdataof(m), rsdataof(s))) && len(m.unknownFields) == 0
spec rsown(m) = isrsdata(m) ==> rsdataof(m) == nil || fresh(rsdataof(m))
func "rpcstream.verifDecodeRpcStreamPacket"(src, m, dAtA)->(err) {{
  props C28
  safety C28
  requires src != nil && m != nil && src != m && rssmall(src) && len(src.unknownFields) == 0
  requires isinit(src) && initof(src) != nil ==> len(initof(src).unknownFields) == 0
  requires isack(src) && ackof(src) != nil ==> len(ackof(src).unknownFields) == 0
  requires len(dAtA) == rssz(src) && rslay(dAtA, 0, src)
  requires m.Body == nil && m.unknownFields == nil
  modifies fields(m)
  allocates "[]byte" "rpcstream.RpcStreamInit" "rpcstream.RpcAck" "rpcstream.RpcStreamPacket_Init" "rpcstream.RpcStreamPacket_Ack" "rpcstream.RpcStreamPacket_Data"
  expand "(*rpcstream.RpcStreamPacket).UnmarshalVT"''')
for T,f in (('RpcStreamInit','initof'),('RpcAck','ackof')):
    o.append(f'''  on optional call "(*rpcstream.{T}).UnmarshalVT"(x, d)->(e) {{
    if {f}(src) != nil {{
      call "rpcstream.verifDecode{T}"({f}(src), x, d)->(e1)
      return e1
    }} else {{
      call "rpcstream.verifDecodeNo{T}"(x, d)->(e2)
      return e2
    }}
  }}''')
for isf,ln,tag in (('isinit','risz(initof(src))',10),('isack','rasz(ackof(src))',18),('isrsdata','len(rsdataof(src))',26)):
    for n in range(1,8): o.append(f'  position 0 when {isf}(src) && dAtA[0] == {tag} && dv{n}(dAtA, 1, {ln})')
o.append('''  position rsbsz(src) when true
  inv $i == 0 || $i == rsbsz(src)
  inv m.unknownFields == nil
  inv $i < rsbsz(src) ==> m.Body == nil
  inv $i >= rsbsz(src) ==> rsdec(m, src) && rsown(m)
  ensures "decodes-the-encoding": err == nil && rsdec(m, src)
  ensures "own-memory": rsown(m)
}
func "rpcstream.verifRoundTripRpcStreamPacket"(m)->(out, err) {
  props C28
  safety C28
  requires m != nil && rssmall(m) && len(m.unknownFields) == 0
  requires isinit(m) && initof(m) != nil ==> len(initof(m).unknownFields) == 0
  requires isack(m) && ackof(m) != nil ==> len(ackof(m).unknownFields) == 0
  ensures "round-trip": err == nil && rsdec(out, m)
  ensures "own-memory": fresh(out) && rsown(out)
}''')
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','contracts','c28_messages.gc'),'w').write('\n'.join(o)+'\n')
# drivers
def drv(T): return f'''
// verifDecode{T} decodes the encoding of src.
func verifDecode{T}(src, m *{T}, dAtA []byte) error {{
	return m.UnmarshalVT(dAtA)
}}

// verifDecodeNo{T} decodes the encoding of no message.
func verifDecodeNo{T}(m *{T}, dAtA []byte) error {{
	return m.UnmarshalVT(dAtA)
}}

// verifRoundTrip{T} encodes and decodes m.
func verifRoundTrip{T}(m *{T}) (*{T}, error) {{
	data, err := m.MarshalVT()
	if err != nil {{
		return nil, err
	}}
	out := &{T}{{}}
	err = verifDecode{T}(m, out, data)
	return out, err
}}
'''
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','overlay')
for pkg,Ts in (('rpcstream',('RpcStreamInit','RpcAck','RpcStreamPacket')),('echo',('EchoMsg',)),('mock',('MockMsg',))):
    os.makedirs(f'{V}/{pkg}',exist_ok=True)
    head=f'package {"e2e_mock" if pkg=="mock" else pkg}\n\n// Drivers: functions that exist only while verifying (see tools/gen_c28.py).\n'
    open(f'{V}/{pkg}/zz_verif_codec.go','w').write(head+''.join(drv(T) for T in Ts))

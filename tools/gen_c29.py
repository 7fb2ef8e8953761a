#!/usr/bin/env python3
# Writes contracts/c29_messages.gc: CloneVT, EqualVT and the field accessors of
# all messages.
o=['# C29: messages are cloned and compared exactly (written by tools/gen_c29.py)','']
P='  props C29\n  safety C29\n  strext'
# kind: s string, y bytes, b bool
def eqf(f,k,a='a',b='b'):
    return f'({a}.{f} <==> {b}.{f})' if k=='b' else f'samebytes({a}.{f}, {b}.{f})'
def zero(f,k,a='a'): return f'!{a}.{f}' if k=='b' else f'len({a}.{f}) == 0'
def own(f,a='r',m='m'): return f'(ref({m}.{f}) == 0 <==> ref({a}.{f}) == 0) && (ref({m}.{f}) != 0 ==> fresh({a}.{f}))'
def msg(pkg,T,x,fields):
    t=f'(*{pkg}.{T})'
    ef=' && '.join(eqf(f,k) for f,k in fields)
    zf=' && '.join(zero(f,k) for f,k in fields)
    al='"[]byte" '+f'"{pkg}.{T}"'
    o.append(f'''# {pkg}.{T}
spec {x}same(a, b) = {ef} && samebytes(a.unknownFields, b.unknownFields)
spec {x}zero(a) = {zf} && len(a.unknownFields) == 0
spec {x}eq(a, b) = (a == nil <==> b == nil) && (a != nil ==> {x}same(a, b))
spec {x}eq0(a, b) = ite(a == nil, b == nil || {x}zero(b), ite(b == nil, {x}zero(a), {x}same(a, b)))
spec {x}own(r, m) = {' && '.join([own(f,'r','m') for f,k in fields if k=='y']+['(len(m.unknownFields) == 0 ==> r.unknownFields == nil) && (len(m.unknownFields) > 0 ==> fresh(r.unknownFields))'])}
func "{t}.CloneVT"(m)->(r) {{
{P}
  allocates {al}
  ensures "same-contents": {x}eq(r, m)
  ensures "own-memory": m != nil ==> fresh(r) && {x}own(r, m)
}}
func "{t}.CloneMessageVT"(m)->(r) {{
{P}
  ensures "same-contents": typeis(r, "*{pkg}.{T}") && {x}eq(as(r, "*{pkg}.{T}"), m)
  ensures "own-memory": m != nil ==> fresh(as(r, "*{pkg}.{T}")) && {x}own(as(r, "*{pkg}.{T}"), m)
}}
func "{t}.EqualVT"(a, b)->(r) {{
  pure
{P}
  ensures "exact": r <==> {x}eq(a, b)
}}
func "{t}.EqualMessageVT"(a, b)->(r) {{
{P}
  ensures "exact": r <==> typeis(b, "*{pkg}.{T}") && {x}eq(a, as(b, "*{pkg}.{T}"))
}}''')
    for f,k in fields:
        if k=='b': e=f'r <==> m != nil && m.{f}'
        elif k=='s': e=f'ite(m == nil, len(r) == 0, r == m.{f})'
        else: e=f'ite(m == nil, r == nil, r == m.{f})'
        o.append(f'''func "{t}.Get{f}"(m)->(r) {{
{P}
  ensures "the-field": {e}
}}''')
    o.append('')
def oneof(pkg,T,x,bodies,iface):
    t=f'(*{pkg}.{T})'
    kinds=[]; eqs=[]; owns=[]; als=['[]byte',f'{pkg}.{T}']
    for B,F,k,sub,subT in bodies:
        bt=f'{pkg}.{T}_{B}'
        n=f'{x}{B.lower()}'
        if k=='m': same=f'{sub}eq0(p.{F}, q.{F})'; clo=f'{sub}eq(r.{F}, m.{F})'; ow=f'm.{F} != nil ==> fresh(r.{F}) && {sub}own(r.{F}, m.{F})'
        else:
            same=eqf(F,k,'p','q'); clo=eqf(F,k,'r','m'); ow=own(F) if k=='y' else 'true'
        als.append(bt)
        if subT: als.append(f'{pkg}.{subT}')
        al='"[]byte" "'+bt+'"'+(f' "{pkg}.{subT}"' if subT else '')
        o.append(f'''# {bt}
spec {n}same(p, q) = p == q || p != nil && q != nil && {same}
spec {n}copy(r, m) = (r == nil <==> m == nil) && (m != nil ==> {clo})
spec {n}own(r, m) = m != nil ==> fresh(r) && ({ow})
func "(*{bt}).CloneVT"(m)->(r) {{
{P}
  allocates {al}
  ensures "same-contents": {n}copy(r, m)
  ensures "own-memory": {n}own(r, m)
}}
func "(*{bt}).CloneOneofVT"(m)->(r) {{
{P}
  allocates {al}
  ensures "same-contents": typeis(r, "*{bt}") && {n}copy(as(r, "*{bt}"), m)
  ensures "own-memory": {n}own(as(r, "*{bt}"), m)
}}
func "(*{bt}).EqualVT"(a, i)->(r) {{
{P}
  ensures "exact": r <==> typeis(i, "*{bt}") && {n}same(a, as(i, "*{bt}"))
}}''')
        kinds.append(f'typeis(p.Body, "*{bt}")')
        eqs.append(f'(typeis(a.Body, "*{bt}") <==> typeis(b.Body, "*{bt}")) && (typeis(a.Body, "*{bt}") ==> {n}same(as(a.Body, "*{bt}"), as(b.Body, "*{bt}")))')
        owns.append((bt,n))
    o.append(f'''# {pkg}.{T}
spec {x}kind(p) = p.Body == nil || {' || '.join(kinds)}
spec {x}beq(a, b) = {' && '.join(eqs)}
spec {x}peq(a, b) = {x}beq(a, b) && samebytes(a.unknownFields, b.unknownFields)
spec {x}ppeq(a, b) = (a == nil <==> b == nil) && (a != nil ==> {x}peq(a, b))
spec {x}bcopy(r, m) = {' && '.join(f'(typeis(r.Body, "*{bt}") <==> typeis(m.Body, "*{bt}")) && (typeis(m.Body, "*{bt}") ==> {n}copy(as(r.Body, "*{bt}"), as(m.Body, "*{bt}")) && {n}own(as(r.Body, "*{bt}"), as(m.Body, "*{bt}")))' for bt,n in owns)}
spec {x}pcopy(r, m) = (r == nil <==> m == nil) && (m != nil ==> fresh(r) && {x}kind(r) && {x}bcopy(r, m) && samebytes(r.unknownFields, m.unknownFields) && (len(m.unknownFields) > 0 ==> fresh(r.unknownFields)))
func "{t}.CloneVT"(m)->(r) {{
{P}
  requires m != nil ==> {x}kind(m)
  allocates {' '.join(f'"{a}"' for a in als)}
  ensures "same-contents-own-memory": {x}pcopy(r, m)
}}
func "{t}.CloneMessageVT"(m)->(r) {{
{P}
  requires m != nil ==> {x}kind(m)
  ensures "same-contents-own-memory": typeis(r, "*{pkg}.{T}") && {x}pcopy(as(r, "*{pkg}.{T}"), m)
}}
func "{t}.EqualVT"(a, b)->(r) {{
{P}
  requires (a != nil ==> {x}kind(a)) && (b != nil ==> {x}kind(b))
  ensures "exact": r <==> {x}ppeq(a, b)
}}
func "{t}.EqualMessageVT"(a, i)->(r) {{
{P}
  requires (a != nil ==> {x}kind(a)) && (typeis(i, "*{pkg}.{T}") && as(i, "*{pkg}.{T}") != nil ==> {x}kind(as(i, "*{pkg}.{T}")))
  ensures "exact": r <==> typeis(i, "*{pkg}.{T}") && {x}ppeq(a, as(i, "*{pkg}.{T}"))
}}
func "{t}.GetBody"(m)->(r) {{
{P}
  ensures "the-body": r == ite(m == nil, nil, m.Body)
}}''')
    for B,F,k,sub,subT in bodies:
        bt=f'{pkg}.{T}_{B}'
        v=f'as(m.Body, "*{bt}")'
        if k=='b': e=f'r <==> m != nil && typeis(m.Body, "*{bt}") && {v}.{F}'
        else: e=f'ite(m != nil && typeis(m.Body, "*{bt}"), r == {v}.{F}, r == nil)'
        o.append(f'''func "{t}.Get{F}"(m)->(r) {{
{P}
  requires m != nil && typeis(m.Body, "*{bt}") ==> {v} != nil
  ensures "the-field-of-this-kind": {e}
}}''')
    o.append('')
msg('srpc','CallStart','qs',[('RpcService','s'),('RpcMethod','s'),('Data','y'),('DataIsZero','b')])
msg('srpc','CallData','qd',[('Data','y'),('DataIsZero','b'),('Complete','b'),('Error','s')])
oneof('srpc','Packet','qp',[('CallStart','CallStart','m','qs','CallStart'),('CallData','CallData','m','qd','CallData'),('CallCancel','CallCancel','b',None,None)],'isPacket_Body')
msg('rpcstream','RpcStreamInit','qi',[('ComponentId','s')])
msg('rpcstream','RpcAck','qa',[('Error','s')])
oneof('rpcstream','RpcStreamPacket','qr',[('Init','Init','m','qi','RpcStreamInit'),('Ack','Ack','m','qa','RpcAck'),('Data','Data','y',None,None)],'isRpcStreamPacket_Body')
msg('echo','EchoMsg','qe',[('Body','s')])
msg('mock','MockMsg','qm',[('Body','s')])
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','contracts','c29_messages.gc'),'w').write('\n'.join(o))

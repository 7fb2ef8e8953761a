# C32: the JSON form of messages.  Made from the .proto descriptions:
# (Go type, [(Go field, json name, proto name, kind)]) and oneofs.
import os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
flat={'*srpc.CallStart':[('RpcService','rpcService','rpc_service','String'),('RpcMethod','rpcMethod','rpc_method','String'),('Data','data','data','Bytes'),('DataIsZero','dataIsZero','data_is_zero','Bool')],
 '*srpc.CallData':[('Data','data','data','Bytes'),('DataIsZero','dataIsZero','data_is_zero','Bool'),('Complete','complete','complete','Bool'),('Error','error','error','String')],
 '*rpcstream.RpcStreamInit':[('ComponentId','componentId','component_id','String')],
 '*rpcstream.RpcAck':[('Error','error','error','String')],
 '*echo.EchoMsg':[('Body','body','body','String')],
 '*mock.MockMsg':[('Body','body','body','String')]}
oneof={'*srpc.Packet':[('CallStart','callStart','call_start','*srpc.CallStart'),('CallData','callData','call_data','*srpc.CallData'),('CallCancel','callCancel','call_cancel','Bool')],
 '*rpcstream.RpcStreamPacket':[('Init','init','init','*rpcstream.RpcStreamInit'),('Ack','ack','ack','*rpcstream.RpcAck'),('Data','data','data','Bytes')]}
M='(*json.MarshalState).'; U='(*json.UnmarshalState).'
o=['# C32: the JSON form of messages (made by tools/gen_c32.py from the descriptions).\n']
def w(s): o.append(s)
def wrap(T):
    w(f'''func "({T}).MarshalJSON"(x)->(b, err) {{
  props C32
  ghost n = 0
  ghost e0:error = nil
  ghost r = 0
  on call "(json.MarshalerConfig).Marshal"(c, m)->(d, e) {{ assert "encodes-this-message": n == 0 && typeis(m, "{T}") && ref(m) == ref(x); set n = 1; set e0 = e; set r = ref(d) }}
  ensures "encoded-once": n == 1 && err == e0 && ref(b) == r
}}
func "({T}).UnmarshalJSON"(x, b)->(err) {{
  props C32
  ghost n = 0
  ghost e0:error = nil
  let len0 = len(b)
  on call "(json.UnmarshalerConfig).Unmarshal"(c, d, m)->(e) {{ assert "decodes-into-this-message": n == 0 && typeis(m, "{T}") && ref(m) == ref(x) && ref(d) == ref(b) && len(d) == len0; set n = 1; set e0 = e }}
  ensures "decoded-once": n == 1 && err == e0
}}
''')
def enc_head(T,names,has):
    w(f'''func "({T}).MarshalProtoJSON"(x, s)->() {{
  props C32
  safety C32
  requires s != nil
  ghost st = 0
  ghost cur = 0
  ghost more = 0
  ghost nw = 0
  ghost bad = false
  on optional call "{M}Err"(m)->(e) {{ assert "asks-its-own-state": m == s; if e != nil {{ set bad = true }} }}
''')
    for i,_ in enumerate(names): w(f'  ghost w{i+1} = 0\n  ghost h{i+1} = false\n  ghost a{i+1} = false\n')
    w(f'''  on call "{M}WriteNil"(m) {{ assert "null-for-no-message": m == s && x == nil && st == 0; set st = 2 }}
  on call "{M}WriteObjectStart"(m) {{ assert "one-object": m == s && x != nil && st == 0; set st = 1 }}
  on optional call "{M}WriteMore"(m) {{ assert "separates-fields": m == s && st == 1 && cur == 0 && more == 0 && nw > 0; set more = 1 }}
''')
    if has:
        w(f'  on optional call "{M}HasField"(m, n)->(b) {{\n    assert "asks-for-a-field": m == s\n')
        for i,n in enumerate(names): w(f'    if n == "{n}" {{ set a{i+1} = true; if b {{ set h{i+1} = true }} }}\n')
        w('  }\n')
    w(f'  on call "{M}WriteObjectField"(m, n) {{\n    assert "name-in-place": m == s && st == 1 && cur == 0 && (bad || ite(nw > 0, more == 1, more == 0))\n')
    w('    assert "known-name-once": '+' || '.join(f'n == "{n}" && w{i+1} == 0' for i,n in enumerate(names))+'\n')
    for i,n in enumerate(names): w(f'    if n == "{n}" {{ set cur = {i+1} }}\n')
    w('    set more = 0; set nw = nw + 1\n  }\n')
    w(f'  on call "{M}WriteObjectEnd"(m) {{ assert "closes-the-object": m == s && st == 1 && cur == 0 && more == 0; set st = 2 }}\n')
def dec_head(T,names):
    w(f'''func "({T}).UnmarshalProtoJSON"(x, s)->() {{
  props C32
  safety C32
  requires x != nil && s != nil
  ghost nils = 0
  ghost isnil = false
  ghost objs = 0
  ghost inobj = 0
  ghost key:string
  ghost skips = 0
  ghost adds = 0
  ghost subnil = false
''')
for T,fs in flat.items():
    wrap(T)
    enc_head(T,[f[1] for f in fs],True)
    for kind in ('String','Bytes','Bool'):
        ks=[(i+1,f) for i,f in enumerate(fs) if f[3]==kind]
        opt='' if ks else 'optional '
        def eq(g): return f'ref(v) == ref(x.{g}) && len(v) == len(x.{g})' if kind=='Bytes' else f'v == x.{g}'
        w(f'  on {opt}call "{M}Write{kind}"(m, v) {{\n    assert "value-of-its-field": m == s && st == 1 && ('+(' || '.join(f'cur == {i} && {eq(f[0])}' for i,f in ks) or 'false')+')\n')
        for i,f in ks: w(f'    if cur == {i} {{ set w{i} = 1 }}\n')
        w('    set cur = 0\n  }\n')
    w('  ensures "one-value": st == 2\n')
    for i,f in enumerate(fs):
        nz=f'x.{f[0]}' if f[3]=='Bool' else f'len(x.{f[0]}) != 0'
        w(f'  ensures "{f[1]}-written": x != nil && {nz} ==> w{i+1} == 1\n  ensures "{f[1]}-left-out-when-empty": x != nil && w{i+1} == 1 ==> {nz} || h{i+1}\n  ensures "{f[1]}-written-when-asked-for": x != nil ==> w{i+1} == 1 || a{i+1} && !h{i+1}\n')
    w('}\n')
    # decoding
    dec_head(T,fs)
    for kind,t in (('String','string'),('Bytes','int'),('Bool','bool')):
        w(f'  ghost n{kind} = 0\n  ghost v{kind}:{t}\n')
    w('  ghost lBytes = 0\n')
    for f in fs: w(f'  let old{f[0]} = x.{f[0]}\n')
    w(f'''  on call "{U}ReadNil"(m)->(b) {{ assert "asks-once": m == s && nils == 0 && objs == 0; set nils = 1; set isnil = b }}
  on call "{U}Skip"(m) {{ assert "skips-in-the-object": m == s && inobj == 1; set skips = skips + 1 }}
  on call "{U}AddField"(m, n) {{
    assert "notes-its-field": m == s && inobj == 1 && ('''+' || '.join('n == "%s" && (%s)'%(f[2],' || '.join(f'key == "{k}"' for k in dict.fromkeys((f[1],f[2])))) for f in fs)+''')
    set adds = adds + 1
  }
''')
    for kind in ('String','Bytes','Bool'):
        ks=[f for f in fs if f[3]==kind]
        setv='set vBytes = ref(v); set lBytes = len(v)' if kind=='Bytes' else f'set v{kind} = v'
        w(f'  on {"" if ks else "optional "}call "{U}Read{kind}"(m)->(v) {{ assert "reads-the-value": m == s && inobj == 1 && n{kind} == 0; set n{kind} = 1; {setv} }}\n')
    w(f'''  on call "{U}ReadObject"(m, f) {{
    assert "reads-the-object-once": m == s && nils == 1 && !isnil && objs == 0
    set objs = 1; set inobj = 1
    havoc key
    call f(key)->()
    set inobj = 0
''')
    def same(g,k):
        return f'ref(x.{g}) == ref(old{g}) && len(x.{g}) == len(old{g})' if k=='Bytes' else f'x.{g} == old{g}'
    for f in fs:
        cond=' || '.join(f'key == "{k}"' for k in dict.fromkeys((f[1],f[2])))
        got='ref(x.%s) == vBytes && len(x.%s) == lBytes'%(f[0],f[0]) if f[3]=='Bytes' else f'x.{f[0]} == v{f[3]}'
        one=' && '.join(f'n{k} == {1 if k==f[3] else 0}' for k in ('String','Bytes','Bool'))
        w(f'    assert "{f[1]}-read": {cond} ==> {got} && {one} && skips == 0 && adds == 1\n')
        w(f'    assert "{f[1]}-kept-otherwise": {cond} || {same(f[0],f[3])}\n')
    allk=' || '.join(f'key == "{k}"' for f in fs for k in dict.fromkeys((f[1],f[2])))
    w(f'''    assert "unknown-skipped": {allk} || skips == 1 && nString == 0 && nBytes == 0 && nBool == 0 && adds == 0
  }}
  ensures "null-or-object": nils == 1 && ite(isnil, objs == 0, objs == 1)
''')
    for f in fs: w(f'  ensures "{f[1]}-kept-for-null": isnil ==> {same(f[0],f[3])}\n')
    w('}\n')
for T,fs in oneof.items():
    wrap(T); P=T[1:].split('.')[0]; N=T.split('.')[1]
    W=lambda f:f'*{P}.{N}_{f[0]}'
    body=lambda f:f'as(x.Body, "{W(f)}")'
    enc_head(T,[f[1] for f in fs],False)
    w('  ghost sub = 0\n  ghost subn = 0\n  ghost bf = false\n')
    # typed-nil bodies are not messages
    for f in fs: w(f'  requires x != nil && typeis(x.Body, "{W(f)}") ==> ref(x.Body) != nil\n')
    w('  requires x != nil ==> x.Body == nil || '+' || '.join(f'typeis(x.Body, "{W(f)}")' for f in fs)+'\n')
    w(f'  on call "{M}WithField"(m, n)->(r) {{\n    assert "names-the-part": m == s\n    assume r != nil\n    set sub = ref(r); set subn = 0\n')
    for i,f in enumerate(fs): w(f'    if n == "{f[1]}" {{ set subn = {i+1} }}\n')
    w('  }\n')
    for i,f in enumerate(fs):
        if f[3][0]=='*':
            w(f'  on call "({f[3]}).MarshalProtoJSON"(p, m) {{ assert "{f[1]}-of-the-body": st == 1 && cur == {i+1} && typeis(x.Body, "{W(f)}") && ref(p) == ref({body(f)}.{f[0]}) && ref(m) == sub && subn == {i+1}; set w{i+1} = 1; set cur = 0 }}\n')
        else:
            eq=f'ref(v) == ref({body(f)}.{f[0]}) && len(v) == len({body(f)}.{f[0]})' if f[3]=='Bytes' else f'v == {body(f)}.{f[0]}'
            w(f'  on call "{M}Write{f[3]}"(m, v) {{ assert "{f[1]}-of-the-body": m == s && st == 1 && cur == {i+1} && typeis(x.Body, "{W(f)}") && {eq}; set w{i+1} = 1; set cur = 0 }}\n')
    w('  ensures "one-value": st == 2\n')
    for i,f in enumerate(fs):
        w(f'  ensures "{f[1]}-written": x != nil ==> ite(typeis(x.Body, "{W(f)}"), w{i+1} == 1, w{i+1} == 0)\n')
    w('}\n')
    dec_head(T,fs)
    w('  ghost sub = 0\n  ghost subn = 0\n  ghost nsub = 0\n  ghost subm = 0\n  ghost nval = 0\n  ghost lv = 0\n')
    sc=[f for f in fs if f[3][0]!='*'][0]
    w(f'  ghost vval:{ {"Bool":"bool","Bytes":"int"}[sc[3]] }\n  let oldBody = x.Body\n')
    w(f'''  on call "{U}ReadNil"(m)->(b) {{
    assert "asks-once": m == s && ite(inobj == 1, nils == 1 && nsub == 0, nils == 0 && objs == 0)
    set nils = nils + 1
    if inobj == 1 {{ set subnil = b }} else {{ set isnil = b }}
  }}
  on call "{U}Skip"(m) {{ assert "skips-in-the-object": m == s && inobj == 1; set skips = skips + 1 }}
  on call "{U}AddField"(m, n) {{ assert "notes-its-field": m == s && inobj == 1 && n == "{sc[2]}" && ({' || '.join(f'key == "{k}"' for k in dict.fromkeys((sc[1],sc[2])))}); set adds = adds + 1 }}
  on call "{U}WithField"(m, n, k)->(r) {{
    assert "names-the-part": m == s && k
    assume r != nil
    set sub = ref(r); set subn = 0
''')
    for i,f in enumerate(fs): w(f'    if n == "{f[2]}" {{ set subn = {i+1} }}\n')
    w('  }\n')
    setv='set vval = ref(v); set lv = len(v)' if sc[3]=='Bytes' else 'set vval = v'
    w(f'  on call "{U}Read{sc[3]}"(m)->(v) {{ assert "reads-the-value": m == s && inobj == 1 && nval == 0; set nval = 1; {setv} }}\n')
    for i,f in enumerate(fs):
        if f[3][0]!='*': continue
        g=f[3]
        zero={'*srpc.CallStart':'len(p.RpcService) == 0 && len(p.RpcMethod) == 0 && p.Data == nil && !p.DataIsZero','*srpc.CallData':'p.Data == nil && !p.DataIsZero && !p.Complete && len(p.Error) == 0','*rpcstream.RpcStreamInit':'len(p.ComponentId) == 0','*rpcstream.RpcAck':'len(p.Error) == 0'}[g]
        cond=' || '.join(f'key == "{k}"' for k in dict.fromkeys((f[1],f[2])))
        w(f'  on call "({g}).UnmarshalProtoJSON"(p, m) {{ assert "{f[1]}-read-into-a-new-message": inobj == 1 && ({cond}) && nils == 2 && !subnil && nsub == 0 && p != nil && fresh(p) && {zero} && ref(m) == sub && subn == {i+1}; set nsub = 1; set subm = ref(p) }}\n')
    w(f'''  on call "{U}ReadObject"(m, f) {{
    assert "reads-the-object-once": m == s && nils == 1 && !isnil && objs == 0
    set objs = 1; set inobj = 1
    havoc key
    call f(key)->()
    set inobj = 0
''')
    for i,f in enumerate(fs):
        cond=' || '.join(f'key == "{k}"' for k in dict.fromkeys((f[1],f[2])))
        t=f'typeis(x.Body, "{W(f)}") && fresh({body(f)})'
        if f[3][0]=='*':
            w(f'    assert "{f[1]}-read": {cond} ==> {t} && skips == 0 && nval == 0 && ite(subnil, nsub == 0 && {body(f)}.{f[0]} == nil, nsub == 1 && ref({body(f)}.{f[0]}) == subm)\n')
        else:
            eq=f'ref({body(f)}.{f[0]}) == vval && len({body(f)}.{f[0]}) == lv' if f[3]=='Bytes' else f'{body(f)}.{f[0]} == vval'
            w(f'    assert "{f[1]}-read": {cond} ==> {t} && skips == 0 && nval == 1 && nsub == 0 && {eq}\n')
    allk=' || '.join(f'key == "{k}"' for f in fs for k in dict.fromkeys((f[1],f[2])))
    w(f'''    assert "unknown-skipped": {allk} || skips == 1 && nsub == 0 && nval == 0 && x.Body == oldBody
  }}
  ensures "null-or-object": nils >= 1 && ite(isnil, objs == 0 && x.Body == oldBody, objs == 1)
}}
''')
open(V+'/contracts/c32_json.gc','w').write(''.join(o))

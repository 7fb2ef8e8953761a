import sys,os; sys.path.insert(0,os.path.dirname(__file__))
from gencontracts import emit
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E='*echo.EchoMsg'; EM='*emptypb.Empty'; RS='*rpcstream.RpcStreamPacket'; MM='*mock.MockMsg'
n=lambda l:[(m,k,r,a,m) for m,k,r,a in l]
svcs=[('echo','Echoer','echo.Echoer',n([('Echo','unary',E,E),('EchoServerStream','server',E,E),('EchoClientStream','client',E,E),('EchoBidiStream','bidi',E,E),('RpcStream','bidi',RS,RS),('DoNothing','unary',EM,EM)])),
      ('mock','Mock','e2e.mock.Mock',n([('MockRequest','unary',MM,MM)]))]
open(V+'/contracts/c24_generated.gc','w').write('# C24: generated clients and handlers (echo, mock): ids, kinds, values.\n'+emit(svcs,'C24','C04 C24'))
# C31: the same contracts of the code generator's output for gen/proto
gen=[('echo','GenKinds','verif.alpha.v1.GenKinds',n([('Unary','unary',E,RS),('Down','server',E,RS),('Up','client',RS,EM),('Both','bidi',RS,E)])),
 ('echo','GenNames','verif.alpha.v1.gen_names',[('BothOne','bidi',E,EM,'both_one'),('UpOne','client',E,RS,'up_one'),('Down_One','server',EM,E,'Down_One'),('One','unary',EM,E,'one'),('One2','unary',RS,E,'One2'),('Down2','server',RS,EM,'down2'),('Up2','client',EM,E,'Up2'),('BOTH','bidi',EM,EM,'BOTH')]),
 ('echo','GenNone','verif.alpha.v1.GenNone',[]),
 ('echo','GenA_B','verif.alpha.v1.GenA_B',n([('C','bidi',E,E)])),
 ('echo','GenA','verif.alpha.v1.GenA',n([('B_C','bidi',E,E),('SRPCClient2','unary',E,E)])),
 ('mock','GenSolo','GenSolo',n([('Up','client',MM,MM)])),
 ('mock','GenPlain','GenPlain',n([('Unary','unary',MM,MM)])),
 ('mock','GenDown','GenDown',n([('Down','server',MM,MM)]))]
os.makedirs(V+'/contracts/gen',exist_ok=True)
open(V+'/contracts/gen/c31.gc','w').write('# C31: what the code generator makes of gen/proto (made by tools/gen_c24.py).\n'+emit(gen,'C31','C31'))

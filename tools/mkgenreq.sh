#!/bin/bash
# Makes gen/request.bin, the request the code generator is given by protoc for
# gen/proto/verif/*.proto (developer tool; needs protoc; the result is committed).
V="$(cd "$(dirname "$0")/.." && pwd)"; T=$(mktemp -d /tmp/mkgen.XXXXXX); trap 'rm -rf "$T"' EXIT
M=github.com/aperturerobotics/starpc
mkdir -p $T/$M $T/out; for p in echo rpcstream mock; do mkdir $T/$M/$p; cp /repo/$p/*.proto $T/$M/$p/; done
cp -r $V/gen/proto/verif $T/verif
printf '#!/bin/bash\ncat >%s/req\n' $T >$T/protoc-gen-x; chmod +x $T/protoc-gen-x
cd $T
protoc -I. --plugin=$T/protoc-gen-x --x_out=out --x_opt="Mverif/gena.proto=$M/echo;echo,Mverif/genb.proto=$M/mock;e2e_mock,M$M/echo/echo.proto=$M/echo;echo,M$M/mock/mock.proto=$M/mock;e2e_mock,M$M/rpcstream/rpcstream.proto=$M/rpcstream;rpcstream,Mgoogle/protobuf/empty.proto=github.com/aperturerobotics/protobuf-go-lite/types/known/emptypb" verif/gena.proto verif/genb.proto && cp req $V/gen/request.bin && ls -l $V/gen/request.bin

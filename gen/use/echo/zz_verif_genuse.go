package echo

// Made by tools/gen_c31_replay.py: uses of the generated interfaces.

import (
	"context"

	"github.com/aperturerobotics/protobuf-go-lite/types/known/emptypb"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
)

var _ context.Context

var _ interface {
	SRPCClient() srpc.Client
	Unary(ctx context.Context, in *EchoMsg) (*rpcstream.RpcStreamPacket, error)
	Down(ctx context.Context, in *EchoMsg) (SRPCGenKinds_DownClient, error)
	Up(ctx context.Context) (SRPCGenKinds_UpClient, error)
	Both(ctx context.Context) (SRPCGenKinds_BothClient, error)
} = (SRPCGenKindsClient)(nil)

var _ SRPCGenKindsServer = (interface {
	Unary(ctx context.Context, in *EchoMsg) (*rpcstream.RpcStreamPacket, error)
	Down(in *EchoMsg, s SRPCGenKinds_DownStream) error
	Up(s SRPCGenKinds_UpStream) (*emptypb.Empty, error)
	Both(s SRPCGenKinds_BothStream) error
})(nil)

var _ func(srpc.Client) SRPCGenKindsClient = NewSRPCGenKindsClient
var _ func(srpc.Client, string) SRPCGenKindsClient = NewSRPCGenKindsClientWithServiceID
var _ func(SRPCGenKindsServer, string) srpc.Handler = NewSRPCGenKindsHandler
var _ func(srpc.Mux, SRPCGenKindsServer) error = SRPCRegisterGenKinds

const _ = uint(len(SRPCGenKindsServiceID) - 23)

var _ interface {
	srpc.Stream
	Recv() (*rpcstream.RpcStreamPacket, error)
	RecvTo(*rpcstream.RpcStreamPacket) error
} = (SRPCGenKinds_DownClient)(nil)
var _ interface {
	srpc.Stream
	Send(*rpcstream.RpcStreamPacket) error
	SendAndClose(*rpcstream.RpcStreamPacket) error
} = (SRPCGenKinds_DownStream)(nil)

var _ interface {
	srpc.Stream
	Send(*rpcstream.RpcStreamPacket) error
	CloseAndRecv() (*emptypb.Empty, error)
} = (SRPCGenKinds_UpClient)(nil)
var _ interface {
	srpc.Stream
	Recv() (*rpcstream.RpcStreamPacket, error)
	RecvTo(*rpcstream.RpcStreamPacket) error
} = (SRPCGenKinds_UpStream)(nil)

var _ interface {
	srpc.Stream
	Send(*rpcstream.RpcStreamPacket) error
	Recv() (*EchoMsg, error)
	RecvTo(*EchoMsg) error
} = (SRPCGenKinds_BothClient)(nil)
var _ interface {
	srpc.Stream
	Send(*EchoMsg) error
	SendAndClose(*EchoMsg) error
	Recv() (*rpcstream.RpcStreamPacket, error)
	RecvTo(*rpcstream.RpcStreamPacket) error
} = (SRPCGenKinds_BothStream)(nil)

var _ interface {
	SRPCClient() srpc.Client
	BothOne(ctx context.Context) (SRPCGenNames_BothOneClient, error)
	UpOne(ctx context.Context) (SRPCGenNames_UpOneClient, error)
	Down_One(ctx context.Context, in *emptypb.Empty) (SRPCGenNames_Down__OneClient, error)
	One(ctx context.Context, in *emptypb.Empty) (*EchoMsg, error)
	One2(ctx context.Context, in *rpcstream.RpcStreamPacket) (*EchoMsg, error)
	Down2(ctx context.Context, in *rpcstream.RpcStreamPacket) (SRPCGenNames_Down2Client, error)
	Up2(ctx context.Context) (SRPCGenNames_Up2Client, error)
	BOTH(ctx context.Context) (SRPCGenNames_BOTHClient, error)
} = (SRPCGenNamesClient)(nil)

var _ SRPCGenNamesServer = (interface {
	BothOne(s SRPCGenNames_BothOneStream) error
	UpOne(s SRPCGenNames_UpOneStream) (*rpcstream.RpcStreamPacket, error)
	Down_One(in *emptypb.Empty, s SRPCGenNames_Down__OneStream) error
	One(ctx context.Context, in *emptypb.Empty) (*EchoMsg, error)
	One2(ctx context.Context, in *rpcstream.RpcStreamPacket) (*EchoMsg, error)
	Down2(in *rpcstream.RpcStreamPacket, s SRPCGenNames_Down2Stream) error
	Up2(s SRPCGenNames_Up2Stream) (*EchoMsg, error)
	BOTH(s SRPCGenNames_BOTHStream) error
})(nil)

var _ func(srpc.Client) SRPCGenNamesClient = NewSRPCGenNamesClient
var _ func(srpc.Client, string) SRPCGenNamesClient = NewSRPCGenNamesClientWithServiceID
var _ func(SRPCGenNamesServer, string) srpc.Handler = NewSRPCGenNamesHandler
var _ func(srpc.Mux, SRPCGenNamesServer) error = SRPCRegisterGenNames

const _ = uint(len(SRPCGenNamesServiceID) - 24)

var _ interface {
	srpc.Stream
	Send(*EchoMsg) error
	Recv() (*emptypb.Empty, error)
	RecvTo(*emptypb.Empty) error
} = (SRPCGenNames_BothOneClient)(nil)
var _ interface {
	srpc.Stream
	Send(*emptypb.Empty) error
	SendAndClose(*emptypb.Empty) error
	Recv() (*EchoMsg, error)
	RecvTo(*EchoMsg) error
} = (SRPCGenNames_BothOneStream)(nil)

var _ interface {
	srpc.Stream
	Send(*EchoMsg) error
	CloseAndRecv() (*rpcstream.RpcStreamPacket, error)
} = (SRPCGenNames_UpOneClient)(nil)
var _ interface {
	srpc.Stream
	Recv() (*EchoMsg, error)
	RecvTo(*EchoMsg) error
} = (SRPCGenNames_UpOneStream)(nil)

var _ interface {
	srpc.Stream
	Recv() (*EchoMsg, error)
	RecvTo(*EchoMsg) error
} = (SRPCGenNames_Down__OneClient)(nil)
var _ interface {
	srpc.Stream
	Send(*EchoMsg) error
	SendAndClose(*EchoMsg) error
} = (SRPCGenNames_Down__OneStream)(nil)

var _ interface {
	srpc.Stream
	Recv() (*emptypb.Empty, error)
	RecvTo(*emptypb.Empty) error
} = (SRPCGenNames_Down2Client)(nil)
var _ interface {
	srpc.Stream
	Send(*emptypb.Empty) error
	SendAndClose(*emptypb.Empty) error
} = (SRPCGenNames_Down2Stream)(nil)

var _ interface {
	srpc.Stream
	Send(*emptypb.Empty) error
	CloseAndRecv() (*EchoMsg, error)
} = (SRPCGenNames_Up2Client)(nil)
var _ interface {
	srpc.Stream
	Recv() (*emptypb.Empty, error)
	RecvTo(*emptypb.Empty) error
} = (SRPCGenNames_Up2Stream)(nil)

var _ interface {
	srpc.Stream
	Send(*emptypb.Empty) error
	Recv() (*emptypb.Empty, error)
	RecvTo(*emptypb.Empty) error
} = (SRPCGenNames_BOTHClient)(nil)
var _ interface {
	srpc.Stream
	Send(*emptypb.Empty) error
	SendAndClose(*emptypb.Empty) error
	Recv() (*emptypb.Empty, error)
	RecvTo(*emptypb.Empty) error
} = (SRPCGenNames_BOTHStream)(nil)

var _ interface {
	SRPCClient() srpc.Client
} = (SRPCGenNoneClient)(nil)

var _ SRPCGenNoneServer = (interface {
})(nil)

var _ func(srpc.Client) SRPCGenNoneClient = NewSRPCGenNoneClient
var _ func(srpc.Client, string) SRPCGenNoneClient = NewSRPCGenNoneClientWithServiceID
var _ func(SRPCGenNoneServer, string) srpc.Handler = NewSRPCGenNoneHandler
var _ func(srpc.Mux, SRPCGenNoneServer) error = SRPCRegisterGenNone

const _ = uint(len(SRPCGenNoneServiceID) - 22)

var _ interface {
	SRPCClient() srpc.Client
	C(ctx context.Context) (SRPCGenA__B_CClient, error)
} = (SRPCGenA_BClient)(nil)

var _ SRPCGenA_BServer = (interface {
	C(s SRPCGenA__B_CStream) error
})(nil)

var _ func(srpc.Client) SRPCGenA_BClient = NewSRPCGenA_BClient
var _ func(srpc.Client, string) SRPCGenA_BClient = NewSRPCGenA_BClientWithServiceID
var _ func(SRPCGenA_BServer, string) srpc.Handler = NewSRPCGenA_BHandler
var _ func(srpc.Mux, SRPCGenA_BServer) error = SRPCRegisterGenA_B

const _ = uint(len(SRPCGenA_BServiceID) - 21)

var _ interface {
	srpc.Stream
	Send(*EchoMsg) error
	Recv() (*EchoMsg, error)
	RecvTo(*EchoMsg) error
} = (SRPCGenA__B_CClient)(nil)
var _ interface {
	srpc.Stream
	Send(*EchoMsg) error
	SendAndClose(*EchoMsg) error
	Recv() (*EchoMsg, error)
	RecvTo(*EchoMsg) error
} = (SRPCGenA__B_CStream)(nil)

var _ interface {
	SRPCClient() srpc.Client
	B_C(ctx context.Context) (SRPCGenA_B__CClient, error)
	SRPCClient2(ctx context.Context, in *EchoMsg) (*EchoMsg, error)
} = (SRPCGenAClient)(nil)

var _ SRPCGenAServer = (interface {
	B_C(s SRPCGenA_B__CStream) error
	SRPCClient2(ctx context.Context, in *EchoMsg) (*EchoMsg, error)
})(nil)

var _ func(srpc.Client) SRPCGenAClient = NewSRPCGenAClient
var _ func(srpc.Client, string) SRPCGenAClient = NewSRPCGenAClientWithServiceID
var _ func(SRPCGenAServer, string) srpc.Handler = NewSRPCGenAHandler
var _ func(srpc.Mux, SRPCGenAServer) error = SRPCRegisterGenA

const _ = uint(len(SRPCGenAServiceID) - 19)

var _ interface {
	srpc.Stream
	Send(*EchoMsg) error
	Recv() (*EchoMsg, error)
	RecvTo(*EchoMsg) error
} = (SRPCGenA_B__CClient)(nil)
var _ interface {
	srpc.Stream
	Send(*EchoMsg) error
	SendAndClose(*EchoMsg) error
	Recv() (*EchoMsg, error)
	RecvTo(*EchoMsg) error
} = (SRPCGenA_B__CStream)(nil)

package e2e_mock

// Made by tools/gen_c31_replay.py: uses of the generated interfaces.

import (
	"context"

	"github.com/aperturerobotics/starpc/srpc"
)

var _ context.Context

var _ interface {
	SRPCClient() srpc.Client
	Up(ctx context.Context) (SRPCGenSolo_UpClient, error)
} = (SRPCGenSoloClient)(nil)

var _ SRPCGenSoloServer = (interface {
	Up(s SRPCGenSolo_UpStream) (*MockMsg, error)
})(nil)

var _ func(srpc.Client) SRPCGenSoloClient = NewSRPCGenSoloClient
var _ func(srpc.Client, string) SRPCGenSoloClient = NewSRPCGenSoloClientWithServiceID
var _ func(SRPCGenSoloServer, string) srpc.Handler = NewSRPCGenSoloHandler
var _ func(srpc.Mux, SRPCGenSoloServer) error = SRPCRegisterGenSolo

const _ = uint(len(SRPCGenSoloServiceID) - 7)

var _ interface {
	srpc.Stream
	Send(*MockMsg) error
	CloseAndRecv() (*MockMsg, error)
} = (SRPCGenSolo_UpClient)(nil)
var _ interface {
	srpc.Stream
	Recv() (*MockMsg, error)
	RecvTo(*MockMsg) error
} = (SRPCGenSolo_UpStream)(nil)

var _ interface {
	SRPCClient() srpc.Client
	Unary(ctx context.Context, in *MockMsg) (*MockMsg, error)
} = (SRPCGenPlainClient)(nil)

var _ SRPCGenPlainServer = (interface {
	Unary(ctx context.Context, in *MockMsg) (*MockMsg, error)
})(nil)

var _ func(srpc.Client) SRPCGenPlainClient = NewSRPCGenPlainClient
var _ func(srpc.Client, string) SRPCGenPlainClient = NewSRPCGenPlainClientWithServiceID
var _ func(SRPCGenPlainServer, string) srpc.Handler = NewSRPCGenPlainHandler
var _ func(srpc.Mux, SRPCGenPlainServer) error = SRPCRegisterGenPlain

const _ = uint(len(SRPCGenPlainServiceID) - 8)

var _ interface {
	SRPCClient() srpc.Client
	Down(ctx context.Context, in *MockMsg) (SRPCGenDown_DownClient, error)
} = (SRPCGenDownClient)(nil)

var _ SRPCGenDownServer = (interface {
	Down(in *MockMsg, s SRPCGenDown_DownStream) error
})(nil)

var _ func(srpc.Client) SRPCGenDownClient = NewSRPCGenDownClient
var _ func(srpc.Client, string) SRPCGenDownClient = NewSRPCGenDownClientWithServiceID
var _ func(SRPCGenDownServer, string) srpc.Handler = NewSRPCGenDownHandler
var _ func(srpc.Mux, SRPCGenDownServer) error = SRPCRegisterGenDown

const _ = uint(len(SRPCGenDownServiceID) - 7)

var _ interface {
	srpc.Stream
	Recv() (*MockMsg, error)
	RecvTo(*MockMsg) error
} = (SRPCGenDown_DownClient)(nil)
var _ interface {
	srpc.Stream
	Send(*MockMsg) error
	SendAndClose(*MockMsg) error
} = (SRPCGenDown_DownStream)(nil)

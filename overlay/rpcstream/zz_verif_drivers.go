package rpcstream

import (
	"context"

	"github.com/aperturerobotics/starpc/srpc"
)

// Drivers: functions that exist only while verifying. Each calls the real
// code without adding behaviour: generic functions are instantiated at the
// interface they are written against, returned functions are called.

func verifOpenRpcStream(ctx context.Context, caller RpcStreamCaller[RpcStream], id string, waitAck bool) (RpcStream, error) {
	return OpenRpcStream(ctx, caller, id, waitAck)
}

func verifNewRpcStreamOpenStream(caller RpcStreamCaller[RpcStream], id string, waitAck bool, ctx context.Context, h srpc.PacketDataHandler, ch srpc.CloseHandler) (srpc.PacketWriter, error) {
	return NewRpcStreamOpenStream(caller, id, waitAck)(ctx, h, ch)
}

func verifNewRpcStreamClient(caller RpcStreamCaller[RpcStream], id string, waitAck bool) srpc.Client {
	return NewRpcStreamClient(caller, id, waitAck)
}

func verifHandleProxyRpcStream(stream RpcStream, getter RpcProxyGetter[RpcStream]) error {
	return HandleProxyRpcStream(stream, getter)
}

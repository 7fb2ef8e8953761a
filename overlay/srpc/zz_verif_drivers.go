package srpc

import (
	"context"

	"github.com/libp2p/go-libp2p/core/network"
)

// Drivers: functions that exist only while verifying. Each calls the real
// code without adding behaviour; the contract on the driver is a statement
// about the composed real functions, which are inlined from /repo.

// verifOpenStreamMuxed opens one stream with the open function of a session.
func verifOpenStreamMuxed(conn network.MuxedConn, ctx context.Context, h PacketDataHandler, ch CloseHandler) (PacketWriter, error) {
	return NewOpenStreamWithMuxedConn(conn)(ctx, h, ch)
}

// verifOpenStreamPipe opens one stream with the open function of a server pipe.
func verifOpenStreamPipe(server *Server, ctx context.Context, h PacketDataHandler, ch CloseHandler) (PacketWriter, error) {
	return NewServerPipe(server)(ctx, h, ch)
}

// verifDecodeCallData decodes the encoding of src.
func verifDecodeCallData(src, m *CallData, dAtA []byte) error {
	return m.UnmarshalVT(dAtA)
}

// verifDecodeCallStart decodes the encoding of src.
func verifDecodeCallStart(src, m *CallStart, dAtA []byte) error {
	return m.UnmarshalVT(dAtA)
}

// verifDecodePacket decodes the encoding of src.
func verifDecodePacket(src, m *Packet, dAtA []byte) error {
	return m.UnmarshalVT(dAtA)
}

// verifDecodeNoCallData decodes the encoding of no message.
func verifDecodeNoCallData(m *CallData, dAtA []byte) error {
	return m.UnmarshalVT(dAtA)
}

// verifRoundTripCallData encodes and decodes m.
func verifRoundTripCallData(m *CallData) (*CallData, error) {
	data, err := m.MarshalVT()
	if err != nil {
		return nil, err
	}
	out := &CallData{}
	err = verifDecodeCallData(m, out, data)
	return out, err
}

// verifDecodeNoCallStart decodes the encoding of no message.
func verifDecodeNoCallStart(m *CallStart, dAtA []byte) error {
	return m.UnmarshalVT(dAtA)
}

// verifRoundTripCallStart encodes and decodes m.
func verifRoundTripCallStart(m *CallStart) (*CallStart, error) {
	data, err := m.MarshalVT()
	if err != nil {
		return nil, err
	}
	out := &CallStart{}
	err = verifDecodeCallStart(m, out, data)
	return out, err
}

// verifRoundTripPacket encodes and decodes m.
func verifRoundTripPacket(m *Packet) (*Packet, error) {
	data, err := m.MarshalVT()
	if err != nil {
		return nil, err
	}
	out := &Packet{}
	err = verifDecodePacket(m, out, data)
	return out, err
}

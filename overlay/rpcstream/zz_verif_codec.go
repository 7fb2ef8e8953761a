package rpcstream

// Drivers: functions that exist only while verifying (see tools/gen_c28.py).

// verifDecodeRpcStreamInit decodes the encoding of src.
func verifDecodeRpcStreamInit(src, m *RpcStreamInit, dAtA []byte) error {
	return m.UnmarshalVT(dAtA)
}

// verifDecodeNoRpcStreamInit decodes the encoding of no message.
func verifDecodeNoRpcStreamInit(m *RpcStreamInit, dAtA []byte) error {
	return m.UnmarshalVT(dAtA)
}

// verifRoundTripRpcStreamInit encodes and decodes m.
func verifRoundTripRpcStreamInit(m *RpcStreamInit) (*RpcStreamInit, error) {
	data, err := m.MarshalVT()
	if err != nil {
		return nil, err
	}
	out := &RpcStreamInit{}
	err = verifDecodeRpcStreamInit(m, out, data)
	return out, err
}

// verifDecodeRpcAck decodes the encoding of src.
func verifDecodeRpcAck(src, m *RpcAck, dAtA []byte) error {
	return m.UnmarshalVT(dAtA)
}

// verifDecodeNoRpcAck decodes the encoding of no message.
func verifDecodeNoRpcAck(m *RpcAck, dAtA []byte) error {
	return m.UnmarshalVT(dAtA)
}

// verifRoundTripRpcAck encodes and decodes m.
func verifRoundTripRpcAck(m *RpcAck) (*RpcAck, error) {
	data, err := m.MarshalVT()
	if err != nil {
		return nil, err
	}
	out := &RpcAck{}
	err = verifDecodeRpcAck(m, out, data)
	return out, err
}

// verifDecodeRpcStreamPacket decodes the encoding of src.
func verifDecodeRpcStreamPacket(src, m *RpcStreamPacket, dAtA []byte) error {
	return m.UnmarshalVT(dAtA)
}

// verifDecodeNoRpcStreamPacket decodes the encoding of no message.
func verifDecodeNoRpcStreamPacket(m *RpcStreamPacket, dAtA []byte) error {
	return m.UnmarshalVT(dAtA)
}

// verifRoundTripRpcStreamPacket encodes and decodes m.
func verifRoundTripRpcStreamPacket(m *RpcStreamPacket) (*RpcStreamPacket, error) {
	data, err := m.MarshalVT()
	if err != nil {
		return nil, err
	}
	out := &RpcStreamPacket{}
	err = verifDecodeRpcStreamPacket(m, out, data)
	return out, err
}

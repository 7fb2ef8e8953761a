package echo

// Drivers: functions that exist only while verifying (see tools/gen_c28.py).

// verifDecodeEchoMsg decodes the encoding of src.
func verifDecodeEchoMsg(src, m *EchoMsg, dAtA []byte) error {
	return m.UnmarshalVT(dAtA)
}

// verifDecodeNoEchoMsg decodes the encoding of no message.
func verifDecodeNoEchoMsg(m *EchoMsg, dAtA []byte) error {
	return m.UnmarshalVT(dAtA)
}

// verifRoundTripEchoMsg encodes and decodes m.
func verifRoundTripEchoMsg(m *EchoMsg) (*EchoMsg, error) {
	data, err := m.MarshalVT()
	if err != nil {
		return nil, err
	}
	out := &EchoMsg{}
	err = verifDecodeEchoMsg(m, out, data)
	return out, err
}

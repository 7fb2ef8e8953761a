package e2e_mock

// Drivers: functions that exist only while verifying (see tools/gen_c28.py).

// verifDecodeMockMsg decodes the encoding of src.
func verifDecodeMockMsg(src, m *MockMsg, dAtA []byte) error {
	return m.UnmarshalVT(dAtA)
}

// verifDecodeNoMockMsg decodes the encoding of no message.
func verifDecodeNoMockMsg(m *MockMsg, dAtA []byte) error {
	return m.UnmarshalVT(dAtA)
}

// verifRoundTripMockMsg encodes and decodes m.
func verifRoundTripMockMsg(m *MockMsg) (*MockMsg, error) {
	data, err := m.MarshalVT()
	if err != nil {
		return nil, err
	}
	out := &MockMsg{}
	err = verifDecodeMockMsg(m, out, data)
	return out, err
}

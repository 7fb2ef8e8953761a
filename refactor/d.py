# behaviour-preserving edits of cloning, comparing, nested codec, echo service
RP = "rpcstream/rpcstream.pb.go"
R_("pb-equal-bytes-equal", "C29", [fe_(PB, "func (this *CallData) EqualVT", ("string(this.Data) != string(that.Data)", "!bytes.Equal(this.Data, that.Data)")),
 (PB, 'import (\n', 'import (\n\t"bytes"\n')])
R_("pb-equal-one-expression", "C29", [fe_(PB, "func (this *CallStart) EqualVT", ("""	if this.RpcService != that.RpcService {
		return false
	}
	if this.RpcMethod != that.RpcMethod {
		return false
	}
""", """	if this.RpcMethod != that.RpcMethod || this.RpcService != that.RpcService {
		return false
	}
"""))])
R_("pb-equal-length-first", "C29", [fe_(RP, "func (this *RpcStreamPacket_Data) EqualVT", ("	if string(this.Data) != string(that.Data) {", "	if len(this.Data) != len(that.Data) || string(this.Data) != string(that.Data) {"))])
R_("pb-equal-switch-body", "C29", [fe_(PB, "func (this *Packet) EqualVT", ("""		if !this.Body.(interface{ EqualVT(isPacket_Body) bool }).EqualVT(that.Body) {
			return false
		}
""", """		switch b := this.Body.(type) {
		case *Packet_CallStart:
			if !b.EqualVT(that.Body) {
				return false
			}
		case *Packet_CallData:
			if !b.EqualVT(that.Body) {
				return false
			}
		default:
			if !this.Body.(interface{ EqualVT(isPacket_Body) bool }).EqualVT(that.Body) {
				return false
			}
		}
"""))])
R_("pb-clone-append", "C29", [fe_(PB, "func (m *CallData) CloneVT", ("""		tmpBytes := make([]byte, len(rhs))
		copy(tmpBytes, rhs)
		r.Data = tmpBytes
""", """		r.Data = append(make([]byte, 0, len(rhs)), rhs...)
"""))])
R_("pb-clone-struct-literal", "C29", [fe_(PB, "func (m *CallStart) CloneVT", ("""	r := new(CallStart)
	r.RpcService = m.RpcService
	r.RpcMethod = m.RpcMethod
	r.DataIsZero = m.DataIsZero
""", """	r := &CallStart{
		RpcService: m.RpcService,
		RpcMethod:  m.RpcMethod,
		DataIsZero: m.DataIsZero,
	}
"""))])
R_("pb-clone-helper", "C29", [fe_(RP, "func (m *RpcStreamPacket_Data) CloneVT", ("""		tmpBytes := make([]byte, len(rhs))
		copy(tmpBytes, rhs)
		r.Data = tmpBytes
""", """		r.Data = copyOf(rhs)
""")), (RP, None, """
// copyOf copies the bytes.
func copyOf(b []byte) []byte {
	out := make([]byte, len(b))
	copy(out, b)
	return out
}
""")])
R_("pb-nested-decode-append", "C28 C04", [(RP, """			v := make([]byte, postIndex-iNdEx)
			copy(v, dAtA[iNdEx:postIndex])
			m.Body""", """			v := append([]byte{}, dAtA[iNdEx:postIndex]...)
			m.Body""")])
R_("pb-nested-marshal-helper", "C28", [fe_(RP, "func (m *RpcAck) MarshalToSizedBufferVT", ("""		i -= len(m.Error)
		copy(dAtA[i:], m.Error)
		i = protobuf_go_lite.EncodeVarint(dAtA, i, uint64(len(m.Error)))
		i--
		dAtA[i] = 0xa
""", """		i = putString(dAtA, i, 0xa, m.Error)
""")), (RP, None, """
// putString writes a string field which ends at i.
func putString(dAtA []byte, i int, tag byte, s string) int {
	i -= len(s)
	copy(dAtA[i:], s)
	i = protobuf_go_lite.EncodeVarint(dAtA, i, uint64(len(s)))
	i--
	dAtA[i] = tag
	return i
}
""")])
ES = "echo/server.go"
R_("echo-range-int-ctx-var", "C30", [(ES, """	responses := 5
""", """	responses := 5
	ctx := strm.Context()
"""), (ES, "for i := 0; i < responses; i++ {", "for range responses {"), (ES, "case <-strm.Context().Done():", "case <-ctx.Done():"), (ES, "		if err := strm.MsgSend(msg); err != nil {\n			return err\n		}\n		select", "		if err := strm.Send(msg); err != nil {\n			return err\n		}\n		select")])
R_("echo-bidi-recvto", "C30", [(ES, """		msg, err := strm.Recv()
		if err != nil {
			if err == io.EOF {
				return nil
			}
			return err
		}
""", """		msg := &EchoMsg{}
		if err := strm.RecvTo(msg); err == io.EOF {
			return nil
		} else if err != nil {
			return err
		}
""")])
R_("echo-bidi-send-err", "C30", [(ES, """		if err := strm.Send(msg); err != nil {
			return err
		}
	}
}
""", """		err = strm.MsgSend(msg)
		if err != nil {
			return err
		}
	}
}
""")])
R_("echo-rpcstream-method-value", "C30 C24", [fe_(ES, "func (s *EchoServer) RpcStream", ("""func(ctx context.Context, componentID string) (srpc.Invoker, func(), error) {
		if s.rpcStreamMux == nil {
			return nil, nil, errors.New("not implemented")
		}
		return s.rpcStreamMux, nil, nil
	})""", "s.lookupRpcStreamMux)")), (ES, None, """
// lookupRpcStreamMux looks up the mux for nested calls.
func (s *EchoServer) lookupRpcStreamMux(ctx context.Context, componentID string) (srpc.Invoker, func(), error) {
	if s.rpcStreamMux != nil {
		return s.rpcStreamMux, nil, nil
	}
	return nil, nil, errors.New("not implemented")
}
""")])
R_("echo-cancel-helper", "C30", [(ES, """		select {
		case <-strm.Context().Done():
			return context.Canceled
		case <-tkr.C:
		}
	}
	return nil""", """		if err := waitTick(strm.Context(), tkr.C); err != nil {
			return err
		}
	}
	return nil"""), (ES, None, """
// waitTick waits for the tick.
func waitTick(ctx context.Context, tick <-chan time.Time) error {
	select {
	case <-ctx.Done():
		return context.Canceled
	case <-tick:
		return nil
	}
}
""")])

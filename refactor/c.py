# behaviour-preserving edits of generated code, wrappers and pipes
def fn_(f, head):
    s = open("/repo/" + f).read()
    i = s.index(head)
    return s[i:s.index("\n}\n", i) + 3]
def fe_(f, head, *subs):
    a = fn_(f, head); b = a
    for x, y in subs:
        assert x in b, (f, head, x)
        b = b.replace(x, y, 1)
    return (f, a, b)
PB = "srpc/rpcproto.pb.go"
VAR = """		var wire uint64
		for shift := uint(0); ; shift += 7 {
			if shift >= 64 {
				return protobuf_go_lite.ErrIntOverflow
			}
			if iNdEx >= l {
				return io.ErrUnexpectedEOF
			}
			b := dAtA[iNdEx]
			iNdEx++
			wire |= uint64(b&0x7F) << shift
			if b < 0x80 {
				break
			}
		}
"""
R_("pb-size-helper", "C03 C04", [fe_(PB, "func (m *CallData) SizeVT()",
 ("""	l = len(m.Data)
	if l > 0 {
		n += 1 + l + protobuf_go_lite.SizeOfVarint(uint64(l))
	}
""", """	n += sizeOfBytesField(len(m.Data))
"""), ("""	l = len(m.Error)
	if l > 0 {
		n += 1 + l + protobuf_go_lite.SizeOfVarint(uint64(l))
	}
""", """	n += sizeOfBytesField(len(m.Error))
"""), ("""	var l int
	_ = l
""", "")), (PB, None, """
// sizeOfBytesField is the size of a length-delimited field.
func sizeOfBytesField(l int) int {
	if l == 0 {
		return 0
	}
	return 1 + protobuf_go_lite.SizeOfVarint(uint64(l)) + l
}
""")])
R_("pb-size-reorder", "C03", [fe_(PB, "func (m *CallStart) SizeVT()",
 ("""	if m.DataIsZero {
		n += 2
	}
	n += len(m.unknownFields)
""", """	n += len(m.unknownFields)
	if m.DataIsZero {
		n++
		n++
	}
"""))])
R_("pb-marshal-bool", "C03", [fe_(PB, "func (m *CallData) MarshalToSizedBufferVT(",
 ("""		i--
		if m.Complete {
			dAtA[i] = 1
		} else {
			dAtA[i] = 0
		}
		i--
		dAtA[i] = 0x18
""", """		i -= 2
		dAtA[i], dAtA[i+1] = 0x18, 1
"""))])
R_("pb-marshal-helper", "C03", [fe_(PB, "func (m *CallStart) MarshalToSizedBufferVT(",
 ("""	if len(m.RpcMethod) > 0 {
		i -= len(m.RpcMethod)
		copy(dAtA[i:], m.RpcMethod)
		i = protobuf_go_lite.EncodeVarint(dAtA, i, uint64(len(m.RpcMethod)))
		i--
		dAtA[i] = 0x12
	}
""", """	i = putString(dAtA, i, 0x12, m.RpcMethod)
"""), ("""	if len(m.RpcService) > 0 {
		i -= len(m.RpcService)
		copy(dAtA[i:], m.RpcService)
		i = protobuf_go_lite.EncodeVarint(dAtA, i, uint64(len(m.RpcService)))
		i--
		dAtA[i] = 0xa
	}
""", """	i = putString(dAtA, i, 0x0a, m.RpcService)
""")), (PB, None, """
// putString writes a string field in front of i.
func putString(dAtA []byte, i int, tag byte, s string) int {
	if s == "" {
		return i
	}
	i -= len(s)
	copy(dAtA[i:], s)
	i = protobuf_go_lite.EncodeVarint(dAtA, i, uint64(len(s))) - 1
	dAtA[i] = tag
	return i
}
""")])
R_("pb-marshalvt-rewrite", "C03", [fe_(PB, "func (m *Packet) MarshalVT(",
 ("""	size := m.SizeVT()
	dAtA = make([]byte, size)
	n, err := m.MarshalToSizedBufferVT(dAtA[:size])
	if err != nil {
		return nil, err
	}
	return dAtA[:n], nil
""", """	dAtA = make([]byte, m.SizeVT())
	n, err := m.MarshalToSizedBufferVT(dAtA)
	if err == nil {
		return dAtA[:n], nil
	}
	return nil, err
"""))])
R_("pb-decode-copy", "C03 C04", [fe_(PB, "func (m *CallData) UnmarshalVT(",
 ("""			m.Data = append(m.Data[:0], dAtA[iNdEx:postIndex]...)
			if m.Data == nil {
				m.Data = []byte{}
			}
""", """			m.Data = make([]byte, byteLen)
			copy(m.Data, dAtA[iNdEx:postIndex])
"""))])
R_("pb-decode-tag-helper", "C03 C04", [fe_(PB, "func (m *CallData) UnmarshalVT(",
 (VAR, """		wire, next, err := readTag(dAtA, iNdEx)
		if err != nil {
			return err
		}
		iNdEx = next
""")), (PB, None, """
// readTag decodes the varint at position i.
func readTag(dAtA []byte, i int) (uint64, int, error) {
	var wire uint64
	for shift := uint(0); shift < 64; shift += 7 {
		if i >= len(dAtA) {
			return 0, i, io.ErrUnexpectedEOF
		}
		b := dAtA[i]
		i++
		wire |= uint64(b&0x7F) << shift
		if b < 0x80 {
			return wire, i, nil
		}
	}
	return 0, i, protobuf_go_lite.ErrIntOverflow
}
""")])
R_("pb-decode-checks", "C03 C04", [fe_(PB, "func (m *CallStart) UnmarshalVT(",
 ("""		if wireType == 4 {
			return fmt.Errorf("proto: CallStart: wiretype end group for non-group")
		}
		if fieldNum <= 0 {
			return fmt.Errorf("proto: CallStart: illegal tag %d (wire type %d)", fieldNum, wire)
		}
""", """		switch {
		case wireType == 4:
			return fmt.Errorf("proto: CallStart: wiretype end group for non-group")
		case fieldNum < 1:
			return fmt.Errorf("proto: CallStart: illegal tag %d (wire type %d)", fieldNum, wire)
		}
"""))])
R_("pb-packet-decode", "C03 C04", [fe_(PB, "func (m *Packet) UnmarshalVT(",
 ("""			if oneof, ok := m.Body.(*Packet_CallData); ok {
				if err := oneof.CallData.UnmarshalVT(dAtA[iNdEx:postIndex]); err != nil {
					return err
				}
			} else {
				v := &CallData{}
				if err := v.UnmarshalVT(dAtA[iNdEx:postIndex]); err != nil {
					return err
				}
				m.Body = &Packet_CallData{CallData: v}
			}
			iNdEx = postIndex
""", """			body := dAtA[iNdEx:postIndex]
			iNdEx = postIndex
			oneof, ok := m.Body.(*Packet_CallData)
			if !ok {
				oneof = &Packet_CallData{CallData: &CallData{}}
			}
			if err := oneof.CallData.UnmarshalVT(body); err != nil {
				return err
			}
			m.Body = oneof
"""))])
R_("strip-prefix-loop", "C15", [fe_("srpc/strip-prefix.go", "func CheckStripPrefix(",
 ("""	if len(matchPrefixes) == 0 {
		return id, ""
	}

	var matched bool
	for _, prefix := range matchPrefixes {
		matched = strings.HasPrefix(id, prefix)
		if matched {
			matchedPrefix = prefix
			break
		}
	}
	if !matched {
		return id, ""
	}
	return id[len(matchedPrefix):], matchedPrefix
""", """	for _, prefix := range matchPrefixes {
		if rest, ok := strings.CutPrefix(id, prefix); ok {
			return rest, prefix
		}
	}
	return id, ""
"""))])
R_("writer-close-order", "C26", [fe_("srpc/writer.go", "func (s *packetWriterWithClose) Close()",
 ("""	err := s.PacketWriter.Close()
	err2 := s.closeFn()
	if err != nil {
		return err
	}
	return err2
""", """	err := s.PacketWriter.Close()
	if err2 := s.closeFn(); err == nil {
		err = err2
	}
	return err
"""))])
R_("pipe-select", "C27", [fe_("srpc/stream-pipe.go", "func (p *pipeStream) MsgRecv(",
 ("""		select {
		case data := <-p.dataCh:
			return msg.UnmarshalVT(data)
		default:
			return io.EOF
		}
""", """		return p.drain(msg)
""")), ("srpc/stream-pipe.go", None, """
// drain delivers a message which was sent before the end.
func (p *pipeStream) drain(msg Message) error {
	select {
	case data := <-p.dataCh:
		return msg.UnmarshalVT(data)
	default:
	}
	return io.EOF
}
""")])
R_("pipe-close", "C27", [fe_("srpc/stream-pipe.go", "func (p *pipeStream) closeRemote(",
 ("""	p.closeOnce.Do(func() {
		close(p.other.eofCh)
	})
""", """	eof := p.other.eofCh
	p.closeOnce.Do(func() { close(eof) })
"""))])
R_("proxy-split", "C22", [fe_("rpcstream/proxy.go", "func HandleProxyRpcStream[",
 ("""		errStr := ackErrorText(err)
		_ = stream.Send(&RpcStreamPacket{
			Body: &RpcStreamPacket_Ack{
				Ack: &RpcAck{Error: errStr},
			},
		})
		return err
""", """		sendAckError(stream, err)
		return err
""")), ("rpcstream/proxy.go", None, """
// sendAckError reports err to the caller.
func sendAckError(stream RpcStream, err error) {
	ack := &RpcAck{Error: ackErrorText(err)}
	_ = stream.Send(&RpcStreamPacket{Body: &RpcStreamPacket_Ack{Ack: ack}})
}
""")])
R_("proxy-copy-loop", "C22", [fe_("rpcstream/proxy.go", "func copyRpcStreamTo(",
 ("""			if len(pkt.GetData()) == 0 {
				continue
			}
			err = s2.MsgSend(pkt)
			pkt.Clear()
			if err != nil {
				return err
			}
""", """			if len(pkt.GetData()) != 0 {
				err = s2.MsgSend(pkt)
				pkt.Clear()
				if err != nil {
					return err
				}
			}
"""))])
R_("echo-exec-inline", "C24", [fe_("echo/echo_srpc.pb.go", "func (c *srpcEchoerClient) Echo(",
 ("""	out := new(EchoMsg)
	err := c.cc.ExecCall(ctx, c.serviceID, "Echo", in, out)
	if err != nil {
		return nil, err
	}
	return out, nil
""", """	out := &EchoMsg{}
	if err := c.cc.ExecCall(ctx, c.serviceID, "Echo", in, out); err != nil {
		return nil, err
	}
	return out, nil
"""))])

# behaviour-preserving edits of the code generator
GN="cmd/protoc-gen-go-starpc/main.go"
R_("gen-helper-block", "C31", [(GN, '''			s.P("req := new(", inType, ")")
			s.P("if err := strm.MsgRecv(req); err != nil { return err }")
''', '''			s.recvRequest(inType)
'''), (GN, None, '''
// recvRequest emits the code which receives the request.
func (s *srpc) recvRequest(inType string) {
	s.P("req := &", inType, "{}")
	s.P("if rerr := strm.MsgRecv(req); rerr != nil { return rerr }")
}
''')])
R_("gen-if-chain", "C31", [(GN, '''		s.P("case ", strconv.Quote(methodID), ":")
		s.P("return true, d.InvokeMethod_", method.GoName, "(d.impl, strm)")
	}
	s.P("default:")
	s.P("return false, nil")
	s.P("}")
	s.P("}")
''', '''		s.P("if methodID == ", strconv.Quote(methodID), " {")
		s.P("return true, d.InvokeMethod_", method.GoName, "(d.impl, strm)")
		s.P("}")
	}
	s.P("return false, nil")
	s.P("}")
'''), (GN, '''	s.P("switch methodID {")
''', '')])
R_("gen-client-named-results", "C31", [(GN, '''	s.P("stream, err := c.cc.NewStream(ctx, c.serviceID, ", methodQuote, ", ", firstMsgRef, ")")
	s.P("if err != nil { return nil, err }")
	s.P("strm := &", s.ClientStreamImpl(p), "{stream}")
	if !p.Desc.IsStreamingClient() {
		s.P("if err := strm.CloseSend(); err != nil { return nil, err }")
	}
	s.P("return strm, nil")
''', '''	s.P("base, openErr := c.cc.NewStream(ctx, c.serviceID, ", methodQuote, ", ", firstMsgRef, ")")
	s.P("if openErr != nil { return nil, openErr }")
	if !p.Desc.IsStreamingClient() {
		s.P("if closeErr := base.CloseSend(); closeErr != nil { return nil, closeErr }")
	}
	s.P("return &", s.ClientStreamImpl(p), "{Stream: base}, nil")
''')])
R_("gen-names-helper", "C31", [(GN, '''	return "srpc" +
		strings.ReplaceAll(method.Parent.GoName, "_", "__") + "_" +
		strings.ReplaceAll(method.GoName, "_", "__") +
		"Client"
''', '''	return "srpc" + joinNames(method) + "Client"
'''), (GN, None, '''
// joinNames joins the names of the service and the method.
func joinNames(method *protogen.Method) string {
	double := func(name string) string { return strings.Join(strings.Split(name, "_"), "__") }
	return double(method.Parent.GoName) + "_" + double(method.GoName)
}
''')])
PB = "srpc/rpcproto.pb.go"
RB = "rpcstream/rpcstream.pb.go"
R_("json-name-helper", "C32", [(PB, '''		s.WriteMoreIf(&wroteField)
		s.WriteObjectField("rpcService")
''', '''		startField(s, &wroteField, "rpcService")
'''), (PB, '''		s.WriteMoreIf(&wroteField)
		s.WriteObjectField("rpcMethod")
''', '''		startField(s, &wroteField, "rpcMethod")
'''), (PB, None, '''
// startField writes the separator, if one is due, and the name of a field.
func startField(s *json.MarshalState, wrote *bool, name string) {
	s.WriteMoreIf(wrote)
	s.WriteObjectField(name)
}
''')])
R_("json-field-order", "C32", [(PB, '''	if x.Complete || s.HasField("complete") {
		s.WriteMoreIf(&wroteField)
		s.WriteObjectField("complete")
		s.WriteBool(x.Complete)
	}
	if x.Error != "" || s.HasField("error") {
		s.WriteMoreIf(&wroteField)
		s.WriteObjectField("error")
		s.WriteString(x.Error)
	}
''', '''	if len(x.Error) != 0 || s.HasField("error") {
		s.WriteMoreIf(&wroteField)
		s.WriteObjectField("error")
		s.WriteString(x.Error)
	}
	if s.HasField("complete") || x.Complete {
		s.WriteMoreIf(&wroteField)
		s.WriteObjectField("complete")
		s.WriteBool(x.Complete)
	}
''')])
R_("json-null-body-early", "C32", [(RB, '''			ov := &RpcStreamPacket_Ack{}
			x.Body = ov
			if s.ReadNil() {
				ov.Ack = nil
				return
			}
			ov.Ack = &RpcAck{}
			ov.Ack.UnmarshalProtoJSON(s.WithField("ack", true))
''', '''			if s.ReadNil() {
				x.Body = &RpcStreamPacket_Ack{}
				return
			}
			ack := new(RpcAck)
			x.Body = &RpcStreamPacket_Ack{Ack: ack}
			ack.UnmarshalProtoJSON(s.WithField("ack", true))
'''), (RB, '''	s.ReadObject(func(key string) {
		switch key {
		default:
			s.Skip() // ignore unknown field
		case "component_id", "componentId":
			s.AddField("component_id")
			x.ComponentId = s.ReadString()
		}
	})
''', '''	s.ReadObject(func(key string) {
		if key != "component_id" && key != "componentId" {
			s.Skip() // ignore unknown field
			return
		}
		s.AddField("component_id")
		id := s.ReadString()
		x.ComponentId = id
	})
''')])

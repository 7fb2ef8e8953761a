# Edits of the wrappers and packet helpers which keep the behaviour.
R_("wrap-close-named", "C26", [("srpc/stream.go", '''	err := s.Stream.Close()
	err2 := s.closeFn()
	if err != nil {
		return err
	}
	return err2
''', '''	err := s.Stream.Close()
	if closeErr := s.closeFn(); err == nil {
		err = closeErr
	}
	return err
'''), ("srpc/writer.go", '''	err := s.PacketWriter.Close()
	err2 := s.closeFn()
	if err != nil {
		return err
	}
	return err2
''', '''	return firstErr(s.PacketWriter.Close(), s.closeFn())
'''), ("srpc/writer.go", None, '''
// firstErr returns the first error which is not nil.
func firstErr(errs ...error) error {
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}
''')])
R_("wrap-close-defer", "C26", [("srpc/stream.go", '''func (s *streamWithClose) Close() error {
	err := s.Stream.Close()
	err2 := s.closeFn()
	if err != nil {
		return err
	}
	return err2
}
''', '''func (s *streamWithClose) Close() (err error) {
	defer func() {
		if closeErr := s.closeFn(); err == nil {
			err = closeErr
		}
	}()
	return s.Stream.Close()
}
''')])
R_("prefix-invoker-invert", "C15 C04", [("srpc/invoker-prefix.go", '''	if len(i.serviceIDPrefixes) != 0 {
		strippedID, matchedPrefix := CheckStripPrefix(serviceID, i.serviceIDPrefixes)
		if len(matchedPrefix) == 0 {
			return false, nil
		}
		serviceID = strippedID
	}

	return i.inv.InvokeMethod(serviceID, methodID, strm)
''', '''	if len(i.serviceIDPrefixes) == 0 {
		return i.inv.InvokeMethod(serviceID, methodID, strm)
	}
	if id, prefix := CheckStripPrefix(serviceID, i.serviceIDPrefixes); prefix != "" {
		return i.inv.InvokeMethod(id, methodID, strm)
	}
	return false, nil
''')])
R_("vmux-helper", "C26", [("srpc/mux-verbose.go", '''	if v.veryVerbose {
		t1 := time.Now()
		defer func() {
			v.le.Debugf(
				"HasService(serviceID(%s)) => dur(%v) has(%v)",
				serviceID,
				time.Since(t1).String(),
				has,
			)
		}()
	}
	return v.mx.HasService(serviceID)
''', '''	if !v.veryVerbose {
		return v.mx.HasService(serviceID)
	}

	t1 := time.Now()
	has = v.mx.HasService(serviceID)
	v.le.Debugf(
		"HasService(serviceID(%s)) => dur(%v) has(%v)",
		serviceID,
		time.Since(t1).String(),
		has,
	)
	return has
'''), ("srpc/mux-verbose.go", '''	if v.veryVerbose {
		t1 := time.Now()
		defer func() {
			v.le.Debugf(
				"Register(handler(%v)) => dur(%v) err(%v)",
				handler,
				time.Since(t1).String(),
				err,
			)
		}()
	}
	return v.mx.Register(handler)
''', '''	if v.veryVerbose {
		defer v.logRegister(handler, time.Now(), &err)
	}
	return v.mx.Register(handler)
'''), ("srpc/mux-verbose.go", None, '''
// logRegister logs the result of Register.
func (v *VMux) logRegister(handler Handler, t1 time.Time, err *error) {
	v.le.Debugf(
		"Register(handler(%v)) => dur(%v) err(%v)",
		handler,
		time.Since(t1).String(),
		*err,
	)
}
''')])
R_("vclient-inline", "C26", [("srpc/client-verbose.go", '''	err = c.client.ExecCall(ctx, service, method, in, out)
	return err
''', '''	return c.client.ExecCall(ctx, service, method, in, out)
'''), ("srpc/client-verbose.go", '''	t1 := time.Now()
	defer func() {
		c.le.Debugf(
			"NewStream(service(%s), method(%s)) => dur(%v) err(%v)",
			service,
			method,
			time.Since(t1).String(),
			err,
		)
	}()
	stream, err = c.client.NewStream(ctx, service, method, firstMsg)
	return stream, err
''', '''	t1 := time.Now()
	stream, err = c.client.NewStream(ctx, service, method, firstMsg)
	c.le.Debugf(
		"NewStream(service(%s), method(%s)) => dur(%v) err(%v)",
		service,
		method,
		time.Since(t1).String(),
		err,
	)
	return
''')])
R_("packet-errtext-helper", "C07 C08 C05 C10", [("srpc/packet.go", '''	var errStr string
	if err != nil {
		errStr = err.Error()
		if errStr == "" {
			// an empty error text would signal success to the remote
			errStr = "unknown error"
		}
	}
	return &Packet{Body: &Packet_CallData{
		CallData: &CallData{
			Data:       data,
			DataIsZero: dataIsZero,
			Complete:   err != nil || complete,
			Error:      errStr,
		},
	}}
''', '''	callData := &CallData{Data: data, DataIsZero: dataIsZero, Complete: complete}
	if err != nil {
		callData.Complete = true
		callData.Error = errorText(err)
	}
	return &Packet{Body: &Packet_CallData{CallData: callData}}
'''), ("srpc/packet.go", None, '''
// errorText returns the text sent for an error, which is never empty.
func errorText(err error) string {
	if text := err.Error(); text != "" {
		return text
	}
	// an empty error text would signal success to the remote
	return "unknown error"
}
''')])
R_("packet-validate-switch", "C05 C04", [("srpc/packet.go", '''	if len(p.GetData()) == 0 && !p.GetComplete() && len(p.GetError()) == 0 && !p.GetDataIsZero() {
		return ErrEmptyPacket
	}
	return nil
''', '''	switch {
	case len(p.GetData()) != 0, p.GetComplete(), p.GetDataIsZero():
		return nil
	case p.GetError() != "":
		return nil
	}
	return ErrEmptyPacket
''')])
R_("pipe-server-order", "C25 C27", [("srpc/server-pipe.go", '''		go server.HandleStream(ctx, srvPipe)
		clientPrw := NewPacketReadWriter(clientPipe)
		go clientPrw.ReadPump(msgHandler, closeHandler)
		return clientPrw, nil
''', '''		clientPrw := NewPacketReadWriter(clientPipe)
		go func() { clientPrw.ReadPump(msgHandler, closeHandler) }()
		go server.HandleStream(ctx, srvPipe)
		return clientPrw, nil
''')])
R_("invoker-slice-index", "C14 C04", [("srpc/invoker.go", '''	for _, invoker := range s {
		if invoker == nil {
			continue
		}

		found, err := invoker.InvokeMethod(serviceID, methodID, strm)
		if found || err != nil {
			return true, err
		}
	}
	return false, nil
''', '''	for len(s) != 0 {
		invoker := s[0]
		s = s[1:]
		if invoker != nil {
			if found, err := invoker.InvokeMethod(serviceID, methodID, strm); found || err != nil {
				return true, err
			}
		}
	}
	return false, nil
''')])
R_("raw-setdata-append", "C17 C18", [("srpc/message.go", '''		if cap(m.data) >= len(data) {
			m.data = m.data[:len(data)]
		} else {
			m.data = make([]byte, len(data))
		}
		copy(m.data, data)
	} else {
		m.data = data
	}
''', '''		if cap(m.data) < len(data) {
			m.data = make([]byte, len(data))
		}
		m.data = m.data[:len(data)]
		copy(m.data, data)
		return
	}
	m.data = data
''')])
R_("clientset-consume", "C16", [("srpc/client-set.go", '''	var any bool
	for _, client := range c.clients {
		if client == nil {
			continue
		}
		err := doCall(client)
''', '''	var any bool
	for rest := c.clients; len(rest) != 0; {
		client := rest[0]
		rest = rest[1:]
		if client == nil {
			continue
		}
		err := doCall(client)
''')])

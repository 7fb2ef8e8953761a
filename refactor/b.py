# behaviour-preserving edits of the routing and stream layers
MUX="C13 C14 C23 C26"
R_("mux-lookup-helper",MUX,[("srpc/mux.go","""	var handler Handler
	m.rmtx.RLock()
	if serviceID == "" {
		for _, svc := range m.services {
			if handler = svc[methodID]; handler != nil {
				break
			}
		}
	} else {
		svcMethods := m.services[serviceID]
		if svcMethods != nil {
			handler = svcMethods[methodID]
		}
	}
	m.rmtx.RUnlock()

	if handler != nil {
		return""","""	if handler := m.lookup(serviceID, methodID); handler != nil {
		return"""),("srpc/mux.go",None,"""
// lookup finds the handler of a method.
func (m *mux) lookup(serviceID, methodID string) Handler {
	m.rmtx.RLock()
	defer m.rmtx.RUnlock()

	if serviceID != "" {
		return m.services[serviceID][methodID]
	}
	for _, svc := range m.services {
		if handler := svc[methodID]; handler != nil {
			return handler
		}
	}
	return nil
}
""")])
R_("mux-misc",MUX,[("srpc/mux.go","""	serviceMethods := m.services[serviceID]
	if serviceMethods == nil {
		serviceMethods = make(muxMethods)
		m.services[serviceID] = serviceMethods
	}
	for _, methodID := range methodIDs {
		if methodID != "" {
			serviceMethods[methodID] = handler
		}
	}
""","""	serviceMethods, ok := m.services[serviceID]
	if !ok {
		serviceMethods = make(muxMethods, len(methodIDs))
		m.services[serviceID] = serviceMethods
	}
	for i := 0; i < len(methodIDs); i++ {
		if methodIDs[i] == "" {
			continue
		}
		serviceMethods[methodIDs[i]] = handler
	}
"""),("srpc/mux.go","""	m.rmtx.Lock()
	defer m.rmtx.Unlock()

	return len(m.services[serviceID]) != 0
""","""	m.rmtx.RLock()
	n := len(m.services[serviceID])
	m.rmtx.RUnlock()
	return n > 0
"""),("srpc/mux.go","""	m.rmtx.Lock()
	defer m.rmtx.Unlock()

	return m.services[serviceID][methodID] != nil
""","""	m.rmtx.RLock()
	defer m.rmtx.RUnlock()

	if methods, ok := m.services[serviceID]; ok {
		_, found := methods[methodID]
		return found
	}
	return false
"""),("srpc/mux.go","""	for _, invoker := range m.fallback {
		if invoker != nil {
			handled, err := invoker.InvokeMethod(serviceID, methodID, strm)
			if err != nil || handled {
				return handled, err
			}
		}
	}
""","""	for i := range m.fallback {
		invoker := m.fallback[i]
		if invoker == nil {
			continue
		}
		if handled, err := invoker.InvokeMethod(serviceID, methodID, strm); handled || err != nil {
			return handled, err
		}
	}
""")])
R_("mux-copyonwrite",MUX,[("srpc/mux.go","""	serviceMethods := m.services[serviceID]
	if serviceMethods == nil {
		serviceMethods = make(muxMethods)
		m.services[serviceID] = serviceMethods
	}
""","""	if m.services[serviceID] == nil {
		m.services[serviceID] = make(muxMethods)
	}
	serviceMethods := m.services[serviceID]
""")])
R_("prefix-cut","C15 C26",[("srpc/strip-prefix.go","""	var matched bool
	for _, prefix := range matchPrefixes {
		matched = strings.HasPrefix(id, prefix)
		if matched {
			matchedPrefix = prefix
			break
		}
	}
	if !matched {
		return id, ""
	}
	return id[len(matchedPrefix):], matchedPrefix
""","""	for _, prefix := range matchPrefixes {
		if stripped, ok := strings.CutPrefix(id, prefix); ok {
			return stripped, prefix
		}
	}
	return id, ""
""")])
R_("prefix-trim","C15",[("srpc/strip-prefix.go","""	var matched bool
	for _, prefix := range matchPrefixes {
		matched = strings.HasPrefix(id, prefix)
		if matched {
			matchedPrefix = prefix
			break
		}
	}
	if !matched {
		return id, ""
	}
	return id[len(matchedPrefix):], matchedPrefix
""","""	for i := 0; i < len(matchPrefixes); i++ {
		prefix := matchPrefixes[i]
		if !strings.HasPrefix(id, prefix) {
			continue
		}
		return strings.TrimPrefix(id, prefix), prefix
	}
	return id, ""
"""),("srpc/invoker-prefix.go","""	if len(i.serviceIDPrefixes) != 0 {
		strippedID, matchedPrefix := CheckStripPrefix(serviceID, i.serviceIDPrefixes)
		if len(matchedPrefix) == 0 {
			return false, nil
		}
		serviceID = strippedID
	}

	return i.inv.InvokeMethod(serviceID, methodID, strm)
""","""	if len(i.serviceIDPrefixes) == 0 {
		return i.inv.InvokeMethod(serviceID, methodID, strm)
	}
	strippedID, matchedPrefix := CheckStripPrefix(serviceID, i.serviceIDPrefixes)
	if matchedPrefix == "" {
		return false, nil
	}
	return i.inv.InvokeMethod(strippedID, methodID, strm)
"""),("srpc/client-prefix.go","""	if len(i.serviceIDPrefixes) != 0 {
		strippedID, matchedPrefix := CheckStripPrefix(service, i.serviceIDPrefixes)
		if len(matchedPrefix) == 0 {
			return service, ErrUnimplemented
		}
		return strippedID, nil
	}
	return service, nil
""","""	if len(i.serviceIDPrefixes) == 0 {
		return service, nil
	}
	strippedID, matchedPrefix := CheckStripPrefix(service, i.serviceIDPrefixes)
	if matchedPrefix == "" {
		return service, ErrUnimplemented
	}
	return strippedID, nil
""")])
R_("invoker-slice","C14",[("srpc/invoker.go","""	for _, invoker := range s {
		if invoker == nil {
			continue
		}

		found, err := invoker.InvokeMethod(serviceID, methodID, strm)
		if found || err != nil {
			return true, err
		}
	}
	return false, nil
}

// _ is""","""	for i := 0; i < len(s); i++ {
		if s[i] != nil {
			found, err := s[i].InvokeMethod(serviceID, methodID, strm)
			switch {
			case err != nil:
				return true, err
			case found:
				return true, nil
			}
		}
	}
	return false, nil
}

// _ is"""),("srpc/invoker.go","""	if f == nil {
		return false, nil
	}
	return f(""","""	if f != nil {
		return f(serviceID, methodID, strm)
	}
	return false, nil
}

var _ = func(f InvokerFunc, serviceID, methodID string, strm Stream) (bool, error) {
	return f(""")])
R_("clientset-loop","C16",[("srpc/client-set.go","""	var any bool
	for _, client := range c.clients {
		if client == nil {
			continue
		}
		err := doCall(client)
		any = true
		if err == nil {
			return nil
		}
		if err == context.Canceled {
			select {
			case <-ctx.Done():
				return context.Canceled
			default:
				continue
			}
		}
		if err.Error() == ErrUnimplemented.Error() {
			continue
		}
		return err
	}

	if !any {
		return ErrNoAvailableClients
	}

	return ErrUnimplemented
""","""	result := ErrNoAvailableClients
	for i := range c.clients {
		if c.clients[i] == nil {
			continue
		}
		result = ErrUnimplemented
		err := doCall(c.clients[i])
		switch {
		case err == nil:
			return nil
		case err == context.Canceled:
			if ctx.Err() != nil {
				return context.Canceled
			}
		case err.Error() != ErrUnimplemented.Error():
			return err
		}
	}
	return result
""")])
R_("clientset-inline","C16",[("srpc/client-set.go","""	err := c.execCall(ctx, func(client Client) error {
		var err error
		strm, err = client.NewStream(ctx, service, method, firstMsg)
		return err
	})
	return strm, err
""","""	open := func(client Client) (err error) {
		strm, err = client.NewStream(ctx, service, method, firstMsg)
		return
	}
	if err := c.execCall(ctx, open); err != nil {
		return strm, err
	}
	return strm, nil
""")])
R_("rawmessage","C17 C19 C22",[("srpc/message.go","""	if m.copy {
		if cap(m.data) >= len(data) {
			m.data = m.data[:len(data)]
		} else {
			m.data = make([]byte, len(data))
		}
		copy(m.data, data)
	} else {
		m.data = data
	}
""","""	if !m.copy {
		m.data = data
		return
	}
	n := len(data)
	if n > cap(m.data) {
		m.data = make([]byte, n)
	}
	m.data = m.data[:n]
	copy(m.data, data)
"""),("srpc/message.go","""	if !m.copy {
		return m.data, nil
	}

	data := make([]byte, len(m.data))
	copy(data, m.data)
	return data, nil
""","""	data := m.data
	if m.copy {
		data = make([]byte, len(m.data))
		copy(data, m.data)
	}
	return data, nil
""")])
R_("rawmessage-append","C17 C19 C22",[("srpc/message.go","""		if cap(m.data) >= len(data) {
			m.data = m.data[:len(data)]
		} else {
			m.data = make([]byte, len(data))
		}
		copy(m.data, data)
	} else""","""		m.data = append(m.data[:0], data...)
	} else"""),("srpc/message.go","""	data := make([]byte, len(m.data))
	copy(data, m.data)
	return data, nil
""","""	return append(make([]byte, 0, len(m.data)), m.data...), nil
""")])
R_("streamrwc","C19",[("srpc/stream-rwc.go","""	readBuf := p
	for len(readBuf) != 0 && err == nil {
		var rn int

		// if the buffer has data, read from it.
		if s.buf.Len() != 0 {
			rn, err = s.buf.Read(readBuf)
		} else {
			if n != 0 {
				// if we read data to p already, return now.
				break
			}

			s.readMsg.Clear()
			if err := s.MsgRecv(&s.readMsg); err != nil {
				return n, err
			}
			data := s.readMsg.GetData()
			if len(data) == 0 {
				continue
			}

			// read as much as possible directly to the output
			copy(readBuf, data)
			if len(data) > len(readBuf) {
				// we read some of the data, buffer the rest.
				rn = len(readBuf)
				_, _ = s.buf.Write(data[rn:]) // never returns an error
			} else {
				// we read all of data
				rn = len(data)
			}
		}

		// advance readBuf by rn
		n += rn
		readBuf = readBuf[rn:]
	}
	return n, err
""","""	if len(p) == 0 {
		return 0, nil
	}
	// return buffered data, if any
	if s.buf.Len() > 0 {
		return s.buf.Read(p)
	}
	for {
		s.readMsg.Clear()
		if err := s.MsgRecv(&s.readMsg); err != nil {
			return 0, err
		}
		data := s.readMsg.GetData()
		if len(data) == 0 {
			continue
		}
		n = copy(p, data)
		_, _ = s.buf.Write(data[n:]) // buffer the rest
		return n, nil
	}
""")])
R_("rwcconn","C19 C23",[("srpc/rwc-conn.go","""	pl := len(pkt)
	copy(b, pkt)
	if len(b) < pl {
		p.rbuf = pkt[len(b):]
		return len(b), nil
	}
	p.ar.Put(&pkt)
	return pl, nil
""","""	if n = copy(b, pkt); n != len(pkt) {
		p.rbuf = pkt[n:]
	} else {
		p.ar.Put(&pkt)
	}
	return n, nil
"""),("srpc/rwc-conn.go","""	p.dmtx.Lock()
	deadline := p.rd
	p.dmtx.Unlock()

	ctx""","""	deadline := p.readDeadline()
	ctx"""),("srpc/rwc-conn.go",None,"""
// readDeadline returns the read deadline.
func (p *RwcConn) readDeadline() time.Time {
	p.dmtx.Lock()
	defer p.dmtx.Unlock()
	return p.rd
}
"""),("srpc/rwc-conn.go","""	written := 0
	for written < len(pkt) {
		n, err = p.rwc.Write(pkt[written:])
		written += n
		if err != nil {
			return written, err
		}
	}
	return written, nil
""","""	total := 0
	for rest := pkt; len(rest) != 0; rest = pkt[total:] {
		wn, werr := p.rwc.Write(rest)
		if total += wn; werr != nil {
			return total, werr
		}
	}
	return total, nil
""")])
R_("rwcconn-pump","C19 C23",[("srpc/rwc-conn.go","""	defer func() {
		p.closeErr = rerr
		close(p.packetCh)
	}()

	for {
		select {
		case <-p.ctx.Done():
			return p.ctx.Err()
		default:
		}

		pktBuf""","""	defer close(p.packetCh)
	defer func() { p.closeErr = rerr }()

	for {
		if err := p.ctx.Err(); err != nil {
			return err
		}

		pktBuf"""),("srpc/rwc-conn.go","""		if n == 0 {
			p.ar.Put(&pktBuf)
		} else {
			select {
			case <-p.ctx.Done():
				return context.Canceled
			case p.packetCh <- pktBuf[:n]:
			}
		}
""","""		if n > 0 {
			select {
			case p.packetCh <- pktBuf[:n]:
			case <-p.ctx.Done():
				return context.Canceled
			}
		} else {
			p.ar.Put(&pktBuf)
		}
"""),("srpc/rwc-conn.go","""	if size != 0 {
		if cap(buf) < size {
			buf = make([]byte, size)
		} else {
			buf = buf[:size]
		}
	} else {
		buf = buf[:cap(buf)]
	}
	return buf
""","""	if size == 0 {
		return buf[:cap(buf)]
	}
	if cap(buf) < size {
		return make([]byte, size)
	}
	return buf[:size]
""")])
R_("pipe","C27",[("srpc/stream-pipe.go","""	select {
	case <-p.ctx.Done():
		return context.Canceled
	case <-p.other.ctx.Done():
		// the remote will not receive any more messages
		return io.ErrClosedPipe
	case p.other.dataCh <- data:
		return nil
	}
""","""	remote := p.other
	select {
	case remote.dataCh <- data:
		return nil
	case <-remote.ctx.Done():
		return io.ErrClosedPipe
	case <-p.ctx.Done():
		return context.Canceled
	}
"""),("srpc/stream-pipe.go","""	p.ctxCancel()
	p.closeRemote()
	return nil
""","""	defer p.closeRemote()
	p.ctxCancel()
	return nil
"""),("srpc/stream-pipe.go","""	s1 := &pipeStream{dataCh: make(chan []byte, 5), eofCh: make(chan struct{})}
	s1.ctx, s1.ctxCancel = context.WithCancel(ctx)
	s2 := &pipeStream{other: s1, dataCh: make(chan []byte, 5), eofCh: make(chan struct{})}
	s2.ctx, s2.ctxCancel = context.WithCancel(ctx)
	s1.other = s2
	return s1, s2
""","""	s1, s2 := newPipeEnd(ctx), newPipeEnd(ctx)
	s1.other, s2.other = s2, s1
	return s1, s2
"""),("srpc/stream-pipe.go",None,"""
// newPipeEnd constructs one end of a pipe.
func newPipeEnd(ctx context.Context) *pipeStream {
	s := &pipeStream{dataCh: make(chan []byte, 5), eofCh: make(chan struct{})}
	s.ctx, s.ctxCancel = context.WithCancel(ctx)
	return s
}
""")])
R_("accept-serve","C25",[("srpc/accept.go","""		go func() {
			_ = srv.AcceptMuxedConn(ctx, mc)
			_ = nc.Close()
		}()
""","""		go serveMuxedConn(ctx, srv, nc, mc)
"""),("srpc/accept.go",None,"""
// serveMuxedConn serves the streams of the connection and then closes it.
func serveMuxedConn(ctx context.Context, srv *Server, nc net.Conn, mc network.MuxedConn) {
	defer nc.Close()
	_ = srv.AcceptMuxedConn(ctx, mc)
}
"""),("srpc/accept.go","""	"github.com/libp2p/go-yamux/v4"
""","""	"github.com/libp2p/go-libp2p/core/network"
	"github.com/libp2p/go-yamux/v4"
"""),("srpc/server.go","""	for {
		if err := ctx.Err(); err != nil {
			return context.Canceled
		}

		if mc.IsClosed() {
			return io.EOF
		}

		muxedStream, err := mc.AcceptStream()
		if err != nil {
			return err
		}
		go s.HandleStream(ctx, muxedStream)
	}
""","""	for ctx.Err() == nil {
		if mc.IsClosed() {
			return io.EOF
		}

		muxedStream, err := mc.AcceptStream()
		if err != nil {
			return err
		}
		go func() {
			s.HandleStream(ctx, muxedStream)
		}()
	}
	return context.Canceled
"""),("srpc/muxed-conn.go","""	var sess *yamux.Session
	var err error
	if outbound {
		sess, err = yamux.Client(conn, yamuxConf, nil)
	} else {
		sess, err = yamux.Server(conn, yamuxConf, nil)
	}
	if err != nil {""","""	newSession := yamux.Server
	if outbound {
		newSession = yamux.Client
	}
	sess, err := newSession(conn, yamuxConf, nil)
	if err != nil {""")])
R_("serve-misc","C25",[("srpc/net.go","""	listenErrCh := make(chan error, 1)
	go func() {
		listenErrCh <- AcceptMuxedListener(ctx, lis, srv, nil)
		_ = lis.Close()
	}()

	select {
	case <-ctx.Done():
		return context.Canceled
	case err := <-errCh:
		return err
	case err := <-listenErrCh:
		return err
	}
""","""	done := make(chan error, 1)
	go func() {
		defer lis.Close()
		done <- AcceptMuxedListener(ctx, lis, srv, nil)
	}()

	select {
	case err = <-done:
	case err = <-errCh:
	case <-ctx.Done():
		err = context.Canceled
	}
	return err
"""),("srpc/server.go","""	subCtx, subCtxCancel := context.WithCancel(ctx)
	defer subCtxCancel()
	prw""","""	ctx, cancel := context.WithCancel(ctx)
	defer cancel()
	prw"""),("srpc/server.go","NewServerRPC(subCtx,","NewServerRPC(ctx,"),("srpc/muxed-conn.go","""		if err != nil {
			// If the error is a timeout, context may be canceled.
			// Prefer the context canceled error (yamux returns timeout for context cancel.)
			timeoutErr, ok := err.(interface{ Timeout() bool })
			if ok && timeoutErr.Timeout() && ctx.Err() != nil {
				return nil, context.Canceled
			}
			return nil, err
		}
""","""		if err != nil {
			return nil, openStreamError(ctx, err)
		}
"""),("srpc/muxed-conn.go",None,"""
// openStreamError maps a timeout while ctx is done to context.Canceled.
func openStreamError(ctx context.Context, err error) error {
	timeoutErr, ok := err.(interface{ Timeout() bool })
	if ok && ctx.Err() != nil && timeoutErr.Timeout() {
		return context.Canceled
	}
	return err
}
""")])
R_("writer-close","C26",[("srpc/writer.go","""	err := s.PacketWriter.Close()
	err2 := s.closeFn()
	if err != nil {
		return err
	}
	return err2
""","""	werr := s.PacketWriter.Close()
	if cerr := s.closeFn(); werr == nil {
		return cerr
	}
	return werr
""")])
RS="C18 C20 C21 C22"
R_("rs-helpers",RS+" C04",[("rpcstream/rpcstream.go","""	initPkt, err := stream.Recv()
	if err != nil {
		return err
	}
	initInner, ok := initPkt.GetBody().(*RpcStreamPacket_Init)
	if !ok || initInner.Init == nil {
		return ErrUnexpectedPacket
	}

	// lookup the server for this component id
	ctx := stream.Context()
	componentID := initInner.Init.GetComponentId()
""","""	componentID, err := recvInit(stream)
	if err != nil {
		return err
	}
	ctx := stream.Context()
"""),("rpcstream/proxy.go","""	initPkt, err := stream.Recv()
	if err != nil {
		return err
	}
	initInner, ok := initPkt.GetBody().(*RpcStreamPacket_Init)
	if !ok || initInner.Init == nil {
		return ErrUnexpectedPacket
	}

	// lookup the caller for this component id
	ctx := stream.Context()
	componentID := initInner.Init.GetComponentId()
""","""	componentID, err := recvInit(stream)
	if err != nil {
		return err
	}
	ctx := stream.Context()
"""),("rpcstream/raw-stream.go","""	initPkt, err := stream.Recv()
	if err != nil {
		return err
	}
	initInner, ok := initPkt.GetBody().(*RpcStreamPacket_Init)
	if !ok || initInner.Init == nil {
		return ErrUnexpectedPacket
	}

	// lookup the server for this component id
	ctx := stream.Context()
	componentID := initInner.Init.GetComponentId()
""","""	componentID, err := recvInit(stream)
	if err != nil {
		return err
	}
	ctx := stream.Context()
"""),("rpcstream/rpcstream.go",None,"""
// recvInit receives the init packet and returns the component id.
func recvInit(stream RpcStream) (string, error) {
	pkt, err := stream.Recv()
	if err != nil {
		return "", err
	}
	if body, ok := pkt.GetBody().(*RpcStreamPacket_Init); ok && body.Init != nil {
		return body.Init.GetComponentId(), nil
	}
	return "", ErrUnexpectedPacket
}

// sendAck sends the ack packet with the error, if any.
func sendAck(stream RpcStream, err error) error {
	var errStr string
	if err != nil {
		errStr = ackErrorText(err)
	}
	ack := &RpcAck{Error: errStr}
	return stream.Send(&RpcStreamPacket{Body: &RpcStreamPacket_Ack{Ack: ack}})
}
"""),("rpcstream/rpcstream.go","""	var errStr string
	if err != nil {
		errStr = ackErrorText(err)
	}
	sendErr := stream.Send(&RpcStreamPacket{
		Body: &RpcStreamPacket_Ack{
			Ack: &RpcAck{Error: errStr},
		},
	})
	if err != nil""","""	sendErr := sendAck(stream, err)
	if err != nil"""),("rpcstream/raw-stream.go","""	var errStr string
	if err != nil {
		errStr = ackErrorText(err)
	}
	sendErr := stream.Send(&RpcStreamPacket{
		Body: &RpcStreamPacket_Ack{
			Ack: &RpcAck{Error: errStr},
		},
	})
	if err != nil""","""	sendErr := sendAck(stream, err)
	if err != nil"""),("rpcstream/proxy.go","""		errStr := ackErrorText(err)
		_ = stream.Send(&RpcStreamPacket{
			Body: &RpcStreamPacket_Ack{
				Ack: &RpcAck{Error: errStr},
			},
		})
		return""","""		_ = sendAck(stream, err)
		return""")])
R_("rs-waiterr",RS,[("rpcstream/proxy.go","""	var outErr error
	for range 2 {
		if err := <-errCh; err != nil && outErr == nil && err != io.EOF {
			outErr = err
		}
	}
	return outErr
""","""	err1, err2 := <-errCh, <-errCh
	if err1 != nil && err1 != io.EOF {
		return err1
	}
	if err2 == io.EOF {
		return nil
	}
	return err2
"""),("rpcstream/raw-stream.go","""	var outErr error
	for i := 0; i < 2; i++ {
		if err := <-errCh; err != nil && outErr == nil && err != io.EOF {
			outErr = err
		}
	}
	return outErr
""","""	return firstError(<-errCh, <-errCh)
"""),("rpcstream/raw-stream.go",None,"""
// firstError returns the first error which is not io.EOF.
func firstError(errs ...error) error {
	for _, err := range errs {
		if err != nil && err != io.EOF {
			return err
		}
	}
	return nil
}
""")])
R_("rs-open",RS,[("rpcstream/rpcstream.go","""	if waitAck {
		pkt, err := rpcStream.Recv()
		if err == nil {
			switch b := pkt.GetBody().(type) {
			case *RpcStreamPacket_Ack:
				if errStr := b.Ack.GetError(); errStr != "" {
					err = errors.Errorf("remote: %s", errStr)
				}
			default:
				err = errors.New("expected ack packet")
			}
		}
		if err != nil {
			_ = rpcStream.Close()
			return nil, err
		}
	}

	return rpcStream, nil
""","""	if !waitAck {
		return rpcStream, nil
	}
	if err := waitForAck(rpcStream); err != nil {
		_ = rpcStream.Close()
		return nil, err
	}
	return rpcStream, nil
"""),("rpcstream/rpcstream.go",None,"""
// waitForAck waits for the ack packet.
func waitForAck(strm RpcStream) error {
	pkt, err := strm.Recv()
	if err != nil {
		return err
	}
	ack, ok := pkt.GetBody().(*RpcStreamPacket_Ack)
	if !ok {
		return errors.New("expected ack packet")
	}
	if errStr := ack.Ack.GetError(); len(errStr) > 0 {
		return errors.Errorf("remote: %s", errStr)
	}
	return nil
}
"""),("rpcstream/writer.go","""	if len(p) == 0 {
		return 0, nil
	}
	err = r.Send(&RpcStreamPacket{
		Body: &RpcStreamPacket_Data{
			Data: p,
		},
	})
	if err != nil {
		return 0, err
	}
	return len(p), nil
""","""	if len(p) != 0 {
		pkt := &RpcStreamPacket{Body: &RpcStreamPacket_Data{Data: p}}
		if err := r.RpcStream.Send(pkt); err != nil {
			return 0, err
		}
	}
	return len(p), nil
""")])
R_("rs-readwriter",RS,[("rpcstream/read-writer.go","""	readBuf := p
	for len(readBuf) != 0 && err == nil {
		var rn int
""","""	if len(p) == 0 {
		return 0, nil
	}
	if r.buf.Len() > 0 {
		return r.buf.Read(p)
	}
	for {
		pkt, err := r.stream.Recv()
		if err != nil {
			return 0, err
		}
		if errStr := pkt.GetAck().GetError(); errStr != "" {
			return 0, errors.New(errStr)
		}
		if data := pkt.GetData(); len(data) != 0 {
			n := copy(p, data)
			if n < len(data) {
				_, _ = r.buf.Write(data[n:])
			}
			return n, nil
		}
	}
}

func (r *RpcStreamReadWriter) readOld(p []byte) (n int, err error) {
	readBuf := p
	for len(readBuf) != 0 && err == nil {
		var rn int
"""),("rpcstream/read-writer.go","""		data := pkt.GetData()
		if len(data) == 0 {
			continue
		}

		// call handler
		if err := cb(data); err != nil {
			return err
		}
""","""		if data := pkt.GetData(); len(data) > 0 {
			if err = cb(data); err != nil {
				return err
			}
		}
""")])
R_("rs-copy",RS,[("rpcstream/proxy.go","""	rerr := func() error {
		pkt := srpc.NewRawMessage(nil, true)
		for {
			err := s1.MsgRecv(pkt)
			if err != nil {
				return err
			}
			if len(pkt.GetData()) == 0 {
				continue
			}
			err = s2.MsgSend(pkt)
			pkt.Clear()
			if err != nil {
				return err
			}
		}
	}()

	s1""","""	rerr := pumpRpcStream(s1, s2)
	s1"""),("rpcstream/proxy.go",None,"""
// pumpRpcStream copies messages until an error.
func pumpRpcStream(src, dst RpcStream) error {
	msg := srpc.NewRawMessage(nil, true)
	for {
		if err := src.MsgRecv(msg); err != nil {
			return err
		}
		if len(msg.GetData()) != 0 {
			err := dst.MsgSend(msg)
			msg.Clear()
			if err != nil {
				return err
			}
		}
	}
}
"""),("rpcstream/raw-stream.go","""	buf := make([]byte, 8192)
	_, err := io.CopyBuffer(s2, s1, buf)
	_ = s1.Close()
	_ = s2.Close()
	if errCh""","""	_, err := io.CopyBuffer(s2, s1, make([]byte, 16*1024))
	_ = s2.Close()
	_ = s1.Close()
	if errCh""")])

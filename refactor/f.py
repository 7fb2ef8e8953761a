# Edits of the core (calls, mux, nested streams) which keep the behaviour.
CR = "srpc/common-rpc.go"
CL = "srpc/client-rpc.go"
SV = "srpc/server-rpc.go"
MX = "srpc/mux.go"
RS = "rpcstream/rpcstream.go"
RW = "rpcstream/read-writer.go"
CORE = "C04 C06 C08 C09 C10 C11 C23"
R_("core-readone-dequeue-helper", CORE, [(CR, '''				msg = c.dataQueue[0]
				hasMsg = true
				c.dataQueue[0] = nil
				c.dataQueue = c.dataQueue[1:]
			} else if''', '''				msg, hasMsg = c.dequeueLocked(), true
			} else if'''), (CR, None, '''
// dequeueLocked takes the first message from the queue, which is not empty.
func (c *commonRPC) dequeueLocked() []byte {
	msg := c.dataQueue[0]
	c.dataQueue[0] = nil
	c.dataQueue = c.dataQueue[1:]
	return msg
}
''')])
R_("core-readone-switch", CORE, [(CR, '''			if len(c.dataQueue) != 0 {
				msg = c.dataQueue[0]
				hasMsg = true
				c.dataQueue[0] = nil
				c.dataQueue = c.dataQueue[1:]
			} else if c.dataClosed || c.remoteErr != nil {
				err = c.remoteErr
				if err == nil {
					err = io.EOF
				}
			}

			waitCh = getWaitCh()
		})
''', '''			switch {
			case len(c.dataQueue) > 0:
				hasMsg = true
				msg = c.dataQueue[0]
				c.dataQueue[0] = nil
				c.dataQueue = c.dataQueue[1:]
			case c.remoteErr != nil:
				err = c.remoteErr
			case c.dataClosed:
				err = io.EOF
			default:
				waitCh = getWaitCh()
			}
		})
''')])
R_("core-readone-vars-in-loop", CORE, [(CR, '''	var hasMsg bool
	var msg []byte
	var err error
	var ctxDone bool
	for {
		var waitCh <-chan struct{}
''', '''	ctxDone := false
	for {
		var (
			hasMsg bool
			msg    []byte
			err    error
			waitCh <-chan struct{}
		)
''')])
R_("core-handledata-append", CORE, [(CR, '''		if data := pkt.GetData(); len(data) != 0 || pkt.GetDataIsZero() {
			c.dataQueue = append(c.dataQueue, data)
		}

		complete := pkt.GetComplete()
		if err := pkt.GetError(); len(err) != 0 {
			complete = true
			c.remoteErr = errors.New(err)
		}

		if complete {
			c.dataClosed = true
		}

		broadcast()
''', '''		errStr := pkt.GetError()
		if errStr != "" {
			c.remoteErr = errors.New(errStr)
		}
		c.dataClosed = pkt.GetComplete() || errStr != ""

		c.enqueueLocked(pkt.GetData(), pkt.GetDataIsZero())
		broadcast()
'''), (CR, None, '''
// enqueueLocked appends a message to the queue, if the packet carried one.
func (c *commonRPC) enqueueLocked(data []byte, isZero bool) {
	if len(data) == 0 && !isZero {
		return
	}
	c.dataQueue = append(c.dataQueue, data)
}
''')])
R_("core-handledata-else", CORE, [(CR, '''		if c.dataClosed {
			err = ErrCompleted
			return
		}

		if data := pkt.GetData(); len(data) != 0 || pkt.GetDataIsZero() {
			c.dataQueue = append(c.dataQueue, data)
		}

		complete''', '''		if closed := c.dataClosed; closed {
			err = ErrCompleted
			return
		}

		data := pkt.GetData()
		hasData := pkt.GetDataIsZero() || len(data) > 0
		if hasData {
			c.dataQueue = append(c.dataQueue, data)
		}

		complete''')])
R_("core-close-order", CORE, [(CR, '''	c.dataClosed = true
	if c.writer != nil {
		_ = c.writer.Close()
	}
	broadcast()
	c.ctxCancel()
''', '''	c.dataClosed = true
	broadcast()
	if w := c.writer; w != nil {
		_ = w.Close()
	}
	c.ctxCancel()
''')])
R_("core-stream-close-helper", CORE, [(CR, '''		if closeErr != nil && c.remoteErr == nil && !c.dataClosed {
			c.remoteErr = closeErr
		}
		c.dataClosed = true
		c.ctxCancel()
		if''', '''		c.finishLocked(closeErr)
		if'''), (CL, '''		if closeErr != nil && r.remoteErr == nil && !r.dataClosed {
			r.remoteErr = closeErr
		}
		r.dataClosed = true
		r.ctxCancel()
''', '''		r.finishLocked(closeErr)
'''), (CR, None, '''
// finishLocked ends the incoming side with an optional error.
func (c *commonRPC) finishLocked(closeErr error) {
	if !c.dataClosed && c.remoteErr == nil {
		c.remoteErr = closeErr
	}
	c.dataClosed = true
	c.ctxCancel()
}
''')])
R_("core-wait-rewrite", CORE, [(CR, '''	for {
		var err error
		var waitCh <-chan struct{}
		var rpcCtx context.Context
		c.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
			rpcCtx, err = c.ctx, c.remoteErr
			waitCh = getWaitCh()
		})

		if err != nil {
			return err
		}
		if rpcCtx.Err() != nil {
			// rpc must have ended w/o an error being set
			return context.Canceled
		}

		select {
		case <-ctx.Done():
			return context.Canceled
		case <-rpcCtx.Done():
		case <-waitCh:
		}
	}
''', '''	for {
		rpcCtx, waitCh, err := c.snapshot()
		switch {
		case err != nil:
			return err
		case rpcCtx.Err() != nil:
			// rpc must have ended w/o an error being set
			return context.Canceled
		}

		select {
		case <-waitCh:
		case <-rpcCtx.Done():
		case <-ctx.Done():
			return context.Canceled
		}
	}
'''), (CR, None, '''
// snapshot returns the state of the call and a channel closed at the next change.
func (c *commonRPC) snapshot() (rpcCtx context.Context, waitCh <-chan struct{}, err error) {
	c.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
		waitCh = getWaitCh()
		rpcCtx, err = c.ctx, c.remoteErr
	})
	return rpcCtx, waitCh, err
}
''')])
R_("core-write-data-inline", "C07 C04 C11", [(CR, '''	dataIsZero := len(data) == 0 && !complete && err == nil
	outPkt := NewCallDataPacket(data, dataIsZero, complete, err)
	return c.writer.WritePacket(outPkt)
''', '''	carriesMsg := len(data) != 0 || (!complete && err == nil)
	return c.writer.WritePacket(NewCallDataPacket(data, carriesMsg && len(data) == 0, complete, err))
''')])
R_("server-start-rewrite", CORE + " C05", [(SV, '''	var err error

	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
		// process start: method and service
		if r.method != "" || r.service != "" {
			err = errors.New("call start must be sent only once")
			return
		}
		if r.dataClosed {
			err = ErrCompleted
			return
		}

		service, method := pkt.GetRpcService(), pkt.GetRpcMethod()
		r.service, r.method = service, method

		// process first data packet, if included
		if data := pkt.GetData(); len(data) != 0 || pkt.GetDataIsZero() {
			r.dataQueue = append(r.dataQueue, data)
		}

		// invoke the rpc
		broadcast()
		go r.invokeRPC(service, method)
	})

	return err
''', '''	var startErr error
	service, method := pkt.GetRpcService(), pkt.GetRpcMethod()
	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
		startErr = r.startLocked(pkt, service, method)
		if startErr != nil {
			return
		}

		// invoke the rpc
		go r.invokeRPC(service, method)
		broadcast()
	})

	return startErr
'''), (SV, None, '''
// startLocked records the start of the call.
func (r *ServerRPC) startLocked(pkt *CallStart, service, method string) error {
	switch {
	case r.service != "" || r.method != "":
		return errors.New("call start must be sent only once")
	case r.dataClosed:
		return ErrCompleted
	}
	r.service = service
	r.method = method

	// process first data packet, if included
	data := pkt.GetData()
	if pkt.GetDataIsZero() || len(data) != 0 {
		r.dataQueue = append(r.dataQueue, data)
	}
	return nil
}
''')])
R_("server-invoke-rewrite", CORE, [(SV, '''	strm := NewMsgStream(r.ctx, r, r.ctxCancel)
	ok, err := r.invoker.InvokeMethod(serviceID, methodID, strm)
	if err == nil && !ok {
		err = ErrUnimplemented
	}
	outPkt := NewCallDataPacket(nil, false, true, err)
	_ = r.writer.WritePacket(outPkt)
	_ = r.writer.Close()
	r.ctxCancel()
''', '''	defer r.ctxCancel()
	err := r.callInvoker(serviceID, methodID)
	writer := r.writer
	_ = writer.WritePacket(NewCallDataPacket(nil, false, true, err))
	_ = writer.Close()
'''), (SV, None, '''
// callInvoker runs the invoker on the stream of the call.
func (r *ServerRPC) callInvoker(serviceID, methodID string) error {
	handled, err := r.invoker.InvokeMethod(serviceID, methodID, NewMsgStream(r.ctx, r, r.ctxCancel))
	if err != nil {
		return err
	}
	if !handled {
		return ErrUnimplemented
	}
	return nil
}
''')])
R_("server-packet-if-chain", "C05 C04 C06 C11", [(SV, '''	switch b := msg.GetBody().(type) {
	case *Packet_CallStart:
		return r.HandleCallStart(b.CallStart)
	case *Packet_CallData:
		return r.HandleCallData(b.CallData)
	case *Packet_CallCancel:
		if b.CallCancel {
			return r.HandleCallCancel()
		}
		return nil
	default:
		return nil
	}
''', '''	body := msg.GetBody()
	if start, ok := body.(*Packet_CallStart); ok {
		return r.HandleCallStart(start.CallStart)
	}
	if data, ok := body.(*Packet_CallData); ok {
		return r.HandleCallData(data.CallData)
	}
	if msg.GetCallCancel() {
		return r.HandleCallCancel()
	}
	return nil
'''), (CL, '''	switch b := msg.GetBody().(type) {
	case *Packet_CallStart:
		return r.HandleCallStart(b.CallStart)
	case *Packet_CallData:
		return r.HandleCallData(b.CallData)
	case *Packet_CallCancel:
		if b.CallCancel {
			return r.HandleCallCancel()
		}
		return nil
	default:
		return nil
	}
''', '''	switch b := msg.GetBody().(type) {
	case *Packet_CallData:
		return r.HandleCallData(b.CallData)
	case *Packet_CallCancel:
		if !b.CallCancel {
			break
		}
		return r.HandleCallCancel()
	case *Packet_CallStart:
		return r.HandleCallStart(b.CallStart)
	}
	return nil
''')])
R_("client-close-rewrite", CORE + " C12", [(CL, '''		if r.writer != nil {
			_ = r.WriteCallCancel()
			r.closeLocked(broadcast)
		}
		r.ctxCancel()
''', '''		defer r.ctxCancel()
		if r.writer == nil {
			return
		}
		_ = r.writer.WritePacket(NewCallCancelPacket())
		r.closeLocked(broadcast)
''')])
R_("mux-register-range", "C13 C04 C23", [(MX, '''	serviceMethods := m.services[serviceID]
	if serviceMethods == nil {
		serviceMethods = make(muxMethods)
		m.services[serviceID] = serviceMethods
	}
	for _, methodID := range methodIDs {
		if methodID != "" {
			serviceMethods[methodID] = handler
		}
	}

	return nil
''', '''	methods, ok := m.services[serviceID]
	if !ok || methods == nil {
		methods = make(muxMethods, len(methodIDs))
		m.services[serviceID] = methods
	}
	for i := 0; i < len(methodIDs); i++ {
		if methodIDs[i] == "" {
			continue
		}
		methods[methodIDs[i]] = handler
	}
	return nil
''')])
R_("mux-lookup-helper", "C13 C14 C04 C23", [(MX, '''	var handler Handler
	m.rmtx.RLock()
	if serviceID == "" {
		for _, svc := range m.services {
			if handler = svc[methodID]; handler != nil {
				break
			}
		}
	} else {
		svcMethods := m.services[serviceID]
		if svcMethods != nil {
			handler = svcMethods[methodID]
		}
	}
	m.rmtx.RUnlock()

	if handler != nil {
		return handler.InvokeMethod(serviceID, methodID, strm)
	}

	for _, invoker := range m.fallback {
		if invoker != nil {
			handled, err := invoker.InvokeMethod(serviceID, methodID, strm)
			if err != nil || handled {
				return handled, err
			}
		}
	}

	return false, nil
''', '''	if handler := m.lookup(serviceID, methodID); handler != nil {
		return handler.InvokeMethod(serviceID, methodID, strm)
	}

	for i := range m.fallback {
		fallback := m.fallback[i]
		if fallback == nil {
			continue
		}
		if handled, err := fallback.InvokeMethod(serviceID, methodID, strm); handled || err != nil {
			return handled, err
		}
	}
	return false, nil
'''), (MX, '''// InvokeMethod invokes the method matching the service & method ID.
''', '''// lookup returns the handler of the method, or nil.
func (m *mux) lookup(serviceID, methodID string) Handler {
	m.rmtx.RLock()
	defer m.rmtx.RUnlock()

	if serviceID != "" {
		return m.services[serviceID][methodID]
	}
	for _, methods := range m.services {
		if handler := methods[methodID]; handler != nil {
			return handler
		}
	}
	return nil
}

// InvokeMethod invokes the method matching the service & method ID.
''')])
R_("mux-rlock", "C13 C23", [(MX, '''	m.rmtx.Lock()
	defer m.rmtx.Unlock()

	return len(m.services[serviceID]) != 0
''', '''	m.rmtx.RLock()
	n := len(m.services[serviceID])
	m.rmtx.RUnlock()
	return n > 0
'''), (MX, '''	m.rmtx.Lock()
	defer m.rmtx.Unlock()

	return m.services[serviceID][methodID] != nil
''', '''	m.rmtx.RLock()
	defer m.rmtx.RUnlock()

	handler, ok := m.services[serviceID][methodID]
	return ok && handler != nil
''')])
R_("rs-open-ack-helper", "C20 C21 C04", [(RS, '''		pkt, err := rpcStream.Recv()
		if err == nil {
			switch b := pkt.GetBody().(type) {
			case *RpcStreamPacket_Ack:
				if errStr := b.Ack.GetError(); errStr != "" {
					err = errors.Errorf("remote: %s", errStr)
				}
			default:
				err = errors.New("expected ack packet")
			}
		}
		if err != nil {
			_ = rpcStream.Close()
			return nil, err
		}
''', '''		if err := recvAck(rpcStream); err != nil {
			_ = rpcStream.Close()
			return nil, err
		}
'''), (RS, None, '''
// recvAck waits for the acknowledgment of the remote.
func recvAck(rpcStream RpcStream) error {
	pkt, err := rpcStream.Recv()
	if err != nil {
		return err
	}
	ack, ok := pkt.GetBody().(*RpcStreamPacket_Ack)
	if !ok {
		return errors.New("expected ack packet")
	}
	if errStr := ack.Ack.GetError(); len(errStr) != 0 {
		return errors.Errorf("remote: %s", errStr)
	}
	return nil
}
''')])
R_("rs-init-helper", "C20 C21 C22 C04", [(RS, '''	err = rpcStream.Send(&RpcStreamPacket{
		Body: &RpcStreamPacket_Init{
			Init: &RpcStreamInit{
				ComponentId: componentID,
			},
		},
	})
	if err != nil {
		_ = rpcStream.Close()
		return nil, err
	}
''', '''	if err := rpcStream.Send(newInitPacket(componentID)); err != nil {
		_ = rpcStream.Close()
		return nil, err
	}
'''), (RS, None, '''
// newInitPacket constructs the first packet of a stream.
func newInitPacket(componentID string) *RpcStreamPacket {
	init := &RpcStreamInit{ComponentId: componentID}
	return &RpcStreamPacket{Body: &RpcStreamPacket_Init{Init: init}}
}
'''), ("rpcstream/proxy.go", '''		err = remoteStrm.Send(&RpcStreamPacket{
			Body: &RpcStreamPacket_Init{
				Init: &RpcStreamInit{
					ComponentId: remoteComponentID,
				},
			},
		})
''', '''		err = remoteStrm.Send(newInitPacket(remoteComponentID))
''')])
R_("rs-handle-rewrite", "C20 C21 C04", [(RS, '''	// lookup the server for this component id
	ctx := stream.Context()
	componentID := initInner.Init.GetComponentId()
	mux, muxRel, err := getter(ctx, componentID)
	if err == nil && mux == nil {
		err = ErrNoServerForComponent
	}
	if mux != nil && muxRel != nil {
		defer muxRel()
	}

	// send ack
	var errStr string
	if err != nil {
		errStr = ackErrorText(err)
	}
	sendErr := stream.Send(&RpcStreamPacket{
		Body: &RpcStreamPacket_Ack{
			Ack: &RpcAck{Error: errStr},
		},
	})
	if err != nil {
		return err
	}
	if sendErr != nil {
		return sendErr
	}
''', '''	// lookup the server for this component id
	ctx := stream.Context()
	mux, muxRel, err := getter(ctx, initInner.Init.GetComponentId())
	if mux == nil {
		if err == nil {
			err = ErrNoServerForComponent
		}
	} else if muxRel != nil {
		defer func() { muxRel() }()
	}

	// send ack
	ack := &RpcAck{}
	if err != nil {
		ack.Error = ackErrorText(err)
	}
	sendErr := stream.Send(&RpcStreamPacket{Body: &RpcStreamPacket_Ack{Ack: ack}})
	if err == nil {
		err = sendErr
	}
	if err != nil {
		return err
	}
'''), (RS, '''	serverRPC := srpc.NewServerRPC(ctx, mux, NewRpcStreamWriter(stream))
	go ReadPump(stream, serverRPC.HandlePacketData, serverRPC.HandleStreamClose)
	return serverRPC.Wait(ctx)
''', '''	writer := NewRpcStreamWriter(stream)
	rpc := srpc.NewServerRPC(ctx, mux, writer)
	go func() { ReadPump(stream, rpc.HandlePacketData, rpc.HandleStreamClose) }()
	return rpc.Wait(ctx)
''')])
R_("rs-read-early-return", "C18 C20 C04", [(RW, '''	readBuf := p
	for len(readBuf) != 0 && err == nil {
		var rn int

		// if the buffer has data, read from it.
		if r.buf.Len() != 0 {
			rn, err = r.buf.Read(readBuf)
		} else {
			if n != 0 {
				// if we read data to p already, return now.
				break
			}

			var pkt *RpcStreamPacket
			pkt, err = r.stream.Recv()
			if err != nil {
				break
			}

			if errStr := pkt.GetAck().GetError(); errStr != "" {
				return n, errors.New(errStr)
			}

			data := pkt.GetData()
			if len(data) == 0 {
				continue
			}

			// read as much as possible directly to the output
			rn = copy(readBuf, data)
			if rn < len(data) {
				// we read some of the data, buffer the rest.
				_, _ = r.buf.Write(data[rn:]) // never returns an error
			}
		}

		// advance readBuf by rn
		n += rn
		readBuf = readBuf[rn:]
	}
	return n, err
''', '''	if len(p) == 0 {
		return 0, nil
	}
	// if the buffer has data, read from it.
	if r.buf.Len() > 0 {
		return r.buf.Read(p)
	}
	for {
		pkt, err := r.stream.Recv()
		if err != nil {
			return 0, err
		}
		if errStr := pkt.GetAck().GetError(); errStr != "" {
			return 0, errors.New(errStr)
		}
		data := pkt.GetData()
		if len(data) == 0 {
			continue
		}
		// read as much as possible directly to the output, buffer the rest
		n = copy(p, data)
		r.buf.Write(data[n:])
		return n, nil
	}
''')])
R_("rs-pump-loop", "C20 C21 C04", [(RW, '''	for {
		// read packet
		pkt, err := strm.Recv()
		if err != nil {
			return err
		}

		data := pkt.GetData()
		if len(data) == 0 {
			continue
		}

		// call handler
		if err := cb(data); err != nil {
			return err
		}
	}
''', '''	var err error
	for err == nil {
		var pkt *RpcStreamPacket
		if pkt, err = strm.Recv(); err != nil {
			break
		}
		if data := pkt.GetData(); len(data) > 0 {
			err = cb(data)
		}
	}
	return err
'''), (RW, '''	err := ReadToHandler(strm, cb)
	// signal that the stream is now closed.
	if closed != nil {
		closed(err)
	}
''', '''	if err := ReadToHandler(strm, cb); closed != nil {
		// signal that the stream is now closed.
		closed(err)
	}
''')])

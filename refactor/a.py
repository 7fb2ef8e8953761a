# behaviour-preserving edits of srpc
RPC="C04 C05 C06 C08 C09 C10 C11 C23"
R_("rpc-extract-enqueue",RPC,[("srpc/common-rpc.go","""		if data := pkt.GetData(); len(data) != 0 || pkt.GetDataIsZero() {
			c.dataQueue = append(c.dataQueue, data)
		}

		complete""","""		c.enqueueLocked(pkt.GetData(), pkt.GetDataIsZero())

		complete"""),("srpc/common-rpc.go",None,"""
// enqueueLocked queues a message, if there is one.
func (c *commonRPC) enqueueLocked(data []byte, isZero bool) {
	if len(data) != 0 || isZero {
		c.dataQueue = append(c.dataQueue, data)
	}
}
"""),("srpc/server-rpc.go","""		if data := pkt.GetData(); len(data) != 0 || pkt.GetDataIsZero() {
			r.dataQueue = append(r.dataQueue, data)
		}
""","""		r.enqueueLocked(pkt.GetData(), pkt.GetDataIsZero())
""")])
R_("rpc-extract-fail",RPC,[("srpc/common-rpc.go","""		if closeErr != nil && c.remoteErr == nil && !c.dataClosed {
			c.remoteErr = closeErr
		}
		c.dataClosed = true
		c.ctxCancel()
""","""		c.finishLocked(closeErr)
		c.ctxCancel()
"""),("srpc/common-rpc.go","""	if c.remoteErr == nil && !c.dataClosed {
		c.remoteErr = context.Canceled
	}
	c.dataClosed = true
	if c.writer""","""	c.finishLocked(context.Canceled)
	if c.writer"""),("srpc/common-rpc.go",None,"""
// finishLocked records the outcome if there is none yet.
func (c *commonRPC) finishLocked(err error) {
	if !c.dataClosed && c.remoteErr == nil && err != nil {
		c.remoteErr = err
	}
	c.dataClosed = true
}
"""),("srpc/client-rpc.go","""		if closeErr != nil && r.remoteErr == nil && !r.dataClosed {
			r.remoteErr = closeErr
		}
		r.dataClosed = true
		r.ctxCancel()
		broadcast()
""","""		r.finishLocked(closeErr)
		broadcast()
		r.ctxCancel()
""")])
R_("rpc-readone-rewrite",RPC,[("srpc/common-rpc.go","""	var hasMsg bool
	var msg []byte
	var err error
	var ctxDone bool
	for {
		var waitCh <-chan struct{}
""","""	ctxDone := false
	for {
		var (
			waitCh <-chan struct{}
			hasMsg bool
			msg    []byte
			err    error
		)
"""),("srpc/common-rpc.go","""			if len(c.dataQueue) != 0 {
				msg = c.dataQueue[0]
				hasMsg = true
				c.dataQueue[0] = nil
				c.dataQueue = c.dataQueue[1:]
			} else if c.dataClosed || c.remoteErr != nil {
				err = c.remoteErr
				if err == nil {
					err = io.EOF
				}
			}

			waitCh = getWaitCh()
		})

		if hasMsg {
			return msg, nil
		}

		if err != nil {
			return nil, err
		}
""","""			waitCh = getWaitCh()
			if n := len(c.dataQueue); n > 0 {
				msg, hasMsg = c.dataQueue[0], true
				c.dataQueue[0] = nil
				if n == 1 {
					c.dataQueue = nil
				} else {
					c.dataQueue = c.dataQueue[1:]
				}
				return
			}
			switch {
			case c.remoteErr != nil:
				err = c.remoteErr
			case c.dataClosed:
				err = io.EOF
			}
		})

		switch {
		case hasMsg:
			return msg, nil
		case err != nil:
			return nil, err
		}
""")])
R_("rpc-wait-rewrite",RPC,[("srpc/common-rpc.go","""		if err != nil {
			return err
		}
		if rpcCtx.Err() != nil {
			// rpc must have ended w/o an error being set
			return context.Canceled
		}

		select {
		case <-ctx.Done():
			return context.Canceled
		case <-rpcCtx.Done():
		case <-waitCh:
		}
""","""		if err == nil && rpcCtx.Err() != nil {
			// rpc must have ended w/o an error being set
			err = context.Canceled
		}
		if err != nil {
			return err
		}

		select {
		case <-waitCh:
			continue
		case <-rpcCtx.Done():
			continue
		case <-ctx.Done():
		}
		return context.Canceled
""")])
R_("rpc-switch-to-if",RPC,[("srpc/client-rpc.go","""	switch b := msg.GetBody().(type) {
	case *Packet_CallStart:
		return r.HandleCallStart(b.CallStart)
	case *Packet_CallData:
		return r.HandleCallData(b.CallData)
	case *Packet_CallCancel:
		if b.CallCancel {
			return r.HandleCallCancel()
		}
		return nil
	default:
		return nil
	}
""","""	body := msg.GetBody()
	if start, ok := body.(*Packet_CallStart); ok {
		return r.HandleCallStart(start.CallStart)
	}
	if data, ok := body.(*Packet_CallData); ok {
		return r.HandleCallData(data.CallData)
	}
	if msg.GetCallCancel() {
		return r.HandleCallCancel()
	}
	return nil
"""),("srpc/server-rpc.go","""	switch b := msg.GetBody().(type) {
	case *Packet_CallStart:
		return r.HandleCallStart(b.CallStart)
	case *Packet_CallData:
		return r.HandleCallData(b.CallData)
	case *Packet_CallCancel:
		if b.CallCancel {
			return r.HandleCallCancel()
		}
		return nil
	default:
		return nil
	}
""","""	var err error
	switch b := msg.Body.(type) {
	case *Packet_CallCancel:
		if b.CallCancel {
			err = r.HandleCallCancel()
		}
	case *Packet_CallData:
		err = r.HandleCallData(b.CallData)
	case *Packet_CallStart:
		err = r.HandleCallStart(b.CallStart)
	}
	return err
""")])
R_("rpc-invoke-defer",RPC,[("srpc/server-rpc.go","""	strm := NewMsgStream(r.ctx, r, r.ctxCancel)
	ok, err := r.invoker.InvokeMethod(serviceID, methodID, strm)
	if err == nil && !ok {
		err = ErrUnimplemented
	}
	outPkt := NewCallDataPacket(nil, false, true, err)
	_ = r.writer.WritePacket(outPkt)
	_ = r.writer.Close()
	r.ctxCancel()
""","""	defer r.ctxCancel()
	ok, err := r.invoker.InvokeMethod(serviceID, methodID, NewMsgStream(r.Context(), r, r.ctxCancel))
	if !ok && err == nil {
		err = ErrUnimplemented
	}
	writer := r.writer
	defer writer.Close()
	_ = r.WriteCallData(nil, true, err)
""")])
R_("rpc-callstart-reorder",RPC,[("srpc/server-rpc.go","""		// process start: method and service
		if r.method != "" || r.service != "" {
			err = errors.New("call start must be sent only once")
			return
		}
		if r.dataClosed {
			err = ErrCompleted
			return
		}

		service, method := pkt.GetRpcService(), pkt.GetRpcMethod()
		r.service, r.method = service, method
""","""		service, method := pkt.GetRpcService(), pkt.GetRpcMethod()
		switch started := r.service != "" || r.method != ""; {
		case started:
			err = errors.New("call start must be sent only once")
			return
		case r.dataClosed:
			err = ErrCompleted
			return
		}
		r.service = service
		r.method = method
""")])
R_("client-rewrite","C04 C12 C07 C11 C23",[("srpc/client.go","""	msg, err := clientRPC.ReadOne()
	if err != nil {
		// this includes any server returned error.
		return err
	}
	if err := out.UnmarshalVT(msg); err != nil {
		return errors.Wrap(ErrInvalidMessage, err.Error())
	}

	return nil
""","""	return recvReply(clientRPC, out)
"""),("srpc/client.go","""// NewStream starts a streaming RPC with the remote & returns the stream.
// firstMsg is optional.
func (c *client)""","""// recvReply reads the reply of a unary call.
func recvReply(rpc *ClientRPC, out Message) error {
	msg, err := rpc.ReadOne()
	if err == nil {
		if derr := out.UnmarshalVT(msg); derr != nil {
			err = errors.Wrap(ErrInvalidMessage, derr.Error())
		}
	}
	return err
}

// NewStream starts a streaming RPC with the remote & returns the stream.
// firstMsg is optional.
func (c *client)"""),("srpc/client.go","""	return NewMsgStream(ctx, clientRPC, func() {
		clientRPC.ctxCancel()
		_ = writer.Close()
	}), nil""","""	closeCb := func() {
		_ = writer.Close()
		clientRPC.ctxCancel()
	}
	return NewMsgStream(ctx, clientRPC, closeCb), nil""")])
R_("start-rewrite","C07 C11 C12 C23 C08",[("srpc/client-rpc.go","""	if err := r.ctx.Err(); err != nil {
		r.ctxCancel()
		_ = writer.Close()
		return context.Canceled
	}

	var firstMsgEmpty bool
	var err error
	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
		r.writer = writer

		if writeFirstMsg {
			firstMsgEmpty = len(firstMsg) == 0
		}

		pkt := NewCallStartPacket(r.service, r.method, firstMsg, firstMsgEmpty)
		err = writer.WritePacket(pkt)
		if err != nil {
			r.ctxCancel()
			_ = writer.Close()
		}

		broadcast()
	})

	return err
""","""	if r.ctx.Err() != nil {
		_ = writer.Close()
		r.ctxCancel()
		return context.Canceled
	}

	pkt := NewCallStartPacket(r.service, r.method, firstMsg, writeFirstMsg && len(firstMsg) == 0)
	var err error
	r.bcast.HoldLock(func(broadcast func(), _ func() <-chan struct{}) {
		defer broadcast()
		r.writer = writer
		if err = writer.WritePacket(pkt); err == nil {
			return
		}
		r.ctxCancel()
		_ = writer.Close()
	})
	return err
""")])
R_("msgstream-rewrite","C07 C11 C04",[("srpc/msg-stream.go","""	if err := r.ctx.Err(); err != nil {
		return context.Canceled
	}

	msgData, err := msg.MarshalVT()
	if err != nil {
		return err
	}

	return r.rw.WriteCallData(msgData, false, nil)
""","""	if r.Context().Err() != nil {
		return context.Canceled
	}
	data, err := msg.MarshalVT()
	if err == nil {
		err = r.rw.WriteCallData(data, false, nil)
	}
	return err
"""),("srpc/msg-stream.go","""	err := r.rw.WriteCallCancel()
	if r.closeCb != nil {
		r.closeCb()
	}

	return err
""","""	if cb := r.closeCb; cb != nil {
		defer cb()
	}
	return r.rw.WriteCallCancel()
""")])
R_("packetrw-write-rewrite","C01 C04 C23",[("srpc/packet-rw.go","""	var written, n int
	for written < len(data) {
		n, err = r.rw.Write(data[written:])
		if err != nil {
			return err
		}
		written += n
	}

	return nil
}
""","""	for len(data) > 0 {
		n, err := r.rw.Write(data)
		if err != nil {
			return err
		}
		data = data[n:]
	}
	return nil
}
""")])
R_("packetrw-write-helper","C01 C04 C23",[("srpc/packet-rw.go","""	data := make([]byte, 4+msgSize)
	binary.LittleEndian.PutUint32(data, uint32(msgSize)) //nolint:gosec

	_, err := p.MarshalToSizedBufferVT(data[4:])
	if err != nil {
		return err
	}

	var written, n int
	for written < len(data) {
		n, err = r.rw.Write(data[written:])
		if err != nil {
			return err
		}
		written += n
	}

	return nil
}
""","""	data := make([]byte, 4+msgSize)
	binary.LittleEndian.PutUint32(data[:4], uint32(msgSize)) //nolint:gosec
	if _, err := p.MarshalToSizedBufferVT(data[4:]); err != nil {
		return err
	}
	return r.writeFull(data)
}

// writeFull writes all of data.
func (r *PacketReadWriter) writeFull(data []byte) error {
	for written := 0; written < len(data); {
		n, err := r.rw.Write(data[written:])
		if err != nil {
			return err
		}
		written += n
	}
	return nil
}
""")])
R_("packetrw-read-loop","C02 C04",[("srpc/packet-rw.go","""	EmitIfEnough:

		// check if we have enough data for a length prefix
		bufLen := r.buf.Len()
		if bufLen < 4 {
			continue
		}

		// parse the length prefix if not done already
		if currLen == 0 {
			currLen = r.readLengthPrefix(r.buf.Bytes()[:4])
			if currLen == 0 {
				return errors.New("unexpected zero len prefix")
			}
			if currLen > uint32(maxMessageSize) {
				return errors.Errorf("message size %v greater than maximum %v", currLen, maxMessageSize)
			}
		}

		// emit the packet if fully buffered
		if currLen != 0 && bufLen >= int(currLen)+4 {
			pkt := r.buf.Next(int(currLen + 4))[4:]
			currLen = 0
			if err := cb(pkt); err != nil {
				return err
			}

			// check if there's still enough in the buffer
			goto EmitIfEnough
		}
	}
""","""		// emit all complete packets
		for r.buf.Len() >= 4 {
			// parse the length prefix if not done already
			if currLen == 0 {
				currLen = r.readLengthPrefix(r.buf.Bytes())
				if currLen == 0 {
					return errors.New("unexpected zero len prefix")
				}
				if currLen > uint32(maxMessageSize) {
					return errors.Errorf("message size %v greater than maximum %v", currLen, maxMessageSize)
				}
			}

			if r.buf.Len() < int(currLen)+4 {
				break
			}

			// emit the packet
			_ = r.buf.Next(4)
			pkt := r.buf.Next(int(currLen))
			currLen = 0
			if err := cb(pkt); err != nil {
				return err
			}
		}
	}
""")])
R_("packetrw-read-extract","C02 C04",[("srpc/packet-rw.go","""			currLen = r.readLengthPrefix(r.buf.Bytes()[:4])
			if currLen == 0 {
				return errors.New("unexpected zero len prefix")
			}
			if currLen > uint32(maxMessageSize) {
				return errors.Errorf("message size %v greater than maximum %v", currLen, maxMessageSize)
			}
""","""			currLen = r.readLengthPrefix(r.buf.Bytes()[:4])
			if err := checkPacketLen(currLen); err != nil {
				return err
			}
"""),("srpc/packet-rw.go","""// Close closes the packet rw.""","""// checkPacketLen checks the length prefix of a packet.
func checkPacketLen(n uint32) error {
	switch {
	case n == 0:
		return errors.New("unexpected zero len prefix")
	case n > uint32(maxMessageSize):
		return errors.Errorf("message size %v greater than maximum %v", n, maxMessageSize)
	default:
		return nil
	}
}

// Close closes the packet rw.""")])
R_("packet-validate-rewrite","C05 C04",[("srpc/packet.go","""	if len(p.GetData()) == 0 && !p.GetComplete() && len(p.GetError()) == 0 && !p.GetDataIsZero() {
		return ErrEmptyPacket
	}
	return nil
""","""	switch {
	case p.GetComplete(), p.GetDataIsZero(), p.GetError() != "", len(p.GetData()) > 0:
		return nil
	}
	return ErrEmptyPacket
"""),("srpc/packet.go","""	method := p.GetRpcMethod()
	if len(method) == 0 {
		return ErrEmptyMethodID
	}
	service := p.GetRpcService()
	if len(service) == 0 {
		return ErrEmptyServiceID
	}
	return nil
""","""	if p.GetRpcMethod() == "" {
		return ErrEmptyMethodID
	}
	if p.GetRpcService() == "" {
		return ErrEmptyServiceID
	}
	return nil
""")])

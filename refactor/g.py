# Edits of the transports and relays which keep the behaviour.
RC = "srpc/rwc-conn.go"
RAWF = "rpcstream/raw-stream.go"
PX = "rpcstream/proxy.go"
R_("rwc-read-deadline-helper", "C19 C23", [(RC, '''	p.dmtx.Lock()
	deadline := p.rd
	p.dmtx.Unlock()

	ctx := p.ctx
''', '''	deadline := p.readDeadline()
	ctx := p.ctx
'''), (RC, None, '''
// readDeadline returns the current read deadline.
func (p *RwcConn) readDeadline() time.Time {
	p.dmtx.Lock()
	defer p.dmtx.Unlock()
	return p.rd
}
''')])
R_("rwc-read-split", "C19 C23", [(RC, '''	if len(p.rbuf) != 0 {
		n = copy(b, p.rbuf)
		p.rbuf = p.rbuf[n:]
		return n, nil
	}

	p.dmtx''', '''	if len(p.rbuf) != 0 {
		return p.takeBuffered(b), nil
	}

	p.dmtx'''), (RC, '''		if !ok {
			err = p.closeErr
			if err == nil {
				err = io.EOF
			}
			return 0, err
		}
	}
''', '''	}
	if !ok {
		if p.closeErr != nil {
			return 0, p.closeErr
		}
		return 0, io.EOF
	}
'''), (RC, None, '''
// takeBuffered copies from the remainder of the previous packet.
func (p *RwcConn) takeBuffered(b []byte) int {
	n := copy(b, p.rbuf)
	p.rbuf = p.rbuf[n:]
	return n
}
''')])
R_("rwc-write-reslice", "C19", [(RC, '''	written := 0
	for written < len(pkt) {
		n, err = p.rwc.Write(pkt[written:])
		written += n
		if err != nil {
			return written, err
		}
	}
	return written, nil
''', '''	for {
		var wrote int
		wrote, err = p.rwc.Write(pkt[n:])
		n += wrote
		if err != nil || n >= len(pkt) {
			return n, err
		}
	}
''')])
R_("rwc-pump-switch", "C19 C23", [(RC, '''		if n == 0 {
			p.ar.Put(&pktBuf)
		} else {
			select {
			case <-p.ctx.Done():
				return context.Canceled
			case p.packetCh <- pktBuf[:n]:
			}
		}
		if err != nil {
			return err
		}
''', '''		if n != 0 {
			select {
			case p.packetCh <- pktBuf[:n]:
			case <-p.ctx.Done():
				return context.Canceled
			}
		} else {
			p.ar.Put(&pktBuf)
		}
		if err == nil {
			continue
		}
		return err
'''), (RC, '''	go func() {
		_ = c.rxPump()
	}()
''', '''	go c.rxPump() //nolint:errcheck
''')])
R_("raw-helpers", "C20 C22 C04", [(RAWF, '''	initPkt, err := stream.Recv()
	if err != nil {
		return err
	}
	initInner, ok := initPkt.GetBody().(*RpcStreamPacket_Init)
	if !ok || initInner.Init == nil {
		return ErrUnexpectedPacket
	}

	// lookup the server for this component id
	ctx := stream.Context()
	componentID := initInner.Init.GetComponentId()
''', '''	componentID, err := readInit(stream)
	if err != nil {
		return err
	}

	// lookup the server for this component id
	ctx := stream.Context()
'''), (RAWF, '''	var errStr string
	if err != nil {
		errStr = ackErrorText(err)
	}
	sendErr := stream.Send(&RpcStreamPacket{
		Body: &RpcStreamPacket_Ack{
			Ack: &RpcAck{Error: errStr},
		},
	})
	if err != nil {
		return err
	}
	if sendErr != nil {
		return sendErr
	}
''', '''	sendErr := writeAck(stream, err)
	if err == nil {
		err = sendErr
	}
	if err != nil {
		return err
	}
'''), (RAWF, None, '''
// readInit reads the init packet and returns the component id.
func readInit(stream RpcStream) (string, error) {
	pkt, err := stream.Recv()
	if err != nil {
		return "", err
	}
	body, ok := pkt.GetBody().(*RpcStreamPacket_Init)
	if !ok || body.Init == nil {
		return "", ErrUnexpectedPacket
	}
	return body.Init.GetComponentId(), nil
}

// writeAck acknowledges the init packet.
func writeAck(stream RpcStream, err error) error {
	ack := &RpcAck{}
	if err != nil {
		ack.Error = ackErrorText(err)
	}
	return stream.Send(&RpcStreamPacket{Body: &RpcStreamPacket_Ack{Ack: ack}})
}
''')])
R_("raw-wait-both", "C20 C22", [(RAWF, '''	var outErr error
	for i := 0; i < 2; i++ {
		if err := <-errCh; err != nil && outErr == nil && err != io.EOF {
			outErr = err
		}
	}
	return outErr
''', '''	return firstError(errCh)
'''), (RAWF, None, '''
// firstError waits for both directions and returns the first error.
func firstError(errCh <-chan error) (outErr error) {
	for n := 2; n > 0; n-- {
		err := <-errCh
		if outErr != nil || err == nil || err == io.EOF {
			continue
		}
		outErr = err
	}
	return
}
''')])
R_("raw-copy-defer", "C20 C22", [(RAWF, '''	buf := make([]byte, 8192)
	_, err := io.CopyBuffer(s2, s1, buf)
	_ = s1.Close()
	_ = s2.Close()
	if errCh != nil {
		errCh <- err
	}
''', '''	var buf [8192]byte
	_, err := io.CopyBuffer(s2, s1, buf[:])
	defer func() {
		if errCh != nil {
			errCh <- err
		}
	}()
	_ = s1.Close()
	_ = s2.Close()
''')])
R_("proxy-init-helper", "C20 C22 C04", [(PX, '''	if err == nil {
		err = remoteStrm.Send(&RpcStreamPacket{
			Body: &RpcStreamPacket_Init{
				Init: &RpcStreamInit{
					ComponentId: remoteComponentID,
				},
			},
		})
	}
''', '''	if err == nil {
		err = sendInit(remoteStrm, remoteComponentID)
	}
'''), (PX, None, '''
// sendInit asks the remote for the component.
func sendInit(strm RpcStream, componentID string) error {
	init := &RpcStreamInit{ComponentId: componentID}
	return strm.Send(&RpcStreamPacket{Body: &RpcStreamPacket_Init{Init: init}})
}
''')])
R_("proxy-copy-split", "C22", [(PX, '''	rerr := func() error {
		pkt := srpc.NewRawMessage(nil, true)
		for {
			err := s1.MsgRecv(pkt)
			if err != nil {
				return err
			}
			if len(pkt.GetData()) == 0 {
				continue
			}
			err = s2.MsgSend(pkt)
			pkt.Clear()
			if err != nil {
				return err
			}
		}
	}()

''', '''	rerr := relay(s1, s2)
'''), (PX, None, '''
// relay passes messages on until one of the streams fails.
func relay(from, to RpcStream) error {
	msg := srpc.NewRawMessage(nil, true)
	for {
		if err := from.MsgRecv(msg); err != nil {
			return err
		}
		if len(msg.GetData()) != 0 {
			err := to.MsgSend(msg)
			msg.Clear()
			if err != nil {
				return err
			}
		}
	}
}
''')])
R_("packetrw-pump-defer", "C02 C04 C11", [("srpc/packet-rw.go", '''	err := r.ReadToHandler(cb)
	// signal that the stream is now closed.
	if closed != nil {
		closed(err)
	}
''', '''	if err := r.ReadToHandler(cb); closed != nil {
		// signal that the stream is now closed.
		closed(err)
	}
''')])
R_("packetrw-prefix-early", "C02 C04", [("srpc/packet-rw.go", '''		if currLen != 0 && bufLen >= int(currLen)+4 {
			pkt := r.buf.Next(int(currLen + 4))[4:]
			currLen = 0
			if err := cb(pkt); err != nil {
				return err
			}

			// check if there's still enough in the buffer
			goto EmitIfEnough
		}
''', '''		if bufLen < int(currLen)+4 {
			continue
		}
		frame := r.buf.Next(int(currLen) + 4)
		currLen = 0
		if err := cb(frame[4:]); err != nil {
			return err
		}

		// check if there's still enough in the buffer
		goto EmitIfEnough
''')])
R_("client-open-shared", "C12 C04 C07 C11 C23", [("srpc/client.go", '''	clientRPC := NewClientRPC(ctx, service, method)
	writer, err := c.openStream(ctx, clientRPC.HandlePacketData, clientRPC.HandleStreamClose)
	if err != nil {
		clientRPC.Close()
		return nil, err
	}

	if err := clientRPC.Start(writer, firstMsg != nil, firstMsgData); err != nil {
		clientRPC.ctxCancel()
		return nil, err
	}

	return''', '''	clientRPC := NewClientRPC(ctx, service, method)
	writer, err := c.open(ctx, clientRPC)
	if err != nil {
		clientRPC.Close()
		return nil, err
	}

	err = clientRPC.Start(writer, firstMsg != nil, firstMsgData)
	if err != nil {
		clientRPC.ctxCancel()
		return nil, err
	}

	return'''), ("srpc/client.go", '''	writer, err := c.openStream(ctx, clientRPC.HandlePacketData, clientRPC.HandleStreamClose)
	if err != nil {
		return err
	}

	if err := clientRPC.Start(writer, true, firstMsg); err != nil {
		return err
	}
''', '''	writer, err := c.open(ctx, clientRPC)
	if err == nil {
		err = clientRPC.Start(writer, true, firstMsg)
	}
	if err != nil {
		return err
	}
'''), ("srpc/client.go", None, '''
// open opens the stream of a call.
func (c *client) open(ctx context.Context, rpc *ClientRPC) (PacketWriter, error) {
	return c.openStream(ctx, rpc.HandlePacketData, rpc.HandleStreamClose)
}
''')])
R_("clientset-split", "C16", [("srpc/client-set.go", '''		if err == context.Canceled {
			select {
			case <-ctx.Done():
				return context.Canceled
			default:
				continue
			}
		}
		if err.Error() == ErrUnimplemented.Error() {
			continue
		}
		return err
''', '''		switch {
		case err == context.Canceled:
			if ctx.Err() != nil {
				return context.Canceled
			}
		case !isUnimplemented(err):
			return err
		}
'''), ("srpc/client-set.go", None, '''
// isUnimplemented checks if the error says that the call is not implemented.
func isUnimplemented(err error) bool {
	return err.Error() == ErrUnimplemented.Error()
}
''')])
R_("prefix-client-inline", "C15 C26", [("srpc/client-prefix.go", '''	if len(i.serviceIDPrefixes) != 0 {
		strippedID, matchedPrefix := CheckStripPrefix(service, i.serviceIDPrefixes)
		if len(matchedPrefix) == 0 {
			return service, ErrUnimplemented
		}
		return strippedID, nil
	}
	return service, nil
''', '''	if len(i.serviceIDPrefixes) == 0 {
		return service, nil
	}
	strippedID, matchedPrefix := CheckStripPrefix(service, i.serviceIDPrefixes)
	if matchedPrefix != "" {
		return strippedID, nil
	}
	return service, ErrUnimplemented
''')])
R_("http-serve-split", "C25", [("srpc/server-http.go", '''	// handle incoming streams
	for {
		strm, err := wsConn.AcceptStream()
		if err != nil {
			if err != io.EOF && err != context.Canceled {
				// TODO: handle / log error?
				c.Close(websocket.StatusInternalError, err.Error())
			}
			return
		}
		go s.srpc.HandleStream(ctx, strm)
	}
}
''', '''	// handle incoming streams
	err = s.acceptStreams(ctx, wsConn)
	if err == io.EOF || err == context.Canceled {
		return
	}
	// TODO: handle / log error?
	c.Close(websocket.StatusInternalError, err.Error())
}

// acceptStreams serves the streams of the connection until accepting fails.
func (s *HTTPServer) acceptStreams(ctx context.Context, conn network.MuxedConn) error {
	for {
		strm, err := conn.AcceptStream()
		if err != nil {
			return err
		}
		go s.srpc.HandleStream(ctx, strm)
	}
}
'''), ("srpc/server-http.go", '''	"github.com/coder/websocket"
''', '''	"github.com/coder/websocket"
	"github.com/libp2p/go-libp2p/core/network"
''')])
R_("accept-conn-rewrite", "C25", [("srpc/server.go", '''		if err := ctx.Err(); err != nil {
			return context.Canceled
		}

		if mc.IsClosed() {
			return io.EOF
		}

		muxedStream, err := mc.AcceptStream()
''', '''		switch {
		case ctx.Err() != nil:
			return context.Canceled
		case mc.IsClosed():
			return io.EOF
		}

		muxedStream, err := mc.AcceptStream()
'''), ("srpc/accept.go", '''		go func() {
			_ = srv.AcceptMuxedConn(ctx, mc)
			_ = nc.Close()
		}()
''', '''		go func() {
			defer nc.Close()
			_ = srv.AcceptMuxedConn(ctx, mc)
		}()
''')])
R_("muxed-open-helper", "C25", [("srpc/muxed-conn.go", '''			timeoutErr, ok := err.(interface{ Timeout() bool })
			if ok && timeoutErr.Timeout() && ctx.Err() != nil {
				return nil, context.Canceled
			}
			return nil, err
''', '''			if isTimeout(err) && ctx.Err() != nil {
				err = context.Canceled
			}
			return nil, err
'''), ("srpc/muxed-conn.go", None, '''
// isTimeout checks if the error is a timeout.
func isTimeout(err error) bool {
	te, ok := err.(interface{ Timeout() bool })
	return ok && te.Timeout()
}
'''), ("srpc/muxed-conn.go", '''	var sess *yamux.Session
	var err error
	if outbound {
		sess, err = yamux.Client(conn, yamuxConf, nil)
	} else {
		sess, err = yamux.Server(conn, yamuxConf, nil)
	}
	if err != nil {
		return nil, err
	}

	return ymuxer.NewMuxedConn(sess), nil
''', '''	newSession := yamux.Server
	if outbound {
		newSession = yamux.Client
	}
	sess, err := newSession(conn, yamuxConf, nil)
	if err != nil {
		return nil, err
	}
	return ymuxer.NewMuxedConn(sess), nil
''')])
R_("streamrwc-fill-helper", "C18", [("srpc/stream-rwc.go", '''			// read as much as possible directly to the output
			copy(readBuf, data)
			if len(data) > len(readBuf) {
				// we read some of the data, buffer the rest.
				rn = len(readBuf)
				_, _ = s.buf.Write(data[rn:]) // never returns an error
			} else {
				// we read all of data
				rn = len(data)
			}
''', '''			// read as much as possible directly to the output, buffer the rest.
			rn = copy(readBuf, data)
			_, _ = s.buf.Write(data[rn:]) // never returns an error
''')])
R_("streamrwc-read-early", "C18", [("srpc/stream-rwc.go", '''			if n != 0 {
				// if we read data to p already, return now.
				break
			}

			s.readMsg.Clear()
			if err := s.MsgRecv(&s.readMsg); err != nil {
				return n, err
			}
			data := s.readMsg.GetData()
''', '''			if n != 0 {
				// if we read data to p already, return now.
				return n, nil
			}

			data, err := s.recvData()
			if err != nil {
				return 0, err
			}
'''), ("srpc/stream-rwc.go", None, '''
// recvData receives the next message.
func (s *StreamRwc) recvData() ([]byte, error) {
	s.readMsg.Clear()
	if err := s.MsgRecv(&s.readMsg); err != nil {
		return nil, err
	}
	return s.readMsg.GetData(), nil
}
''')])
R_("packetrw-write-until", "C01 C23", [("srpc/packet-rw.go", '''	var written, n int
	for written < len(data) {
		n, err = r.rw.Write(data[written:])
		if err != nil {
			return err
		}
		written += n
	}

	return nil
''', '''	for {
		n, err := r.rw.Write(data)
		if err != nil {
			return err
		}
		if data = data[n:]; len(data) == 0 {
			return nil
		}
	}
''')])
R_("rwc-write-consume", "C19", [("srpc/rwc-conn.go", '''	written := 0
	for written < len(pkt) {
		n, err = p.rwc.Write(pkt[written:])
		written += n
		if err != nil {
			return written, err
		}
	}
	return written, nil
''', '''	total := len(pkt)
	for len(pkt) != 0 && err == nil {
		n, err = p.rwc.Write(pkt)
		pkt = pkt[n:]
	}
	return total - len(pkt), err
''')])

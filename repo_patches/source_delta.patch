From 50252fc0d02842cffefea1d985ae5aa3c3c1d014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 01/19] fix: do not send an empty message with CloseSend

CloseSend wrote a completion packet with data_is_zero set: the remote
received a spurious zero-length message before io.EOF.
---
 srpc/common-rpc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index 81afada..e741ec4 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -121,7 +121,9 @@ func (c *commonRPC) ReadOne() ([]byte, error) {
 
 // WriteCallData writes a call data packet.
 func (c *commonRPC) WriteCallData(data []byte, complete bool, err error) error {
-	outPkt := NewCallDataPacket(data, len(data) == 0, complete, err)
+	// a packet which only completes the call does not carry an (empty) message.
+	dataIsZero := len(data) == 0 && !complete && err == nil
+	outPkt := NewCallDataPacket(data, dataIsZero, complete, err)
 	return c.writer.WritePacket(outPkt)
 }
 
-- 
2.43.0


From 1abbc74ea706ba876742e97774ab6ffd5c143a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 02/19] fix: do not panic when the remote cancels a call before
 Start

The client begins reading before Start sets the writer: a cancel packet
received in that window dereferenced the nil writer.
---
 srpc/common-rpc.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index e741ec4..8294da1 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -135,7 +135,9 @@ func (c *commonRPC) HandleStreamClose(closeErr error) {
 		}
 		c.dataClosed = true
 		c.ctxCancel()
-		_ = c.writer.Close()
+		if c.writer != nil {
+			_ = c.writer.Close()
+		}
 		broadcast()
 	})
 }
@@ -186,7 +188,9 @@ func (c *commonRPC) closeLocked(broadcast func()) {
 	if c.remoteErr == nil {
 		c.remoteErr = context.Canceled
 	}
-	_ = c.writer.Close()
+	if c.writer != nil {
+		_ = c.writer.Close()
+	}
 	broadcast()
 	c.ctxCancel()
 }
-- 
2.43.0


From 684d0734eccc74bde8218295af8919ffa070f5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 03/19] fix: keep the outcome of a completed call when the
 stream closes later

An error closing the stream (including the rejection of a duplicate
completion packet) replaced the clean end of an already completed call.
---
 srpc/client-rpc.go | 2 +-
 srpc/common-rpc.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index 4271f70..1d102c1 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -70,7 +70,7 @@ func (r *ClientRPC) HandlePacketData(data []byte) error {
 // HandleStreamClose handles the stream closing optionally w/ an error.
 func (r *ClientRPC) HandleStreamClose(closeErr error) {
 	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
-		if closeErr != nil && r.remoteErr == nil {
+		if closeErr != nil && r.remoteErr == nil && !r.dataClosed {
 			r.remoteErr = closeErr
 		}
 		r.dataClosed = true
diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index 8294da1..4750c30 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -130,7 +130,7 @@ func (c *commonRPC) WriteCallData(data []byte, complete bool, err error) error {
 // HandleStreamClose handles the incoming stream closing w/ optional error.
 func (c *commonRPC) HandleStreamClose(closeErr error) {
 	c.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
-		if closeErr != nil && c.remoteErr == nil {
+		if closeErr != nil && c.remoteErr == nil && !c.dataClosed {
 			c.remoteErr = closeErr
 		}
 		c.dataClosed = true
-- 
2.43.0


From f93dbbd221745c808e8c0c43965780d0913b0e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 04/19] fix: release the call context if the stream cannot be
 opened

---
 srpc/client-rpc.go | 1 +
 srpc/client.go     | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index 1d102c1..ee81d58 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -114,5 +114,6 @@ func (r *ClientRPC) Close() {
 			_ = r.WriteCallCancel()
 			r.closeLocked(broadcast)
 		}
+		r.ctxCancel()
 	})
 }
diff --git a/srpc/client.go b/srpc/client.go
index 7d0262c..ed8fc00 100644
--- a/srpc/client.go
+++ b/srpc/client.go
@@ -83,10 +83,12 @@ func (c *client) NewStream(ctx context.Context, service, method string, firstMsg
 	clientRPC := NewClientRPC(ctx, service, method)
 	writer, err := c.openStream(ctx, clientRPC.HandlePacketData, clientRPC.HandleStreamClose)
 	if err != nil {
+		clientRPC.Close()
 		return nil, err
 	}
 
 	if err := clientRPC.Start(writer, firstMsg != nil, firstMsgData); err != nil {
+		clientRPC.ctxCancel()
 		return nil, err
 	}
 
-- 
2.43.0


From 6ebf574246f5a7e1145d0173801ac54f659a9b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 05/19] fix: continue a short packet write after the bytes
 already written

---
 srpc/packet-rw.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/packet-rw.go b/srpc/packet-rw.go
index c848891..670f78f 100644
--- a/srpc/packet-rw.go
+++ b/srpc/packet-rw.go
@@ -59,7 +59,7 @@ func (r *PacketReadWriter) WritePacket(p *Packet) error {
 
 	var written, n int
 	for written < len(data) {
-		n, err = r.rw.Write(data)
+		n, err = r.rw.Write(data[written:])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 253e57661a33518cd86274c17a7085f7e82c5792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 06/19] fix: deliver packets read together with a read error

A Reader may return n > 0 with a non-EOF error: the complete packets in
those bytes were dropped.
---
 srpc/packet-rw.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/srpc/packet-rw.go b/srpc/packet-rw.go
index 670f78f..46ec122 100644
--- a/srpc/packet-rw.go
+++ b/srpc/packet-rw.go
@@ -86,15 +86,16 @@ func (r *PacketReadWriter) ReadToHandler(cb PacketDataHandler) error {
 	var currLen uint32
 	buf := make([]byte, 2048)
 	isOpen := true
+	var readErr error
 
 	for isOpen {
 		// read some data into the buffer
 		n, err := r.rw.Read(buf)
 		if err != nil {
-			if err == io.EOF || err == context.Canceled {
-				isOpen = false
-			} else {
-				return err
+			// process any data returned along with the error first
+			isOpen = false
+			if err != io.EOF && err != context.Canceled {
+				readErr = err
 			}
 		}
 
@@ -137,7 +138,7 @@ func (r *PacketReadWriter) ReadToHandler(cb PacketDataHandler) error {
 	}
 
 	// closed
-	return nil
+	return readErr
 }
 
 // Close closes the packet rw.
-- 
2.43.0


From b886400b1289fd4693ae821e4835c1a5dd676e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 07/19] fix: Dial as the outbound side of the muxed connection

Both ends of the connection acted as the yamux server.
---
 srpc/net.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/net.go b/srpc/net.go
index 3bfc3f5..021a93e 100644
--- a/srpc/net.go
+++ b/srpc/net.go
@@ -11,7 +11,7 @@ func Dial(addr string) (Client, error) {
 	if err != nil {
 		return nil, err
 	}
-	muxedConn, err := NewMuxedConn(nconn, false, nil)
+	muxedConn, err := NewMuxedConn(nconn, true, nil)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 8c624f0c6923ae108ee845134b19dc8c335cdd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 08/19] fix: close the listener when Listen returns

---
 srpc/net.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srpc/net.go b/srpc/net.go
index 021a93e..de4fee3 100644
--- a/srpc/net.go
+++ b/srpc/net.go
@@ -26,6 +26,7 @@ func Listen(ctx context.Context, addr string, srv *Server, errCh <-chan error) e
 	if err != nil {
 		return err
 	}
+	defer lis.Close()
 
 	listenErrCh := make(chan error, 1)
 	go func() {
-- 
2.43.0


From e79dc38a6fefa715c9e66bd8b2837208c3c32157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 09/19] fix: serve accepted connections concurrently in
 AcceptMuxedListener

---
 srpc/accept.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/srpc/accept.go b/srpc/accept.go
index 9995073..588f7ee 100644
--- a/srpc/accept.go
+++ b/srpc/accept.go
@@ -24,9 +24,9 @@ func AcceptMuxedListener(ctx context.Context, lis net.Listener, srv *Server, yam
 			continue
 		}
 
-		if err := srv.AcceptMuxedConn(ctx, mc); err != nil {
+		go func() {
+			_ = srv.AcceptMuxedConn(ctx, mc)
 			_ = nc.Close()
-			continue
-		}
+		}()
 	}
 }
-- 
2.43.0


From 2f27983d3d1e5c7b86e1f4e36d17c77a7f1e5b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 10/19] fix: keep the unread remainder of a packet in
 RwcConn.Read

A Read with a buffer shorter than the received packet dropped the rest of
the bytes: the yamux session over a RwcConn could not read its headers.
---
 srpc/rwc-conn.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index 6737d4c..81b6009 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -30,6 +30,9 @@ type RwcConn struct {
 	wd       time.Time   // write deadline
 	packetCh chan []byte // packet ch
 	closeErr error
+
+	rmtx sync.Mutex // guards rbuf, serializes Read
+	rbuf []byte     // unread remainder of the previous packet
 }
 
 // NewRwcConn constructs a new packet conn and starts the rx pump.
@@ -72,6 +75,15 @@ func (p *RwcConn) RemoteAddr() net.Addr {
 // Read can be made to time out and return an error after a fixed
 // time limit; see SetDeadline and SetReadDeadline.
 func (p *RwcConn) Read(b []byte) (n int, err error) {
+	p.rmtx.Lock()
+	defer p.rmtx.Unlock()
+
+	if len(p.rbuf) != 0 {
+		n = copy(b, p.rbuf)
+		p.rbuf = p.rbuf[n:]
+		return n, nil
+	}
+
 	deadline := p.rd
 	ctx := p.ctx
 	if !deadline.IsZero() {
@@ -100,10 +112,11 @@ func (p *RwcConn) Read(b []byte) (n int, err error) {
 
 	pl := len(pkt)
 	copy(b, pkt)
-	p.ar.Put(&pkt)
 	if len(b) < pl {
-		return len(b), io.ErrShortBuffer
+		p.rbuf = pkt[len(b):]
+		return len(b), nil
 	}
+	p.ar.Put(&pkt)
 	return pl, nil
 }
 
-- 
2.43.0


From 8cff101a10d1fc9bc2dddeaf157d8ee74bd5610e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 11/19] fix: decide on the caller if a proxy component was
 found

The release function is optional: a caller returned without one was treated
as not found, and a nil caller with one was called.
---
 rpcstream/proxy.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpcstream/proxy.go b/rpcstream/proxy.go
index 7d1c82e..7e522a1 100644
--- a/rpcstream/proxy.go
+++ b/rpcstream/proxy.go
@@ -38,7 +38,8 @@ func HandleProxyRpcStream[T RpcStream](stream RpcStream, getter RpcProxyGetter[T
 	remoteCaller, remoteComponentID, remoteCallerRel, err := getter(ctx, componentID)
 	if remoteCallerRel != nil {
 		defer remoteCallerRel()
-	} else if err == nil {
+	}
+	if err == nil && remoteCaller == nil {
 		err = ErrNoServerForComponent
 	}
 
-- 
2.43.0


From cb167a60088384f7e2be8bd428ec49224f8dedd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:25 +0000
Subject: [PATCH 12/19] fix: do not panic sending on a closed pipe stream

Close and CloseSend closed the channel MsgSend sends to.
---
 srpc/stream-pipe.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/srpc/stream-pipe.go b/srpc/stream-pipe.go
index 7f55969..21ddf94 100644
--- a/srpc/stream-pipe.go
+++ b/srpc/stream-pipe.go
@@ -17,13 +17,15 @@ type pipeStream struct {
 	closeOnce sync.Once
 	// dataCh is the data channel
 	dataCh chan []byte
+	// eofCh is closed when the remote will not send any more data
+	eofCh chan struct{}
 }
 
 // NewPipeStream constructs a new in-memory stream.
 func NewPipeStream(ctx context.Context) (Stream, Stream) {
-	s1 := &pipeStream{dataCh: make(chan []byte, 5)}
+	s1 := &pipeStream{dataCh: make(chan []byte, 5), eofCh: make(chan struct{})}
 	s1.ctx, s1.ctxCancel = context.WithCancel(ctx)
-	s2 := &pipeStream{other: s1, dataCh: make(chan []byte, 5)}
+	s2 := &pipeStream{other: s1, dataCh: make(chan []byte, 5), eofCh: make(chan struct{})}
 	s2.ctx, s2.ctxCancel = context.WithCancel(ctx)
 	s1.other = s2
 	return s1, s2
@@ -41,6 +43,12 @@ func (p *pipeStream) MsgSend(msg Message) error {
 		return err
 	}
 	select {
+	case <-p.other.eofCh:
+		// already closed for sending
+		return io.ErrClosedPipe
+	default:
+	}
+	select {
 	case <-p.ctx.Done():
 		return context.Canceled
 	case p.other.dataCh <- data:
@@ -54,11 +62,16 @@ func (p *pipeStream) MsgRecv(msg Message) error {
 	select {
 	case <-p.ctx.Done():
 		return context.Canceled
-	case data, ok := <-p.dataCh:
-		if !ok {
+	case data := <-p.dataCh:
+		return msg.UnmarshalVT(data)
+	case <-p.eofCh:
+		// deliver the messages sent before the remote closed first
+		select {
+		case data := <-p.dataCh:
+			return msg.UnmarshalVT(data)
+		default:
 			return io.EOF
 		}
-		return msg.UnmarshalVT(data)
 	}
 }
 
@@ -75,10 +88,10 @@ func (p *pipeStream) Close() error {
 	return nil
 }
 
-// closeRemote closes the remote data channel.
+// closeRemote signals to the remote that no more data will be sent.
 func (p *pipeStream) closeRemote() {
 	p.closeOnce.Do(func() {
-		close(p.other.dataCh)
+		close(p.other.eofCh)
 	})
 }
 
-- 
2.43.0


From d9e3a905490510ae5960877afc2245e842eb3305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:48 +0000
Subject: [PATCH 13/19] fix: keep the outcome of a completed call when it is
 closed locally

Closing a call which the remote had already completed replaced the clean
end of stream with context.Canceled.
---
 srpc/common-rpc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index 4750c30..cd6cb0f 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -184,10 +184,10 @@ func (c *commonRPC) WriteCallCancel() error {
 
 // closeLocked releases resources held by the RPC.
 func (c *commonRPC) closeLocked(broadcast func()) {
-	c.dataClosed = true
-	if c.remoteErr == nil {
+	if c.remoteErr == nil && !c.dataClosed {
 		c.remoteErr = context.Canceled
 	}
+	c.dataClosed = true
 	if c.writer != nil {
 		_ = c.writer.Close()
 	}
-- 
2.43.0


From a2e902d4fc8b837666db9ed4b262b5ed546d26a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:07 +0000
Subject: [PATCH 14/19] fix: do not block sending on a pipe stream closed by
 the remote

---
 srpc/stream-pipe.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/srpc/stream-pipe.go b/srpc/stream-pipe.go
index 21ddf94..dd8015e 100644
--- a/srpc/stream-pipe.go
+++ b/srpc/stream-pipe.go
@@ -51,6 +51,9 @@ func (p *pipeStream) MsgSend(msg Message) error {
 	select {
 	case <-p.ctx.Done():
 		return context.Canceled
+	case <-p.other.ctx.Done():
+		// the remote will not receive any more messages
+		return io.ErrClosedPipe
 	case p.other.dataCh <- data:
 		return nil
 	}
-- 
2.43.0


From 632100c0bddc208c88798c46747240a81891e6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:07 +0000
Subject: [PATCH 15/19] fix: report cancelation of a connection with a read
 deadline

---
 srpc/rwc-conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index 81b6009..4187ae2 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -96,7 +96,7 @@ func (p *RwcConn) Read(b []byte) (n int, err error) {
 	var ok bool
 	select {
 	case <-ctx.Done():
-		if !deadline.IsZero() {
+		if !deadline.IsZero() && p.ctx.Err() == nil {
 			return 0, os.ErrDeadlineExceeded
 		}
 		return 0, context.Canceled
-- 
2.43.0


From 0538f5f8a44a58bc854ed123d56cc9d4dbcc3151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:24 +0000
Subject: [PATCH 16/19] fix: guard the deadlines of a connection against
 concurrent access

---
 srpc/rwc-conn.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index 4187ae2..3e72b4d 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -26,11 +26,13 @@ type RwcConn struct {
 	raddr net.Addr
 
 	ar       sync.Pool   // packet arena
-	rd       time.Time   // read deadline
-	wd       time.Time   // write deadline
 	packetCh chan []byte // packet ch
 	closeErr error
 
+	dmtx sync.Mutex // guards rd and wd
+	rd   time.Time  // read deadline
+	wd   time.Time  // write deadline
+
 	rmtx sync.Mutex // guards rbuf, serializes Read
 	rbuf []byte     // unread remainder of the previous packet
 }
@@ -84,7 +86,10 @@ func (p *RwcConn) Read(b []byte) (n int, err error) {
 		return n, nil
 	}
 
+	p.dmtx.Lock()
 	deadline := p.rd
+	p.dmtx.Unlock()
+
 	ctx := p.ctx
 	if !deadline.IsZero() {
 		var ctxCancel context.CancelFunc
@@ -159,6 +164,9 @@ func (p *RwcConn) Write(pkt []byte) (n int, err error) {
 //
 // A zero value for t means I/O operations will not time out.
 func (p *RwcConn) SetDeadline(t time.Time) error {
+	p.dmtx.Lock()
+	defer p.dmtx.Unlock()
+
 	p.rd = t
 	p.wd = t
 	return nil
@@ -168,6 +176,9 @@ func (p *RwcConn) SetDeadline(t time.Time) error {
 // and any currently-blocked ReadFrom call.
 // A zero value for t means ReadFrom will not time out.
 func (p *RwcConn) SetReadDeadline(t time.Time) error {
+	p.dmtx.Lock()
+	defer p.dmtx.Unlock()
+
 	p.rd = t
 	return nil
 }
@@ -178,6 +189,9 @@ func (p *RwcConn) SetReadDeadline(t time.Time) error {
 // some of the data was successfully written.
 // A zero value for t means WriteTo will not time out.
 func (p *RwcConn) SetWriteDeadline(t time.Time) error {
+	p.dmtx.Lock()
+	defer p.dmtx.Unlock()
+
 	p.wd = t
 	return nil
 }
-- 
2.43.0


From 12f3f85a1c976b7427da79a2b600bdde87f71722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:48 +0000
Subject: [PATCH 17/19] fix: report an error without text as an error to the
 remote

---
 srpc/packet.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srpc/packet.go b/srpc/packet.go
index 94344a7..4b4d3b2 100644
--- a/srpc/packet.go
+++ b/srpc/packet.go
@@ -67,6 +67,10 @@ func NewCallDataPacket(data []byte, dataIsZero bool, complete bool, err error) *
 	var errStr string
 	if err != nil {
 		errStr = err.Error()
+		if errStr == "" {
+			// an empty error text would signal success to the remote
+			errStr = "unknown error"
+		}
 	}
 	return &Packet{Body: &Packet_CallData{
 		CallData: &CallData{
-- 
2.43.0


From 64547fb44c8a7d269441f2ee182f9bdac41e5ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:48 +0000
Subject: [PATCH 18/19] fix: acknowledge a nested stream lookup error without
 text as an error

---
 rpcstream/errors.go     | 9 +++++++++
 rpcstream/proxy.go      | 2 +-
 rpcstream/raw-stream.go | 2 +-
 rpcstream/rpcstream.go  | 2 +-
 4 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/rpcstream/errors.go b/rpcstream/errors.go
index 9b78738..e29dcda 100644
--- a/rpcstream/errors.go
+++ b/rpcstream/errors.go
@@ -8,3 +8,12 @@ var (
 	// ErrUnexpectedPacket is returned if the packet was unexpected.
 	ErrUnexpectedPacket = errors.New("unexpected rpcstream packet")
 )
+
+// ackErrorText returns the text acknowledging err to the remote.
+// Never empty: an empty error text would acknowledge success.
+func ackErrorText(err error) string {
+	if errStr := err.Error(); errStr != "" {
+		return errStr
+	}
+	return "unknown error"
+}
diff --git a/rpcstream/proxy.go b/rpcstream/proxy.go
index 7e522a1..19546a5 100644
--- a/rpcstream/proxy.go
+++ b/rpcstream/proxy.go
@@ -68,7 +68,7 @@ func HandleProxyRpcStream[T RpcStream](stream RpcStream, getter RpcProxyGetter[T
 	// send ack, but only if we have an error
 	// otherwise: we will proxy the ack from the remote stream.
 	if err != nil {
-		errStr := err.Error()
+		errStr := ackErrorText(err)
 		_ = stream.Send(&RpcStreamPacket{
 			Body: &RpcStreamPacket_Ack{
 				Ack: &RpcAck{Error: errStr},
diff --git a/rpcstream/raw-stream.go b/rpcstream/raw-stream.go
index c72dc75..2137223 100644
--- a/rpcstream/raw-stream.go
+++ b/rpcstream/raw-stream.go
@@ -40,7 +40,7 @@ func HandleRawRpcStream(stream RpcStream, getter RpcRawGetter) error {
 	// send ack
 	var errStr string
 	if err != nil {
-		errStr = err.Error()
+		errStr = ackErrorText(err)
 	}
 	sendErr := stream.Send(&RpcStreamPacket{
 		Body: &RpcStreamPacket_Ack{
diff --git a/rpcstream/rpcstream.go b/rpcstream/rpcstream.go
index 8838fc9..2bb0eb1 100644
--- a/rpcstream/rpcstream.go
+++ b/rpcstream/rpcstream.go
@@ -120,7 +120,7 @@ func HandleRpcStream(stream RpcStream, getter RpcStreamGetter) error {
 	// send ack
 	var errStr string
 	if err != nil {
-		errStr = err.Error()
+		errStr = ackErrorText(err)
 	}
 	sendErr := stream.Send(&RpcStreamPacket{
 		Body: &RpcStreamPacket_Ack{
-- 
2.43.0


From 070a81ab7b2364584393b56a13f420cf4ce1f752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:11 +0000
Subject: [PATCH 19/19] fix: HasServiceMethod called handlers while holding the
 mux lock

---
 srpc/mux.go | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/srpc/mux.go b/srpc/mux.go
index 8097abc..33ab1f6 100644
--- a/srpc/mux.go
+++ b/srpc/mux.go
@@ -86,16 +86,7 @@ func (m *mux) HasServiceMethod(serviceID, methodID string) bool {
 	m.rmtx.Lock()
 	defer m.rmtx.Unlock()
 
-	handlers := m.services[serviceID]
-	for _, mh := range handlers {
-		for _, mhMethodID := range mh.GetMethodIDs() {
-			if mhMethodID == methodID {
-				return true
-			}
-		}
-	}
-
-	return false
+	return m.services[serviceID][methodID] != nil
 }
 
 // InvokeMethod invokes the method matching the service & method ID.
-- 
2.43.0


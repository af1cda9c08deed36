From 6242757c3ec366e1054a2964fbd86d5b54e97231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:46 +0000
Subject: [PATCH 01/35] fix: do not panic when a peer announces an unknown
 socket type

The socket type comes from the peer's handshake metadata: a peer sending
an unknown, or no, Socket-Type property crashed the whole process.
---
 socket_types.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/socket_types.go b/socket_types.go
index d149de2..f755a02 100644
--- a/socket_types.go
+++ b/socket_types.go
@@ -86,8 +86,6 @@ func (sck SocketType) IsCompatible(peer SocketType) bool {
 		if peer == Stream {
 			return true
 		}
-	default:
-		panic("unknown socket-type: \"" + string(sck) + "\"")
 	}
 
 	return false
-- 
2.43.0


From f62390888d104106af8b202a902f7461097b2788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:20 +0000
Subject: [PATCH 02/35] fix: bounds-check ZMTP metadata encoding and decoding

Truncated metadata from a peer made Property.Write slice past the end of
its input and crash the process; on the encoding side, a key longer than
255 bytes was silently truncated and a property larger than the buffer
io.Copy happened to provide panicked.
---
 protocol.go | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/protocol.go b/protocol.go
index 82262af..16c9468 100644
--- a/protocol.go
+++ b/protocol.go
@@ -54,6 +54,7 @@ const (
 	maxInt    = int(maxUint >> 1)
 	maxUint64 = ^uint64(0)
 	maxInt64  = int64(maxUint64 >> 1)
+	maxUint32 = ^uint32(0)
 )
 
 func asString(slice []byte) string {
@@ -186,11 +187,11 @@ func (md Metadata) MarshalZMTP() ([]byte, error) {
 		keys[key] = struct{}{}
 		switch k {
 		case sysSockID, sysSockType:
-			if _, err := io.Copy(buf, Property{K: k, V: v}); err != nil {
+			if err := (Property{K: k, V: v}).appendTo(buf); err != nil {
 				return nil, err
 			}
 		default:
-			if _, err := io.Copy(buf, Property{K: "X-" + key, V: v}); err != nil {
+			if err := (Property{K: "X-" + key, V: v}).appendTo(buf); err != nil {
 				return nil, err
 			}
 		}
@@ -224,15 +225,33 @@ type Property struct {
 	V string
 }
 
+// appendTo appends the on-wire representation of the property to buf,
+// whatever its size.
+func (prop Property) appendTo(buf *bytes.Buffer) error {
+	data := make([]byte, 1+len(toTitle(prop.K))+4+len(prop.V))
+	n, err := prop.Read(data)
+	if err != nil && err != io.EOF {
+		return err
+	}
+	buf.Write(data[:n])
+	return nil
+}
+
 func (prop Property) Read(data []byte) (n int, err error) {
-	klen := len(prop.K)
+	key := toTitle(prop.K)
+	klen := len(key)
 	vlen := len(prop.V)
 	size := 1 + klen + 4 + vlen
-	_ = data[:size] // help with bound check elision
+	if klen > 255 || uint64(vlen) > uint64(maxUint32) {
+		return 0, errOverflow
+	}
+	if len(data) < size {
+		return 0, io.ErrShortBuffer
+	}
 
 	data[n] = byte(klen)
 	n++
-	n += copy(data[n:n+klen], toTitle(prop.K))
+	n += copy(data[n:n+klen], key)
 	binary.BigEndian.PutUint32(data[n:n+4], uint32(vlen))
 	n += 4
 	n += copy(data[n:n+vlen], prop.V)
@@ -240,9 +259,12 @@ func (prop Property) Read(data []byte) (n int, err error) {
 }
 
 func (prop *Property) Write(data []byte) (n int, err error) {
+	if len(data) == 0 {
+		return n, io.ErrUnexpectedEOF
+	}
 	klen := int(data[n])
 	n++
-	if klen > len(data) {
+	if klen+4 > len(data)-n {
 		return n, io.ErrUnexpectedEOF
 	}
 
@@ -256,7 +278,7 @@ func (prop *Property) Write(data []byte) (n int, err error) {
 	}
 
 	vlen := int(v)
-	if n+vlen > len(data) {
+	if vlen > len(data)-n {
 		return n, io.ErrUnexpectedEOF
 	}
 
-- 
2.43.0


From 4ba1150ea0505407a1921f60c32151995d6fe316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:53 +0000
Subject: [PATCH 03/35] fix: do not allocate frame bodies from the length a
 peer claims

A frame header with a length of up to 2^63-1 made Conn.read call make with
that length, which panics or exhausts memory before any body byte arrived.
---
 conn.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 0524ae6..3476b95 100644
--- a/conn.go
+++ b/conn.go
@@ -394,6 +394,26 @@ func (c *Conn) send(isCommand bool, body []byte, flag byte) error {
 	return nil
 }
 
+// readBody reads the body of a frame from r.
+// size is what the peer claims the length of the body to be: large bodies are
+// read piecewise, so that no more memory is set aside than data was received.
+func readBody(r io.Reader, size uint64) ([]byte, error) {
+	const maxPrealloc = 1 << 20
+
+	if size <= maxPrealloc {
+		body := make([]byte, size)
+		_, err := io.ReadFull(r, body)
+		return body, err
+	}
+
+	var buf bytes.Buffer
+	_, err := io.CopyN(&buf, r, int64(size))
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	return buf.Bytes(), err
+}
+
 // readStream handles reading for STREAM sockets (raw TCP)
 func (c *Conn) readStream() Msg {
 	var msg Msg
@@ -479,8 +499,8 @@ func (c *Conn) read() Msg {
 			return msg
 		}
 
-		body := make([]byte, size)
-		_, msg.err = io.ReadFull(c.rw, body)
+		var body []byte
+		body, msg.err = readBody(c.rw, size)
 		if msg.err != nil {
 			c.checkIO(msg.err)
 			return msg
-- 
2.43.0


From 5396aeb6febf0939f98f2d579d58d81f986b8792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:53 +0000
Subject: [PATCH 04/35] fix: mark connections closed on truncated frames and
 closed pipes

A peer that disconnected in the middle of a frame, an inproc peer that was
closed, or a frame that cannot be decoded left a connection nobody reads
from any more marked as alive: it was never removed from its socket.
---
 conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 3476b95..db1b7be 100644
--- a/conn.go
+++ b/conn.go
@@ -496,6 +496,7 @@ func (c *Conn) read() Msg {
 
 		if size > uint64(maxInt64) {
 			msg.err = errOverflow
+			c.SetClosed()
 			return msg
 		}
 
@@ -515,6 +516,7 @@ func (c *Conn) read() Msg {
 
 		buf := new(bytes.Buffer)
 		if _, msg.err = c.sec.Decrypt(buf, body); msg.err != nil {
+			c.SetClosed()
 			return msg
 		}
 		msg.Frames = append(msg.Frames, buf.Bytes())
@@ -568,7 +570,7 @@ func (conn *Conn) checkIO(err error) {
 		return
 	}
 
-	if err == io.EOF || errors.Is(err, io.EOF) {
+	if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) || errors.Is(err, io.ErrClosedPipe) {
 		conn.SetClosed()
 		return
 	}
-- 
2.43.0


From 3e3be71ef8d461f24e297b0dbb0afa362367ac86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 05/35] fix: do not report failed handshakes as closed
 connections

An I/O error during the handshake invoked the close callback for a
connection that was never handed out; with automatic reconnection, every
failed handshake re-entered Dial recursively.
---
 conn.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index db1b7be..de43149 100644
--- a/conn.go
+++ b/conn.go
@@ -74,14 +74,13 @@ func Open(rw net.Conn, sec Security, sockType SocketType, sockID SocketIdentity,
 	}
 
 	conn := &Conn{
-		typ:            sockType,
-		id:             sockID,
-		rw:             rw,
-		sec:            sec,
-		Server:         server,
-		Meta:           make(Metadata),
-		topics:         make(map[string]struct{}),
-		onCloseErrorCB: onCloseErrorCB,
+		typ:    sockType,
+		id:     sockID,
+		rw:     rw,
+		sec:    sec,
+		Server: server,
+		Meta:   make(Metadata),
+		topics: make(map[string]struct{}),
 	}
 	conn.Meta[sysSockType] = string(conn.typ)
 	conn.Meta[sysSockID] = conn.id.String()
@@ -91,6 +90,7 @@ func Open(rw net.Conn, sec Security, sockType SocketType, sockID SocketIdentity,
 	if sockType == Stream {
 		// For STREAM sockets, we don't perform ZMTP handshake
 		// They're raw TCP connections
+		conn.onCloseErrorCB = onCloseErrorCB
 		return conn, nil
 	}
 
@@ -99,6 +99,9 @@ func Open(rw net.Conn, sec Security, sockType SocketType, sockID SocketIdentity,
 		return nil, fmt.Errorf("zmq4: could not initialize ZMTP connection: %w", err)
 	}
 
+	// A handshake that fails is reported to the caller:
+	// only connections that were handed out notify of their closing.
+	conn.onCloseErrorCB = onCloseErrorCB
 	return conn, nil
 }
 
-- 
2.43.0


From b4ec99dbc87b3113f85aca97450da9d47e16395c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 06/35] fix: write each message to a connection without
 interleaving

Two goroutines sending on one connection (concurrent Sends, a Send that
timed out and is still being written, a PONG) could interleave their frame
headers and bodies and corrupt the stream. Errors are still reported to the
close callback, now without any lock of the connection held.
---
 conn.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/conn.go b/conn.go
index de43149..dcf82a5 100644
--- a/conn.go
+++ b/conn.go
@@ -32,6 +32,8 @@ type Conn struct {
 		Meta   Metadata
 	}
 
+	wmu sync.Mutex // serializes the messages and commands written to rw
+
 	mu     sync.RWMutex
 	topics map[string]struct{} // set of subscribed topics
 
@@ -56,7 +58,9 @@ func (c *Conn) Write(p []byte) (int, error) {
 	if c.Closed() {
 		return 0, ErrClosedConn
 	}
+	c.wmu.Lock()
 	n, err := c.rw.Write(p)
+	c.wmu.Unlock()
 	c.checkIO(err)
 	return n, err
 }
@@ -179,7 +183,11 @@ func (c *Conn) SendCmd(name string, body []byte) error {
 	if err != nil {
 		return err
 	}
-	return c.send(true, buf, 0)
+	c.wmu.Lock()
+	err = c.send(true, buf, 0)
+	c.wmu.Unlock()
+	c.checkIO(err)
+	return err
 }
 
 // SendMsg sends a ZMTP message over the wire.
@@ -188,6 +196,16 @@ func (c *Conn) SendMsg(msg Msg) error {
 		return ErrClosedConn
 	}
 
+	// The frames of a message must not interleave with another message's,
+	// and the close callback runs without the lock.
+	c.wmu.Lock()
+	err := c.sendMsg(msg)
+	c.wmu.Unlock()
+	c.checkIO(err)
+	return err
+}
+
+func (c *Conn) sendMsg(msg Msg) error {
 	// STREAM sockets handle raw TCP data differently
 	if c.typ == Stream {
 		return c.sendStream(msg)
@@ -219,7 +237,6 @@ func (c *Conn) sendStream(msg Msg) error {
 	for _, frame := range msg.Frames {
 		_, err := c.rw.Write(frame)
 		if err != nil {
-			c.checkIO(err)
 			return err
 		}
 	}
@@ -352,7 +369,6 @@ func (c *Conn) sendMulti(msg Msg) error {
 	}
 
 	if _, err := buffers.WriteTo(c.rw); err != nil {
-		c.checkIO(err)
 		return err
 	}
 
@@ -385,12 +401,10 @@ func (c *Conn) send(isCommand bool, body []byte, flag byte) error {
 		hdr[1] = uint8(size)
 	}
 	if _, err := c.rw.Write(hdr[:hsz]); err != nil {
-		c.checkIO(err)
 		return err
 	}
 
 	if _, err := c.sec.Encrypt(c.rw, body); err != nil {
-		c.checkIO(err)
 		return err
 	}
 
-- 
2.43.0


From f91feccfda809c54a20ae7fb17625b1b9d720b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:15 +0000
Subject: [PATCH 07/35] fix: announce the size of the encrypted frame body

The frame header carried the length of the plaintext: with a security
mechanism whose Encrypt changes the size of the data, the peer lost sync.
---
 conn.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/conn.go b/conn.go
index dcf82a5..94f054a 100644
--- a/conn.go
+++ b/conn.go
@@ -338,6 +338,16 @@ func (c *Conn) sendMulti(msg Msg) error {
 			flag ^= hasMoreBitFlag
 		}
 
+		switch c.sec.Type() {
+		case NullSecurity:
+		default:
+			var secBuf bytes.Buffer
+			if _, err := c.sec.Encrypt(&secBuf, frame); err != nil {
+				return err
+			}
+			frame = secBuf.Bytes()
+		}
+
 		size := len(frame)
 		isLong := size > 255
 		if isLong {
@@ -356,16 +366,7 @@ func (c *Conn) sendMulti(msg Msg) error {
 			hdr[1] = uint8(size)
 		}
 
-		switch c.sec.Type() {
-		case NullSecurity:
-			buffers = append(buffers, hdr[:hsz], frame)
-		default:
-			var secBuf bytes.Buffer
-			if _, err := c.sec.Encrypt(&secBuf, frame); err != nil {
-				return err
-			}
-			buffers = append(buffers, hdr[:hsz], secBuf.Bytes())
-		}
+		buffers = append(buffers, hdr[:hsz], frame)
 	}
 
 	if _, err := buffers.WriteTo(c.rw); err != nil {
@@ -376,6 +377,16 @@ func (c *Conn) sendMulti(msg Msg) error {
 }
 
 func (c *Conn) send(isCommand bool, body []byte, flag byte) error {
+	switch c.sec.Type() {
+	case NullSecurity:
+	default:
+		var secBuf bytes.Buffer
+		if _, err := c.sec.Encrypt(&secBuf, body); err != nil {
+			return err
+		}
+		body = secBuf.Bytes()
+	}
+
 	// Long flag
 	size := len(body)
 	isLong := size > 255
@@ -404,7 +415,7 @@ func (c *Conn) send(isCommand bool, body []byte, flag byte) error {
 		return err
 	}
 
-	if _, err := c.sec.Encrypt(c.rw, body); err != nil {
+	if _, err := c.rw.Write(body); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 3ecbd59da45539ff6f09c7c37bcc1403036f2f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:15 +0000
Subject: [PATCH 08/35] fix: do not deliver ZMTP command frames as messages

A PING (or any command) from a peer surfaced in Recv as a user message and
was never answered; REQ and REP took it for a reply or a request.
---
 conn.go   | 19 +++++++++++++++++++
 msgio.go  |  2 +-
 pub.go    |  2 +-
 rep.go    |  2 +-
 req.go    |  2 +-
 router.go |  2 +-
 6 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/conn.go b/conn.go
index 94f054a..f42e491 100644
--- a/conn.go
+++ b/conn.go
@@ -555,6 +555,25 @@ func (c *Conn) read() Msg {
 	return msg
 }
 
+// readMsg reads the next message meant for the application: the commands of
+// the protocol found on the way are handled and not handed out.
+func (c *Conn) readMsg() Msg {
+	for {
+		msg := c.read()
+		if msg.err != nil || !msg.isCmd() {
+			return msg
+		}
+
+		var cmd Cmd
+		if len(msg.Frames) != 1 || cmd.unmarshalZMTP(msg.Frames[0]) != nil {
+			continue
+		}
+		if cmd.Name == CmdPing {
+			_ = c.SendCmd(CmdPong, nil)
+		}
+	}
+}
+
 func (conn *Conn) subscribe(msg Msg) {
 	conn.mu.Lock()
 	v := msg.Frames[0]
diff --git a/msgio.go b/msgio.go
index 41abc20..193028e 100644
--- a/msgio.go
+++ b/msgio.go
@@ -102,7 +102,7 @@ func (q *qreader) listen(ctx context.Context, r *Conn) {
 	defer r.Close()
 
 	for {
-		msg := r.read()
+		msg := r.readMsg()
 		select {
 		case <-ctx.Done():
 			return
diff --git a/pub.go b/pub.go
index 7dffb59..4fecfb3 100644
--- a/pub.go
+++ b/pub.go
@@ -189,7 +189,7 @@ func (q *pubQReader) listen(ctx context.Context, r *Conn) {
 	defer r.Close()
 
 	for {
-		msg := r.read()
+		msg := r.readMsg()
 		select {
 		case <-ctx.Done():
 			return
diff --git a/rep.go b/rep.go
index d9a1a78..8e4f462 100644
--- a/rep.go
+++ b/rep.go
@@ -159,7 +159,7 @@ func (r *repReader) listen(ctx context.Context, conn *Conn) {
 	defer conn.Close()
 
 	for {
-		msg := conn.read()
+		msg := conn.readMsg()
 		select {
 		case <-ctx.Done():
 			return
diff --git a/req.go b/req.go
index 2b99aed..b9ffe4e 100644
--- a/req.go
+++ b/req.go
@@ -183,7 +183,7 @@ func (r *reqReader) read(ctx context.Context, msg *Msg) error {
 	if curConn == nil {
 		return fmt.Errorf("zmq4: no connections available")
 	}
-	*msg = curConn.read()
+	*msg = curConn.readMsg()
 	if msg.err != nil {
 		return msg.err
 	}
diff --git a/router.go b/router.go
index aebb14a..34f7486 100644
--- a/router.go
+++ b/router.go
@@ -158,7 +158,7 @@ func (q *routerQReader) listen(ctx context.Context, r *Conn) {
 
 	id := []byte(r.Peer.Meta[sysSockID])
 	for {
-		msg := r.read()
+		msg := r.readMsg()
 		select {
 		case <-ctx.Done():
 			return
-- 
2.43.0


From 9fddb11aa8dbe7fb1ac34aa54cb77791c2027fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 09/35] fix: make inproc connections behave like streams

Read lost the rest of a write that did not fit in the caller's buffer (any
frame over 255 bytes was corrupted), reported EOF before the data written
ahead of the close, and was not woken by closing either end. Write kept a
reference to the caller's buffer after it had returned.
---
 internal/inproc/conn.go | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/internal/inproc/conn.go b/internal/inproc/conn.go
index 52a1aa0..64849e3 100644
--- a/internal/inproc/conn.go
+++ b/internal/inproc/conn.go
@@ -24,6 +24,9 @@ type conn struct {
 	localDone  chan struct{}
 	remoteDone <-chan struct{}
 
+	rmu  sync.Mutex
+	rbuf []byte // received data that did not fit in the last Read
+
 	rdeadline pipeDeadline
 	wdeadline pipeDeadline
 }
@@ -46,9 +49,13 @@ func (c *conn) write(data []byte) (int, error) {
 		return 0, timeoutError{}
 	}
 
+	// The receiver gets the data after Write has returned,
+	// when the caller may already reuse its buffer.
+	buf := append([]byte(nil), data...)
+
 	var n int
 	select {
-	case c.w <- data:
+	case c.w <- buf:
 		n = len(data)
 		return n, nil
 	case <-c.localDone:
@@ -69,25 +76,36 @@ func (c *conn) Read(data []byte) (int, error) {
 }
 
 func (c *conn) read(data []byte) (int, error) {
+	c.rmu.Lock()
+	defer c.rmu.Unlock()
+
 	switch {
 	case isClosedChan(c.localDone):
 		return 0, io.ErrClosedPipe
-	case isClosedChan(c.remoteDone):
-		return 0, io.EOF
 	case isClosedChan(c.rdeadline.wait()):
 		return 0, timeoutError{}
 	}
 
-	select {
-	case bw := <-c.r:
-		nr := copy(data, bw)
-		if len(data) < len(bw) {
-			return nr, io.ErrShortBuffer
+	if len(c.rbuf) == 0 {
+		select {
+		case c.rbuf = <-c.r:
+		case <-c.localDone:
+			return 0, io.ErrClosedPipe
+		case <-c.rdeadline.wait():
+			return 0, timeoutError{}
+		case <-c.remoteDone:
+			// what the peer wrote before it closed is still to be read.
+			select {
+			case c.rbuf = <-c.r:
+			default:
+				return 0, io.EOF
+			}
 		}
-		return nr, nil
-	case <-c.rdeadline.wait():
-		return 0, timeoutError{}
 	}
+
+	nr := copy(data, c.rbuf)
+	c.rbuf = c.rbuf[nr:]
+	return nr, nil
 }
 
 func (c *conn) LocalAddr() net.Addr  { return c.addr }
-- 
2.43.0


From deca1a839f7c4ed53d48ee76db5e379210bdb2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 10/35] fix: let inproc Accept wait for a peer and Close wake
 everybody up

Accept returned connections nobody had dialed, Dial handed out the most
recently queued one and, when the listener was closed while it waited, was
not woken up.
---
 internal/inproc/inproc.go | 40 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/internal/inproc/inproc.go b/internal/inproc/inproc.go
index 8b0d6eb..855d869 100644
--- a/internal/inproc/inproc.go
+++ b/internal/inproc/inproc.go
@@ -130,47 +130,43 @@ func (l *Listener) Close() error {
 			err = e
 		}
 	}
+	l.pipes = nil
 	l.closed = true
 	delete(mgr.db, string(l.addr))
+	mgr.cv.Broadcast()
 	return err
 }
 
 // Accept waits for and returns the next connection to the listener.
 func (l *Listener) Accept() (net.Conn, error) {
 	mgr.mu.Lock()
-	p := newPipe(l.addr)
-	l.pipes = append(l.pipes, p)
-	closed := l.closed
-	mgr.cv.Broadcast()
-	mgr.mu.Unlock()
+	defer mgr.mu.Unlock()
 
-	if closed {
+	for len(l.pipes) == 0 && !l.closed {
+		mgr.cv.Wait()
+	}
+	if l.closed {
 		return nil, ErrClosed
 	}
+	p := l.pipes[0]
+	l.pipes = l.pipes[1:]
 	return p.p1, nil
 }
 
 // Dial connects to the given address.
+// The connection is queued until the listener accepts it.
 func Dial(addr string) (net.Conn, error) {
 	mgr.mu.Lock()
+	defer mgr.mu.Unlock()
 
-	for {
-		var (
-			l  *Listener
-			ok bool
-		)
-		if l, ok = mgr.db[addr]; !ok || l == nil {
-			mgr.mu.Unlock()
-			return nil, ErrConnRefused
-		}
-		if n := len(l.pipes); n != 0 {
-			p := l.pipes[n-1]
-			l.pipes = l.pipes[:n-1]
-			mgr.mu.Unlock()
-			return p.p2, nil
-		}
-		mgr.cv.Wait()
+	l, ok := mgr.db[addr]
+	if !ok || l == nil {
+		return nil, ErrConnRefused
 	}
+	p := newPipe(l.addr)
+	l.pipes = append(l.pipes, p)
+	mgr.cv.Broadcast()
+	return p.p2, nil
 }
 
 // Addr represents an in-process "network" end-point address.
-- 
2.43.0


From a4350671bafdc5dd3676446b192199dea4833d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 11/35] fix: reconnect in the background, and only what was
 dialed

The close callback dialed the socket's last endpoint synchronously, from
within Send or Recv and under the locks held there: a failed send on a
socket with several connections deadlocked. It also made a listening socket
dial itself whenever a peer disconnected, and a socket that had dialed
several endpoints reconnect to the last one only.
---
 socket.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/socket.go b/socket.go
index 338062c..0ceb852 100644
--- a/socket.go
+++ b/socket.go
@@ -323,7 +323,13 @@ connect:
 		return fmt.Errorf("zmq4: got a nil dial-conn to %q", endpoint)
 	}
 
-	zconn, err := Open(conn, sck.sec, sck.typ, sck.id, false, sck.scheduleRmConn)
+	zconn, err := Open(conn, sck.sec, sck.typ, sck.id, false, func(c *Conn) {
+		sck.scheduleRmConn(c)
+		if sck.autoReconnect {
+			// The caller may be in the middle of sending or receiving.
+			go sck.Dial(endpoint)
+		}
+	})
 	if err != nil {
 		return fmt.Errorf("zmq4: could not open a ZMTP connection: %w", err)
 	}
@@ -400,10 +406,6 @@ func (sck *socket) scheduleRmConn(c *Conn) {
 	sck.closedConns = append(sck.closedConns, c)
 	sck.reaperCond.Signal()
 	sck.reaperCond.L.Unlock()
-
-	if sck.autoReconnect {
-		sck.Dial(sck.ep)
-	}
 }
 
 // Type returns the type of this Socket (PUB, SUB, ...)
-- 
2.43.0


From fb248ce19c8da3c6cb0244ee3c4447d2c219fdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 12/35] fix: guard the socket's listener, endpoint, options and
 reaper

They were read and written by concurrent Listen, Dial, Addr, Close,
GetOption and SetOption calls without the lock: two Dials could start two
reapers (one leaked), a Listen racing with Close or another Listen leaked
its listener, and a Dial after Listen made Close unlink the socket file of
the dialed peer instead of its own.
---
 socket.go | 69 ++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 40 insertions(+), 29 deletions(-)

diff --git a/socket.go b/socket.go
index 0ceb852..8462bfe 100644
--- a/socket.go
+++ b/socket.go
@@ -34,7 +34,7 @@ type socketMonitor struct{}
 
 // socket implements the ZeroMQ socket interface
 type socket struct {
-	ep            string // socket end-point
+	ep            string // end-point the socket listens on
 	typ           SocketType
 	id            SocketIdentity
 	retry         time.Duration
@@ -133,17 +133,16 @@ func (sck *socket) Close() error {
 		return fmt.Errorf("zmq4: socket already closed")
 	}
 	sck.isClosed = true
+	listener := sck.listener
 	sck.mu.Unlock()
 
-	// The Lock around Signal ensures the connReaper is running
-	// and is in sck.reaperCond.Wait()
 	sck.reaperCond.L.Lock()
 	sck.cancel()
 	sck.reaperCond.Signal()
 	sck.reaperCond.L.Unlock()
 
-	if sck.listener != nil {
-		defer sck.listener.Close()
+	if listener != nil {
+		defer listener.Close()
 	}
 
 	sck.mu.RLock()
@@ -159,7 +158,7 @@ func (sck *socket) Close() error {
 	ep := sck.ep
 	sck.mu.RUnlock()
 
-	if sck.listener != nil && strings.HasPrefix(ep, "ipc://") {
+	if listener != nil && strings.HasPrefix(ep, "ipc://") {
 		os.Remove(ep[len("ipc://"):])
 	}
 
@@ -222,10 +221,10 @@ func (sck *socket) Listen(endpoint string) error {
 		return fmt.Errorf("zmq4: socket is closed")
 	}
 	if sck.listener != nil {
+		ep := sck.ep
 		sck.mu.Unlock()
-		return fmt.Errorf("zmq4: socket already listening on %q", sck.ep)
+		return fmt.Errorf("zmq4: socket already listening on %q", ep)
 	}
-	sck.ep = endpoint
 	sck.mu.Unlock()
 	network, addr, err := splitAddr(endpoint)
 	if err != nil {
@@ -243,20 +242,22 @@ func (sck *socket) Listen(endpoint string) error {
 	}
 
 	sck.mu.Lock()
+	if sck.isClosed || sck.listener != nil {
+		sck.mu.Unlock()
+		l.Close()
+		return fmt.Errorf("zmq4: socket closed or already listening on another endpoint")
+	}
 	sck.listener = l
+	sck.ep = endpoint
 	sck.mu.Unlock()
 
-	go sck.accept()
-	if !sck.reaperStarted {
-		sck.reaperCond.L.Lock()
-		go sck.connReaper()
-		sck.reaperStarted = true
-	}
+	go sck.accept(l, endpoint)
+	sck.startReaper()
 
 	return nil
 }
 
-func (sck *socket) accept() {
+func (sck *socket) accept(l net.Listener, ep string) {
 	ctx, cancel := context.WithCancel(sck.ctx)
 	defer cancel()
 	for {
@@ -264,17 +265,17 @@ func (sck *socket) accept() {
 		case <-ctx.Done():
 			return
 		default:
-			conn, err := sck.listener.Accept()
+			conn, err := l.Accept()
 			if err != nil {
 				// FIXME(sbinet): maybe bubble up this error to application code?
-				//sck.log.Printf("error accepting connection from %q: %+v", sck.ep, err)
+				//sck.log.Printf("error accepting connection from %q: %+v", ep, err)
 				continue
 			}
 
 			zconn, err := Open(conn, sck.sec, sck.typ, sck.id, true, sck.scheduleRmConn)
 			if err != nil {
 				// FIXME(sbinet): maybe bubble up this error to application code?
-				sck.log.Printf("could not open a ZMTP connection with %q: %+v", sck.ep, err)
+				sck.log.Printf("could not open a ZMTP connection with %q: %+v", ep, err)
 				continue
 			}
 
@@ -290,7 +291,6 @@ func (sck *socket) Dial(endpoint string) error {
 		sck.mu.Unlock()
 		return fmt.Errorf("zmq4: socket is closed")
 	}
-	sck.ep = endpoint
 	sck.mu.Unlock()
 
 	network, addr, err := splitAddr(endpoint)
@@ -337,11 +337,7 @@ connect:
 		return fmt.Errorf("zmq4: got a nil ZMTP connection to %q", endpoint)
 	}
 
-	if !sck.reaperStarted {
-		sck.reaperCond.L.Lock()
-		go sck.connReaper()
-		sck.reaperStarted = true
-	}
+	sck.startReaper()
 	sck.addConn(zconn)
 	return nil
 }
@@ -416,6 +412,8 @@ func (sck *socket) Type() SocketType {
 // Addr returns the listener's address.
 // Addr returns nil if the socket isn't a listener.
 func (sck *socket) Addr() net.Addr {
+	sck.mu.RLock()
+	defer sck.mu.RUnlock()
 	if sck.listener == nil {
 		return nil
 	}
@@ -424,6 +422,8 @@ func (sck *socket) Addr() net.Addr {
 
 // GetOption is used to retrieve an option for a socket.
 func (sck *socket) GetOption(name string) (interface{}, error) {
+	sck.mu.RLock()
+	defer sck.mu.RUnlock()
 	v, ok := sck.props[name]
 	if !ok {
 		return nil, ErrBadProperty
@@ -434,6 +434,8 @@ func (sck *socket) GetOption(name string) (interface{}, error) {
 // SetOption is used to set an option for a socket.
 func (sck *socket) SetOption(name string, value interface{}) error {
 	// FIXME(sbinet) different socket types support different options.
+	sck.mu.Lock()
+	defer sck.mu.Unlock()
 	sck.props[name] = value
 	return nil
 }
@@ -442,12 +444,21 @@ func (sck *socket) Timeout() time.Duration {
 	return sck.timeout
 }
 
+// startReaper starts the connReaper goroutine, once.
+func (sck *socket) startReaper() {
+	sck.reaperCond.L.Lock()
+	defer sck.reaperCond.L.Unlock()
+	if sck.reaperStarted {
+		return
+	}
+	sck.reaperStarted = true
+	go sck.connReaper()
+}
+
 func (sck *socket) connReaper() {
-	// We are not locking here sck.reaperCond.L.Lock()
-	// as it should be locked prior starting connReaper as goroutine
-	// That would ensure that sck.reaperCond.Signal()
-	// would be delivered only when reaper goroutine is really started
-	// and is in sck.reaperCond.Wait()
+	// What Signal announces is checked with the lock held before waiting:
+	// nothing is missed when it is sent before this goroutine runs.
+	sck.reaperCond.L.Lock()
 	defer sck.reaperCond.L.Unlock()
 
 	for {
-- 
2.43.0


From 25d3894d11e65305f296562580e32e0d467f3ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:56 +0000
Subject: [PATCH 13/35] fix: close the connections that a socket does not keep

A connection whose handshake failed, one that was established while the
socket was being closed, and one that was removed after a failed write
(on sockets that do not read) were never closed.
---
 socket.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/socket.go b/socket.go
index 8462bfe..2da3422 100644
--- a/socket.go
+++ b/socket.go
@@ -276,6 +276,7 @@ func (sck *socket) accept(l net.Listener, ep string) {
 			if err != nil {
 				// FIXME(sbinet): maybe bubble up this error to application code?
 				sck.log.Printf("could not open a ZMTP connection with %q: %+v", ep, err)
+				conn.Close()
 				continue
 			}
 
@@ -331,6 +332,7 @@ connect:
 		}
 	})
 	if err != nil {
+		conn.Close()
 		return fmt.Errorf("zmq4: could not open a ZMTP connection: %w", err)
 	}
 	if zconn == nil {
@@ -344,6 +346,12 @@ connect:
 
 func (sck *socket) addConn(c *Conn) {
 	sck.mu.Lock()
+	if sck.isClosed {
+		// Close did not see this connection.
+		sck.mu.Unlock()
+		c.Close()
+		return
+	}
 	sck.conns = append(sck.conns, c)
 	if len(c.Peer.Meta[sysSockID]) == 0 {
 		switch c.typ {
@@ -478,6 +486,7 @@ func (sck *socket) connReaper() {
 		sck.reaperCond.L.Unlock()
 		for _, c := range cc {
 			sck.rmConn(c)
+			c.Close()
 		}
 		sck.reaperCond.L.Lock()
 	}
-- 
2.43.0


From 7f3aa22a52c13cee377ffa755754792934781f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:56 +0000
Subject: [PATCH 14/35] fix: do not let a stalled peer block Listen, Dial or
 Close

The handshake ran in the accept loop: one client that connected and sent
nothing kept all others out, and its goroutine survived Close. Dial kept
waiting for the handshake, or for its next retry, after the socket was
closed.
---
 socket.go | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/socket.go b/socket.go
index 2da3422..65599ef 100644
--- a/socket.go
+++ b/socket.go
@@ -272,19 +272,28 @@ func (sck *socket) accept(l net.Listener, ep string) {
 				continue
 			}
 
-			zconn, err := Open(conn, sck.sec, sck.typ, sck.id, true, sck.scheduleRmConn)
-			if err != nil {
-				// FIXME(sbinet): maybe bubble up this error to application code?
-				sck.log.Printf("could not open a ZMTP connection with %q: %+v", ep, err)
-				conn.Close()
-				continue
-			}
-
-			sck.addConn(zconn)
+			// A peer that is slow to shake hands must not keep others waiting.
+			go sck.serve(conn, ep)
 		}
 	}
 }
 
+// serve adds the connection accepted on ep to the socket.
+func (sck *socket) serve(conn net.Conn, ep string) {
+	// Closing the socket abandons the handshake.
+	stop := context.AfterFunc(sck.ctx, func() { conn.Close() })
+	zconn, err := Open(conn, sck.sec, sck.typ, sck.id, true, sck.scheduleRmConn)
+	stop()
+	if err != nil {
+		// FIXME(sbinet): maybe bubble up this error to application code?
+		sck.log.Printf("could not open a ZMTP connection with %q: %+v", ep, err)
+		conn.Close()
+		return
+	}
+
+	sck.addConn(zconn)
+}
+
 // Dial connects a remote endpoint to the Socket.
 func (sck *socket) Dial(endpoint string) error {
 	sck.mu.Lock()
@@ -314,7 +323,10 @@ connect:
 		// retry if retry count is lower than maximum retry count and context has not been canceled
 		if (sck.maxRetries == -1 || retries < sck.maxRetries) && sck.ctx.Err() == nil {
 			retries++
-			time.Sleep(sck.retry)
+			select {
+			case <-time.After(sck.retry):
+			case <-sck.ctx.Done():
+			}
 			goto connect
 		}
 		return fmt.Errorf("zmq4: could not dial to %q (retry=%v): %w", endpoint, sck.retry, err)
@@ -324,6 +336,8 @@ connect:
 		return fmt.Errorf("zmq4: got a nil dial-conn to %q", endpoint)
 	}
 
+	// Closing the socket abandons the handshake.
+	stop := context.AfterFunc(sck.ctx, func() { conn.Close() })
 	zconn, err := Open(conn, sck.sec, sck.typ, sck.id, false, func(c *Conn) {
 		sck.scheduleRmConn(c)
 		if sck.autoReconnect {
@@ -331,6 +345,7 @@ connect:
 			go sck.Dial(endpoint)
 		}
 	})
+	stop()
 	if err != nil {
 		conn.Close()
 		return fmt.Errorf("zmq4: could not open a ZMTP connection: %w", err)
-- 
2.43.0


From eb2d826b83e4c2edde4a7bd5f1f23c66b8d7a19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:53 +0000
Subject: [PATCH 15/35] fix: let reader and subscriber goroutines end with
 their socket

The goroutines reading for a socket whose receive queue was full, and those
writing to the subscribers of a PUB or XPUB socket, blocked for ever once the
socket was closed. Publishing an empty message crashed the latter.
---
 msgio.go  |  3 +--
 pub.go    | 39 ++++++++++++++++++++++-----------------
 rep.go    |  9 ++++-----
 router.go | 11 +++++------
 4 files changed, 32 insertions(+), 30 deletions(-)

diff --git a/msgio.go b/msgio.go
index 193028e..ac4a4da 100644
--- a/msgio.go
+++ b/msgio.go
@@ -106,8 +106,7 @@ func (q *qreader) listen(ctx context.Context, r *Conn) {
 		select {
 		case <-ctx.Done():
 			return
-		default:
-			q.c <- msg
+		case q.c <- msg:
 			if msg.err != nil {
 				return
 			}
diff --git a/pub.go b/pub.go
index 4fecfb3..b68bcb9 100644
--- a/pub.go
+++ b/pub.go
@@ -190,19 +190,17 @@ func (q *pubQReader) listen(ctx context.Context, r *Conn) {
 
 	for {
 		msg := r.readMsg()
+		if msg.err != nil {
+			return
+		}
+		if q.topic(msg) {
+			r.subscribe(msg)
+			continue
+		}
 		select {
 		case <-ctx.Done():
 			return
-		default:
-			if msg.err != nil {
-				return
-			}
-			switch {
-			case q.topic(msg):
-				r.subscribe(msg)
-			default:
-				q.c <- msg
-			}
+		case q.c <- msg:
 		}
 	}
 }
@@ -256,13 +254,20 @@ func (mw *pubMWriter) addConn(w *Conn) {
 	mw.subscribers[w] = c
 	go func() {
 		for {
-			msg, ok := <-c
-			if !ok {
-				break
-			}
-			topic := string(msg.Frames[0])
-			if w.subscribed(topic) {
-				_ = w.SendMsg(msg)
+			select {
+			case <-mw.ctx.Done():
+				return
+			case msg, ok := <-c:
+				if !ok {
+					return
+				}
+				var topic string
+				if len(msg.Frames) > 0 {
+					topic = string(msg.Frames[0])
+				}
+				if w.subscribed(topic) {
+					_ = w.SendMsg(msg)
+				}
 			}
 		}
 	}()
diff --git a/rep.go b/rep.go
index 8e4f462..0b98324 100644
--- a/rep.go
+++ b/rep.go
@@ -160,14 +160,13 @@ func (r *repReader) listen(ctx context.Context, conn *Conn) {
 
 	for {
 		msg := conn.readMsg()
+		if msg.err != nil {
+			return
+		}
 		select {
 		case <-ctx.Done():
 			return
-		default:
-			if msg.err != nil {
-				return
-			}
-			r.msgCh <- repMsg{conn, msg}
+		case r.msgCh <- repMsg{conn, msg}:
 		}
 	}
 }
diff --git a/router.go b/router.go
index 34f7486..490c33e 100644
--- a/router.go
+++ b/router.go
@@ -159,15 +159,14 @@ func (q *routerQReader) listen(ctx context.Context, r *Conn) {
 	id := []byte(r.Peer.Meta[sysSockID])
 	for {
 		msg := r.readMsg()
+		if msg.err != nil {
+			return
+		}
+		msg.Frames = append([][]byte{id}, msg.Frames...)
 		select {
 		case <-ctx.Done():
 			return
-		default:
-			if msg.err != nil {
-				return
-			}
-			msg.Frames = append([][]byte{id}, msg.Frames...)
-			q.c <- msg
+		case q.c <- msg:
 		}
 	}
 }
-- 
2.43.0


From 28599baa51f9e510e9b09a885ac76036cf172593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:53 +0000
Subject: [PATCH 16/35] fix: do not report connections the peer closed first as
 Close errors

Close returned "use of closed network connection" when it ran before the
reaper had removed a connection whose reader had already closed it.
---
 socket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket.go b/socket.go
index 65599ef..9c938c4 100644
--- a/socket.go
+++ b/socket.go
@@ -149,7 +149,7 @@ func (sck *socket) Close() error {
 	var err error
 	for _, conn := range sck.conns {
 		e := conn.Close()
-		if e != nil && err == nil {
+		if e != nil && err == nil && !errors.Is(e, net.ErrClosed) {
 			err = e
 		}
 	}
-- 
2.43.0


From efe22d7cb121ee2c23d55b28b55c81ee4760ba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:33 +0000
Subject: [PATCH 17/35] fix: take the write lock where readers drop their
 connections

Close of the queued readers modified the connection list under the read lock.
---
 msgio.go  | 12 +++++++-----
 pub.go    |  4 ++--
 router.go |  4 ++--
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/msgio.go b/msgio.go
index ac4a4da..8956a48 100644
--- a/msgio.go
+++ b/msgio.go
@@ -51,15 +51,17 @@ func newQReader(ctx context.Context) *qreader {
 }
 
 func (q *qreader) Close() error {
-	q.mu.RLock()
+	q.mu.Lock()
+	rs := q.rs
+	q.rs = nil
+	q.mu.Unlock()
+
 	var err error
 	var grp errgroup.Group
-	for i := range q.rs {
-		grp.Go(q.rs[i].Close)
+	for i := range rs {
+		grp.Go(rs[i].Close)
 	}
 	err = grp.Wait()
-	q.rs = nil
-	q.mu.RUnlock()
 	return err
 }
 
diff --git a/pub.go b/pub.go
index b68bcb9..ca7b23b 100644
--- a/pub.go
+++ b/pub.go
@@ -138,7 +138,7 @@ func newPubQReader(ctx context.Context) *pubQReader {
 }
 
 func (q *pubQReader) Close() error {
-	q.mu.RLock()
+	q.mu.Lock()
 	var err error
 	for _, r := range q.rs {
 		e := r.Close()
@@ -147,7 +147,7 @@ func (q *pubQReader) Close() error {
 		}
 	}
 	q.rs = nil
-	q.mu.RUnlock()
+	q.mu.Unlock()
 	return err
 }
 
diff --git a/router.go b/router.go
index 490c33e..818745f 100644
--- a/router.go
+++ b/router.go
@@ -105,7 +105,7 @@ func newRouterQReader(ctx context.Context) *routerQReader {
 }
 
 func (q *routerQReader) Close() error {
-	q.mu.RLock()
+	q.mu.Lock()
 	var err error
 	for _, r := range q.rs {
 		e := r.Close()
@@ -114,7 +114,7 @@ func (q *routerQReader) Close() error {
 		}
 	}
 	q.rs = nil
-	q.mu.RUnlock()
+	q.mu.Unlock()
 	return err
 }
 
-- 
2.43.0


From 70f2c14fdeb7407880ecfc991a9248d04f4ac220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:58 +0000
Subject: [PATCH 18/35] fix: do not report messages as sent that were sent to
 nobody

Send on a PAIR, DEALER, PUSH, SUB or XSUB socket returned nil, dropping the
message, when its connections had all gone, and could return nil when it had
timed out. It now waits for a connection until the deadline. Sending no
longer holds the lock that adding and removing connections needs.
---
 msgio.go | 63 +++++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 49 insertions(+), 14 deletions(-)

diff --git a/msgio.go b/msgio.go
index 8956a48..822ef5e 100644
--- a/msgio.go
+++ b/msgio.go
@@ -140,6 +140,7 @@ func (w *mwriter) Close() error {
 		}
 	}
 	w.ws = nil
+	w.sem.disable()
 	w.mu.Unlock()
 	return err
 }
@@ -165,24 +166,48 @@ func (mw *mwriter) rmConn(w *Conn) {
 	if cur >= 0 {
 		mw.ws = append(mw.ws[:cur], mw.ws[cur+1:]...)
 	}
+	if len(mw.ws) == 0 {
+		mw.sem.disable()
+	}
+}
+
+// conns returns the connections of the pool,
+// waiting for one when there is none.
+func (w *mwriter) conns(ctx context.Context) ([]*Conn, error) {
+	for {
+		w.sem.lock(ctx)
+		if err := ctx.Err(); err != nil {
+			return nil, err
+		}
+		w.mu.Lock()
+		ws := append([]*Conn(nil), w.ws...)
+		w.mu.Unlock()
+		if len(ws) > 0 {
+			return ws, nil
+		}
+	}
 }
 
 func (w *mwriter) write(ctx context.Context, msg Msg) error {
-	w.sem.lock(ctx)
+	ws, err := w.conns(ctx)
+	if err != nil {
+		return err
+	}
+	// The lock is not held while sending: a peer that does not read
+	// must not keep connections from being added or removed.
 	grp, _ := errgrp.WithContext(ctx)
-	w.mu.Lock()
-	for i := range w.ws {
-		ww := w.ws[i]
+	for i := range ws {
+		ww := ws[i]
 		grp.Go(func() error {
 			return ww.SendMsg(msg)
 		})
 	}
-	err := grp.Wait()
-	w.mu.Unlock()
-	return err
+	return grp.Wait()
 }
 
 type semaphore struct {
+	mu    sync.Mutex
+	open  bool
 	ready chan struct{}
 }
 
@@ -191,20 +216,30 @@ func newSemaphore() *semaphore {
 }
 
 func (sem *semaphore) enable() {
-	select {
-	case _, ok := <-sem.ready:
-		if ok {
-			close(sem.ready)
-		}
-	default:
+	sem.mu.Lock()
+	defer sem.mu.Unlock()
+	if !sem.open {
+		sem.open = true
 		close(sem.ready)
 	}
 }
 
+func (sem *semaphore) disable() {
+	sem.mu.Lock()
+	defer sem.mu.Unlock()
+	if sem.open {
+		sem.open = false
+		sem.ready = make(chan struct{})
+	}
+}
+
 func (sem *semaphore) lock(ctx context.Context) {
+	sem.mu.Lock()
+	ready := sem.ready
+	sem.mu.Unlock()
 	select {
 	case <-ctx.Done():
-	case <-sem.ready:
+	case <-ready:
 	}
 }
 
-- 
2.43.0


From cbb197134da5a32f31674beb6b368cd2add9c577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:50 +0000
Subject: [PATCH 19/35] fix: validate socket options before applying them

Subscribing with anything but a string panicked, a negative HWM panicked
when the next subscriber connected, and rejected options were stored all the
same. SUB also sent the subscription with the socket's lock read-locked,
which deadlocks with a connection being added or removed meanwhile.
---
 pub.go | 12 ++++++------
 sub.go | 19 ++++++++++++-------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/pub.go b/pub.go
index ca7b23b..dfbf819 100644
--- a/pub.go
+++ b/pub.go
@@ -93,20 +93,20 @@ func (pub *pubSocket) GetOption(name string) (interface{}, error) {
 
 // SetOption is used to set an option for a socket.
 func (pub *pubSocket) SetOption(name string, value interface{}) error {
-	err := pub.sck.SetOption(name, value)
-	if err != nil {
-		return err
-	}
-
 	if name != OptionHWM {
 		return ErrBadProperty
 	}
 
 	hwm, ok := value.(int)
-	if !ok {
+	if !ok || hwm < 0 {
 		return ErrBadProperty
 	}
 
+	err := pub.sck.SetOption(name, value)
+	if err != nil {
+		return err
+	}
+
 	w := pub.sck.w.(*pubMWriter)
 	w.hwm.Store(int64(hwm))
 	return nil
diff --git a/sub.go b/sub.go
index 008d6b1..9837b22 100644
--- a/sub.go
+++ b/sub.go
@@ -84,6 +84,15 @@ func (sub *subSocket) GetOption(name string) (interface{}, error) {
 
 // SetOption is used to set an option for a socket.
 func (sub *subSocket) SetOption(name string, value interface{}) error {
+	if name != OptionSubscribe && name != OptionUnsubscribe {
+		return ErrBadProperty
+	}
+
+	k, ok := value.(string)
+	if !ok {
+		return ErrBadProperty
+	}
+
 	err := sub.sck.SetOption(name, value)
 	if err != nil {
 		return err
@@ -95,24 +104,20 @@ func (sub *subSocket) SetOption(name string, value interface{}) error {
 
 	switch name {
 	case OptionSubscribe:
-		k := value.(string)
 		sub.subscribe(k, 1)
 		topic = append([]byte{1}, k...)
 
 	case OptionUnsubscribe:
-		k := value.(string)
 		topic = append([]byte{0}, k...)
 		sub.subscribe(k, 0)
-
-	default:
-		return ErrBadProperty
 	}
 
 	sub.sck.mu.RLock()
-	if len(sub.sck.conns) > 0 {
+	connected := len(sub.sck.conns) > 0
+	sub.sck.mu.RUnlock()
+	if connected {
 		err = sub.Send(NewMsg(topic))
 	}
-	sub.sck.mu.RUnlock()
 	return err
 }
 
-- 
2.43.0


From cd3fb5465bc375766790e43420e8c45e1cfe7c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:51 +0000
Subject: [PATCH 20/35] fix: report cancellation from XPUB Recv

Recv returned an empty message and no error when its socket was closed.
---
 pub.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pub.go b/pub.go
index dfbf819..2f149d3 100644
--- a/pub.go
+++ b/pub.go
@@ -179,6 +179,7 @@ func (q *pubQReader) read(ctx context.Context, msg *Msg) error {
 	q.sem.lock(ctx)
 	select {
 	case <-ctx.Done():
+		return ctx.Err()
 	case *msg = <-q.c:
 	}
 	return msg.err
-- 
2.43.0


From 18582c718f1738f81e3b20f363ef468876e073ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:51 +0000
Subject: [PATCH 21/35] fix: fail operations on closed PUB, ROUTER, REQ and REP
 sockets

They bypassed the check the other socket types make: Send on a closed PUB or
ROUTER socket returned nil.
---
 pub.go    |  9 ++-------
 rep.go    | 15 +++------------
 req.go    | 15 +++------------
 router.go |  7 ++-----
 4 files changed, 10 insertions(+), 36 deletions(-)

diff --git a/pub.go b/pub.go
index 2f149d3..806a17c 100644
--- a/pub.go
+++ b/pub.go
@@ -44,19 +44,14 @@ func (pub *pubSocket) Close() error {
 // Send puts the message on the outbound send queue.
 // Send blocks until the message can be queued or the send deadline expires.
 func (pub *pubSocket) Send(msg Msg) error {
-	ctx, cancel := context.WithTimeout(pub.sck.ctx, pub.sck.Timeout())
-	defer cancel()
-	return pub.sck.w.write(ctx, msg)
+	return pub.sck.Send(msg)
 }
 
 // SendMulti puts the message on the outbound send queue.
 // SendMulti blocks until the message can be queued or the send deadline expires.
 // The message will be sent as a multipart message.
 func (pub *pubSocket) SendMulti(msg Msg) error {
-	msg.multipart = true
-	ctx, cancel := context.WithTimeout(pub.sck.ctx, pub.sck.Timeout())
-	defer cancel()
-	return pub.sck.w.write(ctx, msg)
+	return pub.sck.SendMulti(msg)
 }
 
 // Recv receives a complete message.
diff --git a/rep.go b/rep.go
index 0b98324..3c6203b 100644
--- a/rep.go
+++ b/rep.go
@@ -34,28 +34,19 @@ func (rep *repSocket) Close() error {
 // Send puts the message on the outbound send queue.
 // Send blocks until the message can be queued or the send deadline expires.
 func (rep *repSocket) Send(msg Msg) error {
-	ctx, cancel := context.WithTimeout(rep.sck.ctx, rep.sck.Timeout())
-	defer cancel()
-	return rep.sck.w.write(ctx, msg)
+	return rep.sck.Send(msg)
 }
 
 // SendMulti puts the message on the outbound send queue.
 // SendMulti blocks until the message can be queued or the send deadline expires.
 // The message will be sent as a multipart message.
 func (rep *repSocket) SendMulti(msg Msg) error {
-	msg.multipart = true
-	ctx, cancel := context.WithTimeout(rep.sck.ctx, rep.sck.Timeout())
-	defer cancel()
-	return rep.sck.w.write(ctx, msg)
+	return rep.sck.SendMulti(msg)
 }
 
 // Recv receives a complete message.
 func (rep *repSocket) Recv() (Msg, error) {
-	ctx, cancel := context.WithCancel(rep.sck.ctx)
-	defer cancel()
-	var msg Msg
-	err := rep.sck.r.read(ctx, &msg)
-	return msg, err
+	return rep.sck.Recv()
 }
 
 // Listen connects a local endpoint to the Socket.
diff --git a/req.go b/req.go
index b9ffe4e..157b26e 100644
--- a/req.go
+++ b/req.go
@@ -35,28 +35,19 @@ func (req *reqSocket) Close() error {
 // Send puts the message on the outbound send queue.
 // Send blocks until the message can be queued or the send deadline expires.
 func (req *reqSocket) Send(msg Msg) error {
-	ctx, cancel := context.WithTimeout(req.sck.ctx, req.sck.Timeout())
-	defer cancel()
-	return req.sck.w.write(ctx, msg)
+	return req.sck.Send(msg)
 }
 
 // SendMulti puts the message on the outbound send queue.
 // SendMulti blocks until the message can be queued or the send deadline expires.
 // The message will be sent as a multipart message.
 func (req *reqSocket) SendMulti(msg Msg) error {
-	msg.multipart = true
-	ctx, cancel := context.WithTimeout(req.sck.ctx, req.sck.Timeout())
-	defer cancel()
-	return req.sck.w.write(ctx, msg)
+	return req.sck.SendMulti(msg)
 }
 
 // Recv receives a complete message.
 func (req *reqSocket) Recv() (Msg, error) {
-	ctx, cancel := context.WithCancel(req.sck.ctx)
-	defer cancel()
-	var msg Msg
-	err := req.sck.r.read(ctx, &msg)
-	return msg, err
+	return req.sck.Recv()
 }
 
 // Listen connects a local endpoint to the Socket.
diff --git a/router.go b/router.go
index 818745f..7a65358 100644
--- a/router.go
+++ b/router.go
@@ -35,17 +35,14 @@ func (router *routerSocket) Close() error {
 // Send puts the message on the outbound send queue.
 // Send blocks until the message can be queued or the send deadline expires.
 func (router *routerSocket) Send(msg Msg) error {
-	ctx, cancel := context.WithTimeout(router.sck.ctx, router.sck.Timeout())
-	defer cancel()
-	return router.sck.w.write(ctx, msg)
+	return router.sck.Send(msg)
 }
 
 // SendMulti puts the message on the outbound send queue.
 // SendMulti blocks until the message can be queued or the send deadline expires.
 // The message will be sent as a multipart message.
 func (router *routerSocket) SendMulti(msg Msg) error {
-	msg.multipart = true
-	return router.Send(msg)
+	return router.sck.SendMulti(msg)
 }
 
 // Recv receives a complete message.
-- 
2.43.0


From 8f6d03df30e2a4b55e5a542a2881cd2af45c21ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:51 +0000
Subject: [PATCH 22/35] fix: honour the send deadline in ROUTER and survive
 empty messages

Send waited without bound for a peer that does not read, holding the lock
that adding and removing connections needs, and panicked with that lock held
when given a message without frames.
---
 router.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/router.go b/router.go
index 7a65358..c6453e4 100644
--- a/router.go
+++ b/router.go
@@ -7,10 +7,11 @@ package zmq4
 import (
 	"bytes"
 	"context"
+	"fmt"
 	"net"
 	"sync"
 
-	"golang.org/x/sync/errgroup"
+	errgrp "github.com/luxfi/zmq/v4/internal/errgroup"
 )
 
 // NewRouter returns a new ROUTER ZeroMQ socket.
@@ -220,13 +221,24 @@ func (mw *routerMWriter) rmConn(w *Conn) {
 }
 
 func (w *routerMWriter) write(ctx context.Context, msg Msg) error {
+	if len(msg.Frames) == 0 {
+		return fmt.Errorf("zmq4: ROUTER message without an identity frame")
+	}
 	w.sem.lock(ctx)
-	grp, _ := errgroup.WithContext(ctx)
+	if err := ctx.Err(); err != nil {
+		return err
+	}
 	w.mu.Lock()
+	ws := append([]*Conn(nil), w.ws...)
+	w.mu.Unlock()
+
+	// The lock is not held while sending: a peer that does not read
+	// must not keep connections from being added or removed.
+	grp, _ := errgrp.WithContext(ctx)
 	id := msg.Frames[0]
 	dmsg := NewMsgFrom(msg.Frames[1:]...)
-	for i := range w.ws {
-		ww := w.ws[i]
+	for i := range ws {
+		ww := ws[i]
 		pid := []byte(ww.Peer.Meta[sysSockID])
 		if !bytes.Equal(pid, id) {
 			continue
@@ -235,9 +247,7 @@ func (w *routerMWriter) write(ctx context.Context, msg Msg) error {
 			return ww.SendMsg(dmsg)
 		})
 	}
-	err := grp.Wait()
-	w.mu.Unlock()
-	return err
+	return grp.Wait()
 }
 
 var (
-- 
2.43.0


From 293f7f4adba175c676bf8f17c0d7571695f13807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 23/35] fix: rotate REQ connections without running off their
 end

Operator precedence made the second Send on a REQ socket with several
connections index past the end of the list and panic. Send also ignored its
deadline, and held the lock that adding and removing connections needs for
as long as the peer did not read.
---
 req.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/req.go b/req.go
index 157b26e..303dd9a 100644
--- a/req.go
+++ b/req.go
@@ -6,9 +6,12 @@ package zmq4
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"net"
 	"sync"
+
+	errgrp "github.com/luxfi/zmq/v4/internal/errgroup"
 )
 
 // NewReq returns a new REQ ZeroMQ socket.
@@ -81,6 +84,8 @@ func (req *reqSocket) SetOption(name string, value interface{}) error {
 	return req.sck.SetOption(name, value)
 }
 
+var errNoConn = errors.New("not connected")
+
 type reqWriter struct {
 	mu       sync.Mutex
 	conns    []*Conn
@@ -98,17 +103,31 @@ func (r *reqWriter) write(ctx context.Context, msg Msg) error {
 	msg.Frames = append([][]byte{nil}, msg.Frames...)
 
 	r.mu.Lock()
-	defer r.mu.Unlock()
-	var err error
-	for i := 0; i < len(r.conns); i++ {
-		cur := i + r.nextConn%len(r.conns)
-		conn := r.conns[cur]
-		err = conn.SendMsg(msg)
+	conns := append([]*Conn(nil), r.conns...)
+	next := r.nextConn
+	r.mu.Unlock()
+
+	// The lock is not held while sending: a peer that does not read
+	// must not keep connections from being added or removed.
+	err := errNoConn
+	for i := 0; i < len(conns); i++ {
+		cur := (next + i) % len(conns)
+		conn := conns[cur]
+		grp, _ := errgrp.WithContext(ctx)
+		grp.Go(func() error {
+			return conn.SendMsg(msg)
+		})
+		err = grp.Wait()
 		if err == nil {
-			r.nextConn = cur + 1%len(r.conns)
+			r.mu.Lock()
+			r.nextConn = cur + 1
+			r.mu.Unlock()
 			r.state.Set(conn)
 			return nil
 		}
+		if ctx.Err() != nil {
+			return ctx.Err()
+		}
 	}
 	return fmt.Errorf("zmq4: no connections available: %w", err)
 }
-- 
2.43.0


From c1a195be617bcff0116cb373380b715f03b81b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 24/35] fix: let REQ Recv end when its socket's context is
 cancelled

Recv waited for the reply whatever happened to the context.
---
 req.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/req.go b/req.go
index 303dd9a..d490588 100644
--- a/req.go
+++ b/req.go
@@ -193,6 +193,9 @@ func (r *reqReader) read(ctx context.Context, msg *Msg) error {
 	if curConn == nil {
 		return fmt.Errorf("zmq4: no connections available")
 	}
+	// There is no other way to stop waiting for the reply.
+	stop := context.AfterFunc(ctx, func() { curConn.Close() })
+	defer stop()
 	*msg = curConn.readMsg()
 	if msg.err != nil {
 		return msg.err
-- 
2.43.0


From 11e28dd1106e550cf5cc8f1cca60b0393dd0c7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 25/35] fix: split REP envelopes at the first empty frame

A request with an empty frame in its body lost everything up to it, and the
reply carried part of the request as its envelope.
---
 rep.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rep.go b/rep.go
index 3c6203b..5530514 100644
--- a/rep.go
+++ b/rep.go
@@ -186,6 +186,7 @@ func splitReq(envelope Msg) (preamble [][]byte, msg Msg) {
 		if i+1 < len(envelope.Frames) {
 			msg = NewMsgFrom(envelope.Frames[i+1:]...)
 		}
+		break
 	}
 	return
 }
-- 
2.43.0


From 1fe00f100ca950b5851a7761b5bce198a14e8239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:03 +0000
Subject: [PATCH 26/35] fix: let REP reply once to each request

Every further Send repeated the reply to the last request (its peer may
have sent another since), and a Send without a request returned nil. The
writer no longer holds its lock while a peer is slow to read its reply.
---
 rep.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/rep.go b/rep.go
index 5530514..8fac771 100644
--- a/rep.go
+++ b/rep.go
@@ -247,7 +247,14 @@ func (r *repWriter) rmConn(conn *Conn) {
 }
 
 func (r *repWriter) write(ctx context.Context, msg Msg) error {
-	conn, preamble := r.state.Get()
+	if err := ctx.Err(); err != nil {
+		return err
+	}
+	// A request is replied to once.
+	conn, preamble := r.state.Take()
+	if conn == nil {
+		return fmt.Errorf("zmq4: no request to reply to")
+	}
 	select {
 	case <-ctx.Done():
 		return ctx.Err()
@@ -273,9 +280,12 @@ func (r *repWriter) run() {
 }
 
 func (r *repWriter) sendPayload(payload repSendPayload) {
+	// The lock is not held while sending: a peer that does not read
+	// must not keep connections from being added or removed.
 	r.mu.Lock()
-	defer r.mu.Unlock()
-	for _, conn := range r.conns {
+	conns := append([]*Conn(nil), r.conns...)
+	r.mu.Unlock()
+	for _, conn := range conns {
 		if conn == payload.conn {
 			reply := payload.buildReplyMsg()
 			// not much we can do at this point. Perhaps log the error?
@@ -311,10 +321,12 @@ func newRepState() *repState {
 	return &repState{}
 }
 
-func (r *repState) Get() (conn *Conn, preamble [][]byte) {
+func (r *repState) Take() (conn *Conn, preamble [][]byte) {
 	r.mu.Lock()
 	conn = r.conn
 	preamble = r.preamble
+	r.conn = nil
+	r.preamble = nil
 	r.mu.Unlock()
 	return
 }
-- 
2.43.0


From 4e35dfe408d54ef264327243fffaf85f32929dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 27/35] fix: authenticate the client in the PLAIN handshake

The server accepted any HELLO, whatever its credentials, and any command in
place of INITIATE. The client erased the credentials after the first
handshake, so that it could not reconnect (racing with other connections of
the socket), and truncated the length of credentials over 255 bytes.
---
 security/plain/plain.go | 58 ++++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 13 deletions(-)

diff --git a/security/plain/plain.go b/security/plain/plain.go
index 6a8d87d..6a4ebf9 100644
--- a/security/plain/plain.go
+++ b/security/plain/plain.go
@@ -7,12 +7,19 @@
 package plain
 
 import (
+	"crypto/subtle"
+	"errors"
 	"fmt"
 	"io"
 
 	"github.com/luxfi/zmq/v4"
 )
 
+var (
+	errBadHello       = errors.New("malformed HELLO command")
+	errBadCredentials = errors.New("invalid user name or password")
+)
+
 // security implements the PLAIN security mechanism.
 type security struct {
 	user []byte
@@ -48,8 +55,7 @@ func (sec *security) Handshake(conn *zmq4.Conn, server bool) error {
 			return fmt.Errorf("security/plain: expected HELLO command")
 		}
 
-		// FIXME(sbinet): perform a real authentication
-		err = validateHello(cmd.Body)
+		err = sec.validateHello(cmd.Body)
 		if err != nil {
 			_ = conn.SendCmd(zmq4.CmdError, []byte("invalid")) // FIXME(sbinet) correct ERROR reason
 			return fmt.Errorf("security/plain: could not authenticate client: %w", err)
@@ -65,6 +71,10 @@ func (sec *security) Handshake(conn *zmq4.Conn, server bool) error {
 			return fmt.Errorf("security/plain: could not receive INITIATE from client: %w", err)
 		}
 
+		if cmd.Name != zmq4.CmdInitiate {
+			return fmt.Errorf("security/plain: expected INITIATE command")
+		}
+
 		err = conn.Peer.Meta.UnmarshalZMTP(cmd.Body)
 		if err != nil {
 			return fmt.Errorf("security/plain: could not unmarshal peer metadata: %w", err)
@@ -82,6 +92,9 @@ func (sec *security) Handshake(conn *zmq4.Conn, server bool) error {
 		}
 
 	case !server:
+		if len(sec.user) > 255 || len(sec.pass) > 255 {
+			return fmt.Errorf("security/plain: user name or password too long")
+		}
 		hello := make([]byte, 0, len(sec.user)+len(sec.pass)+2)
 		hello = append(hello, byte(len(sec.user)))
 		hello = append(hello, sec.user...)
@@ -126,9 +139,6 @@ func (sec *security) Handshake(conn *zmq4.Conn, server bool) error {
 		if err != nil {
 			return fmt.Errorf("security/plain: could not unmarshal peer metadata: %w", err)
 		}
-
-		sec.user = nil
-		sec.pass = nil
 	}
 	return nil
 }
@@ -144,17 +154,39 @@ func (security) Decrypt(w io.Writer, data []byte) (int, error) {
 }
 
 // validateHello validates the user/passwd credentials.
-func validateHello(body []byte) error {
-	//	n := int(body[0])
-	//	user := body[1 : 1+n]
-	//	body = body[1+n:]
-	//	n = int(body[0])
-	//	pass := body[1 : 1+n]
-	//	body = body[1+n:]
-	//	log.Printf("user=%q, pass=%q, body=%q", user, pass, body)
+func (sec *security) validateHello(body []byte) error {
+	user, body, err := credential(body)
+	if err != nil {
+		return err
+	}
+	pass, body, err := credential(body)
+	if err != nil {
+		return err
+	}
+	if len(body) != 0 {
+		return errBadHello
+	}
+	okUser := subtle.ConstantTimeCompare(user, sec.user) == 1
+	okPass := subtle.ConstantTimeCompare(pass, sec.pass) == 1
+	if !okUser || !okPass {
+		return errBadCredentials
+	}
 	return nil
 }
 
+// credential splits a length-prefixed string off the front of body.
+func credential(body []byte) (value, rest []byte, err error) {
+	if len(body) == 0 {
+		return nil, nil, errBadHello
+	}
+	n := int(body[0])
+	body = body[1:]
+	if n > len(body) {
+		return nil, nil, errBadHello
+	}
+	return body[:n], body[n:], nil
+}
+
 var (
 	_ zmq4.Security = (*security)(nil)
 )
-- 
2.43.0


From 55395765a828a8c2d76cd3cd9e7fb6e9ecf0f1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:18 +0000
Subject: [PATCH 28/35] fix: do not hand out CURVE secret keys as public keys

NewCurveKeypair returned the secret key twice and AuthCurvePublic returned
its argument: whoever published their public key published their secret.
---
 auth.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/auth.go b/auth.go
index 236029e..2b55119 100644
--- a/auth.go
+++ b/auth.go
@@ -5,6 +5,7 @@
 package zmq4
 
 import (
+	"crypto/ecdh"
 	"crypto/rand"
 	"encoding/hex"
 	"fmt"
@@ -14,27 +15,27 @@ import (
 
 // NewCurveKeypair generates a new CURVE keypair
 func NewCurveKeypair() (publicKey, secretKey string, err error) {
-	// Simple random key generation - real implementation would use luxfi/crypto
-	secret := make([]byte, 32)
-	if _, err = rand.Read(secret); err != nil {
+	secret, err := ecdh.X25519().GenerateKey(rand.Reader)
+	if err != nil {
 		return "", "", err
 	}
-	public := make([]byte, 32)
-	copy(public, secret)
 
-	publicKey = hex.EncodeToString(public)
-	secretKey = hex.EncodeToString(secret)
+	publicKey = hex.EncodeToString(secret.PublicKey().Bytes())
+	secretKey = hex.EncodeToString(secret.Bytes())
 	return publicKey, secretKey, nil
 }
 
 // AuthCurvePublic derives the public key from a secret key
 func AuthCurvePublic(secretKey string) (string, error) {
-	// Simplified - real implementation would use luxfi/crypto
-	_, err := hex.DecodeString(secretKey)
+	raw, err := hex.DecodeString(secretKey)
+	if err != nil {
+		return "", err
+	}
+	secret, err := ecdh.X25519().NewPrivateKey(raw)
 	if err != nil {
 		return "", err
 	}
-	return secretKey, nil
+	return hex.EncodeToString(secret.PublicKey().Bytes()), nil
 }
 
 // Z85encode encodes binary data to Z85 text format
-- 
2.43.0


From 1d9e104d71ff12ec510aea4f6501a4e0a2693744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:18 +0000
Subject: [PATCH 29/35] fix: guard the state of AuthStart and AuthStop

Concurrent calls raced on a plain variable and could both succeed.
---
 auth.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/auth.go b/auth.go
index 2b55119..e94a7f9 100644
--- a/auth.go
+++ b/auth.go
@@ -9,6 +9,7 @@ import (
 	"crypto/rand"
 	"encoding/hex"
 	"fmt"
+	"sync/atomic"
 )
 
 // Simple auth - no complex state management, just basic functions
@@ -49,20 +50,19 @@ func Z85decode(text string) ([]byte, error) {
 }
 
 // Simplified auth - removed complex state management
-var authStarted bool
+var authStarted atomic.Bool
 
 // AuthStart starts authentication (simplified)
 func AuthStart() error {
-	if authStarted {
+	if !authStarted.CompareAndSwap(false, true) {
 		return fmt.Errorf("already started")
 	}
-	authStarted = true
 	return nil
 }
 
 // AuthStop stops authentication
 func AuthStop() {
-	authStarted = false
+	authStarted.Store(false)
 }
 
 // AuthSetVerbose sets verbose mode (no-op)
-- 
2.43.0


From 3ff7154ac052d747fd79e2f4fd5b45064704052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:53 +0000
Subject: [PATCH 30/35] fix: do not crash on transport use before Start or
 after Stop

Broadcast, ConnectPeer and BroadcastWithRetry before Start dereferenced nil
sockets (and raced with Start), Stop panicked when called twice, and
DisconnectPeer panicked when no peer was connected.
---
 networking/transport.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/networking/transport.go b/networking/transport.go
index 6dad206..6be74c3 100644
--- a/networking/transport.go
+++ b/networking/transport.go
@@ -36,8 +36,9 @@ type Transport struct {
 	msgReceived atomic.Uint64
 	msgDropped  atomic.Uint64
 
-	stopCh chan struct{}
-	wg     sync.WaitGroup
+	stopCh   chan struct{}
+	stopOnce sync.Once
+	wg       sync.WaitGroup
 }
 
 // Config holds transport configuration
@@ -98,6 +99,9 @@ func New(ctx context.Context, config Config) *Transport {
 		nodeID:   config.NodeID,
 		ctx:      tCtx,
 		cancel:   cancel,
+		pub:      zmq4.NewPub(tCtx),
+		sub:      zmq4.NewSub(tCtx),
+		router:   zmq4.NewRouter(tCtx),
 		config:   config,
 		handlers: make(map[string]MessageHandler),
 		dealers:  make(map[string]zmq4.Socket),
@@ -108,18 +112,15 @@ func New(ctx context.Context, config Config) *Transport {
 // Start initializes the transport
 func (t *Transport) Start() error {
 	// PUB socket for broadcasting
-	t.pub = zmq4.NewPub(t.ctx)
 	pubAddr := fmt.Sprintf("tcp://%s:%d", t.config.BindAddress, t.config.BasePort)
 	if err := t.pub.Listen(pubAddr); err != nil {
 		return fmt.Errorf("failed to bind pub socket on %s: %w", pubAddr, err)
 	}
 
 	// SUB socket for receiving broadcasts
-	t.sub = zmq4.NewSub(t.ctx)
 	t.sub.SetOption(zmq4.OptionSubscribe, "")
 
 	// ROUTER socket for direct messages
-	t.router = zmq4.NewRouter(t.ctx)
 	routerAddr := fmt.Sprintf("tcp://%s:%d", t.config.BindAddress, t.config.BasePort+1000)
 	if err := t.router.Listen(routerAddr); err != nil {
 		return fmt.Errorf("failed to bind router socket on %s: %w", routerAddr, err)
@@ -134,20 +135,18 @@ func (t *Transport) Start() error {
 
 // Stop gracefully shuts down the transport
 func (t *Transport) Stop() {
+	t.stopOnce.Do(t.stop)
+}
+
+func (t *Transport) stop() {
 	close(t.stopCh)
 	t.cancel()
 	t.wg.Wait()
 
 	// Close sockets
-	if t.pub != nil {
-		t.pub.Close()
-	}
-	if t.sub != nil {
-		t.sub.Close()
-	}
-	if t.router != nil {
-		t.router.Close()
-	}
+	t.pub.Close()
+	t.sub.Close()
+	t.router.Close()
 
 	// Close dealer sockets
 	t.mu.Lock()
@@ -206,7 +205,7 @@ func (t *Transport) DisconnectPeer(peerID string) {
 	}
 
 	// Remove from peers list
-	newPeers := make([]string, 0, len(t.peers)-1)
+	newPeers := make([]string, 0, len(t.peers))
 	for _, p := range t.peers {
 		if p != peerID {
 			newPeers = append(newPeers, p)
-- 
2.43.0


From 6988f8ea3806fd75645815949200e2ab5b7c9132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:53 +0000
Subject: [PATCH 31/35] fix: keep the transport usable while a peer is being
 dialed

Connecting to a peer that does not answer blocked every other operation,
including the dispatch of received messages, on the transport's lock until
the retries ran out. The socket of a failed connection was never closed.
---
 networking/transport.go | 47 +++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/networking/transport.go b/networking/transport.go
index 6be74c3..9fee267 100644
--- a/networking/transport.go
+++ b/networking/transport.go
@@ -27,6 +27,8 @@ type Transport struct {
 	dealers map[string]zmq4.Socket
 	config  Config
 
+	connecting map[string]bool // peers being dialed
+
 	mu       sync.RWMutex
 	handlers map[string]MessageHandler
 	peers    []string
@@ -105,7 +107,9 @@ func New(ctx context.Context, config Config) *Transport {
 		config:   config,
 		handlers: make(map[string]MessageHandler),
 		dealers:  make(map[string]zmq4.Socket),
-		stopCh:   make(chan struct{}),
+
+		connecting: make(map[string]bool),
+		stopCh:     make(chan struct{}),
 	}
 }
 
@@ -164,19 +168,46 @@ func (t *Transport) ConnectPeer(peerID string, port int) error {
 // ConnectPeerWithAddress establishes a connection to a peer at a specific address
 func (t *Transport) ConnectPeerWithAddress(peerID, address string, port int) error {
 	t.mu.Lock()
-	defer t.mu.Unlock()
-
 	// Check if already connected
 	for _, p := range t.peers {
 		if p == peerID {
+			t.mu.Unlock()
 			return nil // Already connected
 		}
 	}
+	if t.connecting[peerID] {
+		t.mu.Unlock()
+		return fmt.Errorf("already connecting to %s", peerID)
+	}
+	t.connecting[peerID] = true
+	t.mu.Unlock()
+
+	// Dialing may take long: messages are sent and received meanwhile.
+	dealer, err := t.dialPeer(peerID, address, port)
+
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	delete(t.connecting, peerID)
+	if err != nil {
+		return err
+	}
+	if t.ctx.Err() != nil {
+		dealer.Close()
+		return fmt.Errorf("transport stopped while connecting to %s", peerID)
+	}
+	t.dealers[peerID] = dealer
+	t.peers = append(t.peers, peerID)
+
+	return nil
+}
+
+// dialPeer dials the sockets of a peer and returns the one for direct messages.
+func (t *Transport) dialPeer(peerID, address string, port int) (zmq4.Socket, error) {
 
 	// Subscribe to peer's broadcasts
 	subAddr := fmt.Sprintf("tcp://%s:%d", address, port)
 	if err := t.sub.Dial(subAddr); err != nil {
-		return fmt.Errorf("failed to connect sub to %s at %s: %w", peerID, subAddr, err)
+		return nil, fmt.Errorf("failed to connect sub to %s at %s: %w", peerID, subAddr, err)
 	}
 
 	// Create dealer for direct messages
@@ -184,13 +215,11 @@ func (t *Transport) ConnectPeerWithAddress(peerID, address string, port int) err
 
 	routerAddr := fmt.Sprintf("tcp://%s:%d", address, port+1000)
 	if err := dealer.Dial(routerAddr); err != nil {
-		return fmt.Errorf("failed to connect dealer to %s at %s: %w", peerID, routerAddr, err)
+		dealer.Close()
+		return nil, fmt.Errorf("failed to connect dealer to %s at %s: %w", peerID, routerAddr, err)
 	}
 
-	t.dealers[peerID] = dealer
-	t.peers = append(t.peers, peerID)
-
-	return nil
+	return dealer, nil
 }
 
 // DisconnectPeer removes a peer connection
-- 
2.43.0


From 16e021407f839c986bbc1a293c5b627696616172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:43 +0000
Subject: [PATCH 32/35] fix: let sockets share a WithSecurity option

---
 options.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/options.go b/options.go
index b871194..786bb00 100644
--- a/options.go
+++ b/options.go
@@ -20,10 +20,10 @@ func WithID(id SocketIdentity) Option {
 
 // WithSecurity sets security mechanism (default: NULL)
 func WithSecurity(sec Security) Option {
+	if sec == nil {
+		sec = nullSecurity{}
+	}
 	return func(s *socket) {
-		if sec == nil {
-			sec = nullSecurity{}
-		}
 		s.sec = sec
 	}
 }
-- 
2.43.0


From 414cbb77a330e5df4f07b5d79227e5ea75f214f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:36 +0000
Subject: [PATCH 33/35] fix: note the end of a STREAM connection that is found
 while reading data

---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index f42e491..a53d3d1 100644
--- a/conn.go
+++ b/conn.go
@@ -462,9 +462,9 @@ func (c *Conn) readStream() Msg {
 	// Read actual data (up to 8192 bytes at a time)
 	buf := make([]byte, 8192)
 	n, err := c.rw.Read(buf)
+	c.checkIO(err)
 	if err != nil && err != io.EOF {
 		msg.err = err
-		c.checkIO(err)
 		return msg
 	}
 
-- 
2.43.0


From a546275a955464c3cd91e098bfcd01dbd9a74fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:36 +0000
Subject: [PATCH 34/35] fix: stop reading a connection that turned out closed
 when answering a PING

---
 conn.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index a53d3d1..58bb4cd 100644
--- a/conn.go
+++ b/conn.go
@@ -569,7 +569,10 @@ func (c *Conn) readMsg() Msg {
 			continue
 		}
 		if cmd.Name == CmdPing {
-			_ = c.SendCmd(CmdPong, nil)
+			err := c.SendCmd(CmdPong, nil)
+			if err != nil && c.Closed() {
+				return Msg{err: err}
+			}
 		}
 	}
 }
-- 
2.43.0


From b0865227035f6f1f35c870723e460098434be581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:19 +0000
Subject: [PATCH 35/35] fix: give every message a ROUTER receives its own copy
 of the identity

The messages of a connection shared the bytes of their first frame:
changing it in one of them changed the sender of the others.
---
 router.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/router.go b/router.go
index c6453e4..4bf03a5 100644
--- a/router.go
+++ b/router.go
@@ -154,12 +154,14 @@ func (q *routerQReader) listen(ctx context.Context, r *Conn) {
 	defer q.rmConn(r)
 	defer r.Close()
 
-	id := []byte(r.Peer.Meta[sysSockID])
 	for {
 		msg := r.readMsg()
 		if msg.err != nil {
 			return
 		}
+		// Whoever receives the message may change its frames:
+		// it gets a copy of the identity of its own.
+		id := []byte(r.Peer.Meta[sysSockID])
 		msg.Frames = append([][]byte{id}, msg.Frames...)
 		select {
 		case <-ctx.Done():
-- 
2.43.0


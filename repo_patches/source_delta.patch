From cdfea4172a0ddcdc5014d20842c4fe82f8ed6dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:23 +0000
Subject: [PATCH 01/28] fix: marshal IPv4 hosts of an ID in their 16-byte form

---
 id.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id.go b/id.go
index b3c0afa..82f36ee 100644
--- a/id.go
+++ b/id.go
@@ -53,7 +53,7 @@ func (e ID) Marshal() []byte {
 	buf := make([]byte, e.Size())
 
 	copy(buf[:len(e.ID)], e.ID[:])
-	copy(buf[len(e.ID):len(e.ID)+net.IPv6len], e.Host)
+	copy(buf[len(e.ID):len(e.ID)+net.IPv6len], e.Host.To16())
 	binary.BigEndian.PutUint16(buf[len(e.ID)+net.IPv6len:len(e.ID)+net.IPv6len+2], e.Port)
 
 	return buf
-- 
2.43.0


From d15d6276d5ca9c559e29e2d4c85de6de7003e2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:29 +0000
Subject: [PATCH 02/28] fix: size the receive buffer by the frame, so that an
 unlimited or maximal receive limit does not crash the node

---
 client.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/client.go b/client.go
index 85f9b9c..85a78fa 100644
--- a/client.go
+++ b/client.go
@@ -91,7 +91,7 @@ func newClient(node *Node) *Client {
 
 		requests: newRequestMap(),
 
-		readerBuf: make([]byte, 4+node.maxRecvMessageSize),
+		readerBuf: make([]byte, 4),
 
 		ready:      make(chan struct{}),
 		readerDone: make(chan struct{}),
@@ -296,15 +296,23 @@ func (c *Client) read() ([]byte, error) {
 		return nil, fmt.Errorf("got %d bytes, but limit is set to %d: %w", size, c.node.maxRecvMessageSize, ErrMessageTooLarge)
 	}
 
-	if _, err := io.ReadFull(c.reader, c.readerBuf[4:size+4]); err != nil {
+	// The frame may be as large as the configured limit, or of any size should there be no limit.
+
+	end := 4 + int(size)
+
+	if end > len(c.readerBuf) {
+		c.readerBuf = append(c.readerBuf, make([]byte, end-len(c.readerBuf))...)
+	}
+
+	if _, err := io.ReadFull(c.reader, c.readerBuf[4:end]); err != nil {
 		return nil, err
 	}
 
 	if c.suite == nil {
-		return c.readerBuf[4 : size+4], nil
+		return c.readerBuf[4:end], nil
 	}
 
-	buf, err := decryptAEAD(c.suite, c.readerBuf[4:size+4])
+	buf, err := decryptAEAD(c.suite, c.readerBuf[4:end])
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From a84f4511f6ba589658bf65116c5ceb9174c81523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:15 +0000
Subject: [PATCH 03/28] fix: fail pending and new requests and sends once their
 connection is closed

---
 client.go | 9 ++++++++-
 map.go    | 6 ++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/client.go b/client.go
index 85a78fa..7939827 100644
--- a/client.go
+++ b/client.go
@@ -194,6 +194,8 @@ func (c *Client) close() {
 		if c.conn != nil {
 			c.conn.Close()
 		}
+
+		c.requests.close()
 	})
 }
 
@@ -347,9 +349,14 @@ func (c *Client) write(data []byte) error {
 
 func (c *Client) send(nonce uint64, data []byte) error {
 	c.writerCond.L.Lock()
+	defer c.writerCond.L.Unlock()
+
+	if c.writerClosed {
+		return io.ErrClosedPipe
+	}
+
 	c.writerBuf = append(c.writerBuf, message{nonce: nonce, data: data})
 	c.writerCond.Signal()
-	c.writerCond.L.Unlock()
 
 	return nil
 }
diff --git a/map.go b/map.go
index 58c9c12..c99121d 100644
--- a/map.go
+++ b/map.go
@@ -131,8 +131,10 @@ func (r *requestMap) markRequestFailed(nonce uint64) {
 	r.Lock()
 	defer r.Unlock()
 
-	close(r.entries[nonce])
-	delete(r.entries, nonce)
+	if ch, exists := r.entries[nonce]; exists {
+		close(ch)
+		delete(r.entries, nonce)
+	}
 }
 
 func (r *requestMap) findRequest(nonce uint64) chan<- message {
-- 
2.43.0


From 1c9f1844a5154a77eb4050365c2b3caaebfebe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:20 +0000
Subject: [PATCH 04/28] fix: do not exchange messages over an outbound
 connection whose handshake failed

---
 client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client.go b/client.go
index 7939827..30b2a3c 100644
--- a/client.go
+++ b/client.go
@@ -233,6 +233,11 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 
 	c.handshake()
 
+	if c.Error() != nil {
+		c.close()
+		return
+	}
+
 	go c.writeLoop()
 	c.recvLoop()
 	c.close()
-- 
2.43.0


From 47154674cdaa479e744b4818d751d38a6fdc488f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:25 +0000
Subject: [PATCH 05/28] fix: keep a worker running after a handler returned an
 error

---
 node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 634410e..64f6d65 100644
--- a/node.go
+++ b/node.go
@@ -189,7 +189,7 @@ func (n *Node) Listen() error {
 						ctx.client.reportError(err)
 						ctx.client.close()
 
-						return
+						break
 					}
 				}
 			}
-- 
2.43.0


From 296f98e87c9c28f805f95c7c755cc75defaa0d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:30 +0000
Subject: [PATCH 06/28] fix: send at most one response to a request across all
 handlers

---
 client.go | 3 ++-
 msg.go    | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 30b2a3c..033076d 100644
--- a/client.go
+++ b/client.go
@@ -9,6 +9,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"go.uber.org/atomic"
 	"go.uber.org/zap"
 	"io"
 	"net"
@@ -565,7 +566,7 @@ func (c *Client) recvLoop() {
 			continue
 		}
 
-		c.node.work <- HandlerContext{client: c, msg: msg}
+		c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}
 
 		for _, protocol := range c.node.protocols {
 			if protocol.OnMessageRecv == nil {
diff --git a/msg.go b/msg.go
index 7d25d28..b986399 100644
--- a/msg.go
+++ b/msg.go
@@ -37,7 +37,7 @@ func unmarshalMessage(data []byte) (message, error) {
 type HandlerContext struct {
 	client *Client
 	msg    message
-	sent   atomic.Bool
+	sent   *atomic.Bool // Shared by all handlers, which each get a copy of the context.
 }
 
 // ID returns the ID of the inbound/outbound peer that sent you the data that is currently being handled.
-- 
2.43.0


From 92a7d2836e60f4c0a7619f181aeb9ddf250f2335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:01 +0000
Subject: [PATCH 07/28] fix: arm the write deadline when there is something to
 write

---
 client.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/client.go b/client.go
index 033076d..4bdc356 100644
--- a/client.go
+++ b/client.go
@@ -594,17 +594,6 @@ Write:
 		default:
 		}
 
-		if c.node.idleTimeout > 0 {
-			if err := c.conn.SetWriteDeadline(time.Now().Add(c.node.idleTimeout)); err != nil {
-				if !isEOF(err) {
-					c.Logger().Warn("Got an error setting write deadline.", zap.Error(err))
-				}
-				c.reportError(err)
-
-				break Write
-			}
-		}
-
 		c.writerCond.L.Lock()
 		for len(c.writerBuf) == 0 && !c.writerClosed {
 			c.writerCond.Wait()
@@ -617,6 +606,17 @@ Write:
 			break Write
 		}
 
+		if c.node.idleTimeout > 0 {
+			if err := c.conn.SetWriteDeadline(time.Now().Add(c.node.idleTimeout)); err != nil {
+				if !isEOF(err) {
+					c.Logger().Warn("Got an error setting write deadline.", zap.Error(err))
+				}
+				c.reportError(err)
+
+				break Write
+			}
+		}
+
 		for _, msg := range writerBuf {
 			buf = buf[:0]
 			buf = msg.marshal(buf)
-- 
2.43.0


From d73ec0173f469737df7e810dbb086304ccf62bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:06 +0000
Subject: [PATCH 08/28] fix: close a connection which can no longer be written
 to

---
 client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client.go b/client.go
index 4bdc356..9447bd2 100644
--- a/client.go
+++ b/client.go
@@ -580,6 +580,7 @@ func (c *Client) recvLoop() {
 
 func (c *Client) writeLoop() {
 	defer close(c.writerDone)
+	defer c.close()
 
 	header := make([]byte, 4)
 	buf := make([]byte, 0, 1024)
-- 
2.43.0


From 38e9812ab7b41b6511bf0389bb8c9e8171afd11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:12 +0000
Subject: [PATCH 09/28] fix: do not retain the payload passed by the caller of
 a send

---
 client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 9447bd2..839cda4 100644
--- a/client.go
+++ b/client.go
@@ -361,7 +361,7 @@ func (c *Client) send(nonce uint64, data []byte) error {
 		return io.ErrClosedPipe
 	}
 
-	c.writerBuf = append(c.writerBuf, message{nonce: nonce, data: data})
+	c.writerBuf = append(c.writerBuf, message{nonce: nonce, data: append([]byte{}, data...)})
 	c.writerCond.Signal()
 
 	return nil
-- 
2.43.0


From 7bc36d81713a9c0a56daf2c6543ecff1394f80ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:36 +0000
Subject: [PATCH 10/28] fix: honour closing a client whose connection is still
 being established

---
 client.go | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/client.go b/client.go
index 839cda4..d15bcb9 100644
--- a/client.go
+++ b/client.go
@@ -83,6 +83,7 @@ type Client struct {
 		error
 	}
 
+	stop      chan struct{}
 	closeOnce sync.Once
 }
 
@@ -99,6 +100,8 @@ func newClient(node *Node) *Client {
 		writerDone: make(chan struct{}),
 
 		clientDone: make(chan struct{}),
+
+		stop: make(chan struct{}),
 	}
 
 	c.writerCond.L = &sync.Mutex{}
@@ -187,19 +190,37 @@ func (c *Client) reportError(err error) {
 
 func (c *Client) close() {
 	c.closeOnce.Do(func() {
+		close(c.stop)
+
 		c.writerCond.L.Lock()
 		c.writerClosed = true
 		c.writerCond.Signal()
+		conn := c.conn
 		c.writerCond.L.Unlock()
 
-		if c.conn != nil {
-			c.conn.Close()
+		if conn != nil {
+			conn.Close()
 		}
 
 		c.requests.close()
 	})
 }
 
+// open assigns conn to this client, and closes conn should this client have been closed already.
+func (c *Client) open(conn net.Conn) {
+	c.reader = bufio.NewReader(conn)
+	c.writer = bufio.NewWriter(conn)
+
+	c.writerCond.L.Lock()
+	c.conn = conn
+	closed := c.writerClosed
+	c.writerCond.L.Unlock()
+
+	if closed {
+		conn.Close()
+	}
+}
+
 func (c *Client) waitUntilReady() {
 	<-c.ready
 }
@@ -217,7 +238,7 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 		close(c.clientDone)
 	}()
 
-	var dialer net.Dialer
+	dialer := net.Dialer{Cancel: c.stop}
 
 	conn, err := dialer.DialContext(ctx, "tcp", addr)
 	if err != nil {
@@ -228,10 +249,7 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 		return
 	}
 
-	c.reader = bufio.NewReader(conn)
-	c.writer = bufio.NewWriter(conn)
-	c.conn = conn
-
+	c.open(conn)
 	c.handshake()
 
 	if c.Error() != nil {
@@ -263,10 +281,7 @@ func (c *Client) inbound(conn net.Conn, addr string) {
 		close(c.clientDone)
 	}()
 
-	c.reader = bufio.NewReader(conn)
-	c.writer = bufio.NewWriter(conn)
-	c.conn = conn
-
+	c.open(conn)
 	c.handshake()
 
 	if c.Error() != nil {
-- 
2.43.0


From 842554b62ec4f543a6de3c85fd250fc4045f7f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:16 +0000
Subject: [PATCH 11/28] fix: evict pooled connections without waiting under the
 pool's lock, and release only the own entry

---
 client.go | 4 ++--
 map.go    | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/client.go b/client.go
index d15bcb9..7792852 100644
--- a/client.go
+++ b/client.go
@@ -234,7 +234,7 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 	c.side = clientSideInbound
 
 	defer func() {
-		c.node.outbound.remove(addr)
+		c.node.outbound.remove(addr, c)
 		close(c.clientDone)
 	}()
 
@@ -277,7 +277,7 @@ func (c *Client) inbound(conn net.Conn, addr string) {
 	c.side = clientSideOutbound
 
 	defer func() {
-		c.node.inbound.remove(addr)
+		c.node.inbound.remove(addr, c)
 		close(c.clientDone)
 	}()
 
diff --git a/map.go b/map.go
index c99121d..e473bf5 100644
--- a/map.go
+++ b/map.go
@@ -41,8 +41,10 @@ func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 			e := c.entries[evicted]
 			delete(c.entries, evicted)
 
+			// Do not wait for the evicted client here: it may need the lock of this map to get closed, or be
+			// the one evicting itself.
+
 			e.client.close()
-			e.client.waitUntilClosed()
 		}
 
 		entry.el = c.order.PushFront(addr)
@@ -56,12 +58,12 @@ func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 	return entry.client, exists
 }
 
-func (c *clientMap) remove(addr string) {
+func (c *clientMap) remove(addr string, client *Client) {
 	c.Lock()
 	defer c.Unlock()
 
 	entry, exists := c.entries[addr]
-	if !exists {
+	if !exists || entry.client != client {
 		return
 	}
 
-- 
2.43.0


From b513f2ae34b9886b3df8779ace576ebbe1425f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:51 +0000
Subject: [PATCH 12/28] fix: have closing a node release its outbound
 connections, wait for them, and return whether or not it listens

---
 client.go |  8 +++++++-
 map.go    | 11 ++++++++++-
 node.go   | 28 ++++++++++++++++++++++++----
 3 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/client.go b/client.go
index 7792852..e43d073 100644
--- a/client.go
+++ b/client.go
@@ -236,6 +236,7 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 	defer func() {
 		c.node.outbound.remove(addr, c)
 		close(c.clientDone)
+		c.node.outbound.clients.Done()
 	}()
 
 	dialer := net.Dialer{Cancel: c.stop}
@@ -279,6 +280,7 @@ func (c *Client) inbound(conn net.Conn, addr string) {
 	defer func() {
 		c.node.inbound.remove(addr, c)
 		close(c.clientDone)
+		c.node.inbound.clients.Done()
 	}()
 
 	c.open(conn)
@@ -581,7 +583,11 @@ func (c *Client) recvLoop() {
 			continue
 		}
 
-		c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}
+		select {
+		case c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}:
+		case <-c.stop:
+			return
+		}
 
 		for _, protocol := range c.node.protocols {
 			if protocol.OnMessageRecv == nil {
diff --git a/map.go b/map.go
index e473bf5..ec6d4e5 100644
--- a/map.go
+++ b/map.go
@@ -18,6 +18,9 @@ type clientMap struct {
 	cap     uint
 	order   *list.List
 	entries map[string]clientMapEntry
+
+	clients  sync.WaitGroup // All clients which have yet to be closed, evicted ones included.
+	released bool
 }
 
 func newClientMap(cap uint) *clientMap {
@@ -34,6 +37,10 @@ func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 
 	entry, exists := c.entries[addr]
 	if !exists {
+		if c.released {
+			return nil, false
+		}
+
 		if uint(len(c.entries)) == n.maxInboundConnections {
 			el := c.order.Back()
 			evicted := c.order.Remove(el).(string)
@@ -51,6 +58,7 @@ func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 		entry.client = newClient(n)
 
 		c.entries[addr] = entry
+		c.clients.Add(1)
 	} else {
 		c.order.MoveToFront(entry.el)
 	}
@@ -71,18 +79,19 @@ func (c *clientMap) remove(addr string, client *Client) {
 	delete(c.entries, addr)
 }
 
+// release closes all clients, and has no further clients be created. It does not wait until they are closed.
 func (c *clientMap) release() {
 	c.Lock()
 
 	entries := c.entries
 	c.entries = make(map[string]clientMapEntry, c.cap)
 	c.order.Init()
+	c.released = true
 
 	c.Unlock()
 
 	for _, e := range entries {
 		e.client.close()
-		e.client.waitUntilClosed()
 	}
 }
 
diff --git a/node.go b/node.go
index 64f6d65..d88352f 100644
--- a/node.go
+++ b/node.go
@@ -43,6 +43,7 @@ type Node struct {
 
 	listener  net.Listener
 	listening atomic.Bool
+	started   atomic.Bool
 
 	outbound *clientMap
 	inbound  *clientMap
@@ -196,11 +197,12 @@ func (n *Node) Listen() error {
 		}()
 	}
 
-	go func() {
-		n.listening.Store(true)
+	n.listening.Store(true)
+	n.started.Store(true)
 
+	go func() {
 		defer func() {
-			n.inbound.release()
+			n.release()
 
 			close(n.work)
 			n.workers.Wait()
@@ -219,7 +221,6 @@ func (n *Node) Listen() error {
 		for {
 			conn, err := n.listener.Accept()
 			if err != nil {
-				n.listenerDone <- err
 				break
 			}
 
@@ -382,16 +383,35 @@ func (n *Node) Close() error {
 		}
 	}
 
+	if !n.started.Load() {
+		n.release()
+		return nil
+	}
+
 	<-n.listenerDone
 
 	return nil
 }
 
+// release closes all inbound/outbound clients of this node, and waits until all of them are closed.
+func (n *Node) release() {
+	n.inbound.release()
+	n.outbound.release()
+
+	n.inbound.clients.Wait()
+	n.outbound.clients.Wait()
+}
+
 func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error) {
 	var err error
 
 	for i := uint(0); i < n.maxDialAttempts; i++ {
 		client, exists := n.outbound.get(n, addr)
+		if client == nil {
+			err = errors.New("node is closed")
+			break
+		}
+
 		if !exists {
 			go client.outbound(ctx, addr)
 		}
-- 
2.43.0


From 1d2c96377e8b523cb9ef0a8fad70fa2a1b5a5a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:57 +0000
Subject: [PATCH 13/28] fix: close an accepted connection which is not going to
 be served

---
 node.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index d88352f..7c6feed 100644
--- a/node.go
+++ b/node.go
@@ -227,9 +227,12 @@ func (n *Node) Listen() error {
 			addr := conn.RemoteAddr().String()
 
 			client, exists := n.inbound.get(n, addr)
-			if !exists {
-				go client.inbound(conn, addr)
+			if exists {
+				conn.Close()
+				continue
 			}
+
+			go client.inbound(conn, addr)
 		}
 	}()
 
-- 
2.43.0


From 05fbddee9af920dcd00684e59802ee8f90f7bc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:31 +0000
Subject: [PATCH 14/28] fix: leave a shared connection alone when the context
 of one of its users ends

---
 node.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/node.go b/node.go
index 7c6feed..3ff63fd 100644
--- a/node.go
+++ b/node.go
@@ -434,10 +434,15 @@ func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error
 			return client, nil
 		}
 
-		client.close()
-		client.waitUntilClosed()
+		// Drop the client should it have failed or be ours, but leave alone one that others are using. Do not wait for
+		// it to be closed: we may be called by one of its own goroutines.
 
-		if errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded) {
+		if !exists || client.Error() != nil {
+			client.close()
+			n.outbound.remove(addr, client)
+		}
+
+		if ctx.Err() != nil {
 			for _, protocol := range n.protocols {
 				if protocol.OnPingFailed == nil {
 					continue
-- 
2.43.0


From c9cccf48f556b147a8debfa0a4d2a24bc3cf9ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:31 +0000
Subject: [PATCH 15/28] fix: have a client be closed only once its writer has
 stopped

---
 client.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/client.go b/client.go
index e43d073..52096e0 100644
--- a/client.go
+++ b/client.go
@@ -261,6 +261,7 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 	go c.writeLoop()
 	c.recvLoop()
 	c.close()
+	<-c.writerDone
 
 	c.Logger().Debug("Peer connection closed.")
 
@@ -294,6 +295,7 @@ func (c *Client) inbound(conn net.Conn, addr string) {
 	go c.writeLoop()
 	c.recvLoop()
 	c.close()
+	<-c.writerDone
 
 	for _, protocol := range c.node.protocols {
 		if protocol.OnPeerDisconnected == nil {
-- 
2.43.0


From f88364171e74971d2502591b6fe8061857a3abb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 16/28] fix: call OnMessageRecv for responses too

---
 client.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/client.go b/client.go
index 52096e0..ea3f0de 100644
--- a/client.go
+++ b/client.go
@@ -581,14 +581,12 @@ func (c *Client) recvLoop() {
 		if ch := c.requests.findRequest(msg.nonce); ch != nil {
 			ch <- msg
 			close(ch)
-
-			continue
-		}
-
-		select {
-		case c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}:
-		case <-c.stop:
-			return
+		} else {
+			select {
+			case c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}:
+			case <-c.stop:
+				return
+			}
 		}
 
 		for _, protocol := range c.node.protocols {
-- 
2.43.0


From c63c7a59a9053b4a2b876bd05f41a476195f9a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:41 +0000
Subject: [PATCH 17/28] fix: reject a session handshake which reflects our own

---
 client.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client.go b/client.go
index ea3f0de..7a14552 100644
--- a/client.go
+++ b/client.go
@@ -457,6 +457,13 @@ func (c *Client) handshake() {
 	var peerPublicKey PublicKey
 	copy(peerPublicKey[:], data[:SizePublicKey])
 
+	// Our own messages being reflected back to us must not be mistaken for a peer proving our own identity.
+
+	if peerPublicKey == pub {
+		c.reportError(errors.New("received our own session handshake"))
+		return
+	}
+
 	// Verify ownership of our peers Ed25519 public key by verifying the signature they sent.
 
 	if !peerPublicKey.Verify([]byte(".__noise_handshake"), UnmarshalSignature(data[SizePublicKey:SizePublicKey+SizeSignature])) {
-- 
2.43.0


From 538dfd6ebb5fccc5f39e059e20708aa7de95d0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:46 +0000
Subject: [PATCH 18/28] fix: encode messages registered under their pointer
 type

---
 codec.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codec.go b/codec.go
index 3d627f2..114aeca 100644
--- a/codec.go
+++ b/codec.go
@@ -61,11 +61,13 @@ func (c *codec) encode(msg Serializable) ([]byte, error) {
 
 	t := reflect.TypeOf(msg)
 
-	if t.Kind() == reflect.Ptr {
+	opcode, registered := c.ser[t]
+
+	if !registered && t.Kind() == reflect.Ptr {
 		t = t.Elem()
+		opcode, registered = c.ser[t]
 	}
 
-	opcode, registered := c.ser[t]
 	if !registered {
 		return nil, fmt.Errorf("opcode not registered for message type %+v", t)
 	}
-- 
2.43.0


From 1e0a8ab0a912132e827385973a7ace4de84cf3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:13 +0000
Subject: [PATCH 19/28] fix: find the closest ids across all buckets, and do
 not panic on an empty bucket

---
 kademlia/table.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/kademlia/table.go b/kademlia/table.go
index 1ea256f..2fc57ab 100644
--- a/kademlia/table.go
+++ b/kademlia/table.go
@@ -37,12 +37,17 @@ func (t *Table) Self() noise.ID {
 	return t.self
 }
 
-// Last returns the last id of the bucket where target resides within.
+// Last returns the last id of the bucket where target resides within, or a zero-value ID should the bucket be empty.
 func (t *Table) Last(target noise.PublicKey) noise.ID {
 	t.RLock()
 	defer t.RUnlock()
 
-	return t.entries[t.getBucketIndex(target)].Back().Value.(noise.ID)
+	last := t.entries[t.getBucketIndex(target)].Back()
+	if last == nil {
+		return noise.ID{}
+	}
+
+	return last.Value.(noise.ID)
 }
 
 // Bucket returns all entries of a bucket where target reside within.
@@ -172,18 +177,10 @@ func (t *Table) FindClosest(target noise.PublicKey, k int) []noise.ID {
 	t.RLock()
 	defer t.RUnlock()
 
-	idx := t.getBucketIndex(target)
+	// A buckets distance to ours says nothing about how close its ids are to target, so consider all of them.
 
-	f(t.entries[idx])
-
-	for i := 1; len(closest) < k && (idx-i >= 0 || idx+i < len(t.entries)); i++ {
-		if idx-i >= 0 {
-			f(t.entries[idx-i])
-		}
-
-		if idx+i < len(t.entries) {
-			f(t.entries[idx+i])
-		}
+	for _, bucket := range t.entries {
+		f(bucket)
 	}
 
 	closest = SortByDistance(target, closest)
-- 
2.43.0


From cd100bf521b89e77bbe741ee7300ecf368710cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:18 +0000
Subject: [PATCH 20/28] fix: look up the target of a search instead of the peer
 being asked

---
 kademlia/iterator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kademlia/iterator.go b/kademlia/iterator.go
index 9b0f3ca..fca64dd 100644
--- a/kademlia/iterator.go
+++ b/kademlia/iterator.go
@@ -16,6 +16,7 @@ type Iterator struct {
 	node   *noise.Node
 	table  *Table
 	logger *zap.Logger
+	target noise.PublicKey
 
 	visited map[noise.PublicKey]struct{}
 	results chan noise.ID
@@ -72,6 +73,7 @@ func (it *Iterator) Find(target noise.PublicKey) []noise.ID {
 }
 
 func (it *Iterator) init(target noise.PublicKey) {
+	it.target = target
 	it.results = make(chan noise.ID, 1)
 
 	it.visited = map[noise.PublicKey]struct{}{
@@ -162,7 +164,7 @@ func (it *Iterator) lookupRequest(id noise.ID, out chan<- []noise.ID) {
 	ctx, cancel := context.WithTimeout(context.Background(), it.lookupTimeout)
 	defer cancel()
 
-	obj, err := it.node.RequestMessage(ctx, id.Address, FindNodeRequest{Target: id.ID})
+	obj, err := it.node.RequestMessage(ctx, id.Address, FindNodeRequest{Target: it.target})
 	if err != nil {
 		out <- nil
 		return
-- 
2.43.0


From 983bdef4ab44b958beb7bc4936605878f71a81e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:23 +0000
Subject: [PATCH 21/28] fix: do not report peers that were never admitted as
 evicted

---
 kademlia/protocol.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/kademlia/protocol.go b/kademlia/protocol.go
index c0eb3ad..3840be3 100644
--- a/kademlia/protocol.go
+++ b/kademlia/protocol.go
@@ -144,10 +144,6 @@ func (p *Protocol) Ack(id noise.ID) {
 			zap.String("peer_addr", id.Address),
 		)
 
-		if p.events.OnPeerEvicted != nil {
-			p.events.OnPeerEvicted(id)
-		}
-
 		return
 	}
 }
-- 
2.43.0


From c0cb2ab008b6954037496948fa8a25feeb178d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:59 +0000
Subject: [PATCH 22/28] fix: handle data gossiped by several peers at once only
 once

---
 gossip/protocol.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gossip/protocol.go b/gossip/protocol.go
index c5ae995..5244b60 100644
--- a/gossip/protocol.go
+++ b/gossip/protocol.go
@@ -17,7 +17,8 @@ type Protocol struct {
 	overlay *kademlia.Protocol
 	events  Events
 
-	seen *fastcache.Cache
+	seen     *fastcache.Cache
+	seenLock sync.Mutex
 }
 
 // New returns a new instance of a gossip protocol with 32MB of in-memory cache instantiated.
@@ -107,12 +108,15 @@ func (p *Protocol) Handle(ctx noise.HandlerContext) error {
 
 	self := p.hash(p.node.ID(), msg)
 
-	if p.seen.Has(self) {
+	p.seenLock.Lock()
+	exists := p.seen.Has(self)
+	p.seen.Set(self, nil) // Mark that we already have this data.
+	p.seenLock.Unlock()
+
+	if exists {
 		return nil
 	}
 
-	p.seen.Set(self, nil) // Mark that we already have this data.
-
 	if p.events.OnGossipReceived != nil {
 		if err := p.events.OnGossipReceived(ctx.ID(), msg); err != nil {
 			return err
-- 
2.43.0


From 2ba6d8d0096755ab8c1026fee2cd6c9648e48c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:03 +0000
Subject: [PATCH 23/28] fix: remember gossiped data of any size

---
 gossip/protocol.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gossip/protocol.go b/gossip/protocol.go
index 5244b60..442894b 100644
--- a/gossip/protocol.go
+++ b/gossip/protocol.go
@@ -4,6 +4,7 @@ package gossip
 
 import (
 	"context"
+	"crypto/sha256"
 	"github.com/VictoriaMetrics/fastcache"
 	"github.com/perlin-network/noise"
 	"github.com/perlin-network/noise/kademlia"
@@ -129,5 +130,7 @@ func (p *Protocol) Handle(ctx noise.HandlerContext) error {
 }
 
 func (p *Protocol) hash(id noise.ID, data []byte) []byte {
-	return append(id.ID[:], data...)
+	digest := sha256.Sum256(data) // The cache silently ignores keys of 64KB or more.
+
+	return append(id.ID[:], digest[:]...)
 }
-- 
2.43.0


From 16d95491d707f672f537554a527d6623e598d41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:34 +0000
Subject: [PATCH 24/28] fix: accept public addresses whose host is a loopback
 or unspecified one

---
 node.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 3ff63fd..4aba0e8 100644
--- a/node.go
+++ b/node.go
@@ -150,7 +150,13 @@ func (n *Node) Listen() error {
 			return err
 		}
 
-		host := net.ParseIP(hostStr)
+		// A loopback/unspecified host gets resolved into an empty one.
+
+		host := n.host
+		if hostStr != "" {
+			host = net.ParseIP(hostStr)
+		}
+
 		if host == nil {
 			n.listener.Close()
 			return errors.New("host in provided public address is invalid (must be IPv4/IPv6)")
-- 
2.43.0


From 0000aeb681a167d54b0bc84154564dbd82466d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:06 +0000
Subject: [PATCH 25/28] fix: synchronise (*Client).ID with the handshake that
 assigns the peer's ID

---
 client.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/client.go b/client.go
index 7a14552..dc929dd 100644
--- a/client.go
+++ b/client.go
@@ -48,7 +48,10 @@ func (c clientSide) String() string {
 type Client struct {
 	node *Node
 
-	id ID
+	id struct {
+		sync.RWMutex
+		ID
+	}
 
 	addr string
 	side clientSide
@@ -116,7 +119,10 @@ func newClient(node *Node) *Client {
 //
 // ID may be called concurrently.
 func (c *Client) ID() ID {
-	return c.id
+	c.id.RLock()
+	defer c.id.RUnlock()
+
+	return c.id.ID
 }
 
 // Logger returns the underlying logger associated to this client. It may optionally be set via (*Client).SetLogger.
@@ -541,7 +547,9 @@ func (c *Client) handshake() {
 		return
 	}
 
-	c.id = id
+	c.id.Lock()
+	c.id.ID = id
+	c.id.Unlock()
 
 	c.SetLogger(c.Logger().With(
 		zap.String("peer_id", id.ID.String()),
-- 
2.43.0


From c4c0f45cb8eaf3b2518fc3de964f4aac5c9dbe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:40 +0000
Subject: [PATCH 26/28] fix: let Bind and Handle be called concurrently

---
 client.go | 10 +++++-----
 node.go   | 32 +++++++++++++++++++++++++++-----
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/client.go b/client.go
index dc929dd..7097060 100644
--- a/client.go
+++ b/client.go
@@ -271,7 +271,7 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 
 	c.Logger().Debug("Peer connection closed.")
 
-	for _, protocol := range c.node.protocols {
+	for _, protocol := range c.node.boundProtocols() {
 		if protocol.OnPeerDisconnected == nil {
 			continue
 		}
@@ -303,7 +303,7 @@ func (c *Client) inbound(conn net.Conn, addr string) {
 	c.close()
 	<-c.writerDone
 
-	for _, protocol := range c.node.protocols {
+	for _, protocol := range c.node.boundProtocols() {
 		if protocol.OnPeerDisconnected == nil {
 			continue
 		}
@@ -560,7 +560,7 @@ func (c *Client) handshake() {
 
 	c.Logger().Debug("Peer connection opened.")
 
-	for _, protocol := range c.node.protocols {
+	for _, protocol := range c.node.boundProtocols() {
 		if protocol.OnPeerConnected == nil {
 			continue
 		}
@@ -604,7 +604,7 @@ func (c *Client) recvLoop() {
 			}
 		}
 
-		for _, protocol := range c.node.protocols {
+		for _, protocol := range c.node.boundProtocols() {
 			if protocol.OnMessageRecv == nil {
 				continue
 			}
@@ -698,7 +698,7 @@ Write:
 			break Write
 		}
 
-		for _, protocol := range c.node.protocols {
+		for _, protocol := range c.node.boundProtocols() {
 			if protocol.OnMessageSent == nil {
 				continue
 			}
diff --git a/node.go b/node.go
index 4aba0e8..05ee34f 100644
--- a/node.go
+++ b/node.go
@@ -48,7 +48,9 @@ type Node struct {
 	outbound *clientMap
 	inbound  *clientMap
 
-	codec     *codec
+	codec *codec
+
+	bindings  sync.RWMutex // Guards protocols and handlers.
 	protocols []Protocol
 	handlers  []Handler
 
@@ -171,7 +173,7 @@ func (n *Node) Listen() error {
 		n.id = NewID(n.publicKey, host, uint16(port))
 	}
 
-	for _, protocol := range n.protocols {
+	for _, protocol := range n.boundProtocols() {
 		if protocol.Bind == nil {
 			continue
 		}
@@ -190,7 +192,7 @@ func (n *Node) Listen() error {
 			defer n.workers.Done()
 
 			for ctx := range n.work {
-				for _, handler := range n.handlers {
+				for _, handler := range n.boundHandlers() {
 					if err := handler(ctx); err != nil {
 						ctx.client.Logger().Warn("Got an error executing a message handler.", zap.Error(err))
 						ctx.client.reportError(err)
@@ -449,7 +451,7 @@ func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error
 		}
 
 		if ctx.Err() != nil {
-			for _, protocol := range n.protocols {
+			for _, protocol := range n.boundProtocols() {
 				if protocol.OnPingFailed == nil {
 					continue
 				}
@@ -463,7 +465,7 @@ func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error
 
 	err = fmt.Errorf("attempted to dial %s several times but failed: %w", addr, err)
 
-	for _, protocol := range n.protocols {
+	for _, protocol := range n.boundProtocols() {
 		if protocol.OnPingFailed == nil {
 			continue
 		}
@@ -485,6 +487,9 @@ func (n *Node) Bind(protocols ...Protocol) {
 		return
 	}
 
+	n.bindings.Lock()
+	defer n.bindings.Unlock()
+
 	n.protocols = append(n.protocols, protocols...)
 }
 
@@ -499,9 +504,26 @@ func (n *Node) Handle(handlers ...Handler) {
 		return
 	}
 
+	n.bindings.Lock()
+	defer n.bindings.Unlock()
+
 	n.handlers = append(n.handlers, handlers...)
 }
 
+func (n *Node) boundProtocols() []Protocol {
+	n.bindings.RLock()
+	defer n.bindings.RUnlock()
+
+	return n.protocols
+}
+
+func (n *Node) boundHandlers() []Handler {
+	n.bindings.RLock()
+	defer n.bindings.RUnlock()
+
+	return n.handlers
+}
+
 // Sign uses the nodes private key to sign data and return its cryptographic signature as a slice of bytes.
 func (n *Node) Sign(data []byte) Signature {
 	return n.privateKey.Sign(data)
-- 
2.43.0


From 0b042e0fe64f7e8e083a4bf426a1773cd62b3704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:38 +0000
Subject: [PATCH 27/28] fix: refuse signatures of public keys of small order,
 which anyone can forge

---
 keys.go | 44 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/keys.go b/keys.go
index 30c7b19..b54338c 100644
--- a/keys.go
+++ b/keys.go
@@ -43,6 +43,33 @@ var (
 	ZeroSignature Signature
 )
 
+// smallOrderKeys lists the encodings, less their sign bits, of all public keys which are of small order. There exists no
+// private key to any of them, though anyone may forge signatures which are valid under them.
+var smallOrderKeys = [...]PublicKey{
+	{},
+	{0x01},
+	{
+		0x26, 0xe8, 0x95, 0x8f, 0xc2, 0xb2, 0x27, 0xb0, 0x45, 0xc3, 0xf4, 0x89, 0xf2, 0xef, 0x98, 0xf0,
+		0xd5, 0xdf, 0xac, 0x05, 0xd3, 0xc6, 0x33, 0x39, 0xb1, 0x38, 0x02, 0x88, 0x6d, 0x53, 0xfc, 0x05,
+	},
+	{
+		0xc7, 0x17, 0x6a, 0x70, 0x3d, 0x4d, 0xd8, 0x4f, 0xba, 0x3c, 0x0b, 0x76, 0x0d, 0x10, 0x67, 0x0f,
+		0x2a, 0x20, 0x53, 0xfa, 0x2c, 0x39, 0xcc, 0xc6, 0x4e, 0xc7, 0xfd, 0x77, 0x92, 0xac, 0x03, 0x7a,
+	},
+	{
+		0xec, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+		0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f,
+	},
+	{
+		0xed, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+		0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f,
+	},
+	{
+		0xee, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+		0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f,
+	},
+}
+
 // GenerateKeys randomly generates a new pair of cryptographic keys. Nil may be passed to rand in order to use
 // crypto/rand by default. It returns an error if rand is invalid.
 func GenerateKeys(rand io.Reader) (publicKey PublicKey, privateKey PrivateKey, err error) {
@@ -78,9 +105,22 @@ func LoadKeysFromHex(secretHex string) (PrivateKey, error) {
 	return privateKey, nil
 }
 
-// Verify returns true if the cryptographic signature of data is representative of this public key.
+// Verify returns true if the cryptographic signature of data is representative of this public key. It always returns
+// false if this public key is of small order.
 func (k PublicKey) Verify(data []byte, signature Signature) bool {
-	return ed25519.Verify(k[:], data, signature[:])
+	return !k.isSmallOrder() && ed25519.Verify(k[:], data, signature[:])
+}
+
+func (k PublicKey) isSmallOrder() bool {
+	k[SizePublicKey-1] &= 0x7f
+
+	for _, smallOrderKey := range smallOrderKeys {
+		if k == smallOrderKey {
+			return true
+		}
+	}
+
+	return false
 }
 
 // String returns the hexadecimal representation of this public key.
-- 
2.43.0


From ac76885c79681abf2352bf7c7e653d1bb66fd99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:43 +0000
Subject: [PATCH 28/28] fix: refuse our own overlay handshake sent back to us
 by a peer

---
 client.go | 12 ++++++++++++
 node.go   |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/client.go b/client.go
index 7097060..060d196 100644
--- a/client.go
+++ b/client.go
@@ -434,6 +434,9 @@ func (c *Client) handshake() {
 		return
 	}
 
+	c.node.sessions.Store(pub, struct{}{})
+	defer c.node.sessions.Delete(pub)
+
 	// Send our Ed25519 ephemeral public key and signature of the message '.__noise_handshake'.
 
 	signature := sec.Sign([]byte(".__noise_handshake"))
@@ -470,6 +473,10 @@ func (c *Client) handshake() {
 		return
 	}
 
+	// Only should this node be connecting to itself may its own overlay handshake be sent back to it.
+
+	_, self := c.node.sessions.Load(peerPublicKey)
+
 	// Verify ownership of our peers Ed25519 public key by verifying the signature they sent.
 
 	if !peerPublicKey.Verify([]byte(".__noise_handshake"), UnmarshalSignature(data[SizePublicKey:SizePublicKey+SizeSignature])) {
@@ -542,6 +549,11 @@ func (c *Client) handshake() {
 		return
 	}
 
+	if !self && UnmarshalSignature(data[len(buf):len(buf)+SizeSignature]) == signature {
+		c.reportError(errors.New("received our own overlay handshake"))
+		return
+	}
+
 	if !id.ID.Verify(append(buf, shared...), UnmarshalSignature(data[len(buf):len(buf)+SizeSignature])) {
 		c.reportError(errors.New("overlay handshake signature is malformed"))
 		return
diff --git a/node.go b/node.go
index 05ee34f..6e1b980 100644
--- a/node.go
+++ b/node.go
@@ -50,6 +50,8 @@ type Node struct {
 
 	codec *codec
 
+	sessions sync.Map // Ephemeral public keys of the handshakes which this node is undergoing.
+
 	bindings  sync.RWMutex // Guards protocols and handlers.
 	protocols []Protocol
 	handlers  []Handler
-- 
2.43.0


From d0c6c20730fd1967073d16e452b588eb5e960274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:39 +0000
Subject: [PATCH 01/33] fix: control frames without payload announced the
 previous frame's length

writeControl reuses its buffer and only wrote the length byte when there was a
payload, so an empty ping or pong sent after a pong of n bytes announced n bytes
of payload and desynchronised the peer.
---
 conn_write.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conn_write.go b/conn_write.go
index 4f94f19..405a14b 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -315,6 +315,7 @@ func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
 	// write header and payload
 	cw.buf = cw.buf[:2]
 	cw.buf[0] = 0x80 + opcode
+	cw.buf[1] = 0
 
 	if isMasked {
 		b, err := cw.conn.nRead(4)
-- 
2.43.0


From 68c02ba8516e1047cf65fa4291be7563326aadbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:05 +0000
Subject: [PATCH 02/33] fix: a failed data write deadlocked

flush called CloseWithCode while holding the write lock that CloseWithCode needs
for its close frame, so a write error or timeout blocked the sender, and every
other user of the connection, forever.
---
 conn_write.go | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/conn_write.go b/conn_write.go
index 405a14b..fc10301 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -143,22 +143,13 @@ func (w *ConnWriter) flush(FIN bool) error {
 		return err
 	}
 
-	err = w.conn.writeLock.lockCtx(w.ctx)
+	err = w.conn.writeFrame(w.ctx, w.buf[w.start:w.used])
 	if err != nil {
+		if IsFatalErr(err) {
+			w.conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
+		}
 		return err
 	}
-	defer w.conn.writeLock.unLock()
-
-	if err = w.conn.raw.SetWriteDeadline(time.Now().Add(w.conn.upgrader.WriteWait)); err != nil {
-		w.conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
-		return fatal(err)
-	}
-
-	err = w.conn.sendFrame(w.buf[w.start:w.used])
-	if err != nil {
-		w.conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
-		return fatal(err)
-	}
 
 	w.flushCount++
 	w.used = MaxHeaderSize
@@ -178,6 +169,24 @@ func (w *ConnWriter) Close() error {
 	return nil
 }
 
+// writeFrame acquires the write lock and writes a prepared frame within the time given in
+// conn.upgrader.WriteWait.
+// This function is for internal library use.
+// If it returns a fatal error the connection must be closed by the caller (the function doesn't close it,
+// because closing needs the write lock).
+func (conn *Conn) writeFrame(ctx context.Context, buf []byte) error {
+	if err := conn.writeLock.lockCtx(ctx); err != nil {
+		return err
+	}
+	defer conn.writeLock.unLock()
+
+	if err := conn.raw.SetWriteDeadline(time.Now().Add(conn.upgrader.WriteWait)); err != nil {
+		return fatal(err)
+	}
+
+	return fatal(conn.sendFrame(buf))
+}
+
 // sendFrame writes a prepared frame to the underlying connection.
 // This function is for internal library use.
 // All non-nil errors returned are fatal.
-- 
2.43.0


From b59c280bc30866cce48620d87b2a578b44274141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:07 +0000
Subject: [PATCH 03/33] fix: a failed broadcast delivery left the connection
 open and deaf

When writing a broadcast failed the listener stopped without closing the
connection, which then never received a broadcast again; when setting the
deadline failed it closed the connection while holding the write lock, which
deadlocks.
---
 broadcast.go | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/broadcast.go b/broadcast.go
index 6d2c35c..6de365a 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -3,7 +3,6 @@ package snapws
 import (
 	"context"
 	"fmt"
-	"time"
 )
 
 type message interface {
@@ -21,24 +20,12 @@ type frame struct {
 // Here we will send the frame directly (in one syscall) without copying to user buffer (without facing the possibility of fragmenting it).
 // This will save us syscalls and copies.
 func (m *frame) writeToConn(conn *Conn) error {
-	// Acquire write lock
-	if err := conn.writeLock.lockCtx(m.ctx); err != nil {
-		return err
-	}
-	defer conn.writeLock.unLock()
-
-	// set deadline
-	if err := conn.raw.SetWriteDeadline(time.Now().Add(conn.upgrader.WriteWait)); err != nil {
+	err := conn.writeFrame(m.ctx, m.buf)
+	if IsFatalErr(err) {
 		conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
-		return fatal(err)
-	}
-
-	// send frame
-	if err := conn.sendFrame(m.buf); err != nil {
-		return fatal(err)
 	}
 
-	return nil
+	return err
 }
 
 // Implements the message interface.
-- 
2.43.0


From 8a495eefbdacefd6c6b22884119ed7edb2c91fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:09 +0000
Subject: [PATCH 04/33] fix: broadcasts were written between the fragments of
 other messages

writeToConn only took the frame-level write lock, so a broadcast could land
inside a message that a writer was sending in several frames (RFC 6455 5.4).
---
 broadcast.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/broadcast.go b/broadcast.go
index 6de365a..5dee35d 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -20,7 +20,12 @@ type frame struct {
 // Here we will send the frame directly (in one syscall) without copying to user buffer (without facing the possibility of fragmenting it).
 // This will save us syscalls and copies.
 func (m *frame) writeToConn(conn *Conn) error {
+	// A data frame can't be written between the fragments of another message.
+	if err := conn.writer.lock.lockCtx(m.ctx); err != nil {
+		return err
+	}
 	err := conn.writeFrame(m.ctx, m.buf)
+	conn.writer.lock.unLock()
 	if IsFatalErr(err) {
 		conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 	}
-- 
2.43.0


From e71e4a381e69eae497f7e15eebb817864aadc839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:33 +0000
Subject: [PATCH 05/33] fix: closing a connection sent and recycled a message
 somebody was writing

CloseWithCode flushed the current writer from the closing goroutine, racing with
its owner: the peer got a truncated message marked as complete, and the buffer
went back to the pool while the owner kept writing into it, so its bytes ended
up in messages of other connections. Closing now leaves an unfinished message
unfinished and recycles the buffer only if nobody is using it.
---
 conn.go       | 12 ++++++------
 conn_utils.go |  9 +++++++++
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index e8a55ef..6b530e4 100755
--- a/conn.go
+++ b/conn.go
@@ -201,15 +201,15 @@ func (conn *Conn) CloseWithCode(code uint16, reason string) {
 			conn.ticker.Stop()
 		}
 
-		// close the current writer (if exists) and put the buffer back to the pool (if exists).
-		conn.writer.Close()
-		if conn.writer.pb != nil && !conn.upgrader.DisableWriteBuffersPooling {
-			conn.upgrader.writePool.Put(conn.writer.pb)
-		}
-
 		// close the done channel inditicating that the connection is closed
 		close(conn.done)
 
+		// put the buffer back to the pool (if exists), unless somebody is still writing into it.
+		// Lock without unlocking because nobody may use the writer from now on.
+		if conn.writer.lock.tryLock() && conn.writer.pb != nil && !conn.upgrader.DisableWriteBuffersPooling {
+			conn.upgrader.writePool.Put(conn.writer.pb)
+		}
+
 		// writer a close frame.
 		conn.controlWriter.writeClose(code, reason)
 
diff --git a/conn_utils.go b/conn_utils.go
index 66cee43..fe7de2a 100755
--- a/conn_utils.go
+++ b/conn_utils.go
@@ -48,6 +48,15 @@ func (m *mu) lock() error {
 	}
 }
 
+func (m *mu) tryLock() bool {
+	select {
+	case m.ch <- struct{}{}:
+		return true
+	default:
+		return false
+	}
+}
+
 func (m *mu) forceLock() {
 	m.ch <- struct{}{}
 }
-- 
2.43.0


From 429634e0845f0d0cc8f24fd9273218b687450f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:36 +0000
Subject: [PATCH 06/33] fix: writers could be obtained on a closed connection

The locks select between the closed signal and the free lock at random, so after
Close a writer could still be handed out half of the time, on a buffer that may
already belong to another connection.
---
 conn_utils.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/conn_utils.go b/conn_utils.go
index fe7de2a..1133fd2 100755
--- a/conn_utils.go
+++ b/conn_utils.go
@@ -39,7 +39,21 @@ func newMu(c *Conn) *mu {
 	return &mu{conn: c, ch: make(chan struct{}, 1)}
 }
 
+// select picks a ready case at random, so a free lock of a closed connection must be ruled out first.
+func (m *mu) checkClosed() error {
+	select {
+	case <-m.conn.done:
+		return fatal(ErrConnClosed)
+	default:
+		return nil
+	}
+}
+
 func (m *mu) lock() error {
+	if err := m.checkClosed(); err != nil {
+		return err
+	}
+
 	select {
 	case <-m.conn.done:
 		return fatal(ErrConnClosed)
@@ -78,6 +92,9 @@ func (m *mu) lockCtx(ctx context.Context) error {
 	if ctx == nil || ctx.Done() == nil {
 		return m.lock()
 	}
+	if err := m.checkClosed(); err != nil {
+		return err
+	}
 
 	select {
 	case <-m.conn.done:
@@ -90,6 +107,10 @@ func (m *mu) lockCtx(ctx context.Context) error {
 }
 
 func (m *mu) lockTimer(t *time.Timer) error {
+	if err := m.checkClosed(); err != nil {
+		return err
+	}
+
 	select {
 	case <-m.conn.done:
 		return fatal(ErrConnClosed)
-- 
2.43.0


From f379d02e1e347748358745b1674e5359411ad2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:38 +0000
Subject: [PATCH 07/33] fix: closing a writer twice ended the next sender's
 message

All messages shared one ConnWriter, so a second Close (a deferred one, usually)
after another goroutine obtained the next writer sent that goroutine's unfinished
message as complete and released its lock.
---
 conn_write.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conn_write.go b/conn_write.go
index fc10301..8b2ec0d 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -76,9 +76,11 @@ func (conn *Conn) NextWriter(ctx context.Context, msgType uint8) (*ConnWriter, e
 		return nil, err
 	}
 
-	conn.writer.reset(ctx, msgType)
+	// The returned writer belongs to this message only: using it after Close() must not affect the next message.
+	w := *conn.writer
+	w.reset(ctx, msgType)
 
-	return conn.writer, nil
+	return &w, nil
 }
 
 // Write appends bytes to the writer buffer and flushes if full.
-- 
2.43.0


From 4217bd66d81d21b3bb93224cdcd19e2c8a9e57f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:08 +0000
Subject: [PATCH 08/33] fix: a send that failed kept the writer locked

SendMessage returned without closing the writer when Write failed, and SendJSON
when the value could not be marshaled; every later send then blocked forever.
---
 conn_write.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/conn_write.go b/conn_write.go
index 8b2ec0d..38533a7 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -1,6 +1,7 @@
 package snapws
 
 import (
+	"bytes"
 	"context"
 	"encoding/binary"
 	"encoding/json"
@@ -216,6 +217,7 @@ func (conn *Conn) SendMessage(ctx context.Context, opcode uint8, b []byte) error
 
 	_, err = w.Write(b)
 	if err != nil {
+		w.Close()
 		return err
 	}
 
@@ -255,17 +257,13 @@ func (conn *Conn) SendString(ctx context.Context, p []byte) error {
 // that indicates the connection was closed due to an I/O or protocol error.
 // Any other error means the connection is still open, and you may retry or continue using it.
 func (conn *Conn) SendJSON(ctx context.Context, v any) error {
-	w, err := conn.NextWriter(ctx, OpcodeText)
-	if err != nil {
-		return err
-	}
-
-	err = json.NewEncoder(w).Encode(v)
-	if err != nil {
+	// encoding before acquiring the writer, so nothing needs to be undone if it fails.
+	var buf bytes.Buffer
+	if err := json.NewEncoder(&buf).Encode(v); err != nil {
 		return err
 	}
 
-	return w.Close()
+	return conn.SendMessage(ctx, OpcodeText, buf.Bytes())
 }
 
 // Ping sends a WebSocket ping frame and waits for it to be sent.
-- 
2.43.0


From cbc084b89d4e13aaa38345892a92bd8dd37ec29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:31 +0000
Subject: [PATCH 09/33] fix: a message cancelled half-way left the peer in the
 middle of it

A failed flush left the writer usable: Close() went on with another frame (or
ended the partial message as if it were complete). Now the first failure sticks,
and if some frames were already sent the connection is closed with a fatal error.
---
 conn_batcher.go |  3 +--
 conn_write.go   | 33 ++++++++++++++++++++++-----------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/conn_batcher.go b/conn_batcher.go
index a1e99de..b50cd50 100755
--- a/conn_batcher.go
+++ b/conn_batcher.go
@@ -141,8 +141,7 @@ func (b *messageBatch) sendWrapper(messages [][]byte, encoder batchEncoder) erro
 	err = encoder(w, messages, p, s)
 	if err != nil {
 		fmt.Println(err)
-		w.Close()
-		return err
+		return w.Close()
 	}
 
 	return w.Close()
diff --git a/conn_write.go b/conn_write.go
index 38533a7..85738e7 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -23,8 +23,10 @@ type ConnWriter struct {
 	opcode     uint8
 	closed     bool
 	flushCount int
-	lock       *mu
-	ctx        context.Context
+	// The first error returned by flush. A message can't be continued after a failed flush.
+	err  error
+	lock *mu
+	ctx  context.Context
 }
 
 // newWriter is a constructor for conn.writer, only to be used once.
@@ -56,6 +58,7 @@ func (w *ConnWriter) reset(ctx context.Context, opcode uint8) {
 	w.opcode = opcode
 	w.closed = false
 	w.flushCount = 0
+	w.err = nil
 	w.ctx = ctx
 }
 
@@ -117,10 +120,9 @@ func (w *ConnWriter) Write(p []byte) (n int, err error) {
 //
 // Return values:
 //   - If it returns a fatal error, the connection is closed and cannot be reused.
-//   - If it returns a non-fatal, non-nil error, the connection is still alive,
-//     and you may attempt to flush again.
-//     note: If err == context.Canceled or DeadlineExceeded, connection is alive but ctx is done.
-//     No point in retrying.
+//   - If it returns a non-fatal, non-nil error, the connection is still alive, but the message
+//     can't be continued. Close() the writer to release the lock.
+//     note: err == context.Canceled or DeadlineExceeded means that ctx is done.
 //   - If it returns nil, the flush was successful and the message has been sent.
 func (w *ConnWriter) Flush() error {
 	return w.flush(false)
@@ -135,6 +137,9 @@ func (w *ConnWriter) flush(FIN bool) error {
 	if w.closed {
 		return ErrWriterClosed
 	}
+	if w.err != nil {
+		return w.err
+	}
 
 	opcode := w.opcode
 	if w.flushCount > 0 {
@@ -143,6 +148,7 @@ func (w *ConnWriter) flush(FIN bool) error {
 
 	err := w.writeHeaders(FIN, opcode)
 	if err != nil {
+		w.err = err
 		return err
 	}
 
@@ -151,6 +157,7 @@ func (w *ConnWriter) flush(FIN bool) error {
 		if IsFatalErr(err) {
 			w.conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 		}
+		w.err = err
 		return err
 	}
 
@@ -162,11 +169,18 @@ func (w *ConnWriter) flush(FIN bool) error {
 }
 
 // Close flushes the final frame and releases the writer lock.
+// If a previous flush failed, the message is abandoned instead. If some of its frames have already been
+// sent, the client can't be told that the message ends there, so the connection is closed and the
+// returned error is fatal.
 func (w *ConnWriter) Close() error {
 	if !w.closed {
 		defer w.lock.tryUnlock()
 		defer func() { w.closed = true }()
 		err := w.flush(true)
+		if err != nil && w.flushCount > 0 && !IsFatalErr(err) {
+			w.conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
+			return fatal(err)
+		}
 		return err
 	}
 	return nil
@@ -215,11 +229,8 @@ func (conn *Conn) SendMessage(ctx context.Context, opcode uint8, b []byte) error
 		return err
 	}
 
-	_, err = w.Write(b)
-	if err != nil {
-		w.Close()
-		return err
-	}
+	// if Write fails, Close returns its error, or a fatal one if the connection had to be closed.
+	_, _ = w.Write(b)
 
 	return w.Close()
 }
-- 
2.43.0


From 8778495924e66701443747f30443a2d1c2a108e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:18 +0000
Subject: [PATCH 10/33] fix: frames were written after a write that failed
 half-way

The close frame sent after a failed write landed in the middle of the frame
that had been partially written.
---
 conn.go       | 4 +++-
 conn_write.go | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 6b530e4..0891529 100755
--- a/conn.go
+++ b/conn.go
@@ -42,7 +42,9 @@ type Conn struct {
 	writer        *ConnWriter
 	controlWriter *ControlWriter
 	writeLock     *mu
-	readBuf       *bufio.Reader
+	// set if writing to raw failed, protected by writeLock.
+	writeFailed bool
+	readBuf     *bufio.Reader
 
 	broadcastQueue chan message
 
diff --git a/conn_write.go b/conn_write.go
index 85738e7..21a855d 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -209,7 +209,13 @@ func (conn *Conn) writeFrame(ctx context.Context, buf []byte) error {
 // All non-nil errors returned are fatal.
 // The fucntion doesnt close the connection on error.
 func (conn *Conn) sendFrame(buf []byte) error {
+	// A failed write may have sent a part of its frame, so nothing can follow it.
+	if conn.writeFailed {
+		return ErrConnClosed
+	}
+
 	_, err := conn.raw.Write(buf)
+	conn.writeFailed = err != nil
 
 	return err
 }
-- 
2.43.0


From 0ad653e77a96a9fa9b42e8ac535373b13b52b447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:20 +0000
Subject: [PATCH 11/33] fix: closing did not always close the network
 connection, control frames moved others' deadlines

writeClose returned without closing the raw connection if the deadline could not
be set, and control frames changed the write deadline of a data write in progress.
---
 conn_write.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/conn_write.go b/conn_write.go
index 21a855d..b287737 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -333,11 +333,6 @@ func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
 	}
 	defer cw.lock.unLock()
 
-	// set deadline
-	if err = cw.conn.raw.SetWriteDeadline(time.Now().Add(cw.conn.upgrader.WriteWait)); err != nil {
-		return err
-	}
-
 	// write header and payload
 	cw.buf = cw.buf[:2]
 	cw.buf[0] = 0x80 + opcode
@@ -366,6 +361,11 @@ func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
 	}
 	defer cw.conn.writeLock.unLock()
 
+	// set deadline, only now because it would affect the write of whoever held the lock.
+	if err = cw.conn.raw.SetWriteDeadline(time.Now().Add(cw.conn.upgrader.WriteWait)); err != nil {
+		return err
+	}
+
 	return cw.conn.sendFrame(cw.buf)
 }
 
@@ -377,15 +377,12 @@ func (cw *ControlWriter) writeClose(closeCode uint16, reason string) {
 		closeCode = CloseGoingAway
 	}
 
+	// whatever happens, the underlying connection must be closed.
+	defer cw.conn.raw.Close()
+
 	// lock without unlocking because this is the last write.
 	cw.lock.forceLock()
 
-	// set deadline
-	err := cw.conn.raw.SetWriteDeadline(time.Now().Add(cw.conn.upgrader.WriteWait))
-	if err != nil {
-		return
-	}
-
 	cw.buf = cw.buf[:4]
 	cw.buf[0] = 0x80 + OpcodeClose
 	cw.buf[1] = 2
@@ -397,6 +394,11 @@ func (cw *ControlWriter) writeClose(closeCode uint16, reason string) {
 
 	// lock without unlocking because this is the last write.
 	cw.conn.writeLock.forceLock()
+
+	// set deadline, only now because it would affect the write of whoever held the lock.
+	err := cw.conn.raw.SetWriteDeadline(time.Now().Add(cw.conn.upgrader.WriteWait))
+	if err != nil {
+		return
+	}
 	cw.conn.sendFrame(cw.buf)
-	cw.conn.raw.Close()
 }
-- 
2.43.0


From 75cf42290690fc0419320fee6573382a5e074fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:22 +0000
Subject: [PATCH 12/33] fix: a ping that arrived slowly blocked Close and Ping,
 control writers shared one timer

writeControl read the ping's payload from the client while holding the control
lock, and callers waiting for the lock reset each other's timeout.
---
 conn.go       |  1 -
 conn_write.go | 56 ++++++++++++++++++++++++---------------------------
 2 files changed, 26 insertions(+), 31 deletions(-)

diff --git a/conn.go b/conn.go
index 0891529..80f901d 100755
--- a/conn.go
+++ b/conn.go
@@ -126,7 +126,6 @@ type ControlWriter struct {
 	maskKey [4]byte
 	err     chan error
 	lock    *mu
-	t       *time.Timer
 }
 
 func (conn *Conn) newControlWriter() *ControlWriter {
diff --git a/conn_write.go b/conn_write.go
index b287737..6ebf40b 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -294,7 +294,7 @@ func (conn *Conn) Ping() error {
 		return ErrPingAlreadySent
 	}
 
-	err := conn.controlWriter.writeControl(OpcodePing, 0, false)
+	err := conn.controlWriter.writeControl(OpcodePing, nil)
 	if err != nil {
 		return fatal(err)
 	}
@@ -309,7 +309,24 @@ func (conn *Conn) Ping() error {
 // All non-nil errors returned by the function should be considered fatal,
 // and the fucntion handles closing the connection internally.
 func (conn *Conn) pong(n int, isMasked bool) error {
-	err := conn.controlWriter.writeControl(OpcodePong, n, isMasked)
+	// reading the payload before locking, so a ping that arrives slowly can't block other control frames.
+	if isMasked {
+		b, err := conn.nRead(4)
+		if err != nil {
+			conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
+			return fatal(err)
+		}
+		copy(conn.controlWriter.maskKey[:], b)
+	}
+
+	payload, err := conn.nRead(n)
+	if err != nil {
+		conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
+		return fatal(err)
+	}
+	conn.controlWriter.mask(payload)
+
+	err = conn.controlWriter.writeControl(OpcodePong, payload)
 	if err != nil {
 		conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 	}
@@ -319,15 +336,11 @@ func (conn *Conn) pong(n int, isMasked bool) error {
 // Writes control frame.
 // All errors must be considered fatal, and the connection must be closed manually.
 // this function doesnt close the connection.
-func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
-	if cw.t == nil {
-		cw.t = time.NewTimer(cw.conn.upgrader.WriteWait)
-	} else {
-		cw.t.Reset(cw.conn.upgrader.WriteWait)
-	}
-	defer cw.t.Stop()
+func (cw *ControlWriter) writeControl(opcode byte, payload []byte) error {
+	t := time.NewTimer(cw.conn.upgrader.WriteWait)
+	defer t.Stop()
 
-	err := cw.lock.lockTimer(cw.t)
+	err := cw.lock.lockTimer(t)
 	if err != nil {
 		return err
 	}
@@ -336,27 +349,10 @@ func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
 	// write header and payload
 	cw.buf = cw.buf[:2]
 	cw.buf[0] = 0x80 + opcode
-	cw.buf[1] = 0
-
-	if isMasked {
-		b, err := cw.conn.nRead(4)
-		if err != nil {
-			return ErrInternalServer
-		}
-		copy(cw.maskKey[:], b)
-	}
-	if n > 0 && n <= MaxControlFramePayload {
-		payload, err := cw.conn.nRead(n)
-		if err != nil {
-			return ErrConnClosed
-		}
-		cw.buf[1] = byte(n)
-
-		cw.mask(payload)
-		cw.buf = append(cw.buf, payload...)
-	}
+	cw.buf[1] = byte(len(payload))
+	cw.buf = append(cw.buf, payload...)
 
-	if err := cw.conn.writeLock.lockTimer(cw.t); err != nil {
+	if err := cw.conn.writeLock.lockTimer(t); err != nil {
 		return err
 	}
 	defer cw.conn.writeLock.unLock()
-- 
2.43.0


From 582d5f5187ab10f3da5857f46b0c8a7efeb1f734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:56 +0000
Subject: [PATCH 13/33] fix: closing a connection from its own close hooks
 deadlocked

The hooks ran inside closeOnce and under onCloseMu.
---
 conn.go | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/conn.go b/conn.go
index 80f901d..efd1dd7 100755
--- a/conn.go
+++ b/conn.go
@@ -196,8 +196,11 @@ func (conn *Conn) handlePong(n int, isMasked bool) error {
 }
 
 // CloseWithCode closes the connection with the given code and reason.
+// If the connection is already closed it does nothing, so it can be called from the hooks too.
 func (conn *Conn) CloseWithCode(code uint16, reason string) {
+	first := false
 	conn.closeOnce.Do(func() {
+		first = true
 		if conn.ticker != nil {
 			conn.ticker.Stop()
 		}
@@ -213,27 +216,31 @@ func (conn *Conn) CloseWithCode(code uint16, reason string) {
 
 		// writer a close frame.
 		conn.controlWriter.writeClose(code, reason)
+	})
+	if !first {
+		return
+	}
 
-		// run hooks.
-		if conn.upgrader.OnDisconnect != nil {
-			conn.upgrader.OnDisconnect(conn)
-		}
+	// remove from rate limiter if exists
+	if conn.upgrader.Limiter != nil {
+		conn.upgrader.Limiter.removeClient(conn)
+	}
 
-		conn.onCloseMu.Lock()
-		if conn.onClose != nil {
-			conn.onClose()
-		}
-		conn.onCloseMu.Unlock()
+	if conn.upgrader.Flusher != nil {
+		conn.upgrader.Flusher.remove(conn)
+	}
 
-		// remove from rate limiter if exists
-		if conn.upgrader.Limiter != nil {
-			conn.upgrader.Limiter.removeClient(conn)
-		}
+	// run hooks.
+	if conn.upgrader.OnDisconnect != nil {
+		conn.upgrader.OnDisconnect(conn)
+	}
 
-		if conn.upgrader.Flusher != nil {
-			conn.upgrader.Flusher.remove(conn)
-		}
-	})
+	conn.onCloseMu.Lock()
+	onClose := conn.onClose
+	conn.onCloseMu.Unlock()
+	if onClose != nil {
+		onClose()
+	}
 }
 
 // This function is called upon receiving a close frame from the client.
-- 
2.43.0


From d27a18417aae3d71f9a34607d482e4515644e1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:59 +0000
Subject: [PATCH 14/33] fix: a pong answering quickly was discarded, a failed
 Ping left the connection open

pingSent was set after the ping had been written, so the pong could come first
(and be ignored), and two callers could both send a ping. A fatal error from Ping
did not close the connection.
---
 conn_write.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/conn_write.go b/conn_write.go
index 6ebf40b..dbdfa14 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -290,16 +290,20 @@ func (conn *Conn) SendJSON(ctx context.Context, v any) error {
 // return a non-nil error snapws.ErrPingAlreadySent. So, if you wish to send a ping manually,
 // you should keep trying until the error is not snapws.ErrPingAlreadySent.
 func (conn *Conn) Ping() error {
-	if conn.pingSent.Load() {
+	if err := conn.writeLock.checkClosed(); err != nil {
+		return err
+	}
+	// set before sending, because the pong may be received before writeControl returns.
+	if !conn.pingSent.CompareAndSwap(false, true) {
 		return ErrPingAlreadySent
 	}
 
 	err := conn.controlWriter.writeControl(OpcodePing, nil)
 	if err != nil {
+		conn.CloseWithCode(ClosePolicyViolation, err.Error())
 		return fatal(err)
 	}
 
-	conn.pingSent.Store(true)
 	return nil
 }
 
-- 
2.43.0


From 893fe6e7456fedc163bacd04f11da8675e8846da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:01 +0000
Subject: [PATCH 15/33] fix: the ping loop of a closed connection never ended

Stopping a ticker does not close its channel, so the goroutine stayed forever
and kept the connection reachable. The ticker was also set without synchronization.
---
 conn.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/conn.go b/conn.go
index efd1dd7..7919e5a 100755
--- a/conn.go
+++ b/conn.go
@@ -85,6 +85,7 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 		conn.batch = u.Flusher.newBatch(conn)
 	}
 
+	conn.ticker = time.NewTicker(u.PingEvery)
 	go conn.pingLoop()
 
 	return conn
@@ -143,13 +144,15 @@ func (conn *Conn) newControlWriter() *ControlWriter {
 // Ping the client every "PingEvery" provided from the manager.
 // If pinging fails the connection closes.
 func (conn *Conn) pingLoop() {
-	if conn.ticker == nil {
-		conn.ticker = time.NewTicker(conn.upgrader.PingEvery)
-	}
-	for range conn.ticker.C {
-		if err := conn.Ping(); err != nil && err != ErrPingAlreadySent {
-			conn.CloseWithCode(ClosePolicyViolation, err.Error())
+	for {
+		select {
+		case <-conn.done:
 			return
+		case <-conn.ticker.C:
+			if err := conn.Ping(); err != nil && err != ErrPingAlreadySent {
+				conn.CloseWithCode(ClosePolicyViolation, err.Error())
+				return
+			}
 		}
 	}
 }
@@ -201,9 +204,7 @@ func (conn *Conn) CloseWithCode(code uint16, reason string) {
 	first := false
 	conn.closeOnce.Do(func() {
 		first = true
-		if conn.ticker != nil {
-			conn.ticker.Stop()
-		}
+		conn.ticker.Stop()
 
 		// close the done channel inditicating that the connection is closed
 		close(conn.done)
-- 
2.43.0


From dd951e6839e6674ff8ee135356f1d689d3473bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:03 +0000
Subject: [PATCH 16/33] fix: pings could precede the handshake response, a
 failed handshake leaked the connection

The connection was created (and started pinging) before the 101 response was
written, and was neither closed nor released if writing it failed.
---
 upgrader.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/upgrader.go b/upgrader.go
index 0ce1c74..e628c1d 100755
--- a/upgrader.go
+++ b/upgrader.go
@@ -104,11 +104,10 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 		return nil, err
 	}
 
-	p := brw.Writer.AvailableBuffer()
-	conn := u.newConn(c, subProtocol, brw.Reader, p)
+	wb := brw.Writer.AvailableBuffer()
 
 	// writing response
-	p = append(p, "HTTP/1.1 101 Switching Protocols\r\n"...)
+	p := append(wb, "HTTP/1.1 101 Switching Protocols\r\n"...)
 	p = append(p, "Upgrade: websocket\r\n"...)
 	p = append(p, "Connection: Upgrade\r\n"...)
 	p = append(p, "Sec-WebSocket-Accept: "...)
@@ -123,9 +122,13 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 
 	_, err = c.Write(p)
 	if err != nil {
+		c.Close()
 		return nil, err
 	}
 
+	// only now, because the connection starts pinging.
+	conn := u.newConn(c, subProtocol, brw.Reader, wb)
+
 	if u.OnConnect != nil {
 		u.OnConnect(conn)
 	}
-- 
2.43.0


From d8700eb77b579fb49e9977c40c359f0089043ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:06 +0000
Subject: [PATCH 17/33] fix: a connection closed by OnConnect stayed in the
 rate limiter forever

It was added to the limiter after OnConnect ran (and messages read by OnConnect
were not limited).
---
 conn.go     | 4 ++++
 upgrader.go | 4 ----
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index 7919e5a..f26dc01 100755
--- a/conn.go
+++ b/conn.go
@@ -85,6 +85,10 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 		conn.batch = u.Flusher.newBatch(conn)
 	}
 
+	if u.Limiter != nil {
+		u.Limiter.addClient(conn)
+	}
+
 	conn.ticker = time.NewTicker(u.PingEvery)
 	go conn.pingLoop()
 
diff --git a/upgrader.go b/upgrader.go
index e628c1d..a56f618 100755
--- a/upgrader.go
+++ b/upgrader.go
@@ -133,10 +133,6 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 		u.OnConnect(conn)
 	}
 
-	if u.Limiter != nil {
-		u.Limiter.addClient(conn)
-	}
-
 	return conn, err
 }
 
-- 
2.43.0


From dfbd56854afdc7f36c9cb57ddd672ad116a9c80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:46 +0000
Subject: [PATCH 18/33] fix: a flush while a connection was created panicked, a
 replaced flusher kept closed connections

The flusher knew the connection before conn.batch was set, and closed connections
were removed from the upgrader's current flusher instead of their own.
---
 conn.go         | 7 +++++--
 conn_batcher.go | 1 -
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/conn.go b/conn.go
index f26dc01..610d7be 100755
--- a/conn.go
+++ b/conn.go
@@ -83,6 +83,8 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 
 	if u.Flusher != nil {
 		conn.batch = u.Flusher.newBatch(conn)
+		// only now, because the flusher uses conn.batch.
+		conn.batch.flusher.add(conn)
 	}
 
 	if u.Limiter != nil {
@@ -231,8 +233,9 @@ func (conn *Conn) CloseWithCode(code uint16, reason string) {
 		conn.upgrader.Limiter.removeClient(conn)
 	}
 
-	if conn.upgrader.Flusher != nil {
-		conn.upgrader.Flusher.remove(conn)
+	// remove from its flusher (which isn't necessarily the upgrader's current one) if exists
+	if conn.batch != nil {
+		conn.batch.flusher.remove(conn)
 	}
 
 	// run hooks.
diff --git a/conn_batcher.go b/conn_batcher.go
index b50cd50..2b9bac7 100755
--- a/conn_batcher.go
+++ b/conn_batcher.go
@@ -16,7 +16,6 @@ type messageBatch struct {
 }
 
 func (f *batchFlusher) newBatch(conn *Conn) *messageBatch {
-	f.add(conn)
 	return &messageBatch{
 		messages: make([][]byte, 0),
 		conn:     conn,
-- 
2.43.0


From bf9a03166d80bee7a6376dd902cf70da1fdf67df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:48 +0000
Subject: [PATCH 19/33] fix: batches were sent in any order, exceeded
 MaxBatchSize and could be lost on Close

Every flush sent its batch in a new goroutine, racing with the other ones; two
batchers could both append after one flush; and a message accepted while the
flusher was being closed was never flushed.
---
 conn_batcher.go | 53 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 13 deletions(-)

diff --git a/conn_batcher.go b/conn_batcher.go
index 2b9bac7..ae42a89 100755
--- a/conn_batcher.go
+++ b/conn_batcher.go
@@ -10,9 +10,12 @@ import (
 type messageBatch struct {
 	messages  [][]byte
 	totalSize int
-	mu        sync.Mutex
-	conn      *Conn
-	flusher   *batchFlusher
+	// batches waiting to be sent, in order. At most one goroutine sends them.
+	queue   [][][]byte
+	sending bool
+	mu      sync.Mutex
+	conn    *Conn
+	flusher *batchFlusher
 }
 
 func (f *batchFlusher) newBatch(conn *Conn) *messageBatch {
@@ -40,6 +43,10 @@ func (conn *Conn) Batch(data []byte) error {
 		return ErrBatchingUninitialized
 	}
 
+	// The checks are done under the lock: once the flusher is closed, it flushes what has been accepted.
+	conn.batch.mu.Lock()
+	defer conn.batch.mu.Unlock()
+
 	select {
 	case <-conn.done:
 		return ErrConnClosed
@@ -50,16 +57,12 @@ func (conn *Conn) Batch(data []byte) error {
 	default:
 	}
 
-	conn.batch.mu.Lock()
 	if conn.batch.totalSize+len(data) > conn.upgrader.MaxBatchSize {
-		conn.batch.mu.Unlock()
-		conn.batch.flush()
-		conn.batch.mu.Lock()
+		conn.batch.flushLocked()
 	}
 
 	conn.batch.messages = append(conn.batch.messages, data)
 	conn.batch.totalSize += len(data)
-	conn.batch.mu.Unlock()
 
 	return nil
 }
@@ -84,19 +87,43 @@ func (conn *Conn) BatchJSON(v interface{}) error {
 	return conn.Batch(jData)
 }
 
-// if the messages slice isn't empty, it copies it, allocates a new one, and sends it.
+// if the messages slice isn't empty, it queues it to be sent, and allocates a new one.
 func (b *messageBatch) flush() {
 	b.mu.Lock()
+	defer b.mu.Unlock()
+	b.flushLocked()
+}
+
+// the caller must hold b.mu.
+func (b *messageBatch) flushLocked() {
 	if len(b.messages) == 0 {
-		b.mu.Unlock()
 		return
 	}
-	c := b.messages
+	b.queue = append(b.queue, b.messages)
 	b.messages = make([][]byte, 0)
 	b.totalSize = 0
-	b.mu.Unlock()
 
-	go b.send(c)
+	if !b.sending {
+		b.sending = true
+		go b.sendQueue()
+	}
+}
+
+// sends the queued batches one after another, so they keep their order.
+func (b *messageBatch) sendQueue() {
+	for {
+		b.mu.Lock()
+		if len(b.queue) == 0 {
+			b.sending = false
+			b.mu.Unlock()
+			return
+		}
+		c := b.queue[0]
+		b.queue = b.queue[1:]
+		b.mu.Unlock()
+
+		b.send(c)
+	}
 }
 
 // receives the connections slice and the messages and calls the appropriate send function.
-- 
2.43.0


From 1aea0246005046f00598748546e618500f85f94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:51 +0000
Subject: [PATCH 20/33] fix: BatchBroadcast panicked with a nil context

---
 broadcast.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/broadcast.go b/broadcast.go
index 5dee35d..09d43fc 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -134,6 +134,10 @@ func (u *Upgrader) batchBroadcast(ctx context.Context, conns []*Conn, data []byt
 		return 0, ErrBatchingUninitialized
 	}
 
+	if ctx == nil {
+		ctx = context.Background()
+	}
+
 	m := &batchMessage{buf: data}
 
 	for _, conn := range conns {
-- 
2.43.0


From c4e7e9334068efe8dd8160174414919d7ff64535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:53 +0000
Subject: [PATCH 21/33] fix: BackpressureWait blocked forever on a connection
 that closed

---
 broadcast.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/broadcast.go b/broadcast.go
index 09d43fc..758b400 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -104,6 +104,7 @@ func (u *Upgrader) broadcast(ctx context.Context, conns []*Conn, opcode uint8, d
 			case BackpressureWait:
 				// inqueue again
 				select {
+				case <-conn.done:
 				case <-ctx.Done():
 					return n, ctx.Err()
 				case conn.broadcastQueue <- m:
@@ -159,6 +160,7 @@ func (u *Upgrader) batchBroadcast(ctx context.Context, conns []*Conn, data []byt
 			case BackpressureWait:
 				// wait till sent
 				select {
+				case <-conn.done:
 				case <-u.Flusher.closed:
 					return n, ErrFlusherClosed
 				case <-u.Flusher.ctx.Done():
-- 
2.43.0


From 18defcd6def4742b919b9233d9de0ef06d756f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:56 +0000
Subject: [PATCH 22/33] fix: a broadcast to a connection that was just being
 added skipped, closed or blocked on it

The connection was visible to broadcasts before its queue existed (a nil channel
looks full), and concurrent joins could create two queues.
---
 conn.go          | 11 +++++------
 manager.go       |  4 +++-
 rooms_manager.go |  4 +++-
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index 610d7be..115e3fe 100755
--- a/conn.go
+++ b/conn.go
@@ -47,6 +47,7 @@ type Conn struct {
 	readBuf     *bufio.Reader
 
 	broadcastQueue chan message
+	broadcastOnce  sync.Once
 
 	batch *messageBatch
 }
@@ -98,13 +99,11 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 }
 
 func (conn *Conn) enableBroadcasting() {
-	if conn.broadcastQueue != nil {
-		return
-	}
+	conn.broadcastOnce.Do(func() {
+		conn.broadcastQueue = make(chan message, conn.upgrader.BroadcastChannelsSize)
 
-	conn.broadcastQueue = make(chan message, conn.upgrader.BroadcastChannelsSize)
-
-	go conn.broadcastListener()
+		go conn.broadcastListener()
+	})
 }
 
 // ManagedConn is a Conn that is tracked by a Manager.
diff --git a/manager.go b/manager.go
index b0706a2..132eef9 100755
--- a/manager.go
+++ b/manager.go
@@ -70,6 +70,9 @@ func (m *Manager[KeyType]) Connect(key KeyType, w http.ResponseWriter, r *http.R
 // If the key already exists, it will close the connection associated with the key,
 // and replace it with the new connection received by the fucntion.
 func (m *Manager[KeyType]) Register(key KeyType, conn *ManagedConn[KeyType]) {
+	// before broadcasts can see the connection.
+	conn.enableBroadcasting()
+
 	m.mu.Lock()
 	if conn, ok := m.conns[key]; ok {
 		conn.raw.Close()
@@ -77,7 +80,6 @@ func (m *Manager[KeyType]) Register(key KeyType, conn *ManagedConn[KeyType]) {
 	m.conns[key] = conn
 	m.mu.Unlock()
 
-	conn.enableBroadcasting()
 	if m.OnRegister != nil {
 		m.OnRegister(conn)
 	}
diff --git a/rooms_manager.go b/rooms_manager.go
index e7e01aa..6c6d1c5 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -228,6 +228,9 @@ func (r *Room[keyType]) Close() {
 // Thread-safe: Multiple goroutines can call this concurrently.
 // If the connection is already in the room, this is a no-op.
 func (r *Room[keyType]) Add(conn *Conn, args ...any) {
+	// before broadcasts can see the connection.
+	conn.enableBroadcasting()
+
 	r.mu.Lock()
 	r.conns[conn] = true
 	r.mu.Unlock()
@@ -239,7 +242,6 @@ func (r *Room[keyType]) Add(conn *Conn, args ...any) {
 	}
 	conn.onCloseMu.Unlock()
 
-	conn.enableBroadcasting()
 	// calling onJoin hook
 	if r.OnJoin != nil {
 		r.OnJoin(r, conn, args...)
-- 
2.43.0


From 44614d28158d8eaf01b42dc660d8f693f0587a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:34 +0000
Subject: [PATCH 23/33] fix: a connection left only the last room or manager it
 was added to, replaced ones evicted their successor

- There was one onClose callback per connection: joining a second room (or a
  manager) overwrote the first one's, which kept the closed connection forever,
  and a callback of a left room still ran OnLeave.
- A connection that closed while being added stayed in the room / manager.
- unregister removed whatever connection had the key, so the end of a replaced
  connection evicted the new one. The replaced one was only closed at raw level
  and OnUnregister ran for the wrong connection.
- Adding a member ran OnJoin again, removing a non-member ran OnLeave, and
  RemoveAll panicked without OnLeave.
---
 conn.go          | 40 ++++++++++++++++++++++++++++++++--------
 manager.go       | 39 +++++++++++++++++++++++++++------------
 rooms_manager.go | 31 +++++++++++++++++++++++--------
 3 files changed, 82 insertions(+), 28 deletions(-)

diff --git a/conn.go b/conn.go
index 115e3fe..13623dd 100755
--- a/conn.go
+++ b/conn.go
@@ -27,7 +27,10 @@ type Conn struct {
 	// would receive ok=false, indicating that the channel is closed => conn is closed.
 	done      chan struct{}
 	closeOnce sync.Once
-	onClose   func()
+	// onClose holds the callbacks to run when the connection closes, keyed by who added them
+	// (a room or a manager's key), because a connection can be in a manager and in many rooms.
+	onClose    map[any]func()
+	onCloseRan bool
 	// onCloseMu protects concurrent access to onClose callbacks.
 	// This prevents race conditions when connections move between rooms
 	// and multiple goroutines try to set/call onClose simultaneously.
@@ -116,11 +119,6 @@ type ManagedConn[KeyType comparable] struct {
 }
 
 func (m *Manager[KeyType]) newManagedConn(conn *Conn, key KeyType) *ManagedConn[KeyType] {
-	conn.onCloseMu.Lock()
-	defer conn.onCloseMu.Unlock()
-	conn.onClose = func() {
-		m.unregister(key)
-	}
 	return &ManagedConn[KeyType]{Conn: conn, Key: key, Manager: m}
 }
 
@@ -244,12 +242,38 @@ func (conn *Conn) CloseWithCode(code uint16, reason string) {
 
 	conn.onCloseMu.Lock()
 	onClose := conn.onClose
+	conn.onClose = nil
+	conn.onCloseRan = true
 	conn.onCloseMu.Unlock()
-	if onClose != nil {
-		onClose()
+	for _, f := range onClose {
+		f()
 	}
 }
 
+// addOnClose sets the callback of the given owner.
+// Returns false if the connection has already run its callbacks, then f will never be called.
+func (conn *Conn) addOnClose(owner any, f func()) bool {
+	conn.onCloseMu.Lock()
+	defer conn.onCloseMu.Unlock()
+
+	if conn.onCloseRan {
+		return false
+	}
+	if conn.onClose == nil {
+		conn.onClose = make(map[any]func())
+	}
+	conn.onClose[owner] = f
+
+	return true
+}
+
+// removeOnClose removes the callback of the given owner.
+func (conn *Conn) removeOnClose(owner any) {
+	conn.onCloseMu.Lock()
+	defer conn.onCloseMu.Unlock()
+	delete(conn.onClose, owner)
+}
+
 // This function is called upon receiving a close frame from the client.
 // It receives "n" representing the payload length, and "isMasked".
 // It parses the frame and calls CloseWithCode after extracting and validating the close code and reason.
diff --git a/manager.go b/manager.go
index 132eef9..7193182 100755
--- a/manager.go
+++ b/manager.go
@@ -74,35 +74,50 @@ func (m *Manager[KeyType]) Register(key KeyType, conn *ManagedConn[KeyType]) {
 	conn.enableBroadcasting()
 
 	m.mu.Lock()
-	if conn, ok := m.conns[key]; ok {
-		conn.raw.Close()
+	old := m.conns[key]
+	if old == conn {
+		m.mu.Unlock()
+		return
 	}
 	m.conns[key] = conn
+	open := conn.addOnClose(managerKey[KeyType]{m, key}, func() { m.unregister(key, conn) })
 	m.mu.Unlock()
 
+	if old != nil {
+		// closing the raw connection first, so closing doesn't wait for a slow client.
+		old.raw.Close()
+		old.CloseWithCode(CloseGoingAway, "replaced by a new connection")
+	}
+
 	if m.OnRegister != nil {
 		m.OnRegister(conn)
 	}
+
+	// the connection was closed before it has been registered.
+	if !open {
+		m.unregister(key, conn)
+	}
+}
+
+// identifies a registration, used as the owner of the connection's onClose callback.
+type managerKey[KeyType comparable] struct {
+	m   *Manager[KeyType]
+	key KeyType
 }
 
 // only to be called bt conn.Close(), dont use it manually.
-func (m *Manager[KeyType]) unregister(id KeyType) error {
+// It's called once for every registered connection. If the connection has been replaced,
+// the key isn't its own anymore.
+func (m *Manager[KeyType]) unregister(id KeyType, conn *ManagedConn[KeyType]) {
 	m.mu.Lock()
-
-	conn, ok := m.conns[id]
-	if !ok {
-		m.mu.Unlock()
-		return ErrConnNotFound
+	if m.conns[id] == conn {
+		delete(m.conns, id)
 	}
-
-	delete(m.conns, id)
 	m.mu.Unlock()
 
 	if m.OnUnregister != nil {
 		m.OnUnregister(conn)
 	}
-
-	return nil
 }
 
 // Receives a key, returns a pointer to the connection associated with the key.
diff --git a/rooms_manager.go b/rooms_manager.go
index 6c6d1c5..8552c09 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -232,20 +232,25 @@ func (r *Room[keyType]) Add(conn *Conn, args ...any) {
 	conn.enableBroadcasting()
 
 	r.mu.Lock()
+	if r.conns[conn] {
+		r.mu.Unlock()
+		return
+	}
 	r.conns[conn] = true
-	r.mu.Unlock()
 
 	// Set up automatic cleanup when connection closes
-	conn.onCloseMu.Lock()
-	conn.onClose = func() {
-		r.Remove(conn, args...)
-	}
-	conn.onCloseMu.Unlock()
+	open := conn.addOnClose(r, func() { r.Remove(conn, args...) })
+	r.mu.Unlock()
 
 	// calling onJoin hook
 	if r.OnJoin != nil {
 		r.OnJoin(r, conn, args...)
 	}
+
+	// the connection was closed before it has been added.
+	if !open {
+		r.Remove(conn, args...)
+	}
 }
 
 // Remove removes a connection from the room.
@@ -256,7 +261,12 @@ func (r *Room[keyType]) Add(conn *Conn, args ...any) {
 // Thread-safe: Multiple goroutines can call this concurrently.
 func (r *Room[keyType]) Remove(conn *Conn, args ...any) {
 	r.mu.Lock()
+	if !r.conns[conn] {
+		r.mu.Unlock()
+		return
+	}
 	delete(r.conns, conn)
+	conn.removeOnClose(r)
 	r.mu.Unlock()
 
 	// calling onLeave hook
@@ -273,11 +283,16 @@ func (r *Room[keyType]) RemoveAll() {
 	r.mu.Lock()
 	conns := r.conns               // copy
 	r.conns = make(map[*Conn]bool) // empty
+	for c := range conns {
+		c.removeOnClose(r)
+	}
 	r.mu.Unlock()
 
 	// calling hook
-	for c := range conns {
-		r.OnLeave(r, c)
+	if r.OnLeave != nil {
+		for c := range conns {
+			r.OnLeave(r, c)
+		}
 	}
 }
 
-- 
2.43.0


From b56f2ab35adbfff3e88f1e625d728c553d778754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:15 +0000
Subject: [PATCH 24/33] fix: Manager.Shutdown always deadlocked

It took the read lock (GetAllConns) while holding the write lock, and closing
connections unregisters them, which needs the lock too.
---
 manager.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/manager.go b/manager.go
index 7193182..d3f486c 100755
--- a/manager.go
+++ b/manager.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"maps"
 	"net/http"
 	"slices"
 	"sync"
@@ -211,10 +212,12 @@ func (m *Manager[KeyType]) BroadcastJSON(ctx context.Context, v interface{}, exc
 // - Closes all connections normaly.
 // - Clears the conns map.
 func (m *Manager[KeyType]) Shutdown() {
-	m.mu.Lock()
-	defer m.mu.Unlock()
+	// The lock isn't held while closing, because closing (and the hooks) needs it.
+	m.mu.RLock()
+	conns := maps.Clone(m.conns)
+	m.mu.RUnlock()
 
-	workers := (len(m.conns) / 5) + 2
+	workers := (len(conns) / 5) + 2
 	var wg sync.WaitGroup
 	ch := make(chan *ManagedConn[KeyType], workers)
 
@@ -228,14 +231,20 @@ func (m *Manager[KeyType]) Shutdown() {
 		}()
 	}
 
-	conns := m.GetAllConns()
 	for _, conn := range conns {
 		ch <- conn
 	}
 	close(ch)
 	wg.Wait()
 
-	m.conns = make(map[KeyType]*ManagedConn[KeyType])
+	// connections that somebody else is closing may not be unregistered yet.
+	m.mu.Lock()
+	for key, conn := range conns {
+		if m.conns[key] == conn {
+			delete(m.conns, key)
+		}
+	}
+	m.mu.Unlock()
 }
 
 // BatchBroadcast loops over the manager's connections and adds the given data into their batch.
-- 
2.43.0


From 29ea1889ec43d270d3f30600d9c8d11a71f54bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:17 +0000
Subject: [PATCH 25/33] fix: RoomManager.Shutdown deadlocked if a hook used the
 manager

The manager was locked while connections were closed and their OnLeave /
OnDisconnect hooks ran. Also a room closed twice removed its successor.
---
 rooms_manager.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/rooms_manager.go b/rooms_manager.go
index 8552c09..967fe6c 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -171,14 +171,17 @@ func (rm *RoomManager[keyType]) GetRoomKeys() []keyType {
 //
 // After calling Shutdown, the RoomManager should not be used.
 func (rm *RoomManager[keyType]) Shutdown() {
+	// The locks aren't held while closing, because the hooks may need them.
 	rm.mu.Lock()
-	defer rm.mu.Unlock()
+	rooms := rm.rooms
+	rm.rooms = make(map[keyType]*Room[keyType])
+	rm.mu.Unlock()
 
-	connsCount := 0
-	for _, r := range rm.rooms {
-		r.mu.Lock()
-		connsCount += len(r.conns)
+	var conns []*Conn
+	for _, r := range rooms {
+		conns = append(conns, r.GetAllConns()...)
 	}
+	connsCount := len(conns)
 
 	var wg sync.WaitGroup
 	workers := (connsCount / 5) + 2
@@ -194,16 +197,11 @@ func (rm *RoomManager[keyType]) Shutdown() {
 		}()
 	}
 
-	for _, r := range rm.rooms {
-		for c := range r.conns {
-			ch <- c
-		}
-		r.mu.Unlock()
+	for _, c := range conns {
+		ch <- c
 	}
 
 	close(ch)
-	rm.rooms = make(map[keyType]*Room[keyType])
-
 	wg.Wait()
 }
 
@@ -217,7 +215,9 @@ func (r *Room[keyType]) Close() {
 
 	r.rm.mu.Lock()
 	defer r.rm.mu.Unlock()
-	delete(r.rm.rooms, r.Key)
+	if r.rm.rooms[r.Key] == r {
+		delete(r.rm.rooms, r.Key)
+	}
 }
 
 // Add adds a connection to the room.
-- 
2.43.0


From 2df25c7149d3f14b80a78b2dd037f7d829590c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:20 +0000
Subject: [PATCH 26/33] fix: the unread rest of a message was parsed as frames

If a message was not read till its end, NextReader read its payload as if it
were a frame header.
---
 conn.go       | 2 +-
 conn_read.go  | 5 +++++
 conn_utils.go | 2 ++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 13623dd..e7db0e2 100755
--- a/conn.go
+++ b/conn.go
@@ -81,7 +81,7 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 		}
 	}
 
-	conn.reader = ConnReader{conn: conn}
+	conn.reader = ConnReader{conn: conn, fin: true}
 	conn.writer = conn.newWriter(wb)
 	conn.controlWriter = conn.newControlWriter()
 
diff --git a/conn_read.go b/conn_read.go
index da53a27..e905e66 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -156,6 +156,11 @@ func (conn *Conn) NextReader() (io.Reader, uint8, error) {
 		return nil, nilOpcode, fatal(err)
 	}
 
+	// the previous message may have not been read till its end.
+	if err := conn.skipRestOfMessage(); err != nil {
+		return nil, nilOpcode, fatal(err)
+	}
+
 	opcode, err := conn.acceptFrame()
 	if err != nil {
 		return nil, nilOpcode, fatal(err)
diff --git a/conn_utils.go b/conn_utils.go
index 1133fd2..0dabf9e 100755
--- a/conn_utils.go
+++ b/conn_utils.go
@@ -143,6 +143,7 @@ func (conn *Conn) skipRestOfMessage() error {
 		conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 		return err
 	}
+	conn.reader.remaining = 0
 
 	for !conn.reader.fin {
 		opcode, err := conn.acceptFrame()
@@ -159,6 +160,7 @@ func (conn *Conn) skipRestOfMessage() error {
 			conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 			return err
 		}
+		conn.reader.remaining = 0
 	}
 
 	return nil
-- 
2.43.0


From 37c6077c9a0aa13854dc9f772958cd809c25951b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:22 +0000
Subject: [PATCH 27/33] fix: MaxMessageSize -1 refused every message instead of
 having no limit

---
 conn_read.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conn_read.go b/conn_read.go
index e905e66..051eff1 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -92,7 +92,7 @@ func (conn *Conn) acceptFrame() (uint8, error) {
 			n = int(lengthB)
 		}
 
-		if n > conn.upgrader.MaxMessageSize {
+		if conn.upgrader.MaxMessageSize >= 0 && n > conn.upgrader.MaxMessageSize {
 			conn.CloseWithCode(CloseMessageTooBig, ErrTooLargePayload.Error())
 			return nilOpcode, ErrTooLargePayload
 		}
@@ -216,7 +216,7 @@ func (r *ConnReader) Read(p []byte) (n int, err error) {
 			return 0, fatal(ErrExpectedContinuation)
 		}
 		r.totalSize += r.remaining
-		if r.totalSize > r.conn.upgrader.MaxMessageSize {
+		if r.conn.upgrader.MaxMessageSize >= 0 && r.totalSize > r.conn.upgrader.MaxMessageSize {
 			r.conn.CloseWithCode(CloseMessageTooBig, ErrMessageTooLarge.Error())
 			return 0, fatal(ErrMessageTooLarge)
 		}
-- 
2.43.0


From 2a179fca9d35ad843f31a396dda409b7a0ae9a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:24 +0000
Subject: [PATCH 28/33] fix: ReaderMaxFragments allowed one fragment more

---
 conn_read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn_read.go b/conn_read.go
index 051eff1..279b02f 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -171,7 +171,7 @@ func (conn *Conn) NextReader() (io.Reader, uint8, error) {
 		return nil, nilOpcode, fatal(ErrInvalidOPCODE)
 	}
 
-	conn.reader.fragments = 0
+	conn.reader.fragments = 1
 	conn.reader.totalSize = conn.reader.remaining
 
 	ok, err := conn.allow()
-- 
2.43.0


From 3d54a572cc51781f1d19fc1a2e6d9f7e6adb7e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:26 +0000
Subject: [PATCH 29/33] fix: a small ReadBufferSize closed connections that
 received control frames

Payloads of control frames are peeked and may be larger than the buffer.
---
 conn.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/conn.go b/conn.go
index e7db0e2..29f9986 100755
--- a/conn.go
+++ b/conn.go
@@ -67,13 +67,12 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 	conn.writeLock = newMu(conn)
 
 	size := u.ReadBufferSize
-	if (size == 0 && br != nil) || (br != nil && size == br.Size()) {
+	// control frames' payloads are peeked, so they have to fit in the buffer.
+	if br != nil && (size == 0 || size == br.Size()) && br.Size() >= MaxControlFramePayload {
 		conn.readBuf = br
 	} else {
-		if size < MaxHeaderSize {
-			size += MaxHeaderSize
-		}
-		if br.Buffered() > 0 && br != nil {
+		size = max(size, MaxControlFramePayload)
+		if br != nil && br.Buffered() > 0 {
 			// The client sent data before receiving the response.
 			conn.readBuf = bufio.NewReaderSize(&brNetConn{Conn: conn.raw, br: br}, size)
 		} else {
-- 
2.43.0


From 520156830c2808b038357eb99e2019926d6636c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:28 +0000
Subject: [PATCH 30/33] fix: a WriteBufferSize of 14 or less panicked or sent
 empty frames forever

---
 options.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/options.go b/options.go
index 8c3f0bc..cce4808 100755
--- a/options.go
+++ b/options.go
@@ -117,6 +117,10 @@ func (opt *Options) WithDefault() {
 	if opt.WriteBufferSize == 0 {
 		opt.WriteBufferSize = DefaultWriteBufferSize
 	}
+	// the buffer must have a space for the frame header.
+	if opt.WriteBufferSize <= MaxHeaderSize {
+		opt.WriteBufferSize += MaxHeaderSize
+	}
 	if opt.BroadcastChannelsSize == 0 {
 		opt.BroadcastChannelsSize = DefaultBroadcastChannelsSize
 	}
-- 
2.43.0


From c2bdff6dea4e0dec7ecce9be5eb38ffca13fc2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:31 +0000
Subject: [PATCH 31/33] fix: handshake headers split over several lines were
 ignored

A list header may be sent as several lines, only the first one was used.
---
 upgrader.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/upgrader.go b/upgrader.go
index a56f618..9974407 100755
--- a/upgrader.go
+++ b/upgrader.go
@@ -137,7 +137,7 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 }
 
 func validateConnectionHeader(r *http.Request) error {
-	rawHeader := r.Header.Get("Connection")
+	rawHeader := strings.Join(r.Header.Values("Connection"), ",")
 	if rawHeader == "" {
 		return ErrMissingConnectionHeader
 	}
@@ -154,7 +154,7 @@ func validateConnectionHeader(r *http.Request) error {
 }
 
 func validateUpgradeHeader(r *http.Request) error {
-	rawHeader := r.Header.Get("Upgrade")
+	rawHeader := strings.Join(r.Header.Values("Upgrade"), ",")
 	if rawHeader == "" {
 		return ErrMissingUpgradeHeader
 	}
@@ -200,7 +200,7 @@ func selectSubProtocol(r *http.Request, subProtocols []string) string {
 	if subProtocols == nil {
 		return ""
 	}
-	rawHeader := r.Header.Get("Sec-WebSocket-Protocol")
+	rawHeader := strings.Join(r.Header.Values("Sec-WebSocket-Protocol"), ",")
 	if rawHeader == "" {
 		return ""
 	}
-- 
2.43.0


From 034007af3a5cf2529c9adc7f75d71979043fb817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 32/33] fix: ReadJSON reported a syntax error as non-fatal when
 the connection had failed during the read

---
 conn_read.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/conn_read.go b/conn_read.go
index 279b02f..c828c21 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -331,5 +331,15 @@ func (conn *Conn) ReadJSON(v any) error {
 		return ErrMessageTypeMismatch
 	}
 
-	return json.NewDecoder(reader).Decode(v)
+	err = json.NewDecoder(reader).Decode(v)
+	if err != nil && !IsFatalErr(err) {
+		// the connection may have failed after the bytes that couldn't be decoded.
+		select {
+		case <-conn.done:
+			return fatal(err)
+		default:
+		}
+	}
+
+	return err
 }
-- 
2.43.0


From cb75fd95d0bfec50c63c6332d02bb779d941d576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 33/33] fix: BatchBroadcast sometimes accepted messages after
 the flusher was closed

---
 broadcast.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/broadcast.go b/broadcast.go
index 758b400..02e5928 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -139,6 +139,15 @@ func (u *Upgrader) batchBroadcast(ctx context.Context, conns []*Conn, data []byt
 		ctx = context.Background()
 	}
 
+	// checked first, because the selects below choose any case that is ready.
+	select {
+	case <-u.Flusher.closed:
+		return 0, ErrFlusherClosed
+	case <-u.Flusher.ctx.Done():
+		return 0, u.Flusher.ctx.Err()
+	default:
+	}
+
 	m := &batchMessage{buf: data}
 
 	for _, conn := range conns {
-- 
2.43.0


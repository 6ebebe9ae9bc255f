From 5e6978ac68b1a83d895610ee8d296ed2e3f41c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 01/18] fix: protobuf: deliver a frame with empty type and
 empty payload

---
 plugins/protobuf/protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/protobuf/protocol.go b/plugins/protobuf/protocol.go
index 83961c6..45d3f6c 100644
--- a/plugins/protobuf/protocol.go
+++ b/plugins/protobuf/protocol.go
@@ -25,7 +25,7 @@ func New() *Protocol {
 
 // UnPacket ...
 func (p *Protocol) UnPacket(c *gev.Connection, buffer *ringbuffer.RingBuffer) (ctx interface{}, out []byte) {
-	if buffer.Length() > 6 {
+	if buffer.Length() >= 6 {
 		length := int(buffer.PeekUint32())
 		if buffer.Length() >= length+4 {
 			buffer.Retrieve(4)
-- 
2.43.0


From b1017ff568465d46cf77253d42fb216c96bd11c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 02/18] fix: protobuf: discard frames whose length does not
 cover their type instead of panicking

---
 plugins/protobuf/protocol.go | 40 +++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/plugins/protobuf/protocol.go b/plugins/protobuf/protocol.go
index 45d3f6c..aee110e 100644
--- a/plugins/protobuf/protocol.go
+++ b/plugins/protobuf/protocol.go
@@ -2,6 +2,7 @@ package protobuf
 
 import (
 	"github.com/Allenxuxu/gev"
+	"github.com/Allenxuxu/gev/log"
 	"github.com/Allenxuxu/ringbuffer"
 	"github.com/gobwas/pool/pbytes"
 )
@@ -25,25 +26,36 @@ func New() *Protocol {
 
 // UnPacket ...
 func (p *Protocol) UnPacket(c *gev.Connection, buffer *ringbuffer.RingBuffer) (ctx interface{}, out []byte) {
-	if buffer.Length() >= 6 {
+	for buffer.Length() >= 6 {
 		length := int(buffer.PeekUint32())
-		if buffer.Length() >= length+4 {
-			buffer.Retrieve(4)
+		if buffer.Length() < length+4 {
+			return
+		}
+		buffer.Retrieve(4)
 
-			typeLen := int(buffer.PeekUint16())
-			buffer.Retrieve(2)
+		typeLen := 0
+		if length >= 2 {
+			typeLen = int(buffer.PeekUint16())
+		}
+		dataLen := length - 2 - typeLen
+		if dataLen < 0 {
+			// malformed frame: the declared length does not even cover the type
+			log.Error("[protobuf] malformed frame discarded")
+			buffer.Retrieve(length)
+			continue
+		}
+		buffer.Retrieve(2)
 
-			typeByte := pbytes.GetLen(typeLen)
-			_, _ = buffer.Read(typeByte)
+		typeByte := pbytes.GetLen(typeLen)
+		_, _ = buffer.Read(typeByte)
 
-			dataLen := length - 2 - typeLen
-			data := make([]byte, dataLen)
-			_, _ = buffer.Read(data)
+		data := make([]byte, dataLen)
+		_, _ = buffer.Read(data)
 
-			out = data
-			ctx = string(typeByte)
-			pbytes.Put(typeByte)
-		}
+		out = data
+		ctx = string(typeByte)
+		pbytes.Put(typeByte)
+		return
 	}
 
 	return
-- 
2.43.0


From 7385cf004447f3c7daf9c850be98c0b6e4383f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 03/18] fix: do not spin on unread input while output is
 pending

With output pending the connection handles only writability, but it stayed
registered for readability too, so one unread byte made epoll_wait return at
once for ever. Wait for writability only until the backlog is flushed. The
kqueue poller now remembers a changed registration when the change succeeded,
not when it failed, which switching between the two sets relies on.
---
 connection.go          |  3 ++-
 eventloop/eventloop.go |  5 +++++
 poller/kqueue.go       | 20 ++++++++++++++++++--
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/connection.go b/connection.go
index e986a62..7454c33 100644
--- a/connection.go
+++ b/connection.go
@@ -320,7 +320,8 @@ func (c *Connection) sendInLoop(data []byte) (closed bool) {
 		}
 
 		if !c.outBuffer.IsEmpty() {
-			_ = c.loop.EnableReadWrite(c.fd)
+			// input is not read while output is pending, so wait for writability only
+			_ = c.loop.EnableWrite(c.fd)
 		}
 	}
 
diff --git a/eventloop/eventloop.go b/eventloop/eventloop.go
index e5d7ee6..6d433c2 100644
--- a/eventloop/eventloop.go
+++ b/eventloop/eventloop.go
@@ -102,6 +102,11 @@ func (l *EventLoop) EnableReadWrite(fd int) error {
 	return l.poll.EnableReadWrite(fd)
 }
 
+// EnableWrite 只注册可写事件
+func (l *EventLoop) EnableWrite(fd int) error {
+	return l.poll.EnableWrite(fd)
+}
+
 // EnableRead 只注册可读事件
 func (l *EventLoop) EnableRead(fd int) error {
 	return l.poll.EnableRead(fd)
diff --git a/poller/kqueue.go b/poller/kqueue.go
index 1a47e4c..86e715d 100644
--- a/poller/kqueue.go
+++ b/poller/kqueue.go
@@ -101,7 +101,23 @@ func (p *Poller) EnableReadWrite(fd int) error {
 	newEvents := EventWrite | EventRead
 	kEvents := p.kEvents(oldEvents.(Event), newEvents, fd)
 	_, err := unix.Kevent(p.fd, kEvents, nil, nil)
-	if err != nil {
+	if err == nil {
+		p.sockets.Store(fd, newEvents)
+	}
+	return err
+}
+
+// EnableWrite 修改fd注册事件为可写事件
+func (p *Poller) EnableWrite(fd int) error {
+	oldEvents, ok := p.sockets.Load(fd)
+	if !ok {
+		return errors.New("sync map load error")
+	}
+
+	newEvents := EventWrite
+	kEvents := p.kEvents(oldEvents.(Event), newEvents, fd)
+	_, err := unix.Kevent(p.fd, kEvents, nil, nil)
+	if err == nil {
 		p.sockets.Store(fd, newEvents)
 	}
 	return err
@@ -117,7 +133,7 @@ func (p *Poller) EnableRead(fd int) error {
 	newEvents := EventRead
 	kEvents := p.kEvents(oldEvents.(Event), newEvents, fd)
 	_, err := unix.Kevent(p.fd, kEvents, nil, nil)
-	if err != nil {
+	if err == nil {
 		p.sockets.Store(fd, newEvents)
 	}
 	return err
-- 
2.43.0


From d827dcee14cc0cdac2dcbb6107efecd7c3ad01b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:20 +0000
Subject: [PATCH 04/18] fix: ShutdownWrite goes through the loop, after pending
 output, and not on a closed connection

It used the descriptor directly: after the connection was closed the number may
belong to another one, and output still pending (or the reply of the message
being handled) was cut off.
---
 connection.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/connection.go b/connection.go
index 7454c33..e9b411e 100644
--- a/connection.go
+++ b/connection.go
@@ -31,6 +31,7 @@ type Connection struct {
 	activeTime   atomic.Int64
 	fd           int
 	connected    atomic.Bool
+	shutdown     bool // ShutdownWrite was called; used in the loop only
 	buffer       *ringbuffer.RingBuffer
 	outBuffer    *ringbuffer.RingBuffer // write buffer
 	inBuffer     *ringbuffer.RingBuffer // read buffer
@@ -154,8 +155,27 @@ func (c *Connection) Close() error {
 }
 
 // ShutdownWrite 关闭可写端，等待读取完接收缓冲区所有数据
+// 已提交的数据发送完后才会关闭
 func (c *Connection) ShutdownWrite() error {
-	return unix.Shutdown(c.fd, unix.SHUT_WR)
+	if !c.connected.Get() {
+		return ErrConnectionClosed
+	}
+
+	c.loop.QueueInLoop(func() {
+		if c.connected.Get() {
+			c.shutdown = true
+			if c.outBuffer.IsEmpty() {
+				c.shutdownInLoop()
+			}
+		}
+	})
+	return nil
+}
+
+func (c *Connection) shutdownInLoop() {
+	if err := unix.Shutdown(c.fd, unix.SHUT_WR); err != nil {
+		log.Error("[shutdown]", err)
+	}
 }
 
 // ReadBufferLength read buffer 当前积压的数据长度
@@ -280,6 +300,9 @@ func (c *Connection) handleWrite(fd int) (closed bool) {
 		if err := c.loop.EnableRead(fd); err != nil {
 			log.Error("[enableRead]", err)
 		}
+		if c.shutdown {
+			c.shutdownInLoop()
+		}
 	}
 
 	return
-- 
2.43.0


From 39def50ef3cd5946c1f70fc93b81f79dd2949e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:08 +0000
Subject: [PATCH 05/18] fix: Stop closes every connection and the listening
 descriptors, and ends every loop

- the loop could see the poller stopped before it ran the task that closes the
  sockets, and never ran the closes that task queues: OnClose was not called and
  the descriptors leaked
- Stop right after Start met loops that were not running yet and were then never
  stopped
- the duplicate of the listening descriptor was never closed
- a connection accepted during Stop was added to a nil map
- the connection count was set to 0 first and then decremented below 0
---
 eventloop/eventloop.go |  8 ++++----
 listener.go            |  2 ++
 poller/epoll.go        |  3 +++
 poller/kqueue.go       |  3 +++
 server.go              | 14 +++++++++++---
 5 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/eventloop/eventloop.go b/eventloop/eventloop.go
index 6d433c2..ac47281 100644
--- a/eventloop/eventloop.go
+++ b/eventloop/eventloop.go
@@ -81,8 +81,10 @@ func (l *EventLoop) DeleteFdInLoop(fd int) {
 	if err := l.poll.Del(fd); err != nil {
 		log.Error("[DeleteFdInLoop]", err)
 	}
-	delete(l.sockets, fd)
-	l.ConnCunt.Add(-1)
+	if _, ok := l.sockets[fd]; ok {
+		delete(l.sockets, fd)
+		l.ConnCunt.Add(-1)
+	}
 }
 
 // AddSocketAndEnableRead 增加 Socket 到事件循环中，并注册可读事件
@@ -125,10 +127,8 @@ func (l *EventLoop) Stop() error {
 				log.Error(err)
 			}
 		}
-		l.sockets = nil
 	})
 
-	_ = l.ConnCunt.Swap(0)
 	return l.poll.Close()
 }
 
diff --git a/listener.go b/listener.go
index 20d78a4..89b4b60 100644
--- a/listener.go
+++ b/listener.go
@@ -97,6 +97,8 @@ func (l *listener) HandleEvent(fd int, events poller.Event) {
 }
 
 func (l *listener) Close() error {
+	l.loop.DeleteFdInLoop(l.fd)
+	_ = l.file.Close()
 	return l.listener.Close()
 }
 
diff --git a/poller/epoll.go b/poller/epoll.go
index d233bd8..7354e92 100644
--- a/poller/epoll.go
+++ b/poller/epoll.go
@@ -180,6 +180,9 @@ func (ep *Poller) Poll(handler func(fd int, event Event)) {
 			handler(-1, 0)
 			wake = false
 			if !ep.running.Get() {
+				// tasks queued before Close, then the tasks queued by those
+				handler(-1, 0)
+				handler(-1, 0)
 				return
 			}
 		}
diff --git a/poller/kqueue.go b/poller/kqueue.go
index 86e715d..dafdc2a 100644
--- a/poller/kqueue.go
+++ b/poller/kqueue.go
@@ -212,6 +212,9 @@ func (p *Poller) Poll(handler func(fd int, event Event)) {
 			handler(-1, 0)
 			wake = false
 			if !p.running.Get() {
+				// tasks queued before Close, then the tasks queued by those
+				handler(-1, 0)
+				handler(-1, 0)
 				return
 			}
 		}
diff --git a/server.go b/server.go
index ce117d2..59979cd 100644
--- a/server.go
+++ b/server.go
@@ -5,6 +5,7 @@ package gev
 import (
 	"errors"
 	"runtime"
+	stdsync "sync"
 	"time"
 
 	"github.com/Allenxuxu/gev/eventloop"
@@ -101,15 +102,22 @@ func (s *Server) Start() {
 	}
 
 	sw.AddAndRun(s.listener.Run)
+
+	// running only once every loop is: a loop that is not running yet can not be stopped
+	var started stdsync.WaitGroup
+	started.Add(length + 1)
+	for i := 0; i < length; i++ {
+		s.workLoops[i].QueueInLoop(started.Done)
+	}
+	s.listener.loop.QueueInLoop(started.Done)
+	started.Wait()
 	s.running.Set(true)
 	sw.Wait()
 }
 
 // Stop 关闭 Server
 func (s *Server) Stop() {
-	if s.running.Get() {
-		s.running.Set(false)
-
+	if s.running.CompareAndSwap(true, false) {
 		s.timingWheel.Stop()
 		if err := s.listener.Stop(); err != nil {
 			log.Error(err)
-- 
2.43.0


From 7cd0e0d9bcc8c191f76fb25a4af8ec658e4e63fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:00 +0000
Subject: [PATCH 06/18] fix: measure idle time in nanoseconds

The last activity was kept in whole seconds, so a connection could be closed up
to a second before it had been idle for the configured time.
---
 connection.go | 9 +++++----
 server_std.go | 8 ++++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/connection.go b/connection.go
index e9b411e..e468b9f 100644
--- a/connection.go
+++ b/connection.go
@@ -72,7 +72,7 @@ func NewConnection(fd int,
 	conn.connected.Set(true)
 
 	if conn.idleTime > 0 {
-		_ = conn.activeTime.Swap(time.Now().Unix())
+		_ = conn.activeTime.Swap(time.Now().UnixNano())
 		timer := conn.timingWheel.AfterFunc(conn.idleTime, conn.closeTimeoutConn())
 		conn.timer.Store(timer)
 	}
@@ -87,12 +87,13 @@ func (c *Connection) UserBuffer() *[]byte {
 func (c *Connection) closeTimeoutConn() func() {
 	return func() {
 		now := time.Now()
-		intervals := now.Sub(time.Unix(c.activeTime.Get(), 0))
+		intervals := now.Sub(time.Unix(0, c.activeTime.Get()))
 		if intervals >= c.idleTime {
 			_ = c.Close()
 		} else {
 			if c.connected.Get() {
-				timer := c.timingWheel.AfterFunc(c.idleTime-intervals, c.closeTimeoutConn())
+				// the wheel works in whole milliseconds and may be early by one
+				timer := c.timingWheel.AfterFunc(c.idleTime-intervals+time.Millisecond, c.closeTimeoutConn())
 				c.timer.Store(timer)
 			}
 		}
@@ -191,7 +192,7 @@ func (c *Connection) WriteBufferLength() int64 {
 // HandleEvent 内部使用，event loop 回调
 func (c *Connection) HandleEvent(fd int, events poller.Event) {
 	if c.idleTime > 0 {
-		_ = c.activeTime.Swap(time.Now().Unix())
+		_ = c.activeTime.Swap(time.Now().UnixNano())
 	}
 
 	if events&poller.EventErr != 0 {
diff --git a/server_std.go b/server_std.go
index 19679be..b4167dc 100644
--- a/server_std.go
+++ b/server_std.go
@@ -201,7 +201,7 @@ func NewConnection(
 	connection.connected.Set(true)
 
 	if connection.idleTime > 0 {
-		_ = connection.activeTime.Swap(time.Now().Unix())
+		_ = connection.activeTime.Swap(time.Now().UnixNano())
 		timer := connection.timingWheel.AfterFunc(connection.idleTime, connection.closeTimeoutConn())
 		connection.timer.Store(timer)
 	}
@@ -330,7 +330,7 @@ func (c *Connection) readLoop() {
 			buf = buf[:cap(buf)]
 
 			if c.idleTime > 0 {
-				_ = c.activeTime.Swap(time.Now().Unix())
+				_ = c.activeTime.Swap(time.Now().UnixNano())
 			}
 			c.inBufferLen.Swap(int64(c.inBuffer.Length()))
 		}
@@ -372,7 +372,7 @@ func (c *Connection) writeLoop() {
 			}
 
 			if c.idleTime > 0 {
-				_ = c.activeTime.Swap(time.Now().Unix())
+				_ = c.activeTime.Swap(time.Now().UnixNano())
 			}
 
 			c.outBufferLen.Swap(int64(c.outBuffer.Length()))
@@ -431,7 +431,7 @@ func (c *Connection) handlerProtocol(tmpBuffer *[]byte, buffer *ringbuffer.RingB
 func (c *Connection) closeTimeoutConn() func() {
 	return func() {
 		now := time.Now()
-		intervals := now.Sub(time.Unix(c.activeTime.Get(), 0))
+		intervals := now.Sub(time.Unix(0, c.activeTime.Get()))
 
 		if intervals >= c.idleTime {
 			_ = c.Close()
-- 
2.43.0


From 2449364e6394416c5abef764117fe8c5af0af29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:07 +0000
Subject: [PATCH 07/18] fix: a connection that cannot be registered is closed

It was left connected without a registration: OnClose was never called and its
descriptor leaked. The idle timer also no longer closes a connection that was not
handed to its loop yet.
---
 connection.go | 18 ++++++++++++------
 server.go     |  2 ++
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/connection.go b/connection.go
index e468b9f..7127184 100644
--- a/connection.go
+++ b/connection.go
@@ -72,7 +72,6 @@ func NewConnection(fd int,
 	conn.connected.Set(true)
 
 	if conn.idleTime > 0 {
-		_ = conn.activeTime.Swap(time.Now().UnixNano())
 		timer := conn.timingWheel.AfterFunc(conn.idleTime, conn.closeTimeoutConn())
 		conn.timer.Store(timer)
 	}
@@ -80,14 +79,23 @@ func NewConnection(fd int,
 	return conn
 }
 
+// active notes that something happened on the connection
+func (c *Connection) active() {
+	if c.idleTime > 0 {
+		_ = c.activeTime.Swap(time.Now().UnixNano())
+	}
+}
+
 func (c *Connection) UserBuffer() *[]byte {
 	return c.loop.UserBuffer
 }
 
 func (c *Connection) closeTimeoutConn() func() {
 	return func() {
-		now := time.Now()
-		intervals := now.Sub(time.Unix(0, c.activeTime.Get()))
+		var intervals time.Duration // stays 0 until the connection is handed to its loop
+		if last := c.activeTime.Get(); last > 0 {
+			intervals = time.Since(time.Unix(0, last))
+		}
 		if intervals >= c.idleTime {
 			_ = c.Close()
 		} else {
@@ -191,9 +199,7 @@ func (c *Connection) WriteBufferLength() int64 {
 
 // HandleEvent 内部使用，event loop 回调
 func (c *Connection) HandleEvent(fd int, events poller.Event) {
-	if c.idleTime > 0 {
-		_ = c.activeTime.Swap(time.Now().UnixNano())
-	}
+	c.active()
 
 	if events&poller.EventErr != 0 {
 		c.handleClose(fd)
diff --git a/server.go b/server.go
index 59979cd..5fc63cf 100644
--- a/server.go
+++ b/server.go
@@ -84,9 +84,11 @@ func (s *Server) handleNewConnection(fd int, sa unix.Sockaddr) {
 	c := NewConnection(fd, loop, sa, s.opts.Protocol, s.timingWheel, s.opts.IdleTime, s.callback)
 
 	loop.QueueInLoop(func() {
+		c.active()
 		s.callback.OnConnect(c)
 		if err := loop.AddSocketAndEnableRead(fd, c); err != nil {
 			log.Error("[AddSocketAndEnableRead]", err)
+			c.handleClose(fd)
 		}
 	})
 }
-- 
2.43.0


From 160c28355a7a3fad3dc521b59206a6ba3cf46a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 08/18] fix: a server that fails to start leaves no descriptor
 open

---
 eventloop/eventloop.go |  5 +++++
 listener.go            | 14 ++++++++++++++
 poller/epoll.go        |  6 ++++++
 poller/kqueue.go       |  5 +++++
 server.go              |  3 ++-
 5 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/eventloop/eventloop.go b/eventloop/eventloop.go
index ac47281..5f268d3 100644
--- a/eventloop/eventloop.go
+++ b/eventloop/eventloop.go
@@ -132,6 +132,11 @@ func (l *EventLoop) Stop() error {
 	return l.poll.Close()
 }
 
+// Release 释放没有运行过的 EventLoop
+func (l *EventLoop) Release() {
+	l.poll.Release()
+}
+
 // QueueInLoop 添加 func 到事件循环中执行
 func (l *EventLoop) QueueInLoop(f func()) {
 	l.mu.Lock()
diff --git a/listener.go b/listener.go
index 89b4b60..aeb97dc 100644
--- a/listener.go
+++ b/listener.go
@@ -41,20 +41,26 @@ func newListener(network, addr string, reusePort bool, handlerConn handleConnFun
 
 	l, ok := ls.(*net.TCPListener)
 	if !ok {
+		_ = ls.Close()
 		return nil, errors.New("could not get file descriptor")
 	}
 
 	file, err := l.File()
 	if err != nil {
+		_ = ls.Close()
 		return nil, err
 	}
 	fd := int(file.Fd())
 	if err = unix.SetNonblock(fd, true); err != nil {
+		_ = file.Close()
+		_ = ls.Close()
 		return nil, err
 	}
 
 	loop, err := eventloop.New()
 	if err != nil {
+		_ = file.Close()
+		_ = ls.Close()
 		return nil, err
 	}
 
@@ -66,12 +72,20 @@ func newListener(network, addr string, reusePort bool, handlerConn handleConnFun
 		loop:     loop,
 	}
 	if err = loop.AddSocketAndEnableRead(fd, listener); err != nil {
+		listener.release()
 		return nil, err
 	}
 
 	return listener, nil
 }
 
+// release frees a listener that never ran
+func (l *listener) release() {
+	l.loop.Release()
+	_ = l.file.Close()
+	_ = l.listener.Close()
+}
+
 func (l *listener) Run() {
 	l.loop.Run()
 }
diff --git a/poller/epoll.go b/poller/epoll.go
index 7354e92..5bdbe70 100644
--- a/poller/epoll.go
+++ b/poller/epoll.go
@@ -86,6 +86,12 @@ func (ep *Poller) Close() (err error) {
 	return
 }
 
+// Release 释放没有运行过的 Poller
+func (ep *Poller) Release() {
+	_ = unix.Close(ep.fd)
+	_ = unix.Close(ep.eventFd)
+}
+
 func (ep *Poller) add(fd int, events uint32) error {
 	return unix.EpollCtl(ep.fd, unix.EPOLL_CTL_ADD, fd, &unix.EpollEvent{
 		Events: events,
diff --git a/poller/kqueue.go b/poller/kqueue.go
index dafdc2a..9e8977e 100644
--- a/poller/kqueue.go
+++ b/poller/kqueue.go
@@ -67,6 +67,11 @@ func (p *Poller) Close() (err error) {
 	return
 }
 
+// Release 释放没有运行过的 Poller
+func (p *Poller) Release() {
+	_ = unix.Close(p.fd)
+}
+
 // AddRead 注册fd到kqueue并注册可读事件
 func (p *Poller) AddRead(fd int) error {
 	p.sockets.Store(fd, EventRead)
diff --git a/server.go b/server.go
index 5fc63cf..90b6d9a 100644
--- a/server.go
+++ b/server.go
@@ -57,8 +57,9 @@ func NewServer(handler Handler, opts ...Option) (server *Server, err error) {
 		l, err := eventloop.New()
 		if err != nil {
 			for j := 0; j < i; j++ {
-				_ = wloops[j].Stop()
+				wloops[j].Release()
 			}
+			server.listener.release()
 			return nil, err
 		}
 		wloops[i] = l
-- 
2.43.0


From 33b9c2d44ac1ef30ef6b666ea3dbd210fc0a6afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:32 +0000
Subject: [PATCH 09/18] fix: websocket: wait for the whole frame header before
 reading it

---
 plugins/websocket/ws/read.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/plugins/websocket/ws/read.go b/plugins/websocket/ws/read.go
index 1556026..cfaca59 100644
--- a/plugins/websocket/ws/read.go
+++ b/plugins/websocket/ws/read.go
@@ -15,9 +15,42 @@ var (
 	ErrHeaderNotReady         = fmt.Errorf("header error: not enough")
 )
 
+// headerReady reports whether in holds a whole frame header.
+//
+// A header that announces a payload of which nothing has arrived yet is not
+// ready either: a virtual read of everything in the buffer can not be reverted.
+func headerReady(in *ringbuffer.RingBuffer) bool {
+	var bts [MaxHeaderSize]byte
+	first, end := in.Peek(MaxHeaderSize)
+	n := copy(bts[:], first)
+	n += copy(bts[n:], end)
+	if n < 2 {
+		return false
+	}
+
+	size, payload := 2, bts[1]&0x7f != 0
+	switch bts[1] & 0x7f {
+	case 126:
+		size = 4
+	case 127:
+		size = 10
+	}
+	if size > 2 {
+		payload = false
+		for _, b := range bts[2:size] {
+			payload = payload || b != 0
+		}
+	}
+	if bts[1]&bit0 != 0 {
+		size += 4
+	}
+
+	return n >= size && (in.Length() > size || !payload)
+}
+
 // VirtualReadHeader reads a frame header from r.
 func VirtualReadHeader(bts []byte, in *ringbuffer.RingBuffer) (h Header, err error) {
-	if in.Length() < 6 {
+	if !headerReady(in) {
 		err = ErrHeaderNotReady
 		return
 	}
-- 
2.43.0


From ff6c7450e2939a334000238c20c66d1e0105fd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 10/18] fix: websocket: close the connection when a frame
 header is malformed

---
 plugins/websocket/protocol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugins/websocket/protocol.go b/plugins/websocket/protocol.go
index 97eecb8..8b57972 100644
--- a/plugins/websocket/protocol.go
+++ b/plugins/websocket/protocol.go
@@ -40,7 +40,10 @@ func (p *Protocol) UnPacket(c *gev.Connection, buffer *ringbuffer.RingBuffer) (c
 		header, err := ws.VirtualReadHeader(bts.([]byte), buffer)
 		if err != nil {
 			if err != ws.ErrHeaderNotReady {
+				// nothing that follows a malformed header can be understood
 				log.Error(err)
+				buffer.RetrieveAll()
+				_ = c.Close()
 			}
 			return
 		}
-- 
2.43.0


From e1d5a539d810a5f0d52b43620e39a0ba91e3d680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 11/18] fix: websocket: answer an upgrade request once it is
 complete

---
 plugins/websocket/protocol.go  |  4 +++-
 plugins/websocket/ws/errors.go |  4 ++++
 plugins/websocket/ws/ws.go     | 21 +++++++--------------
 3 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/plugins/websocket/protocol.go b/plugins/websocket/protocol.go
index 8b57972..affd9c7 100644
--- a/plugins/websocket/protocol.go
+++ b/plugins/websocket/protocol.go
@@ -30,7 +30,9 @@ func (p *Protocol) UnPacket(c *gev.Connection, buffer *ringbuffer.RingBuffer) (c
 		var err error
 		out, _, err = p.upgrade.Upgrade(c, buffer)
 		if err != nil {
-			log.Error("Websocket Upgrade :", err)
+			if err != ws.ErrHandshakeNotReady {
+				log.Error("Websocket Upgrade :", err)
+			}
 			return
 		}
 		c.Set(upgradedKey, true)
diff --git a/plugins/websocket/ws/errors.go b/plugins/websocket/ws/errors.go
index 59d34b1..0b13085 100644
--- a/plugins/websocket/ws/errors.go
+++ b/plugins/websocket/ws/errors.go
@@ -57,6 +57,10 @@ var (
 	)
 )
 
+// ErrHandshakeNotReady is returned by Upgrader when the request has not arrived
+// completely yet. Nothing has been read then.
+var ErrHandshakeNotReady = fmt.Errorf("handshake error: request is not complete")
+
 // ErrMalformedRequest is returned when HTTP request can not be parsed.
 var ErrMalformedRequest = RejectConnectionError(
 	RejectionStatus(http.StatusBadRequest),
diff --git a/plugins/websocket/ws/ws.go b/plugins/websocket/ws/ws.go
index 4f5f23b..8cbe0b6 100644
--- a/plugins/websocket/ws/ws.go
+++ b/plugins/websocket/ws/ws.go
@@ -175,21 +175,14 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 			headerSeenSecKey
 	)
 
-	first, end := in.PeekAll()
-	var data []byte
-	if index := bytes.Index(first, []byte("\r\n\r\n")); index != -1 {
-		data = make([]byte, index+4)
-		if _, err = in.Read(data); err != nil {
-			return
-		}
-	} else if len(end) > 0 {
-		if index := bytes.Index(end, []byte("\r\n\r\n")); index != -1 {
-			data = make([]byte, index+4)
-			if _, err = in.Read(data); err != nil {
-				return
-			}
-		}
+	data := in.Bytes()
+	index := bytes.Index(data, []byte("\r\n\r\n"))
+	if index == -1 {
+		err = ErrHandshakeNotReady
+		return
 	}
+	data = data[:index+4]
+	in.Retrieve(len(data))
 
 	lines := bytes.Split(data, []byte("\r\n"))
 	if len(lines) == 0 {
-- 
2.43.0


From 6e47d8e09990ab223268d13a4216b0535279b7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 12/18] fix: websocket: answer every refused upgrade request
 with an error

---
 plugins/websocket/ws/ws.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/plugins/websocket/ws/ws.go b/plugins/websocket/ws/ws.go
index 8cbe0b6..7cd8a56 100644
--- a/plugins/websocket/ws/ws.go
+++ b/plugins/websocket/ws/ws.go
@@ -192,9 +192,6 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 
 	// Parse request line data like HTTP version, uri and method.
 	req, err := httpParseRequestLine(lines[0])
-	if err != nil {
-		return
-	}
 
 	// Prepare stack-based handshake header list.
 	header := handshakeHeader{
@@ -206,6 +203,8 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 	// Even if RFC says "1.1 or higher" without mentioning the part of the
 	// version, we apply it only to minor part.
 	switch {
+	case err != nil:
+		// Malformed request line, refused below.
 	case req.major != 1 || req.minor < 1:
 		// Abort processing the whole request because we do not even know how
 		// to actually parse it.
@@ -217,9 +216,6 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 			err = onRequest(c, req.uri)
 		}
 	}
-	if err != nil {
-		return
-	}
 
 	// Start headers read/parse loop.
 	var (
-- 
2.43.0


From 8702463d852577ff4736e301ead87f45880b2626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 13/18] fix: websocket: compare Upgrade and Connection values
 as RFC 6455 says

---
 plugins/websocket/ws/http.go | 17 +++++++++++++----
 plugins/websocket/ws/ws.go   |  4 ++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/plugins/websocket/ws/http.go b/plugins/websocket/ws/http.go
index 91d3a1e..a5aad87 100644
--- a/plugins/websocket/ws/http.go
+++ b/plugins/websocket/ws/http.go
@@ -56,10 +56,9 @@ var (
 )
 
 var (
-	specHeaderValueUpgrade         = []byte("websocket")
-	specHeaderValueConnection      = []byte("Upgrade")
-	specHeaderValueConnectionLower = []byte("upgrade")
-	specHeaderValueSecVersion      = []byte("13")
+	specHeaderValueUpgrade    = []byte("websocket")
+	specHeaderValueConnection = []byte("Upgrade")
+	specHeaderValueSecVersion = []byte("13")
 )
 
 var (
@@ -137,6 +136,16 @@ func httpParseHeaderLine(line []byte) (k, v []byte, ok bool) {
 	return k, v, true
 }
 
+// btsHasToken reports whether the comma-separated list h holds token in any
+// letter case.
+func btsHasToken(h, token []byte) (has bool) {
+	httphead.ScanTokens(h, func(v []byte) bool {
+		has = bytes.EqualFold(v, token)
+		return !has
+	})
+	return has
+}
+
 func btsSelectProtocol(h []byte, check func([]byte) bool) (ret string, ok bool) {
 	var selected []byte
 	ok = httphead.ScanTokens(h, func(v []byte) bool {
diff --git a/plugins/websocket/ws/ws.go b/plugins/websocket/ws/ws.go
index 7cd8a56..b0813d2 100644
--- a/plugins/websocket/ws/ws.go
+++ b/plugins/websocket/ws/ws.go
@@ -244,12 +244,12 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 			}
 		case headerUpgradeCanonical:
 			headerSeen |= headerSeenUpgrade
-			if !bytes.Equal(v, specHeaderValueUpgrade) {
+			if !bytes.EqualFold(v, specHeaderValueUpgrade) {
 				err = ErrHandshakeBadUpgrade
 			}
 		case headerConnectionCanonical:
 			headerSeen |= headerSeenConnection
-			if !bytes.Equal(v, specHeaderValueConnection) && !bytes.Equal(v, specHeaderValueConnectionLower) {
+			if !btsHasToken(v, specHeaderValueConnection) {
 				err = ErrHandshakeBadConnection
 			}
 		case headerSecVersionCanonical:
-- 
2.43.0


From 5c8767e78a5821de198402b3947b3dc5e5410363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 14/18] fix: websocket: take only digits as an HTTP version

---
 plugins/websocket/ws/util.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/plugins/websocket/ws/util.go b/plugins/websocket/ws/util.go
index 5892314..fda1ecd 100644
--- a/plugins/websocket/ws/util.go
+++ b/plugins/websocket/ws/util.go
@@ -5,6 +5,9 @@ import (
 	"fmt"
 )
 
+// maxDigits is the length of the longest number that asciiToInt converts.
+const maxDigits = 9
+
 // asciiToInt converts bytes to int.
 func asciiToInt(bts []byte) (ret int, err error) {
 	// ASCII numbers all start with the high-order bits 0011.
@@ -14,8 +17,11 @@ func asciiToInt(bts []byte) (ret int, err error) {
 	if n = len(bts); n < 1 {
 		return 0, fmt.Errorf("converting empty bytes to int")
 	}
+	if n > maxDigits {
+		return 0, fmt.Errorf("number of more than %d digits", maxDigits)
+	}
 	for i := 0; i < n; i++ {
-		if bts[i]&0xf0 != 0x30 {
+		if bts[i] < '0' || bts[i] > '9' {
 			return 0, fmt.Errorf("%s is not a numeric character", string(bts[i]))
 		}
 		ret += int(bts[i]&0xf) * pow(10, n-i-1)
-- 
2.43.0


From c3424698c1ba32e42038cbda6fb8f2a9b1c00d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:28 +0000
Subject: [PATCH 15/18] fix: websocket: allow tabs between the items of a
 Connection list

---
 plugins/websocket/ws/http.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/plugins/websocket/ws/http.go b/plugins/websocket/ws/http.go
index a5aad87..ded49f5 100644
--- a/plugins/websocket/ws/http.go
+++ b/plugins/websocket/ws/http.go
@@ -138,12 +138,13 @@ func httpParseHeaderLine(line []byte) (k, v []byte, ok bool) {
 
 // btsHasToken reports whether the comma-separated list h holds token in any
 // letter case.
-func btsHasToken(h, token []byte) (has bool) {
-	httphead.ScanTokens(h, func(v []byte) bool {
-		has = bytes.EqualFold(v, token)
-		return !has
-	})
-	return has
+func btsHasToken(h, token []byte) bool {
+	for _, v := range bytes.Split(h, []byte{','}) {
+		if bytes.EqualFold(btrim(v), token) {
+			return true
+		}
+	}
+	return false
 }
 
 func btsSelectProtocol(h []byte, check func([]byte) bool) (ret string, ok bool) {
-- 
2.43.0


From 4ba2bed961b2bbdd206e1909a38d7f61aef32201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:33 +0000
Subject: [PATCH 16/18] fix: log: a prefix is text, not part of the format

---
 log/log.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/log/log.go b/log/log.go
index 8f22508..ad218cf 100644
--- a/log/log.go
+++ b/log/log.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	stdlog "log"
 	"os"
+	"strings"
 )
 
 // Logger is a generic logging interface
@@ -73,7 +74,7 @@ func Log(v ...interface{}) {
 // Logf makes use of Logger
 func Logf(format string, v ...interface{}) {
 	if len(prefix) > 0 {
-		format = prefix + " " + format
+		format = strings.ReplaceAll(prefix, "%", "%%") + " " + format
 	}
 	logger.Logf(format, v...)
 }
-- 
2.43.0


From 204196451ca79766d6f308f42a8fd3f7833391ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:12 +0000
Subject: [PATCH 17/18] fix: websocket: keep the extensions offered behind a
 repeated one

---
 plugins/websocket/ws/http.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/plugins/websocket/ws/http.go b/plugins/websocket/ws/http.go
index ded49f5..5eb6e98 100644
--- a/plugins/websocket/ws/http.go
+++ b/plugins/websocket/ws/http.go
@@ -163,9 +163,25 @@ func btsSelectProtocol(h []byte, check func([]byte) bool) (ret string, ok bool)
 }
 
 func btsSelectExtensions(h []byte, selected []httphead.Option, check func(httphead.Option) bool) ([]httphead.Option, bool) {
+	// httphead.SelectUnique loses track of what follows a name it has seen before.
+	var names [][]byte
+	for i := range selected {
+		names = append(names, selected[i].Name)
+	}
 	s := httphead.OptionSelector{
-		Flags: httphead.SelectUnique | httphead.SelectCopy,
-		Check: check,
+		Flags: httphead.SelectCopy,
+		Check: func(opt httphead.Option) bool {
+			for _, name := range names {
+				if bytes.Equal(name, opt.Name) {
+					return false
+				}
+			}
+			if !check(opt) {
+				return false
+			}
+			names = append(names, opt.Name)
+			return true
+		},
 	}
 	return s.Select(h, selected)
 }
-- 
2.43.0


From ff51ea1b9f24863185587563dd6fbac0ace93870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:58 +0000
Subject: [PATCH 18/18] fix: websocket: allow tabs between the items of
 protocol and extension lists

---
 plugins/websocket/ws/http.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/plugins/websocket/ws/http.go b/plugins/websocket/ws/http.go
index 5eb6e98..d1e12f1 100644
--- a/plugins/websocket/ws/http.go
+++ b/plugins/websocket/ws/http.go
@@ -147,9 +147,30 @@ func btsHasToken(h, token []byte) bool {
 	return false
 }
 
+// btsSpaces returns h with spaces in place of the tabs outside quoted strings,
+// which httphead does not take as white space.
+func btsSpaces(h []byte) []byte {
+	if bytes.IndexByte(h, '\t') == -1 {
+		return h
+	}
+	h = append([]byte(nil), h...)
+	quoted := false
+	for i := 0; i < len(h); i++ {
+		switch {
+		case h[i] == '"':
+			quoted = !quoted
+		case h[i] == '\\' && quoted:
+			i++
+		case h[i] == '\t' && !quoted:
+			h[i] = ' '
+		}
+	}
+	return h
+}
+
 func btsSelectProtocol(h []byte, check func([]byte) bool) (ret string, ok bool) {
 	var selected []byte
-	ok = httphead.ScanTokens(h, func(v []byte) bool {
+	ok = httphead.ScanTokens(btsSpaces(h), func(v []byte) bool {
 		if check(v) {
 			selected = v
 			return false
@@ -183,7 +204,7 @@ func btsSelectExtensions(h []byte, selected []httphead.Option, check func(httphe
 			return true
 		},
 	}
-	return s.Select(h, selected)
+	return s.Select(btsSpaces(h), selected)
 }
 
 func httpWriteHeader(bw *bufio.Writer, key, value string) {
-- 
2.43.0


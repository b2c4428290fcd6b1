From 158f4a1d679263aebba1e1dd4fe77e18e2898cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:41 +0000
Subject: [PATCH 01/48] fix: Float64sl writes every element at its own eight
 bytes

---
 marshal/writer_any.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/writer_any.go b/marshal/writer_any.go
index 775f75f..26a7a8c 100644
--- a/marshal/writer_any.go
+++ b/marshal/writer_any.go
@@ -113,7 +113,7 @@ func (w *Writer) Float32sl(i []float32) {
 func (w *Writer) Float64sl(i []float64) {
 	l := w.ensure(len(i) * 8)
 	for j := 0; j < len(i); j++ {
-		le.PutUint64(w.buf[l+j*4:], math.Float64bits(i[j]))
+		le.PutUint64(w.buf[l+j*8:], math.Float64bits(i[j]))
 	}
 	return
 }
-- 
2.43.0


From 1616d5388652c9d6222a1d8e9f1d591d07ef9621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:42 +0000
Subject: [PATCH 02/48] fix: varint sizes of exact powers of 128 and of
 negative ints

---
 marshal/marshal.go | 5 +----
 marshal/writer.go  | 2 +-
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/marshal/marshal.go b/marshal/marshal.go
index 355dac9..6422277 100644
--- a/marshal/marshal.go
+++ b/marshal/marshal.go
@@ -153,8 +153,5 @@ var tfloat64 = reflect.TypeOf(float64(0))
 const gg = 2*1024*1024*1024 - 1
 
 func Varsize(i int) (j int) {
-	for j = 0; i > 1<<7; j++ {
-		i >>= 7
-	}
-	return j + 1
+	return varu64size(uint64(i))
 }
diff --git a/marshal/writer.go b/marshal/writer.go
index 2b2d4d6..ee58d4f 100644
--- a/marshal/writer.go
+++ b/marshal/writer.go
@@ -79,7 +79,7 @@ func (w *Writer) Int8(i int8) {
 }
 
 func varu64size(i uint64) (j int) {
-	for j = 0; i > 1<<7; j++ {
+	for j = 0; i >= 1<<7; j++ {
 		i >>= 7
 	}
 	return j + 1
-- 
2.43.0


From acdfad4698cc0cbb8191f8e19f71e7f309708dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:43 +0000
Subject: [PATCH 03/48] fix: IntUint64 writes all eight bytes

---
 marshal/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/writer.go b/marshal/writer.go
index ee58d4f..4cf490c 100644
--- a/marshal/writer.go
+++ b/marshal/writer.go
@@ -133,7 +133,7 @@ func (w *Writer) Intvar(i int) {
 }
 
 func (w *Writer) IntUint64(i int) {
-	w.Uint32(uint32(i))
+	w.Uint64(uint64(i))
 }
 
 func (w *Writer) IntUint32(i int) {
-- 
2.43.0


From c89fe6cd8d31e42242e3995651f2d2015d3073c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:44 +0000
Subject: [PATCH 04/48] fix: negative sizes in Reader.Slice and Reader.String
 are errors, not panics

---
 marshal/reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marshal/reader.go b/marshal/reader.go
index b76a066..dbb5d89 100644
--- a/marshal/reader.go
+++ b/marshal/reader.go
@@ -133,7 +133,7 @@ func (r *Reader) Slice(sz int) (res []byte) {
 	if r.Err != nil {
 		return
 	}
-	if len(r.Body) < sz {
+	if sz < 0 || len(r.Body) < sz {
 		r.Err = fmt.Errorf("iproto.Reader: not enough data for Slice(%d)", sz)
 		return
 	}
@@ -146,7 +146,7 @@ func (r *Reader) String(sz int) (res string) {
 	if r.Err != nil {
 		return
 	}
-	if len(r.Body) < sz {
+	if sz < 0 || len(r.Body) < sz {
 		r.Err = fmt.Errorf("iproto.Reader: not enough data for Slice(%d)", sz)
 		return
 	}
-- 
2.43.0


From 13fa9741c28ee2c8fb57129d2bf67d1223072c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:44 +0000
Subject: [PATCH 05/48] fix: BufWriter.WriteByte adds one byte, not four

---
 net/buf_writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/buf_writer.go b/net/buf_writer.go
index 0da728b..3f49824 100644
--- a/net/buf_writer.go
+++ b/net/buf_writer.go
@@ -58,14 +58,14 @@ func (w *BufWriter) Write3Uint32(i, j, k uint32) (err error) {
 }
 
 func (w *BufWriter) WriteByte(i byte) (err error) {
-	if w.wr+4 > len(w.buf) {
+	if w.wr+1 > len(w.buf) {
 		if err = w.Flush(); err != nil {
 			return
 		}
 	}
 
 	w.buf[w.wr] = i
-	w.wr += 4
+	w.wr += 1
 	return
 }
 
-- 
2.43.0


From 094ac7b84a9727b65511218b3bc2404bf393c33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:45 +0000
Subject: [PATCH 06/48] fix: ping responses carry no return code

---
 net/header.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/net/header.go b/net/header.go
index ca974bf..582892c 100644
--- a/net/header.go
+++ b/net/header.go
@@ -165,13 +165,13 @@ func (h *HeaderWriter) WriteResponse(res Response) (err error) {
 		return
 	}
 
-	switch h.rc {
-	case RC0byte:
-	case RC1byte:
+	switch {
+	case retCodeLen == 0:
+	case h.rc == RC1byte:
 		if err = h.w.WriteByte(byte(res.Code)); err != nil {
 			return
 		}
-	case RC4byte:
+	case h.rc == RC4byte:
 		if err = h.w.WriteUint32(uint32(res.Code)); err != nil {
 			return
 		}
-- 
2.43.0


From 07cd4e636c7f109b12b36fe174c5a92588b632bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:45 +0000
Subject: [PATCH 07/48] fix: SliceReader.ReadByte really reads from the
 connection when its buffer is empty

---
 net/slice_reader.go | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/net/slice_reader.go b/net/slice_reader.go
index c833dff..37f0a4b 100644
--- a/net/slice_reader.go
+++ b/net/slice_reader.go
@@ -50,21 +50,9 @@ func (sl *SliceReader) Read(n int) (res []byte, err error) {
 }
 
 func (sl *SliceReader) ReadByte() (res byte, err error) {
-	if len(sl.buf) > 0 {
-		res = sl.buf[0]
-		sl.buf = sl.buf[1:]
-		return
-	}
-	var buf []byte
-	var n int
-	if cap(buf) == 0 {
-		buf = make([]byte, len(sl.buf), sl.size)
-	}
-	n, err = sl.read(buf)
-	if n >= 1 {
-		res = buf[0]
-		sl.buf = buf[1:n]
-		err = nil
+	var b []byte
+	if b, err = sl.Read(1); err == nil {
+		res = b[0]
 	}
 	return
 }
-- 
2.43.0


From 1bf9e032f3357eb612b60ab182ce601daf800e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:42 +0000
Subject: [PATCH 08/48] fix: SliceReader reports a frame cut short instead of
 panicking

---
 net/slice_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/slice_reader.go b/net/slice_reader.go
index 37f0a4b..59d1607 100644
--- a/net/slice_reader.go
+++ b/net/slice_reader.go
@@ -43,7 +43,7 @@ func (sl *SliceReader) Read(n int) (res []byte, err error) {
 		err = nil
 	} else if l > 0 && err == io.EOF {
 		res = buf[:l]
-		sl.buf = buf[l:]
+		sl.buf = buf[l:l]
 		err = io.ErrUnexpectedEOF
 	}
 	return
-- 
2.43.0


From 3b44d9e280608274a6c009094fde180c8f945fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:57 +0000
Subject: [PATCH 09/48] fix: Context.Child reports a live child, so that Go and
 GoInt run their work

---
 context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 80a085e..b4fdb29 100644
--- a/context.go
+++ b/context.go
@@ -213,7 +213,7 @@ func (c *Context) Timeout() bool {
 func (c *Context) Child() (child *Context, ok bool) {
 	child = &Context{parent: c}
 	rc := CxState(atomic.LoadUint32((*uint32)(&c.State)))
-	if rc == 0 {
+	if ok = rc == 0; ok {
 		c.AddCanceler(child)
 	} else {
 		child.Cancel()
-- 
2.43.0


From 4b41b86615cc1b70b7649e1b9aba14c55edcf92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:57 +0000
Subject: [PATCH 10/48] fix: cancelling a context looks for registered
 cancelers under its lock

---
 context.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index b4fdb29..33583a9 100644
--- a/context.go
+++ b/context.go
@@ -105,8 +105,12 @@ func (c *Context) AddCanceler(cn Canceler) {
 }
 
 func (c *Context) cancelAll() {
-	for len(c.cancelsm) > 0 || c.cancelsn > 0 {
+	for {
 		c.m.Lock()
+		if len(c.cancelsm) == 0 && c.cancelsn == 0 {
+			c.m.Unlock()
+			break
+		}
 		cancels := make([]Canceler, 0, len(c.cancels)+c.cancelsn)
 		for i := 0; i < len(c.cancels); i++ {
 			if c.cancels[i] != nil {
-- 
2.43.0


From f18fa1806a100e0bf8214e76b45687b3b13bbabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:58 +0000
Subject: [PATCH 11/48] fix: MultiRequest.Each publishes its channel only when
 it is filled

---
 wait_group.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wait_group.go b/wait_group.go
index 1a4d011..6352695 100644
--- a/wait_group.go
+++ b/wait_group.go
@@ -126,18 +126,22 @@ func (w *MultiRequest) Each() <-chan *Response {
 		w.gen.Release()
 	}
 	w.setKind(mrChan)
-	w.ch = make(chan *Response, w.r)
+	ch := make(chan *Response, w.r)
 
 	for _, resp := range w.responses {
 		w.requests[resp.Id] = nil
-		w.ch <- resp
+		ch <- resp
 	}
 	w.responses = nil
 	if w.c == w.r {
-		close(w.ch)
+		close(ch)
+		if w.cx != nil {
+			w.cx.RemoveCanceler(w)
+		}
 	}
+	w.ch = ch
 	w.m.Unlock()
-	return w.ch
+	return ch
 }
 
 func (w *MultiRequest) Results() MultiResponse {
-- 
2.43.0


From 29f8b5e68e0575b944bf85bf365b916dc08d30a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:59 +0000
Subject: [PATCH 12/48] fix: a server response does not block under the
 connection lock

---
 net/server/connection.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/net/server/connection.go b/net/server/connection.go
index 7e99713..e8d4958 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -92,6 +92,7 @@ CodeEnd:
 			case conn.out <- nt.Response(*r):
 				conn.Unlock()
 				return
+			default:
 			}
 		}
 		conn.buf = append(conn.buf, nt.Response(*r))
-- 
2.43.0


From 7a1d44b122925dbb09d4d0f383173e9d39966f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:59 +0000
Subject: [PATCH 13/48] fix: server connection does not close its output
 channel twice

---
 net/server/connection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index e8d4958..1fecfd6 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -144,7 +144,7 @@ func (conn *Connection) controlLoop() {
 				conn.conn.CloseRead()
 			}
 		case inFlyEmpty:
-			close(conn.out)
+			/* writeLoop has already left, nobody waits on conn.out */
 		}
 
 		if conn.state&CsClosed == CsClosed {
-- 
2.43.0


From 0006ffa359264b0799032cf8f04d66ccdc28d6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:00 +0000
Subject: [PATCH 14/48] fix: server connection reports its end once

---
 net/server/connection.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index 1fecfd6..24752d6 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -114,7 +114,6 @@ func (conn *Connection) cancelInFly() {
 	for _, req := range reqs {
 		req.Cancel()
 	}
-	conn.Server.connClosed <- conn.Id
 }
 
 func (conn *Connection) closed() {
-- 
2.43.0


From ee829e8e2e88ace32691e3d9209f21d180faedce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:01 +0000
Subject: [PATCH 15/48] fix: timer heap does not miss the wakeup of its
 earliest deadline

---
 custom_timer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/custom_timer.go b/custom_timer.go
index 4f60ff7..43cb986 100644
--- a/custom_timer.go
+++ b/custom_timer.go
@@ -104,7 +104,11 @@ func newHeap(i uint32) *tHeap {
 }
 
 func (h *tHeap) loop() {
-	t := time.AfterFunc(time.Hour, h.c.Signal)
+	t := time.AfterFunc(time.Hour, func() {
+		h.m.Lock()
+		h.c.Signal()
+		h.m.Unlock()
+	})
 	h.m.Lock()
 Loop:
 	for {
-- 
2.43.0


From d86c41377f741f3b3739b82fc3438a19591f92a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:59 +0000
Subject: [PATCH 16/48] fix: a request can not be taken twice by SetInFly with
 and without a bookmark

---
 request.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/request.go b/request.go
index c4da8a6..c467944 100644
--- a/request.go
+++ b/request.go
@@ -87,10 +87,8 @@ func (r *Request) SetInFly(mid RequestBookmark) (set bool) {
 		return r.cas(RsPending, RsInFly)
 	} else {
 		r.Lock()
-		if r.state == RsPending {
-			r.state = RsInFly
+		if set = r.cas(RsPending, RsInFly); set {
 			mid.setReq(r, mid)
-			set = true
 		}
 		r.Unlock()
 	}
-- 
2.43.0


From 4bbd3ce52ee5b6e230135012ec79461d6a9e5863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:00 +0000
Subject: [PATCH 17/48] fix: a stopped parallel service answers the requests it
 drains

---
 parallel_service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_service.go b/parallel_service.go
index 6267c6a..fa8768d 100644
--- a/parallel_service.go
+++ b/parallel_service.go
@@ -97,7 +97,7 @@ Loop:
 		if req, ok = <-serv.ReceiveChan(); !ok {
 			break
 		}
-		req.Respond(RcShutdown, nil)
+		req.ShutDown()
 	}
 }
 
-- 
2.43.0


From 3b04bd7a4259bc3f88d86b8497932b8e580be88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:00 +0000
Subject: [PATCH 18/48] fix: a response with an unknown id is ignored by the
 client connection

---
 net/client/connection/request_holder.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/net/client/connection/request_holder.go b/net/client/connection/request_holder.go
index d569d42..4db0760 100644
--- a/net/client/connection/request_holder.go
+++ b/net/client/connection/request_holder.go
@@ -69,19 +69,23 @@ func (h *RequestHolder) getNext(conn *Connection) (req *Request) {
 }
 
 func (h *RequestHolder) remove(fakeId uint32) (ireq *iproto.Request) {
-	var ok bool
 	big := fakeId >> rowLogN
 	if h.lastBig != big {
 		h.Lock()
-		if h.last, ok = h.reqs[big]; !ok {
-			h.Unlock()
-			log.Panicf("Map has no RequestRow for %d", fakeId)
-		}
-		h.lastBig = big
+		row, ok := h.reqs[big]
 		h.Unlock()
+		if !ok {
+			log.Printf("Map has no RequestRow for %d", fakeId)
+			return nil
+		}
+		h.last, h.lastBig = row, big
 	}
 
 	reqs := h.last
+	req := &reqs.reqs[fakeId&rowMask]
+	if fakeId == 0 || req.fakeId != fakeId {
+		return nil
+	}
 	reqs.freed++
 	border := big == 0 || big == uint32(iproto.PingRequestId>>8)
 	if reqs.freed == rowN || (reqs.freed == rowN1 && border) {
@@ -90,7 +94,6 @@ func (h *RequestHolder) remove(fakeId uint32) (ireq *iproto.Request) {
 		h.Unlock()
 	}
 
-	req := &reqs.reqs[fakeId&rowMask]
 	req.fakeId = 0
 	ireq = req.Request
 	h.put++
-- 
2.43.0


From 2627699a63f60ac9b3f44e997ea7f9d64a9e2b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:01 +0000
Subject: [PATCH 19/48] fix: request ids do not forget unanswered requests when
 they wrap around

---
 net/client/connection/request_holder.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/net/client/connection/request_holder.go b/net/client/connection/request_holder.go
index 4db0760..fbf7ace 100644
--- a/net/client/connection/request_holder.go
+++ b/net/client/connection/request_holder.go
@@ -50,9 +50,15 @@ func (h *RequestHolder) getNext(conn *Connection) (req *Request) {
 		id := atomic.AddUint32(&h.curId, 1)
 		big := id >> rowLogN
 		if h.big != big {
+			h.Lock()
+			if _, busy := h.reqs[big]; busy {
+				/* the counter has wrapped around, and this row still has unanswered requests */
+				h.Unlock()
+				atomic.StoreUint32(&h.curId, id|rowMask)
+				continue
+			}
 			h.big = big
 			h.cur = &RequestRow{}
-			h.Lock()
 			h.reqs[big] = h.cur
 			h.Unlock()
 		}
-- 
2.43.0


From 2619ef8625042170ea94a9c30cedc61ee5568f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:15 +0000
Subject: [PATCH 20/48] fix: a client connection ends, and fails its requests,
 as soon as its peer is gone

---
 net/client/connection/connection.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index e69ce0c..cab8cd2 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -89,6 +89,7 @@ func NewConnection(conf *CConf, id uint64) (conn *Connection) {
 		CConf: conf,
 		Id:    id,
 
+		closeWrite: make(chan bool),
 		loopNotify: make(chan notifyAction, 2),
 		State:      CsNew,
 	}
@@ -164,6 +165,7 @@ func (conn *Connection) controlLoop() {
 		case readClosed:
 			conn.State &= CsClosed
 			conn.State |= CsReadClosed
+			close(conn.closeWrite)
 			if conn.State&CsWriteClosed == 0 {
 				conn.conn.CloseWrite()
 			}
@@ -277,6 +279,10 @@ Loop:
 			case <-conn.ExitChan():
 				conn.shutdown = true
 				break Loop
+			case <-conn.closeWrite:
+				/* nobody will answer to us, do not wait for a next request */
+				err = conn.readErr
+				break Loop
 			}
 		}
 
-- 
2.43.0


From 7147089699fcaf7759e6b9e73cad8b026e73d733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:21 +0000
Subject: [PATCH 21/48] fix: a received body has no spare capacity inside the
 reader's window

Appending to the body of a request overwrote the frames that were already
read from the connection but not yet delivered.
---
 net/slice_reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/slice_reader.go b/net/slice_reader.go
index 59d1607..4cf1de5 100644
--- a/net/slice_reader.go
+++ b/net/slice_reader.go
@@ -16,7 +16,7 @@ type SliceReader struct {
 
 func (sl *SliceReader) Read(n int) (res []byte, err error) {
 	if len(sl.buf) > n {
-		res = sl.buf[:n]
+		res = sl.buf[:n:n]
 		sl.buf = sl.buf[n:]
 		return
 	}
@@ -38,7 +38,7 @@ func (sl *SliceReader) Read(n int) (res []byte, err error) {
 		l += nn
 	}
 	if l >= n {
-		res = buf[:n]
+		res = buf[:n:n]
 		sl.buf = buf[n:l]
 		err = nil
 	} else if l > 0 && err == io.EOF {
-- 
2.43.0


From 8b4d5a1d4d5dd6abd6df42f561b0bc26f4d8df0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:22 +0000
Subject: [PATCH 22/48] fix: drop the state of a closed server connection under
 its lock

A handler that answers late runs Respond, which reads inFly and buf.
---
 net/server/connection.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/net/server/connection.go b/net/server/connection.go
index 24752d6..4b22db2 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -117,8 +117,10 @@ func (conn *Connection) cancelInFly() {
 }
 
 func (conn *Connection) closed() {
+	conn.Lock()
 	conn.buf = nil
 	conn.inFly = nil
+	conn.Unlock()
 	conn.Server.connClosed <- conn.Id
 }
 
-- 
2.43.0


From 72fd6e4d63b4b8253e8aced899a578a6da1a7bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:58 +0000
Subject: [PATCH 23/48] fix: mark a slot of a client connection only when its
 request is in it

---
 net/client/connection/connection.go     | 6 ++++--
 net/client/connection/request_holder.go | 7 ++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index cab8cd2..eb32a2e 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -254,6 +254,7 @@ func (conn *Connection) writeLoop() {
 	}()
 
 	var req *Request
+	var id uint32
 
 Loop:
 	for {
@@ -290,14 +291,15 @@ Loop:
 			err = w.Ping()
 		} else {
 			if req == nil {
-				req = conn.inFly.getNext(conn)
+				req, id = conn.inFly.getNext(conn)
 			}
 			if !request.SetInFly(req) {
 				continue
 			}
+			req.fakeId = id
 			requestHeader = nt.Request{
 				Msg:  request.Msg,
-				Id:   req.fakeId,
+				Id:   id,
 				Body: request.Body,
 			}
 			req = nil
diff --git a/net/client/connection/request_holder.go b/net/client/connection/request_holder.go
index fbf7ace..f5d3338 100644
--- a/net/client/connection/request_holder.go
+++ b/net/client/connection/request_holder.go
@@ -44,10 +44,12 @@ func (h *RequestHolder) init() {
 	h.reqs[0] = h.cur
 }
 
-func (h *RequestHolder) getNext(conn *Connection) (req *Request) {
+/* getNext returns a slot with its id: the slot should be marked with the id when there is a request
+ * in it, so that no answer could free it before */
+func (h *RequestHolder) getNext(conn *Connection) (req *Request, id uint32) {
 	h.got++
 	for {
-		id := atomic.AddUint32(&h.curId, 1)
+		id = atomic.AddUint32(&h.curId, 1)
 		big := id >> rowLogN
 		if h.big != big {
 			h.Lock()
@@ -68,7 +70,6 @@ func (h *RequestHolder) getNext(conn *Connection) (req *Request) {
 			if req.fakeId != 0 {
 				continue
 			}
-			req.fakeId = uint32(id)
 			return
 		}
 	}
-- 
2.43.0


From ad65d1ab8ac3ab27c2f47b0705b8b3c44d413933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:41 +0000
Subject: [PATCH 24/48] fix: MultiRequest fails a copy of its list of requests

Answers clear entries of the list under the lock while performFailAll read
them twice without it: an entry cleared between the check and the use was a
nil request to cancel.
---
 wait_group.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wait_group.go b/wait_group.go
index 6352695..3c2715c 100644
--- a/wait_group.go
+++ b/wait_group.go
@@ -215,12 +215,12 @@ func (w *MultiRequest) Expire() {
 func (w *MultiRequest) performFailAll() {
 	w.m.Lock()
 	r := int(atomic.LoadUint32(&w.r))
-	allReqs := w.requests
+	allReqs := append([]*Request(nil), w.requests[:r]...)
 	w.m.Unlock()
 
-	for i := 0; i < r; i++ {
-		if allReqs[i] != nil {
-			w.performFail(allReqs[i])
+	for _, req := range allReqs {
+		if req != nil {
+			w.performFail(req)
 		}
 	}
 }
-- 
2.43.0


From 772bb3c05082d75667abaa8b725b2a8f804afd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:57 +0000
Subject: [PATCH 25/48] fix: a list of keys of any types has as many keys as
 elements

---
 sbox/select.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/sbox/select.go b/sbox/select.go
index 279280d..94050c6 100644
--- a/sbox/select.go
+++ b/sbox/select.go
@@ -66,11 +66,7 @@ func CountKeys(keys interface{}) int {
 	case [][][]byte:
 		return len(k)
 	case []interface{}:
-		sum := 0
-		for _, v := range k {
-			sum += CountKeys(v)
-		}
-		return sum
+		return len(k)
 	default:
 		v := reflect.ValueOf(k)
 		if v.Kind() == reflect.Ptr {
-- 
2.43.0


From 38474e0e13ceb5df03bfe6a2dbc2926b2a993c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:57 +0000
Subject: [PATCH 26/48] fix: select keys in lists of other types are counted
 and written by their element type

---
 sbox/select.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sbox/select.go b/sbox/select.go
index 94050c6..ec3c9d3 100644
--- a/sbox/select.go
+++ b/sbox/select.go
@@ -84,7 +84,7 @@ func CountKeysValues(v reflect.Value) int {
 		reflect.Struct, reflect.String:
 		return 1
 	case reflect.Array, reflect.Slice:
-		if v.Kind() == reflect.Uint8 {
+		if v.Type().Elem().Kind() == reflect.Uint8 {
 			return 1
 		}
 		return v.Len()
@@ -157,14 +157,14 @@ func WriteKeysValues(w *marshal.Writer, v reflect.Value) {
 		wr.Write(w, v)
 	case reflect.Array, reflect.Slice:
 		l := v.Len()
-		switch v.Kind() {
+		switch v.Type().Elem().Kind() {
 		case reflect.Uint8:
 			wr := writer(v.Type())
 			wr.Write(w, v)
 		case reflect.Struct, reflect.Array, reflect.Slice,
 			reflect.Uint16, reflect.Uint32, reflect.Uint64,
 			reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
-			reflect.Float32, reflect.Float64, reflect.Ptr:
+			reflect.Float32, reflect.Float64, reflect.String, reflect.Ptr:
 			wr := writer(v.Type().Elem())
 			for i := 0; i < l; i++ {
 				wr.Write(w, v.Index(i))
@@ -175,6 +175,8 @@ func WriteKeysValues(w *marshal.Writer, v reflect.Value) {
 				wr := writer(val.Type())
 				wr.Write(w, val)
 			}
+		default:
+			log.Panicf("Don't know how to use value %+v as select keys", v)
 		}
 	}
 }
-- 
2.43.0


From f5ed179b1806e2e0c55137f94975d2aaeeaeabe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:58 +0000
Subject: [PATCH 27/48] fix: an update operation without a value has an empty
 one

---
 sbox/modify.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sbox/modify.go b/sbox/modify.go
index 7227f9f..e8b8bfc 100644
--- a/sbox/modify.go
+++ b/sbox/modify.go
@@ -138,6 +138,8 @@ func (o Op) IWrite(w *marshal.Writer) {
 	case string:
 		w.Intvar(len(v))
 		w.String(v)
+	case nil:
+		w.Intvar(0)
 	default:
 		val := reflect.ValueOf(v)
 		wr := marshal.WriterFor(val.Type())
-- 
2.43.0


From e171703c375be7e6d4180339fcfac56633ad6323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:59 +0000
Subject: [PATCH 28/48] fix: a nil value written with its size has the size 0

---
 marshal/writer_reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 9b6cad5..6e73d02 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -170,7 +170,7 @@ func (w *Writer) WriteTail(i interface{}) {
 func (w *Writer) WriteWithSize(i interface{}, ws func(*Writer, int)) {
 	switch o := i.(type) {
 	case nil:
-		return
+		ws(w, 0)
 	case uint8:
 		ws(w, 1)
 		w.Uint8(o)
-- 
2.43.0


From 94db71759ca13bdb04e585e0bfad07c6b14ff615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:59 +0000
Subject: [PATCH 29/48] fix: the tail of a tuple is written element by element

---
 sbox/writer.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sbox/writer.go b/sbox/writer.go
index 54a7b48..3385208 100644
--- a/sbox/writer.go
+++ b/sbox/writer.go
@@ -175,7 +175,7 @@ func (sw *TWriter) structCnt(v reflect.Value) int {
 		return len(flds) - 1 + v.Field(flds[len(flds)-1].I).Len()
 	case TailSplit:
 		last := flds[len(flds)-1]
-		return len(flds) - 1 + v.Field(last.I).Len()*len(last.TWriter.Flds)
+		return len(flds) - 1 + v.Field(last.I).Len()*len(last.TWriter.Elem.Flds)
 	}
 	return 0
 }
@@ -195,22 +195,22 @@ func (sw *TWriter) structWriter(w *marshal.Writer, v reflect.Value) {
 	case NoTail:
 	case Tail:
 		fs := &flds[n]
-		fv := v.Field(n)
+		fv := v.Field(fs.I)
 		l := fv.Len()
 		for i := 0; i < l; i++ {
 			val := fv.Index(i)
-			fs.WithSize(w, val, (*marshal.Writer).Intvar)
+			fs.TWriter.Elem.WithSize(w, val, (*marshal.Writer).Intvar)
 		}
 	case TailSplit:
 		fs := &flds[n]
-		fv := v.Field(n)
+		fv := v.Field(fs.I)
 		l := fv.Len()
-		fss := fs.TWriter.Flds
+		fss := fs.TWriter.Elem.Flds
 		fl := len(fss)
 		for i := 0; i < l; i++ {
 			str := fv.Index(i)
 			for j := 0; j < fl; j++ {
-				fss[i].WithSize(w, str.Field(i), (*marshal.Writer).Intvar)
+				fss[j].WithSize(w, str.Field(fss[j].I), (*marshal.Writer).Intvar)
 			}
 		}
 	}
-- 
2.43.0


From d4c7c7949a7a9094d9ee89812aa1f6758f83629a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:00 +0000
Subject: [PATCH 30/48] fix: a nil tuple is an empty tuple

---
 sbox/writer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sbox/writer.go b/sbox/writer.go
index 3385208..184d79b 100644
--- a/sbox/writer.go
+++ b/sbox/writer.go
@@ -14,7 +14,7 @@ var _ = log.Print
 func WriteTuple(w *marshal.Writer, i interface{}) {
 	switch o := i.(type) {
 	case nil:
-		return
+		w.Uint32(0)
 	case uint8:
 		w.Uint32(1)
 		w.Uint8(1)
@@ -123,6 +123,8 @@ func (t *TWriter) Fill() {
 		t.Write = func(w *marshal.Writer, v reflect.Value) {
 			if !v.IsNil() {
 				elwr.Write(w, v.Elem())
+			} else {
+				w.IntUint32(0)
 			}
 		}
 	case reflect.Array, reflect.Slice:
@@ -149,6 +151,10 @@ func (t *TWriter) Fill() {
 		t.FillStruct()
 	case reflect.Interface:
 		t.Write = func(w *marshal.Writer, v reflect.Value) {
+			if v.IsNil() {
+				w.IntUint32(0)
+				return
+			}
 			el := v.Elem()
 			tt := writer(el.Type())
 			tt.Write(w, el)
-- 
2.43.0


From 24fab6b3f06450874e5ff8e2ff5189dd174e82da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:18 +0000
Subject: [PATCH 31/48] fix: a struct with a field of variable size has no
 fixed size

---
 marshal/reader_reflect.go | 4 +++-
 marshal/writer_reflect.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index cb770f2..234ef8d 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1113,7 +1113,9 @@ Fields:
 			continue
 		}
 
-		if size >= 0 {
+		if fr.Sz < 0 {
+			size = -1
+		} else if size >= 0 {
 			size += fr.Sz
 		}
 
diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 6e73d02..06ce8a2 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -808,7 +808,9 @@ Fields:
 			continue
 		}
 
-		if size >= 0 {
+		if fw.Sz < 0 {
+			size = -1
+		} else if size >= 0 {
 			size += fw.Sz
 		}
 
-- 
2.43.0


From 5fb93ae2200d2369dedc24574ce0e251dfabc5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:19 +0000
Subject: [PATCH 32/48] fix: a count of 8 bits takes one byte

---
 marshal/reader_reflect.go | 2 +-
 marshal/writer_reflect.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 234ef8d..b108729 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1073,7 +1073,7 @@ Fields:
 					fr.CntRd = (*Reader).Intvar
 				case "i8":
 					if size >= 0 {
-						size += 2
+						size += 1
 					}
 					fr.CntRd = (*Reader).IntUint8
 				case "i16":
diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 06ce8a2..fea83e2 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -768,7 +768,7 @@ Fields:
 					fw.CntWr = (*Writer).Intvar
 				case "i8":
 					if size >= 0 {
-						size += 2
+						size += 1
 					}
 					fw.CntWr = (*Writer).IntUint8
 				case "i16":
-- 
2.43.0


From f9b41af78339c06c8b6774d4a829424ddf772458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:20 +0000
Subject: [PATCH 33/48] fix: size and count of a pointer that writes itself

---
 marshal/writer_reflect.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index fea83e2..e345c39 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -278,6 +278,9 @@ func puttwriter(w *Writer) {
 func (t *TWriter) Size(v reflect.Value) int {
 	switch v.Kind() {
 	case reflect.Ptr:
+		if t.Implements {
+			break
+		}
 		if v.IsNil() {
 			return 0
 		}
@@ -326,6 +329,9 @@ func (t *TWriter) WithSize(w *Writer, v reflect.Value, szwr func(*Writer, int))
 func (t *TWriter) Count(v reflect.Value) int {
 	switch v.Kind() {
 	case reflect.Ptr:
+		if t.Implements {
+			break
+		}
 		if v.IsNil() {
 			return 0
 		}
-- 
2.43.0


From 1ed5e6e9f04fd8260b77a7d46b11ffaee3b0e39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:21 +0000
Subject: [PATCH 34/48] fix: a size that is no multiple of the size of an
 element is an error

---
 marshal/reader_reflect.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index b108729..8c459bc 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -849,6 +849,9 @@ func (t *TReader) FillArray() {
 func (t *TReader) FillSlice() {
 	t.CntSet = func(v reflect.Value, cnt int) error {
 		if v.Len() != cnt {
+			if !v.CanSet() {
+				return fmt.Errorf("Could not set length %d of %+v", cnt, t.Type)
+			}
 			v.Set(reflect.MakeSlice(t.Type, cnt, cnt))
 		}
 		return nil
@@ -856,7 +859,13 @@ func (t *TReader) FillSlice() {
 	if t.Elem.Sz > 0 {
 		t.SzSet = func(v reflect.Value, sz int) (bool, error) {
 			cnt := sz / t.Elem.Sz
+			if sz != cnt*t.Elem.Sz {
+				return false, fmt.Errorf("Size %d is not a multiple of %d", sz, t.Elem.Sz)
+			}
 			if v.Len() != cnt {
+				if !v.CanSet() {
+					return false, fmt.Errorf("Could not set length %d of %+v", cnt, t.Type)
+				}
 				v.Set(reflect.MakeSlice(t.Type, cnt, cnt))
 			}
 			return true, nil
-- 
2.43.0


From 503dc7eec4134a4b6145a79c963eef63957ebb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:22 +0000
Subject: [PATCH 35/48] fix: sizes and counts beyond the end of input are
 errors

---
 marshal/reader_reflect.go | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 8c459bc..ad49eab 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -450,6 +450,13 @@ func (t *TReader) WithSize(r *Reader, v reflect.Value, szrd func(*Reader) int) {
 		szrd = (*Reader).IntUint32
 	}
 	sz := szrd(r)
+	if r.Err != nil {
+		return
+	}
+	if sz < 0 || sz > len(r.Body) {
+		r.Err = fmt.Errorf("Size %d is beyond the end of input", sz)
+		return
+	}
 	if t.AutoSize != nil {
 		t.AutoSize(r, v, sz)
 		return
@@ -527,6 +534,13 @@ func (t *TReader) WithCount(r *Reader, v reflect.Value, cntrd func(*Reader) int)
 		cntrd = (*Reader).IntUint32
 	}
 	cnt := cntrd(r)
+	if r.Err != nil {
+		return
+	}
+	if cnt < 0 || t.Type.Kind() == reflect.Slice && cnt > len(r.Body) && t.Elem.least() > 0 {
+		r.Err = fmt.Errorf("Count %d is beyond the end of input", cnt)
+		return
+	}
 	if t.AutoCount != nil {
 		t.AutoCount(r, v, cnt)
 		return
@@ -538,6 +552,31 @@ func (t *TReader) WithCount(r *Reader, v reflect.Value, cntrd func(*Reader) int)
 	t.Fixed(r, v)
 }
 
+// least is a lower bound of the size of an encoded value
+func (t *TReader) least() (n int) {
+	switch {
+	case t.Sz >= 0:
+		return t.Sz
+	case t.Implements || t.Type == nil:
+		return 0
+	}
+	switch t.Type.Kind() {
+	case reflect.String, reflect.Slice:
+		return 4
+	case reflect.Array:
+		return t.Cnt * t.Elem.least()
+	case reflect.Struct:
+		for _, f := range t.Flds {
+			if f.SzRd != nil || f.CntRd != nil {
+				n++
+			} else if !f.NoSize {
+				n += f.least()
+			}
+		}
+	}
+	return n
+}
+
 func (t *TReader) fillautotail() {
 	if t.Fixed == nil && t.AutoCount != nil {
 		t.Fixed = func(r *Reader, v reflect.Value) {
-- 
2.43.0


From e0b31df7b3b73b1d27b5860431fcf1b4a66b2473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:23 +0000
Subject: [PATCH 36/48] fix: a size or count for a nil interface does not panic

---
 marshal/reader_reflect.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index ad49eab..a8cb61d 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -417,13 +417,15 @@ func (t *TReader) SetSize(v reflect.Value, sz int) (bool, error) {
 		if sz == 0 {
 			if !v.IsNil() {
 				if v.CanSet() {
-					v.Set(reflect.ValueOf(nil))
+					v.Set(reflect.Zero(v.Type()))
 				} else {
 					el := v.Elem()
 					rd := ReaderFor(el.Type())
 					return rd.SetSize(el, sz)
 				}
 			}
+		} else if v.IsNil() {
+			return false, fmt.Errorf("Could not read size %d into nil %+v", sz, t.Type)
 		} else {
 			el := v.Elem()
 			rd := ReaderFor(el.Type())
@@ -501,13 +503,16 @@ func (t *TReader) SetCount(v reflect.Value, cnt int) error {
 		if cnt == 0 {
 			if !v.IsNil() {
 				if v.CanSet() {
-					v.Set(reflect.ValueOf(nil))
+					v.Set(reflect.Zero(v.Type()))
 				} else {
 					el := v.Elem()
 					rd := ReaderFor(el.Type())
 					return rd.SetCount(el, cnt)
 				}
 			}
+			return nil
+		} else if v.IsNil() {
+			return fmt.Errorf("Could not read count %d into nil %+v", cnt, t.Type)
 		} else {
 			el := v.Elem()
 			rd := ReaderFor(el.Type())
-- 
2.43.0


From 555fb4906503af99c7f825d6c0b311a057966648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:24 +0000
Subject: [PATCH 37/48] fix: a pointer to a value of variable size is read

---
 marshal/reader_reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index a8cb61d..87a39f2 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -820,7 +820,7 @@ func (t *TReader) FillPtr() {
 		}
 	}
 	t.Tail = func(r *Reader, v reflect.Value) {
-		if r.Err == nil {
+		if r.Err != nil {
 			return
 		}
 		if len(r.Body) > 0 {
-- 
2.43.0


From 79e0e221f546b9729448fb8d535a8b29ed1167ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:25 +0000
Subject: [PATCH 38/48] fix: the tail of a body is read into a slice of its
 type

---
 marshal/reader.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/marshal/reader.go b/marshal/reader.go
index dbb5d89..d1903e9 100644
--- a/marshal/reader.go
+++ b/marshal/reader.go
@@ -239,10 +239,7 @@ func (r *Reader) Uint8slValTail(v reflect.Value) {
 		return
 	}
 	if v.CanAddr() {
-		//l := len(r.Body)
-		//v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
-		p := v.Addr().Interface().(*[]byte)
-		*p = r.Tail()
+		v.SetBytes(r.Tail())
 	} else {
 		r.Uint8slVal(v)
 	}
@@ -254,7 +251,7 @@ func (r *Reader) Uint16slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 2
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Uint16slVal(v)
 }
@@ -265,7 +262,7 @@ func (r *Reader) Uint32slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 4
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Uint32slVal(v)
 }
@@ -276,7 +273,7 @@ func (r *Reader) Uint64slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 8
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Uint64slVal(v)
 }
@@ -287,7 +284,7 @@ func (r *Reader) Int8slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body)
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Int8slVal(v)
 }
@@ -298,7 +295,7 @@ func (r *Reader) Int16slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 2
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Int16slVal(v)
 }
@@ -309,7 +306,7 @@ func (r *Reader) Int32slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 4
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Int32slVal(v)
 }
@@ -320,7 +317,7 @@ func (r *Reader) Int64slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 8
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Int64slVal(v)
 }
@@ -331,7 +328,7 @@ func (r *Reader) Float32slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 4
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Float32slVal(v)
 }
@@ -342,7 +339,7 @@ func (r *Reader) Float64slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 8
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Float64slVal(v)
 }
-- 
2.43.0


From 6a88c8704e54f13102a90e22f140569150f4e876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:26 +0000
Subject: [PATCH 39/48] fix: ReadWithSize reports a wrong size and reads the
 size of other types

---
 marshal/reader_reflect.go | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 87a39f2..0d4d4b3 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -195,53 +195,62 @@ func (r *Reader) ReadValueFixed(val reflect.Value) error {
 	return r.Err
 }
 
+// sized reads a size, which should be exactly sz
+func (r *Reader) sized(rs func(*Reader) int, sz int) bool {
+	got := rs(r)
+	if r.Err == nil && got != sz {
+		r.Err = fmt.Errorf("Size mismatch: read %d and should %d", got, sz)
+	}
+	return r.Err == nil
+}
+
 func (r *Reader) ReadWithSize(i interface{}, rs func(*Reader) int) error {
 	if r.Err != nil {
 		return r.Err
 	}
 	switch o := i.(type) {
 	case *int8:
-		if sz := rs(r); sz == 1 {
+		if r.sized(rs, 1) {
 			*o = r.Int8()
 		}
 	case *uint8:
-		if sz := rs(r); sz == 1 {
+		if r.sized(rs, 1) {
 			*o = r.Uint8()
 		}
 	case *int16:
-		if sz := rs(r); sz == 2 {
+		if r.sized(rs, 2) {
 			*o = r.Int16()
 		}
 	case *uint16:
-		if sz := rs(r); sz == 2 {
+		if r.sized(rs, 2) {
 			*o = r.Uint16()
 		}
 	case *int32:
-		if sz := rs(r); sz == 4 {
+		if r.sized(rs, 4) {
 			*o = r.Int32()
 		}
 	case *uint32:
-		if sz := rs(r); sz == 4 {
+		if r.sized(rs, 4) {
 			*o = r.Uint32()
 		}
 	case *int64:
-		if sz := rs(r); sz == 8 {
+		if r.sized(rs, 8) {
 			*o = r.Int64()
 		}
 	case *uint64:
-		if sz := rs(r); sz == 8 {
+		if r.sized(rs, 8) {
 			*o = r.Uint64()
 		}
 	case *float32:
-		if sz := rs(r); sz == 4 {
+		if r.sized(rs, 4) {
 			*o = r.Float32()
 		}
 	case *float64:
-		if sz := rs(r); sz == 8 {
+		if r.sized(rs, 8) {
 			*o = r.Float64()
 		}
 	case []byte:
-		if sz := rs(r); sz == len(o) {
+		if r.sized(rs, len(o)) {
 			r.Uint8sl(o)
 		}
 	case *[]byte:
@@ -257,11 +266,11 @@ func (r *Reader) ReadWithSize(i interface{}, rs func(*Reader) int) error {
 			val = val.Elem()
 			rt := val.Type()
 			rd := ReaderFor(rt)
-			rd.Auto(r, val)
+			rd.WithSize(r, val, rs)
 		} else {
 			rt := val.Type()
 			rd := ReaderFor(rt)
-			rd.Fixed(r, val)
+			rd.WithSize(r, val, rs)
 		}
 	}
 	return r.Err
-- 
2.43.0


From e22a09c18b7931eeed5c0c450a3c408aa0842023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:18 +0000
Subject: [PATCH 40/48] fix: an array of ber numbers is written without a
 count, as it is read

---
 marshal/writer_reflect.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index e345c39..4158b30 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -830,6 +830,7 @@ Fields:
 					fw.TWriter = &TWriter{}
 					*fw.TWriter = *BerSlWriter
 					fw.TWriter.Type = fld.Type
+					fw.TWriter.WriteAuto = fw.TWriter.Write
 				default:
 					log.Panicf("Could not apply 'ber' for array [%d]%+v", fld.Type.Len(), fld.Type.Elem())
 				}
-- 
2.43.0


From 08824fe258769aa738eb2526e83ac4aaf4fceaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:18 +0000
Subject: [PATCH 41/48] fix: a pointer to a ber number is read into a number of
 its type

---
 marshal/reader_reflect.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 0d4d4b3..3c95739 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1221,10 +1221,13 @@ Fields:
 				switch fld.Type.Elem().Kind() {
 				case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 					fr.TReader = &TReader{
-						Elem: BerReader,
+						Type: fld.Type,
+						Elem: &TReader{},
 						Sz:   -1,
 						Cnt:  -1,
 					}
+					*fr.TReader.Elem = *BerReader
+					fr.TReader.Elem.Type = fld.Type.Elem()
 					fr.TReader.FillPtr()
 					fr.TReader.fillautotail()
 				default:
-- 
2.43.0


From be8463e39a262c5c8929dd3b7e1cebdb1385f67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:19 +0000
Subject: [PATCH 42/48] fix: a nil pointer gets a value when it is read, slices
 behind pointers and interfaces their count

---
 marshal/reader_reflect.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 3c95739..2165aec 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -604,7 +604,7 @@ func (t *TReader) fillautotail() {
 		t.Auto = func(r *Reader, v reflect.Value) {
 			t.WithCount(r, v, (*Reader).IntUint32)
 		}
-	} else {
+	} else if t.Auto == nil {
 		t.Auto = t.Fixed
 	}
 }
@@ -828,6 +828,17 @@ func (t *TReader) FillPtr() {
 			t.Elem.Fixed(r, v.Elem())
 		}
 	}
+	t.Auto = func(r *Reader, v reflect.Value) {
+		if r.Err != nil {
+			return
+		}
+		if v.IsNil() && v.CanSet() {
+			v.Set(reflect.New(t.Elem.Type))
+		}
+		if !v.IsNil() {
+			t.Elem.Auto(r, v.Elem())
+		}
+	}
 	t.Tail = func(r *Reader, v reflect.Value) {
 		if r.Err != nil {
 			return
-- 
2.43.0


From 06df282f2cb82de334bcbf9ac304a09c010d5d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:20 +0000
Subject: [PATCH 43/48] fix: the tail of a tuple is read element by element

---
 marshal/reader_reflect.go |  2 +-
 sbox/reader.go            | 15 +++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 2165aec..4e35c98 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1079,7 +1079,7 @@ Fields:
 		if nosize {
 			log.Panicf("Only last field could be marked as size(no) or cnt(no) %+v", rt)
 		}
-		fr := FieldReader{I: i}
+		fr := FieldReader{I: i, Tag: fld.Tag}
 		ipro := fld.Tag.Get("iproto")
 		var ber bool
 
diff --git a/sbox/reader.go b/sbox/reader.go
index 58b2c54..336dc81 100644
--- a/sbox/reader.go
+++ b/sbox/reader.go
@@ -240,7 +240,10 @@ func (sw *TReader) structAuto(r *marshal.Reader, v reflect.Value) {
 		tail := l - len(flds) + 1
 		last := flds[len(flds)-1]
 		if sw.Tail == TailSplit {
-			llast := len(last.Flds)
+			llast := len(last.TReader.Elem.Flds)
+			if llast == 0 {
+				break
+			}
 			tail /= llast
 		}
 		last.TReader.SetCount(v.Field(last.I), tail)
@@ -265,22 +268,22 @@ func (sw *TReader) structRead(r *marshal.Reader, k int, v reflect.Value) {
 	case NoTail:
 	case Tail:
 		fs := &flds[n]
-		fv := v.Field(n)
+		fv := v.Field(fs.I)
 		l := fv.Len()
 		for i := 0; i < l && n+i < k; i++ {
 			val := fv.Index(i)
-			fs.WithSize(r, val, (*marshal.Reader).Intvar)
+			fs.TReader.Elem.WithSize(r, val, (*marshal.Reader).Intvar)
 		}
 	case TailSplit:
 		fs := &flds[n]
-		fv := v.Field(n)
+		fv := v.Field(fs.I)
 		l := fv.Len()
-		fss := fs.TReader.Flds
+		fss := fs.TReader.Elem.Flds
 		fl := len(fss)
 		for i := 0; i < l; i++ {
 			str := fv.Index(i)
 			for j := 0; j < fl && n+i*fl+j < k; j++ {
-				fss[i].WithSize(r, str.Field(i), (*marshal.Reader).Intvar)
+				fss[j].WithSize(r, str.Field(fss[j].I), (*marshal.Reader).Intvar)
 			}
 		}
 	}
-- 
2.43.0


From e951598599ab0c60ed4b70cf4ac81bbbe316753b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:21 +0000
Subject: [PATCH 44/48] fix: a tuple with more fields than its bytes or its
 destination does not panic

---
 sbox/reader.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/sbox/reader.go b/sbox/reader.go
index 336dc81..b8d797d 100644
--- a/sbox/reader.go
+++ b/sbox/reader.go
@@ -86,7 +86,7 @@ type TReader struct {
 
 func (t *TReader) sliceFixed(r *marshal.Reader, v reflect.Value) {
 	if l := r.IntUint32(); l >= v.Len() {
-		for i := 0; i < l; i++ {
+		for i := 0; i < v.Len(); i++ {
 			t.Reader.Elem.WithSize(r, v.Index(i), (*marshal.Reader).Intvar)
 		}
 	} else {
@@ -96,11 +96,19 @@ func (t *TReader) sliceFixed(r *marshal.Reader, v reflect.Value) {
 
 func (t *TReader) sliceAuto(r *marshal.Reader, v reflect.Value) {
 	l := r.IntUint32()
+	if r.Err == nil && l > len(r.Body) {
+		r.Err = fmt.Errorf("Wrong field count: %d fields in %d bytes", l, len(r.Body))
+	}
+	if r.Err != nil {
+		return
+	}
 	if v.CanSet() {
 		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	} else if l < v.Len() {
 		r.Err = fmt.Errorf("Wrong field count: expect %d, got %d", v.Len(), l)
 		return
+	} else {
+		l = v.Len()
 	}
 	for i := 0; i < l; i++ {
 		t.Reader.Elem.WithSize(r, v.Index(i), (*marshal.Reader).Intvar)
@@ -224,6 +232,12 @@ func (sw *TReader) structAuto(r *marshal.Reader, v reflect.Value) {
 		return
 	}
 	l := r.IntUint32()
+	if r.Err == nil && l > len(r.Body) {
+		r.Err = fmt.Errorf("Wrong field count: %d fields in %d bytes", l, len(r.Body))
+	}
+	if r.Err != nil {
+		return
+	}
 	flds := sw.Reader.Flds
 	switch sw.Tail {
 	/*case NoTail:
-- 
2.43.0


From 71dc0a5a7a08d3568cb45a8c38e1e70856310486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:21 +0000
Subject: [PATCH 45/48] fix: a truncated reply is an error for ReadFirst and
 ReadSizedTuple

---
 sbox/reader.go | 4 +++-
 sbox/result.go | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/sbox/reader.go b/sbox/reader.go
index b8d797d..bcb7131 100644
--- a/sbox/reader.go
+++ b/sbox/reader.go
@@ -30,7 +30,9 @@ func ReadSizedTuple(r *marshal.Reader, i interface{}) error {
 	sz := r.IntUint32()
 	if r.Err == nil {
 		rd := marshal.Reader{Body: r.Slice(sz + 4)}
-		r.Err = ReadRawTuple(&rd, i)
+		if r.Err == nil {
+			r.Err = ReadRawTuple(&rd, i)
+		}
 	}
 	return r.Err
 }
diff --git a/sbox/result.go b/sbox/result.go
index b90b9ac..fdaf874 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -29,12 +29,15 @@ Got:
 		sz := r[0].IntUint32()
 		if r[0].Err == nil {
 			r[1].Body = r[0].Slice(sz + 4)
+		}
+		if r[0].Err == nil {
 			err = ReadRawTuple(&r[1], v)
 			read = true
-		} else {
-			err = r[0].Err
 		}
 	}
+	if r[0].Err != nil {
+		err = r[0].Err
+	}
 	atomic.StorePointer(&readerCache, unsafe.Pointer(r))
 	return
 }
-- 
2.43.0


From ea639000adb7725514355d3d5339b8f291e71034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:21 +0000
Subject: [PATCH 46/48] fix: ReadMany reports a malformed tuple and counts only
 what it has read

---
 sbox/result.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sbox/result.go b/sbox/result.go
index fdaf874..7bdcf2a 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -75,7 +75,9 @@ func readInterface(r *[2]marshal.Reader, v reflect.Value, l int) int {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
 			reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
 			reflect.Float32, reflect.Float64, reflect.Struct, reflect.String, reflect.Ptr:
-			oneTuple(r, el, nil)
+			if l == 0 || oneTuple(r, el, nil) != nil {
+				return 0
+			}
 			return 1
 		}
 	case reflect.Array, reflect.Slice:
@@ -200,7 +202,6 @@ func oneTuple(r *[2]marshal.Reader, v reflect.Value, rd *TReader) error {
 	if r[1].Err != nil {
 		log.Printf("oneTuple read error: %s %+v [% x]", r[1].Err, v.Interface(), body)
 	}
-	//r[0].Err = r[1].Err
-	//return r[0].Err
-	return nil
+	r[0].Err = r[1].Err
+	return r[0].Err
 }
-- 
2.43.0


From b59167f8725b01da958b5b8c94cbf4bafc551683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:22 +0000
Subject: [PATCH 47/48] fix: ReadMany does not allocate more tuples than the
 reply has bytes for

---
 sbox/result.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sbox/result.go b/sbox/result.go
index 7bdcf2a..4b36cd7 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -1,6 +1,7 @@
 package sbox
 
 import (
+	"fmt"
 	"log"
 	"reflect"
 	"sync/atomic"
@@ -91,7 +92,7 @@ func readFixedArray(r *[2]marshal.Reader, v reflect.Value, l int) int {
 	tel := v.Type().Elem()
 	switch tel.Kind() {
 	case reflect.Slice, reflect.Ptr:
-		rd := reader(v.Type())
+		rd := reader(tel)
 		ln := v.Len()
 		var i int
 		for i = 0; i < l && i < ln; i++ {
@@ -156,6 +157,12 @@ func readSlice(r *[2]marshal.Reader, v reflect.Value, l int) int {
 		reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
 		reflect.Float32, reflect.Float64, reflect.Struct, reflect.String, reflect.Ptr:
 		rd := reader(tel)
+		if max := len(r[0].Body) / 8; l > max && r[0].Err == nil {
+			r[0].Err = fmt.Errorf("Wrong tuple count: %d tuples in %d bytes", l, len(r[0].Body))
+		}
+		if r[0].Err != nil {
+			return 0
+		}
 		v.Set(reflect.MakeSlice(v.Type(), l, l))
 		var i int
 		for ; i < l; i++ {
-- 
2.43.0


From d96a7f97a57a0c19e571bda1e3619bffc54e0fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:22 +0000
Subject: [PATCH 48/48] fix: ReadMany reads into lists of destinations of any
 types

---
 sbox/result.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sbox/result.go b/sbox/result.go
index 4b36cd7..415be0d 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -83,6 +83,8 @@ func readInterface(r *[2]marshal.Reader, v reflect.Value, l int) int {
 		}
 	case reflect.Array, reflect.Slice:
 		return readFixedArray(r, v, l)
+	case reflect.Interface:
+		return readInterface(r, v.Elem(), l)
 	}
 	log.Panicf("Don't know how to read tuple into %v", v.Type())
 	return 0
@@ -180,15 +182,15 @@ func readSlice(r *[2]marshal.Reader, v reflect.Value, l int) int {
 }
 
 func readInterfaceArray(r *[2]marshal.Reader, v reflect.Value, l int) int {
-	var i int
+	var read int
 	ln := v.Len()
-	for i = 0; i < ln && l > 0; i++ {
-		l -= readInterface(r, v.Index(i), l)
+	for i := 0; i < ln && read < l; i++ {
+		read += readInterface(r, v.Index(i), l-read)
 		if r[0].Err != nil {
 			break
 		}
 	}
-	return i
+	return read
 }
 
 func oneTuple(r *[2]marshal.Reader, v reflect.Value, rd *TReader) error {
-- 
2.43.0


From 674da5eed2da1b3bde3e1072561f54823a77235a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:41 +0000
Subject: [PATCH 01/87] fix: SetInFly with a bookmark must not race with
 SetInFly(nil)

The bookmark variant checked and set the state with plain accesses under the
request lock, but SetInFly(nil) swaps the state without the lock, so both could
take the same pending request.
---
 request.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/request.go b/request.go
index c4da8a6..9b26867 100644
--- a/request.go
+++ b/request.go
@@ -87,8 +87,7 @@ func (r *Request) SetInFly(mid RequestBookmark) (set bool) {
 		return r.cas(RsPending, RsInFly)
 	} else {
 		r.Lock()
-		if r.state == RsPending {
-			r.state = RsInFly
+		if r.cas(RsPending, RsInFly) {
 			mid.setReq(r, mid)
 			set = true
 		}
-- 
2.43.0


From ff1e93ae38f13d32ec4eb415700cde868c7b5f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:34 +0000
Subject: [PATCH 02/87] fix: a timer queue must not lose its wake-up between
 Reset and Wait

---
 custom_timer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/custom_timer.go b/custom_timer.go
index 4f60ff7..3bb54c6 100644
--- a/custom_timer.go
+++ b/custom_timer.go
@@ -104,7 +104,12 @@ func newHeap(i uint32) *tHeap {
 }
 
 func (h *tHeap) loop() {
-	t := time.AfterFunc(time.Hour, h.c.Signal)
+	t := time.AfterFunc(time.Hour, func() {
+		// without the lock the signal could be lost between Reset and Wait
+		h.m.Lock()
+		h.c.Signal()
+		h.m.Unlock()
+	})
 	h.m.Lock()
 Loop:
 	for {
-- 
2.43.0


From 867e76277a2b4e7a3e3732931046f1c89cf05a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:42 +0000
Subject: [PATCH 03/87] fix: cancelling a context must not miss a canceler that
 is just being added

---
 context.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/context.go b/context.go
index 80a085e..8707a0d 100644
--- a/context.go
+++ b/context.go
@@ -105,6 +105,9 @@ func (c *Context) AddCanceler(cn Canceler) {
 }
 
 func (c *Context) cancelAll() {
+	// wait for an AddCanceler that has not seen the new State yet
+	c.m.Lock()
+	c.m.Unlock()
 	for len(c.cancelsm) > 0 || c.cancelsn > 0 {
 		c.m.Lock()
 		cancels := make([]Canceler, 0, len(c.cancels)+c.cancelsn)
-- 
2.43.0


From adea6de62aeda8f60ab1a4e5a7b8b66ea6f4fe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:43 +0000
Subject: [PATCH 04/87] fix: Context.Child reports whether the parent is alive,
 so that Go and friends run their function

---
 context.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/context.go b/context.go
index 8707a0d..008a1e9 100644
--- a/context.go
+++ b/context.go
@@ -77,8 +77,7 @@ func (c *Context) RemoveCanceler(cn Canceler) {
 	c.m.Unlock()
 }
 
-func (c *Context) AddCanceler(cn Canceler) {
-	var ok bool
+func (c *Context) AddCanceler(cn Canceler) (ok bool) {
 	c.m.Lock()
 	c.childCond.L = &c.m
 	ok = c.State == 0
@@ -102,6 +101,7 @@ func (c *Context) AddCanceler(cn Canceler) {
 	if !ok {
 		cn.Cancel()
 	}
+	return
 }
 
 func (c *Context) cancelAll() {
@@ -217,7 +217,7 @@ func (c *Context) Child() (child *Context, ok bool) {
 	child = &Context{parent: c}
 	rc := CxState(atomic.LoadUint32((*uint32)(&c.State)))
 	if rc == 0 {
-		c.AddCanceler(child)
+		ok = c.AddCanceler(child)
 	} else {
 		child.Cancel()
 	}
-- 
2.43.0


From 8bfed608350a75cbca72cdbc28e57a65b1c2ec5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:31 +0000
Subject: [PATCH 05/87] fix: MultiRequest.Each must not publish its channel
 before it is filled

---
 wait_group.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wait_group.go b/wait_group.go
index 1a4d011..ef32510 100644
--- a/wait_group.go
+++ b/wait_group.go
@@ -126,18 +126,20 @@ func (w *MultiRequest) Each() <-chan *Response {
 		w.gen.Release()
 	}
 	w.setKind(mrChan)
-	w.ch = make(chan *Response, w.r)
+	ch := make(chan *Response, w.r)
 
 	for _, resp := range w.responses {
 		w.requests[resp.Id] = nil
-		w.ch <- resp
+		ch <- resp
 	}
 	w.responses = nil
 	if w.c == w.r {
-		close(w.ch)
+		close(ch)
 	}
+	// Respond uses the channel without locking as soon as it sees it
+	w.ch = ch
 	w.m.Unlock()
-	return w.ch
+	return ch
 }
 
 func (w *MultiRequest) Results() MultiResponse {
-- 
2.43.0


From 0e0b4f284dad591e60562ca694bf08658608f924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:32 +0000
Subject: [PATCH 06/87] fix: failing a MultiRequest must not use a request slot
 cleared meanwhile

---
 wait_group.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wait_group.go b/wait_group.go
index ef32510..c133e37 100644
--- a/wait_group.go
+++ b/wait_group.go
@@ -217,8 +217,9 @@ func (w *MultiRequest) performFailAll() {
 	w.m.Unlock()
 
 	for i := 0; i < r; i++ {
-		if allReqs[i] != nil {
-			w.performFail(allReqs[i])
+		// a concurrent Respond clears the slot
+		if req := allReqs[i]; req != nil {
+			w.performFail(req)
 		}
 	}
 }
-- 
2.43.0


From 4d237218a3cfa28c4df51294011d0e14b10b5558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:33 +0000
Subject: [PATCH 07/87] fix: MultiRequest.Each must leave its context when all
 responses are already there

---
 wait_group.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wait_group.go b/wait_group.go
index c133e37..e2ca61e 100644
--- a/wait_group.go
+++ b/wait_group.go
@@ -135,6 +135,9 @@ func (w *MultiRequest) Each() <-chan *Response {
 	w.responses = nil
 	if w.c == w.r {
 		close(ch)
+		if w.cx != nil {
+			w.cx.RemoveCanceler(w)
+		}
 	}
 	// Respond uses the channel without locking as soon as it sees it
 	w.ch = ch
-- 
2.43.0


From e14d5b35afdff971a9338579f43d6243bd5b7c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:12 +0000
Subject: [PATCH 08/87] fix: ParallelService answers waiting requests with
 RcShutdown when stopped

---
 parallel_service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_service.go b/parallel_service.go
index 6267c6a..fa8768d 100644
--- a/parallel_service.go
+++ b/parallel_service.go
@@ -97,7 +97,7 @@ Loop:
 		if req, ok = <-serv.ReceiveChan(); !ok {
 			break
 		}
-		req.Respond(RcShutdown, nil)
+		req.ShutDown()
 	}
 }
 
-- 
2.43.0


From 68912ad375c74cb9832e4c97686379b84792f7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:13 +0000
Subject: [PATCH 09/87] fix: stopping an end point must not wait for a loop
 that has already finished

---
 service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/service.go b/service.go
index 5fa1b3d..1d3168e 100644
--- a/service.go
+++ b/service.go
@@ -113,7 +113,7 @@ func (s *SimplePoint) RunChild(p EndPoint) {
 
 func (s *SimplePoint) Init(p PointLoop) {
 	s.PointLoop = p
-	s.exit = make(chan bool)
+	s.exit = make(chan bool, 1)
 }
 
 func (s *SimplePoint) ExitChan() <-chan bool {
-- 
2.43.0


From cea23f0c09103b8d02e6179e466786690b10f6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:15 +0000
Subject: [PATCH 10/87] fix: a parallel service delivers RcTimeout answered by
 its handler

---
 parallel_service.go | 7 ++++++-
 request.go          | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/parallel_service.go b/parallel_service.go
index fa8768d..bfeb5b1 100644
--- a/parallel_service.go
+++ b/parallel_service.go
@@ -116,6 +116,11 @@ func (serv *ParallelService) inc(ctx *ReqContext) {
 func (serv *ParallelService) serv(ctx *ReqContext) {
 	defer serv.inc(ctx)
 	if req := ctx.Request; req != nil {
-		req.Respond(serv.f(&ctx.Context, req))
+		code, val := serv.f(&ctx.Context, req)
+		if code == RcTimeout {
+			// it is an answer, not the expiration of the request
+			ctx.Expire()
+		}
+		req.Respond(code, val)
 	}
 }
diff --git a/request.go b/request.go
index 9b26867..7191f11 100644
--- a/request.go
+++ b/request.go
@@ -195,7 +195,7 @@ type ReqContext struct {
 func (cm *ReqContext) Respond(res *Response) {
 	if res.Code == RcCanceled {
 		cm.Cancel()
-	} else if res.Code == RcTimeout {
+	} else if res.Code == RcTimeout && cm.Alive() {
 		cm.Expire()
 		cm.Request.ResetToPending()
 		cm.Request.SetInFly(nil)
-- 
2.43.0


From d80db20bc67b64a7a57c7212174afd2c61db1f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:16 +0000
Subject: [PATCH 11/87] fix: BalancerPoint runs a child added while it is being
 started exactly once

---
 balancer.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/balancer.go b/balancer.go
index f7e3aff..db66648 100644
--- a/balancer.go
+++ b/balancer.go
@@ -1,7 +1,11 @@
 package iproto
 
+import "sync"
+
 type BalancerPoint struct {
 	SimplePoint
+	m        sync.Mutex
+	looping  bool
 	children []EndPoint
 }
 
@@ -10,18 +14,27 @@ func (b *BalancerPoint) Init() {
 }
 
 func (b *BalancerPoint) AddChild(ch EndPoint) {
+	b.m.Lock()
 	b.children = append(b.children, ch)
-	if b.Runned() {
+	// otherwise Loop runs it
+	if b.looping {
 		ch.Run(b.b.ch)
 	}
+	b.m.Unlock()
 }
 
 func (b *BalancerPoint) Loop() {
+	b.m.Lock()
 	for _, ch := range b.children {
 		b.RunChild(ch)
 	}
+	b.looping = true
+	b.m.Unlock()
 	<-b.ExitChan()
+	b.m.Lock()
 	for _, ch := range b.children {
 		ch.Stop()
 	}
+	b.looping = false
+	b.m.Unlock()
 }
-- 
2.43.0


From bd255d215ce61ebf99f5c793ec67f8cf9ff46cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:28 +0000
Subject: [PATCH 12/87] fix: SliceReader.ReadByte must read into a non-empty
 buffer

---
 net/slice_reader.go | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/net/slice_reader.go b/net/slice_reader.go
index c833dff..4cc5c34 100644
--- a/net/slice_reader.go
+++ b/net/slice_reader.go
@@ -50,21 +50,9 @@ func (sl *SliceReader) Read(n int) (res []byte, err error) {
 }
 
 func (sl *SliceReader) ReadByte() (res byte, err error) {
-	if len(sl.buf) > 0 {
-		res = sl.buf[0]
-		sl.buf = sl.buf[1:]
-		return
-	}
 	var buf []byte
-	var n int
-	if cap(buf) == 0 {
-		buf = make([]byte, len(sl.buf), sl.size)
-	}
-	n, err = sl.read(buf)
-	if n >= 1 {
+	if buf, err = sl.Read(1); err == nil {
 		res = buf[0]
-		sl.buf = buf[1:n]
-		err = nil
 	}
 	return
 }
-- 
2.43.0


From 2bbcbff28a567934cfa8ec76339c514d67d53adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:29 +0000
Subject: [PATCH 13/87] fix: SliceReader must not panic when the stream ends
 inside a packet

---
 net/slice_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/slice_reader.go b/net/slice_reader.go
index 4cc5c34..fa059ae 100644
--- a/net/slice_reader.go
+++ b/net/slice_reader.go
@@ -43,7 +43,7 @@ func (sl *SliceReader) Read(n int) (res []byte, err error) {
 		err = nil
 	} else if l > 0 && err == io.EOF {
 		res = buf[:l]
-		sl.buf = buf[l:]
+		sl.buf = nil
 		err = io.ErrUnexpectedEOF
 	}
 	return
-- 
2.43.0


From 4bab9e6dc6da1d3c1e3bb29bd1a1edc74f495e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:30 +0000
Subject: [PATCH 14/87] fix: BufWriter.WriteByte occupies one byte of the
 buffer

---
 net/buf_writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/buf_writer.go b/net/buf_writer.go
index 0da728b..3f49824 100644
--- a/net/buf_writer.go
+++ b/net/buf_writer.go
@@ -58,14 +58,14 @@ func (w *BufWriter) Write3Uint32(i, j, k uint32) (err error) {
 }
 
 func (w *BufWriter) WriteByte(i byte) (err error) {
-	if w.wr+4 > len(w.buf) {
+	if w.wr+1 > len(w.buf) {
 		if err = w.Flush(); err != nil {
 			return
 		}
 	}
 
 	w.buf[w.wr] = i
-	w.wr += 4
+	w.wr += 1
 	return
 }
 
-- 
2.43.0


From 44ea34c25cc5616fba836dbddeae57f7b280068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:31 +0000
Subject: [PATCH 15/87] fix: a Ping response is written without a return code,
 as its length says

---
 net/header.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/net/header.go b/net/header.go
index ca974bf..d581cf6 100644
--- a/net/header.go
+++ b/net/header.go
@@ -165,13 +165,13 @@ func (h *HeaderWriter) WriteResponse(res Response) (err error) {
 		return
 	}
 
-	switch h.rc {
-	case RC0byte:
-	case RC1byte:
+	switch retCodeLen {
+	case 0:
+	case 1:
 		if err = h.w.WriteByte(byte(res.Code)); err != nil {
 			return
 		}
-	case RC4byte:
+	case 4:
 		if err = h.w.WriteUint32(uint32(res.Code)); err != nil {
 			return
 		}
-- 
2.43.0


From a238c19a097d19cfdbb6851d88f9090e5badf04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:14 +0000
Subject: [PATCH 16/87] fix: IntUint64 writes the eight bytes that are read
 back

---
 marshal/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/writer.go b/marshal/writer.go
index 2b2d4d6..4d6c993 100644
--- a/marshal/writer.go
+++ b/marshal/writer.go
@@ -133,7 +133,7 @@ func (w *Writer) Intvar(i int) {
 }
 
 func (w *Writer) IntUint64(i int) {
-	w.Uint32(uint32(i))
+	w.Uint64(uint64(i))
 }
 
 func (w *Writer) IntUint32(i int) {
-- 
2.43.0


From 495357dfe51fbc1f4814a7fa091c0d6d8811c2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:15 +0000
Subject: [PATCH 17/87] fix: a cnt(i8) count takes one byte of a struct's size

---
 marshal/reader_reflect.go | 2 +-
 marshal/writer_reflect.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index cb770f2..0fa6bcb 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1073,7 +1073,7 @@ Fields:
 					fr.CntRd = (*Reader).Intvar
 				case "i8":
 					if size >= 0 {
-						size += 2
+						size += 1
 					}
 					fr.CntRd = (*Reader).IntUint8
 				case "i16":
diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 9b6cad5..1cb6aeb 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -768,7 +768,7 @@ Fields:
 					fw.CntWr = (*Writer).Intvar
 				case "i8":
 					if size >= 0 {
-						size += 2
+						size += 1
 					}
 					fw.CntWr = (*Writer).IntUint8
 				case "i16":
-- 
2.43.0


From 6c402e5602e18bcb609bb2ce703d2cefd932dccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:17 +0000
Subject: [PATCH 18/87] fix: a struct with a field of variable size has no
 fixed size

---
 marshal/reader_reflect.go | 4 +++-
 marshal/writer_reflect.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 0fa6bcb..b108729 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1113,7 +1113,9 @@ Fields:
 			continue
 		}
 
-		if size >= 0 {
+		if fr.Sz < 0 {
+			size = -1
+		} else if size >= 0 {
 			size += fr.Sz
 		}
 
diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 1cb6aeb..4f02024 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -808,7 +808,9 @@ Fields:
 			continue
 		}
 
-		if size >= 0 {
+		if fw.Sz < 0 {
+			size = -1
+		} else if size >= 0 {
 			size += fw.Sz
 		}
 
-- 
2.43.0


From b74a949a96ca53fe224c0c1f993de2d6f7ad0ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:18 +0000
Subject: [PATCH 19/87] fix: an array of variable-length numbers is written
 without a count, as it is read

---
 marshal/writer_reflect.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 4f02024..a164750 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -824,6 +824,7 @@ Fields:
 					fw.TWriter = &TWriter{}
 					*fw.TWriter = *BerSlWriter
 					fw.TWriter.Type = fld.Type
+					fw.TWriter.WriteAuto = fw.TWriter.Write
 				default:
 					log.Panicf("Could not apply 'ber' for array [%d]%+v", fld.Type.Len(), fld.Type.Elem())
 				}
-- 
2.43.0


From 53946534437818408c62536962e6170dc581e093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:19 +0000
Subject: [PATCH 20/87] fix: Float64sl writes eight bytes per element

---
 marshal/writer_any.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/writer_any.go b/marshal/writer_any.go
index 775f75f..26a7a8c 100644
--- a/marshal/writer_any.go
+++ b/marshal/writer_any.go
@@ -113,7 +113,7 @@ func (w *Writer) Float32sl(i []float32) {
 func (w *Writer) Float64sl(i []float64) {
 	l := w.ensure(len(i) * 8)
 	for j := 0; j < len(i); j++ {
-		le.PutUint64(w.buf[l+j*4:], math.Float64bits(i[j]))
+		le.PutUint64(w.buf[l+j*8:], math.Float64bits(i[j]))
 	}
 	return
 }
-- 
2.43.0


From 132dc03d27a3176daa17300d93faf6ecf98b9484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:21 +0000
Subject: [PATCH 21/87] fix: the size of the variable-length number 128 and its
 like is one byte more

---
 marshal/marshal.go | 2 +-
 marshal/writer.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/marshal/marshal.go b/marshal/marshal.go
index 355dac9..6282e78 100644
--- a/marshal/marshal.go
+++ b/marshal/marshal.go
@@ -153,7 +153,7 @@ var tfloat64 = reflect.TypeOf(float64(0))
 const gg = 2*1024*1024*1024 - 1
 
 func Varsize(i int) (j int) {
-	for j = 0; i > 1<<7; j++ {
+	for j = 0; i >= 1<<7; j++ {
 		i >>= 7
 	}
 	return j + 1
diff --git a/marshal/writer.go b/marshal/writer.go
index 4d6c993..4cf490c 100644
--- a/marshal/writer.go
+++ b/marshal/writer.go
@@ -79,7 +79,7 @@ func (w *Writer) Int8(i int8) {
 }
 
 func varu64size(i uint64) (j int) {
-	for j = 0; i > 1<<7; j++ {
+	for j = 0; i >= 1<<7; j++ {
 		i >>= 7
 	}
 	return j + 1
-- 
2.43.0


From 4ccc60160d765d4f4856d1c30a978e584fa03f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:04 +0000
Subject: [PATCH 22/87] fix: slices of numbers and named byte strings can be
 read from the rest of the body

---
 marshal/reader.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/marshal/reader.go b/marshal/reader.go
index b76a066..04c76d2 100644
--- a/marshal/reader.go
+++ b/marshal/reader.go
@@ -239,10 +239,7 @@ func (r *Reader) Uint8slValTail(v reflect.Value) {
 		return
 	}
 	if v.CanAddr() {
-		//l := len(r.Body)
-		//v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
-		p := v.Addr().Interface().(*[]byte)
-		*p = r.Tail()
+		v.SetBytes(r.Tail())
 	} else {
 		r.Uint8slVal(v)
 	}
@@ -254,7 +251,7 @@ func (r *Reader) Uint16slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 2
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Uint16slVal(v)
 }
@@ -265,7 +262,7 @@ func (r *Reader) Uint32slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 4
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Uint32slVal(v)
 }
@@ -276,7 +273,7 @@ func (r *Reader) Uint64slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 8
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Uint64slVal(v)
 }
@@ -287,7 +284,7 @@ func (r *Reader) Int8slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body)
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Int8slVal(v)
 }
@@ -298,7 +295,7 @@ func (r *Reader) Int16slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 2
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Int16slVal(v)
 }
@@ -309,7 +306,7 @@ func (r *Reader) Int32slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 4
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Int32slVal(v)
 }
@@ -320,7 +317,7 @@ func (r *Reader) Int64slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 8
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Int64slVal(v)
 }
@@ -331,7 +328,7 @@ func (r *Reader) Float32slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 4
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Float32slVal(v)
 }
@@ -342,7 +339,7 @@ func (r *Reader) Float64slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 8
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Float64slVal(v)
 }
-- 
2.43.0


From 384451a48d0dde1736ac3ad891b550ede9f40233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:06 +0000
Subject: [PATCH 23/87] fix: a pointer is read from the rest of the body unless
 there was an error

---
 marshal/reader_reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index b108729..12a9c59 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -776,7 +776,7 @@ func (t *TReader) FillPtr() {
 		}
 	}
 	t.Tail = func(r *Reader, v reflect.Value) {
-		if r.Err == nil {
+		if r.Err != nil {
 			return
 		}
 		if len(r.Body) > 0 {
-- 
2.43.0


From af9cf39c96bf0788d760babeafcf4b2ba767fca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:08 +0000
Subject: [PATCH 24/87] fix: a pointer to a variable-length number can be read

---
 marshal/reader_reflect.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 12a9c59..caa7181 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1159,10 +1159,13 @@ Fields:
 				switch fld.Type.Elem().Kind() {
 				case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 					fr.TReader = &TReader{
-						Elem: BerReader,
+						Type: fld.Type,
+						Elem: &TReader{},
 						Sz:   -1,
 						Cnt:  -1,
 					}
+					*fr.TReader.Elem = *BerReader
+					fr.TReader.Elem.Type = fld.Type.Elem()
 					fr.TReader.FillPtr()
 					fr.TReader.fillautotail()
 				default:
-- 
2.43.0


From fbb246181289a28fe287b0111f35e962b0ea81bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:30 +0000
Subject: [PATCH 25/87] fix: contents of interfaces are read and written with
 their counts, in fields and in lists alike

---
 marshal/reader_reflect.go | 3 +++
 marshal/writer_reflect.go | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index caa7181..65d7770 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -547,6 +547,9 @@ func (t *TReader) fillautotail() {
 	if t.Tail == nil {
 		t.Tail = t.Fixed
 	}
+	if t.Auto != nil {
+		return
+	}
 	if t.CntSet != nil {
 		t.Auto = func(r *Reader, v reflect.Value) {
 			t.WithCount(r, v, (*Reader).IntUint32)
diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index a164750..dfd8825 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -584,7 +584,7 @@ func (t *TWriter) FillArray() {
 				}
 				el := v.Index(i).Elem()
 				tt := WriterFor(el.Type())
-				tt.Write(w, el)
+				tt.WriteAuto(w, el)
 			}
 		}
 	}
@@ -645,7 +645,7 @@ func (t *TWriter) FillSlice() {
 				}
 				el := v.Index(i).Elem()
 				tt := WriterFor(el.Type())
-				tt.Write(w, el)
+				tt.WriteAuto(w, el)
 			}
 		}
 	}
-- 
2.43.0


From 43bf994abc5386145f64d51039f97f07e622abb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:32 +0000
Subject: [PATCH 26/87] fix: what a pointer pointed to is read back with its
 count into a new value

---
 marshal/reader_reflect.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 65d7770..819aa25 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -778,6 +778,18 @@ func (t *TReader) FillPtr() {
 			t.Elem.Fixed(r, v.Elem())
 		}
 	}
+	t.Auto = func(r *Reader, v reflect.Value) {
+		if r.Err != nil {
+			return
+		}
+		if v.IsNil() {
+			if !v.CanSet() {
+				return
+			}
+			v.Set(reflect.New(t.Elem.Type))
+		}
+		t.Elem.Auto(r, v.Elem())
+	}
 	t.Tail = func(r *Reader, v reflect.Value) {
 		if r.Err != nil {
 			return
-- 
2.43.0


From e1a1edfbae7ccb5bf6a503ece9aab6f7181229cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:33 +0000
Subject: [PATCH 27/87] fix: a negative size must not crash the reader

---
 marshal/reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marshal/reader.go b/marshal/reader.go
index 04c76d2..d1903e9 100644
--- a/marshal/reader.go
+++ b/marshal/reader.go
@@ -133,7 +133,7 @@ func (r *Reader) Slice(sz int) (res []byte) {
 	if r.Err != nil {
 		return
 	}
-	if len(r.Body) < sz {
+	if sz < 0 || len(r.Body) < sz {
 		r.Err = fmt.Errorf("iproto.Reader: not enough data for Slice(%d)", sz)
 		return
 	}
@@ -146,7 +146,7 @@ func (r *Reader) String(sz int) (res string) {
 	if r.Err != nil {
 		return
 	}
-	if len(r.Body) < sz {
+	if sz < 0 || len(r.Body) < sz {
 		r.Err = fmt.Errorf("iproto.Reader: not enough data for Slice(%d)", sz)
 		return
 	}
-- 
2.43.0


From 7d6538049b467015f25fbb0258d876ebe20616af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:35 +0000
Subject: [PATCH 28/87] fix: ISetCount with a pointer receiver is recognised,
 as ICount is

---
 marshal/reader_reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 819aa25..af3c36d 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -605,7 +605,7 @@ func (t *TReader) Fill() {
 				return i.(ISetSizer).ISetSize(i, s)
 			}
 		}
-		if rt.Implements(isetcounter) {
+		if p.Implements(isetcounter) {
 			t.CntSet = func(v reflect.Value, s int) error {
 				i := v.Addr().Interface()
 				return i.(ISetCounter).ISetCount(i, s)
-- 
2.43.0


From 1867771ba2f6e1b033a3440b2697f32ff7ca8393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:36 +0000
Subject: [PATCH 29/87] fix: a variable-length number that does not fit its
 field is an error

---
 marshal/reader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/marshal/reader.go b/marshal/reader.go
index d1903e9..75e8f45 100644
--- a/marshal/reader.go
+++ b/marshal/reader.go
@@ -205,7 +205,12 @@ func (r *Reader) Float64Val(v reflect.Value) {
 }
 
 func (r *Reader) Uint64varVal(v reflect.Value) {
-	v.SetUint(r.Uint64var())
+	i := r.Uint64var()
+	if r.Err == nil && v.OverflowUint(i) {
+		r.Err = fmt.Errorf("iproto.Reader: varint %d is too big for %+v", i, v.Type())
+		return
+	}
+	v.SetUint(i)
 }
 
 func (r *Reader) Uint8slVal(v reflect.Value) {
-- 
2.43.0


From 1ba01278f9be3a5d160e25e4f81c361135e26759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:38 +0000
Subject: [PATCH 30/87] fix: ReadWithSize reads the size of every type and
 reports one that does not match

---
 marshal/reader_reflect.go | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index af3c36d..86384a9 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -195,53 +195,60 @@ func (r *Reader) ReadValueFixed(val reflect.Value) error {
 	return r.Err
 }
 
+func (r *Reader) sizeIs(should int, rs func(*Reader) int) bool {
+	if sz := rs(r); r.Err == nil && sz != should {
+		r.Err = fmt.Errorf("Size mismatch: read %d and should %d", sz, should)
+	}
+	return r.Err == nil
+}
+
 func (r *Reader) ReadWithSize(i interface{}, rs func(*Reader) int) error {
 	if r.Err != nil {
 		return r.Err
 	}
 	switch o := i.(type) {
 	case *int8:
-		if sz := rs(r); sz == 1 {
+		if r.sizeIs(1, rs) {
 			*o = r.Int8()
 		}
 	case *uint8:
-		if sz := rs(r); sz == 1 {
+		if r.sizeIs(1, rs) {
 			*o = r.Uint8()
 		}
 	case *int16:
-		if sz := rs(r); sz == 2 {
+		if r.sizeIs(2, rs) {
 			*o = r.Int16()
 		}
 	case *uint16:
-		if sz := rs(r); sz == 2 {
+		if r.sizeIs(2, rs) {
 			*o = r.Uint16()
 		}
 	case *int32:
-		if sz := rs(r); sz == 4 {
+		if r.sizeIs(4, rs) {
 			*o = r.Int32()
 		}
 	case *uint32:
-		if sz := rs(r); sz == 4 {
+		if r.sizeIs(4, rs) {
 			*o = r.Uint32()
 		}
 	case *int64:
-		if sz := rs(r); sz == 8 {
+		if r.sizeIs(8, rs) {
 			*o = r.Int64()
 		}
 	case *uint64:
-		if sz := rs(r); sz == 8 {
+		if r.sizeIs(8, rs) {
 			*o = r.Uint64()
 		}
 	case *float32:
-		if sz := rs(r); sz == 4 {
+		if r.sizeIs(4, rs) {
 			*o = r.Float32()
 		}
 	case *float64:
-		if sz := rs(r); sz == 8 {
+		if r.sizeIs(8, rs) {
 			*o = r.Float64()
 		}
 	case []byte:
-		if sz := rs(r); sz == len(o) {
+		if r.sizeIs(len(o), rs) {
 			r.Uint8sl(o)
 		}
 	case *[]byte:
@@ -257,11 +264,11 @@ func (r *Reader) ReadWithSize(i interface{}, rs func(*Reader) int) error {
 			val = val.Elem()
 			rt := val.Type()
 			rd := ReaderFor(rt)
-			rd.Auto(r, val)
+			rd.WithSize(r, val, rs)
 		} else {
 			rt := val.Type()
 			rd := ReaderFor(rt)
-			rd.Fixed(r, val)
+			rd.WithSize(r, val, rs)
 		}
 	}
 	return r.Err
-- 
2.43.0


From 24bf7ca1ae1db662e8c8e98f0137c6cfef384585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:39 +0000
Subject: [PATCH 31/87] fix: WriteWithSize of nil writes its size, zero

---
 marshal/writer_reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index dfd8825..0cd89f4 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -170,7 +170,7 @@ func (w *Writer) WriteTail(i interface{}) {
 func (w *Writer) WriteWithSize(i interface{}, ws func(*Writer, int)) {
 	switch o := i.(type) {
 	case nil:
-		return
+		ws(w, 0)
 	case uint8:
 		ws(w, 1)
 		w.Uint8(o)
-- 
2.43.0


From 21fcc3d1e422b06495190aee6bdde8261833d375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:46 +0000
Subject: [PATCH 32/87] fix: a value that writes itself by its address need not
 be addressable

---
 marshal/writer_reflect.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 0cd89f4..2fe263e 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -371,6 +371,16 @@ func (t *TWriter) fillauto() {
 	}
 }
 
+// addr returns the address of v, or of a copy of it, if it has none
+func addr(v reflect.Value) reflect.Value {
+	if v.CanAddr() {
+		return v.Addr()
+	}
+	p := reflect.New(v.Type())
+	p.Elem().Set(v)
+	return p
+}
+
 func (t *TWriter) Fill() {
 	defer t.fillauto()
 	rt := t.Type
@@ -396,18 +406,18 @@ func (t *TWriter) Fill() {
 	} else if p := reflect.PtrTo(rt); p.Implements(iwriter) {
 		t.Implements = true
 		t.Write = func(w *Writer, v reflect.Value) {
-			i := v.Addr().Interface()
+			i := addr(v).Interface()
 			i.(IWriter).IWrite(i, w)
 		}
 		if p.Implements(isizer) {
 			t.SzGet = func(v reflect.Value) int {
-				i := v.Addr().Interface()
+				i := addr(v).Interface()
 				return i.(ISizer).ISize(i)
 			}
 		}
 		if p.Implements(icounter) {
 			t.CntGet = func(v reflect.Value) int {
-				i := v.Addr().Interface()
+				i := addr(v).Interface()
 				return i.(ICounter).ICount(i)
 			}
 		}
@@ -432,16 +442,16 @@ func (t *TWriter) Fill() {
 	} else if p := reflect.PtrTo(rt); p.Implements(ishortwriter) {
 		t.Implements = true
 		t.Write = func(w *Writer, v reflect.Value) {
-			v.Addr().Interface().(IShortWriter).IWrite(w)
+			addr(v).Interface().(IShortWriter).IWrite(w)
 		}
 		if p.Implements(ishortsizer) {
 			t.SzGet = func(v reflect.Value) int {
-				return v.Addr().Interface().(IShortSizer).ISize()
+				return addr(v).Interface().(IShortSizer).ISize()
 			}
 		}
 		if p.Implements(ishortcounter) {
 			t.CntGet = func(v reflect.Value) int {
-				i := v.Addr().Interface()
+				i := addr(v).Interface()
 				return i.(IShortCounter).ICount()
 			}
 		}
-- 
2.43.0


From a60400b0dd8b040529fea46deb251d0c29555555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:48 +0000
Subject: [PATCH 33/87] fix: the size and count of a pointer that writes
 itself, and of a pointer to a pointer

---
 marshal/writer_reflect.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 2fe263e..10742e7 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -281,8 +281,9 @@ func (t *TWriter) Size(v reflect.Value) int {
 		if v.IsNil() {
 			return 0
 		}
-		t = t.Elem
-		v = v.Elem()
+		if t.Elem != nil {
+			return t.Elem.Size(v.Elem())
+		}
 	case reflect.Interface:
 		if v.IsNil() {
 			return 0
@@ -329,8 +330,9 @@ func (t *TWriter) Count(v reflect.Value) int {
 		if v.IsNil() {
 			return 0
 		}
-		t = t.Elem
-		v = v.Elem()
+		if t.Elem != nil {
+			return t.Elem.Count(v.Elem())
+		}
 	case reflect.Interface:
 		if v.IsNil() {
 			return 0
-- 
2.43.0


From c6f1996288d5864e82dfd37596ae4695e2fe23eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:08 +0000
Subject: [PATCH 34/87] fix: a nil pointer to a value that reads and writes
 itself is treated as any nil pointer

---
 marshal/reader_reflect.go | 8 +++++---
 marshal/writer_reflect.go | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 86384a9..e3a923c 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -569,6 +569,11 @@ func (t *TReader) fillautotail() {
 func (t *TReader) Fill() {
 	defer t.fillautotail()
 	rt := t.Type
+	if rt.Kind() == reflect.Ptr {
+		t.Elem = _reader(rt.Elem())
+		t.FillPtr()
+		return
+	}
 	if rt.Implements(ireader) {
 		t.Implements = true
 		t.Fixed = func(r *Reader, v reflect.Value) {
@@ -742,9 +747,6 @@ func (t *TReader) Fill() {
 		t.Fixed = func(r *Reader, v reflect.Value) {
 			v.SetFloat(r.Float64())
 		}
-	case reflect.Ptr:
-		t.Elem = _reader(rt.Elem())
-		t.FillPtr()
 	case reflect.Array:
 		t.Elem = _reader(rt.Elem())
 		t.FillArray()
diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 10742e7..da3e172 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -386,6 +386,11 @@ func addr(v reflect.Value) reflect.Value {
 func (t *TWriter) Fill() {
 	defer t.fillauto()
 	rt := t.Type
+	if rt.Kind() == reflect.Ptr {
+		t.Elem = _writer(rt.Elem())
+		t.FillPtr()
+		return
+	}
 	if rt.Implements(iwriter) {
 		t.Implements = true
 		t.Write = func(w *Writer, v reflect.Value) {
@@ -505,9 +510,6 @@ func (t *TWriter) Fill() {
 		t.Write = (*Writer).Float64Val
 		t.Sz = 8
 		t.Cnt = 1
-	case reflect.Ptr:
-		t.Elem = _writer(rt.Elem())
-		t.FillPtr()
 	case reflect.Array:
 		t.Elem = _writer(rt.Elem())
 		t.FillArray()
-- 
2.43.0


From d67c3a310814a8b4d2554947c538274fe6fa1fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:17 +0000
Subject: [PATCH 35/87] fix: a size or count for an interface that holds
 nothing must not crash the reader

---
 marshal/reader_reflect.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index e3a923c..564c625 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -416,6 +416,9 @@ func (t *TReader) SetSize(v reflect.Value, sz int) (bool, error) {
 			return true, nil
 		} else {
 			if v.IsNil() {
+				if !v.CanSet() {
+					return false, fmt.Errorf("Could not read size %d into nil %+v", sz, t.Type)
+				}
 				v.Set(reflect.New(t.Elem.Type))
 			}
 			return t.Elem.SetSize(v.Elem(), sz)
@@ -424,14 +427,18 @@ func (t *TReader) SetSize(v reflect.Value, sz int) (bool, error) {
 		if sz == 0 {
 			if !v.IsNil() {
 				if v.CanSet() {
-					v.Set(reflect.ValueOf(nil))
+					v.Set(reflect.Zero(t.Type))
 				} else {
 					el := v.Elem()
 					rd := ReaderFor(el.Type())
 					return rd.SetSize(el, sz)
 				}
 			}
+			return true, nil
 		} else {
+			if v.IsNil() {
+				return false, fmt.Errorf("Could not read size %d into nil %+v", sz, t.Type)
+			}
 			el := v.Elem()
 			rd := ReaderFor(el.Type())
 			return rd.SetSize(el, sz)
@@ -492,7 +499,9 @@ func (t *TReader) SetCount(v reflect.Value, cnt int) error {
 			return nil
 		} else {
 			if v.IsNil() {
-				/* TODO: give a more meaningful panic message than builtin */
+				if !v.CanSet() {
+					return fmt.Errorf("Could not read count %d into nil %+v", cnt, t.Type)
+				}
 				v.Set(reflect.New(t.Elem.Type))
 			}
 			return t.Elem.SetCount(v.Elem(), cnt)
@@ -501,14 +510,18 @@ func (t *TReader) SetCount(v reflect.Value, cnt int) error {
 		if cnt == 0 {
 			if !v.IsNil() {
 				if v.CanSet() {
-					v.Set(reflect.ValueOf(nil))
+					v.Set(reflect.Zero(t.Type))
 				} else {
 					el := v.Elem()
 					rd := ReaderFor(el.Type())
 					return rd.SetCount(el, cnt)
 				}
 			}
+			return nil
 		} else {
+			if v.IsNil() {
+				return fmt.Errorf("Could not read count %d into nil %+v", cnt, t.Type)
+			}
 			el := v.Elem()
 			rd := ReaderFor(el.Type())
 			return rd.SetCount(el, cnt)
-- 
2.43.0


From fb356013650796b3b17c6693d605398053c861de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:18 +0000
Subject: [PATCH 36/87] fix: strings and byte slices can be read with a count
 through pointers and interfaces

---
 marshal/reader_reflect.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 564c625..061559c 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -546,7 +546,22 @@ func (t *TReader) WithCount(r *Reader, v reflect.Value, cntrd func(*Reader) int)
 	if cntrd == nil {
 		cntrd = (*Reader).IntUint32
 	}
-	cnt := cntrd(r)
+	t.withCount(r, v, cntrd(r))
+}
+
+func (t *TReader) withCount(r *Reader, v reflect.Value, cnt int) {
+	if k := t.Type.Kind(); (k == reflect.Ptr || k == reflect.Interface) && cnt != 0 && !v.IsNil() {
+		el, rd := v.Elem(), t.Elem
+		if k == reflect.Interface {
+			rd = ReaderFor(el.Type())
+		}
+		rd.withCount(r, el, cnt)
+		return
+	} else if k == reflect.Ptr && cnt != 0 && v.CanSet() {
+		v.Set(reflect.New(t.Elem.Type))
+		t.Elem.withCount(r, v.Elem(), cnt)
+		return
+	}
 	if t.AutoCount != nil {
 		t.AutoCount(r, v, cnt)
 		return
-- 
2.43.0


From 13cd88fa4c8d62eaf112e6b920db5d7cd08a4104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:20 +0000
Subject: [PATCH 37/87] fix: a count or size larger than the input is an error
 before memory is reserved for it

---
 marshal/reader_reflect.go | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 061559c..f141b8d 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -464,6 +464,12 @@ func (t *TReader) WithSize(r *Reader, v reflect.Value, szrd func(*Reader) int) {
 		szrd = (*Reader).IntUint32
 	}
 	sz := szrd(r)
+	if r.Err == nil && (sz < 0 || sz > len(r.Body)) {
+		r.Err = fmt.Errorf("Not enough data to read size %d into %+v", sz, t.Type)
+	}
+	if r.Err != nil {
+		return
+	}
 	if t.AutoSize != nil {
 		t.AutoSize(r, v, sz)
 		return
@@ -546,7 +552,14 @@ func (t *TReader) WithCount(r *Reader, v reflect.Value, cntrd func(*Reader) int)
 	if cntrd == nil {
 		cntrd = (*Reader).IntUint32
 	}
-	t.withCount(r, v, cntrd(r))
+	cnt := cntrd(r)
+	if r.Err == nil && cnt < 0 {
+		r.Err = fmt.Errorf("Count is too big to read into %+v", t.Type)
+	}
+	if r.Err != nil {
+		return
+	}
+	t.withCount(r, v, cnt)
 }
 
 func (t *TReader) withCount(r *Reader, v reflect.Value, cnt int) {
@@ -566,6 +579,10 @@ func (t *TReader) withCount(r *Reader, v reflect.Value, cnt int) {
 		t.AutoCount(r, v, cnt)
 		return
 	}
+	if t.CntSet != nil && t.Elem != nil && t.Elem.Sz > 0 && cnt > len(r.Body)/t.Elem.Sz {
+		r.Err = fmt.Errorf("Not enough data to read count %d into %+v", cnt, t.Type)
+		return
+	}
 	if err := t.SetCount(v, cnt); err != nil {
 		r.Err = err
 		return
@@ -980,6 +997,24 @@ func (t *TReader) FillSlice() {
 		}
 	}
 
+	if t.Elem.Sz < 0 {
+		t.AutoCount = func(r *Reader, v reflect.Value, cnt int) {
+			n := cnt
+			if l := len(r.Body); n > l && n != v.Len() {
+				/* do not trust the count while there is less data */
+				n = l
+			}
+			if r.Err = t.CntSet(v, n); r.Err != nil {
+				return
+			}
+			t.Fixed(r, v)
+			for ; n < cnt && r.Err == nil; n++ {
+				v.Set(reflect.Append(v, reflect.Zero(t.Elem.Type)))
+				t.Elem.Auto(r, v.Index(n))
+			}
+		}
+	}
+
 	t.Tail = func(r *Reader, v reflect.Value) {
 		if !v.CanSet() {
 			l := v.Len()
-- 
2.43.0


From 5d0d2e62ed623ce64a7e728db53d661a70bc0832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:22 +0000
Subject: [PATCH 38/87] fix: a size that does not match the elements, and one
 for a slice that cannot be set, is an error

---
 marshal/reader_reflect.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index f141b8d..85ecab5 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -474,12 +474,12 @@ func (t *TReader) WithSize(r *Reader, v reflect.Value, szrd func(*Reader) int) {
 		t.AutoSize(r, v, sz)
 		return
 	}
-	if ok, err := t.SetSize(v, sz); ok {
-		t.Fixed(r, v)
-		return
-	} else if err != nil {
+	if ok, err := t.SetSize(v, sz); err != nil {
 		r.Err = err
 		return
+	} else if ok {
+		t.Fixed(r, v)
+		return
 	}
 	rr := Reader{Body: r.Slice(sz), Err: r.Err}
 	was := rr.Body
@@ -918,6 +918,9 @@ func (t *TReader) FillArray() {
 func (t *TReader) FillSlice() {
 	t.CntSet = func(v reflect.Value, cnt int) error {
 		if v.Len() != cnt {
+			if !v.CanSet() {
+				return fmt.Errorf("Could not read count %d into not setable %+v of %d", cnt, t.Type, v.Len())
+			}
 			v.Set(reflect.MakeSlice(t.Type, cnt, cnt))
 		}
 		return nil
@@ -925,13 +928,11 @@ func (t *TReader) FillSlice() {
 	if t.Elem.Sz > 0 {
 		t.SzSet = func(v reflect.Value, sz int) (bool, error) {
 			cnt := sz / t.Elem.Sz
-			if v.Len() != cnt {
-				v.Set(reflect.MakeSlice(t.Type, cnt, cnt))
+			if sz%t.Elem.Sz != 0 {
+				return false, fmt.Errorf("Size %d is not a multiple of %d for %+v", sz, t.Elem.Sz, t.Type)
 			}
-			return true, nil
+			return true, t.CntSet(v, cnt)
 		}
-	} else if t.Elem.Sz == 0 {
-		t.Sz = 0
 	}
 	if !t.Elem.Implements {
 		switch t.Elem.Type.Kind() {
-- 
2.43.0


From 750b2ad2e07970e36de3ca5ecea14ab3a1f57dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:37 +0000
Subject: [PATCH 39/87] fix: reading elements without bytes from the rest of
 the body must end

---
 marshal/reader_reflect.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 85ecab5..ba629d6 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1035,7 +1035,11 @@ func (t *TReader) FillSlice() {
 				v.Set(reflect.Append(v, z))
 				c = v.Cap()
 			}
+			was := len(r.Body)
 			t.Elem.Auto(r, v.Index(l-1))
+			if r.Err == nil && len(r.Body) == was {
+				r.Err = fmt.Errorf("Elements of %+v do not use the data [% x]", t.Type, r.Body)
+			}
 		}
 	}
 }
-- 
2.43.0


From be348e835cccf77b1cd2fcde058857a3c4ce9442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:39 +0000
Subject: [PATCH 40/87] fix: Read of a slice checks the count before memory is
 reserved for it

---
 marshal/reader_reflect.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index ba629d6..5c48476 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -59,7 +59,7 @@ func (r *Reader) Read(i interface{}) error {
 			*o = r.String(int(count))
 		}
 	case *[]int8:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.count(1); r.Err == nil {
 			*o = make([]int8, count)
 			r.Int8sl(*o)
 		}
@@ -68,42 +68,42 @@ func (r *Reader) Read(i interface{}) error {
 			*o = r.Slice(int(count))
 		}
 	case *[]int16:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.count(2); r.Err == nil {
 			*o = make([]int16, count)
 			r.Int16sl(*o)
 		}
 	case *[]uint16:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.count(2); r.Err == nil {
 			*o = make([]uint16, count)
 			r.Uint16sl(*o)
 		}
 	case *[]int32:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.count(4); r.Err == nil {
 			*o = make([]int32, count)
 			r.Int32sl(*o)
 		}
 	case *[]uint32:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.count(4); r.Err == nil {
 			*o = make([]uint32, count)
 			r.Uint32sl(*o)
 		}
 	case *[]int64:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.count(8); r.Err == nil {
 			*o = make([]int64, count)
 			r.Int64sl(*o)
 		}
 	case *[]uint64:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.count(8); r.Err == nil {
 			*o = make([]uint64, count)
 			r.Uint64sl(*o)
 		}
 	case *[]float32:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.count(4); r.Err == nil {
 			*o = make([]float32, count)
 			r.Float32sl(*o)
 		}
 	case *[]float64:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.count(8); r.Err == nil {
 			*o = make([]float64, count)
 			r.Float64sl(*o)
 		}
@@ -175,6 +175,15 @@ func (r *Reader) Read(i interface{}) error {
 	return r.Err
 }
 
+// count reads a count of elements of sz bytes
+func (r *Reader) count(sz int) uint32 {
+	count := r.Uint32()
+	if r.Err == nil && uint64(count) > uint64(len(r.Body)/sz) {
+		r.Err = fmt.Errorf("iproto.Reader: not enough data for %d elements", count)
+	}
+	return count
+}
+
 func (r *Reader) ReadValueAuto(val reflect.Value) error {
 	if r.Err != nil {
 		return r.Err
-- 
2.43.0


From 609e0649b14117b19211f8e3be4cf988775128de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:09 +0000
Subject: [PATCH 41/87] fix: reading a list skips its nil elements, as writing
 does

---
 marshal/reader_reflect.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 5c48476..3fb7c17 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -14,6 +14,8 @@ func (r *Reader) Read(i interface{}) error {
 	}
 	var count uint32
 	switch o := i.(type) {
+	case nil:
+		return nil
 	case *int8:
 		*o = r.Int8()
 	case *uint8:
-- 
2.43.0


From 27801ed7961d7b69a9bacb43892d33e00c9e2d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:41 +0000
Subject: [PATCH 42/87] fix: a struct with a variable-length size or count has
 no fixed size for the reader

---
 marshal/reader_reflect.go | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 3fb7c17..e9d8e98 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1127,11 +1127,8 @@ Fields:
 				t := m[5 : len(m)-1]
 				switch t {
 				case "ber":
-					if fr.Sz < 0 {
-						size = -1
-					} else if size >= 0 {
-						size += Varsize(fr.Sz)
-					}
+					/* leading zeroes of a number are accepted, so its width may differ */
+					size = -1
 					fr.SzRd = (*Reader).Intvar
 				case "i8":
 					if size >= 0 {
@@ -1168,11 +1165,7 @@ Fields:
 				t := m[4 : len(m)-1]
 				switch t {
 				case "ber":
-					if fr.Cnt < 0 {
-						size = -1
-					} else if size >= 0 {
-						size += Varsize(fr.Cnt)
-					}
+					size = -1
 					fr.CntRd = (*Reader).Intvar
 				case "i8":
 					if size >= 0 {
-- 
2.43.0


From 2afb5184d0d9ee703e4ce7bdbb1c4415fd725d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:50 +0000
Subject: [PATCH 43/87] fix: tuples with tails are written with all elements of
 the tail

---
 sbox/writer.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sbox/writer.go b/sbox/writer.go
index 54a7b48..f2d645c 100644
--- a/sbox/writer.go
+++ b/sbox/writer.go
@@ -175,7 +175,7 @@ func (sw *TWriter) structCnt(v reflect.Value) int {
 		return len(flds) - 1 + v.Field(flds[len(flds)-1].I).Len()
 	case TailSplit:
 		last := flds[len(flds)-1]
-		return len(flds) - 1 + v.Field(last.I).Len()*len(last.TWriter.Flds)
+		return len(flds) - 1 + v.Field(last.I).Len()*len(last.Elem.Flds)
 	}
 	return 0
 }
@@ -195,22 +195,22 @@ func (sw *TWriter) structWriter(w *marshal.Writer, v reflect.Value) {
 	case NoTail:
 	case Tail:
 		fs := &flds[n]
-		fv := v.Field(n)
+		fv := v.Field(fs.I)
 		l := fv.Len()
 		for i := 0; i < l; i++ {
 			val := fv.Index(i)
-			fs.WithSize(w, val, (*marshal.Writer).Intvar)
+			fs.Elem.WithSize(w, val, (*marshal.Writer).Intvar)
 		}
 	case TailSplit:
 		fs := &flds[n]
-		fv := v.Field(n)
+		fv := v.Field(fs.I)
 		l := fv.Len()
-		fss := fs.TWriter.Flds
+		fss := fs.Elem.Flds
 		fl := len(fss)
 		for i := 0; i < l; i++ {
 			str := fv.Index(i)
 			for j := 0; j < fl; j++ {
-				fss[i].WithSize(w, str.Field(i), (*marshal.Writer).Intvar)
+				fss[j].WithSize(w, str.Field(fss[j].I), (*marshal.Writer).Intvar)
 			}
 		}
 	}
-- 
2.43.0


From 18207363b075257d6346bd72c870033bcd2f24ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:52 +0000
Subject: [PATCH 44/87] fix: tails of tuples are read

---
 marshal/reader_reflect.go |  2 +-
 sbox/reader.go            | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index e9d8e98..bed67e8 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1109,7 +1109,7 @@ Fields:
 		if nosize {
 			log.Panicf("Only last field could be marked as size(no) or cnt(no) %+v", rt)
 		}
-		fr := FieldReader{I: i}
+		fr := FieldReader{I: i, Tag: fld.Tag}
 		ipro := fld.Tag.Get("iproto")
 		var ber bool
 
diff --git a/sbox/reader.go b/sbox/reader.go
index 58b2c54..90cb41b 100644
--- a/sbox/reader.go
+++ b/sbox/reader.go
@@ -240,7 +240,7 @@ func (sw *TReader) structAuto(r *marshal.Reader, v reflect.Value) {
 		tail := l - len(flds) + 1
 		last := flds[len(flds)-1]
 		if sw.Tail == TailSplit {
-			llast := len(last.Flds)
+			llast := len(last.Elem.Flds)
 			tail /= llast
 		}
 		last.TReader.SetCount(v.Field(last.I), tail)
@@ -265,22 +265,22 @@ func (sw *TReader) structRead(r *marshal.Reader, k int, v reflect.Value) {
 	case NoTail:
 	case Tail:
 		fs := &flds[n]
-		fv := v.Field(n)
+		fv := v.Field(fs.I)
 		l := fv.Len()
 		for i := 0; i < l && n+i < k; i++ {
 			val := fv.Index(i)
-			fs.WithSize(r, val, (*marshal.Reader).Intvar)
+			fs.Elem.WithSize(r, val, (*marshal.Reader).Intvar)
 		}
 	case TailSplit:
 		fs := &flds[n]
-		fv := v.Field(n)
+		fv := v.Field(fs.I)
 		l := fv.Len()
-		fss := fs.TReader.Flds
+		fss := fs.Elem.Flds
 		fl := len(fss)
 		for i := 0; i < l; i++ {
 			str := fv.Index(i)
 			for j := 0; j < fl && n+i*fl+j < k; j++ {
-				fss[i].WithSize(r, str.Field(i), (*marshal.Reader).Intvar)
+				fss[j].WithSize(r, str.Field(fss[j].I), (*marshal.Reader).Intvar)
 			}
 		}
 	}
-- 
2.43.0


From 597153627353d880afa73e855e6390a094ab4565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:53 +0000
Subject: [PATCH 45/87] fix: a tuple with more fields than there are elements
 to read into must not crash

---
 sbox/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbox/reader.go b/sbox/reader.go
index 90cb41b..fd45397 100644
--- a/sbox/reader.go
+++ b/sbox/reader.go
@@ -86,7 +86,7 @@ type TReader struct {
 
 func (t *TReader) sliceFixed(r *marshal.Reader, v reflect.Value) {
 	if l := r.IntUint32(); l >= v.Len() {
-		for i := 0; i < l; i++ {
+		for i, l := 0, v.Len(); i < l; i++ {
 			t.Reader.Elem.WithSize(r, v.Index(i), (*marshal.Reader).Intvar)
 		}
 	} else {
-- 
2.43.0


From a5f23b7e8ac67786f9e373bc37231e295109f987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:54 +0000
Subject: [PATCH 46/87] fix: the field count of a tuple is checked before
 memory is reserved for them

---
 sbox/reader.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/sbox/reader.go b/sbox/reader.go
index fd45397..4b4dfca 100644
--- a/sbox/reader.go
+++ b/sbox/reader.go
@@ -84,6 +84,18 @@ type TReader struct {
 	Tail   TailType
 }
 
+// fieldCount reads the number of fields, each of which takes a byte at least
+func fieldCount(r *marshal.Reader) int {
+	l := r.IntUint32()
+	if r.Err == nil && l > len(r.Body) {
+		r.Err = fmt.Errorf("Wrong field count: %d fields in %d bytes", l, len(r.Body))
+	}
+	if r.Err != nil {
+		return 0
+	}
+	return l
+}
+
 func (t *TReader) sliceFixed(r *marshal.Reader, v reflect.Value) {
 	if l := r.IntUint32(); l >= v.Len() {
 		for i, l := 0, v.Len(); i < l; i++ {
@@ -95,7 +107,7 @@ func (t *TReader) sliceFixed(r *marshal.Reader, v reflect.Value) {
 }
 
 func (t *TReader) sliceAuto(r *marshal.Reader, v reflect.Value) {
-	l := r.IntUint32()
+	l := fieldCount(r)
 	if v.CanSet() {
 		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	} else if l < v.Len() {
@@ -223,7 +235,7 @@ func (sw *TReader) structAuto(r *marshal.Reader, v reflect.Value) {
 		sw.structFixed(r, v)
 		return
 	}
-	l := r.IntUint32()
+	l := fieldCount(r)
 	flds := sw.Reader.Flds
 	switch sw.Tail {
 	/*case NoTail:
@@ -243,7 +255,12 @@ func (sw *TReader) structAuto(r *marshal.Reader, v reflect.Value) {
 			llast := len(last.Elem.Flds)
 			tail /= llast
 		}
-		last.TReader.SetCount(v.Field(last.I), tail)
+		if err := last.TReader.SetCount(v.Field(last.I), tail); err != nil && r.Err == nil {
+			r.Err = err
+		}
+	}
+	if r.Err != nil {
+		return
 	}
 	sw.structRead(r, l, v)
 }
-- 
2.43.0


From 09de0aa075a57c59b529b37ee68b440d39046ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:55 +0000
Subject: [PATCH 47/87] fix: a truncated tuple or result is always reported

---
 sbox/reader.go | 4 +++-
 sbox/result.go | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/sbox/reader.go b/sbox/reader.go
index 4b4dfca..8f2af9a 100644
--- a/sbox/reader.go
+++ b/sbox/reader.go
@@ -30,7 +30,9 @@ func ReadSizedTuple(r *marshal.Reader, i interface{}) error {
 	sz := r.IntUint32()
 	if r.Err == nil {
 		rd := marshal.Reader{Body: r.Slice(sz + 4)}
-		r.Err = ReadRawTuple(&rd, i)
+		if r.Err == nil {
+			r.Err = ReadRawTuple(&rd, i)
+		}
 	}
 	return r.Err
 }
diff --git a/sbox/result.go b/sbox/result.go
index b90b9ac..fdaf874 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -29,12 +29,15 @@ Got:
 		sz := r[0].IntUint32()
 		if r[0].Err == nil {
 			r[1].Body = r[0].Slice(sz + 4)
+		}
+		if r[0].Err == nil {
 			err = ReadRawTuple(&r[1], v)
 			read = true
-		} else {
-			err = r[0].Err
 		}
 	}
+	if r[0].Err != nil {
+		err = r[0].Err
+	}
 	atomic.StorePointer(&readerCache, unsafe.Pointer(r))
 	return
 }
-- 
2.43.0


From 8ecab533f4fada03b0708df3dba767a2529cbfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:56 +0000
Subject: [PATCH 48/87] fix: ReadMany reports what it has read, and the errors
 in it

---
 sbox/result.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/sbox/result.go b/sbox/result.go
index fdaf874..1c5d52e 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -1,6 +1,7 @@
 package sbox
 
 import (
+	"fmt"
 	"log"
 	"reflect"
 	"sync/atomic"
@@ -75,8 +76,10 @@ func readInterface(r *[2]marshal.Reader, v reflect.Value, l int) int {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
 			reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
 			reflect.Float32, reflect.Float64, reflect.Struct, reflect.String, reflect.Ptr:
-			oneTuple(r, el, nil)
-			return 1
+			if l > 0 && oneTuple(r, el, nil) == nil {
+				return 1
+			}
+			return 0
 		}
 	case reflect.Array, reflect.Slice:
 		return readFixedArray(r, v, l)
@@ -154,6 +157,13 @@ func readSlice(r *[2]marshal.Reader, v reflect.Value, l int) int {
 		reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
 		reflect.Float32, reflect.Float64, reflect.Struct, reflect.String, reflect.Ptr:
 		rd := reader(tel)
+		if r[0].Err == nil && l > len(r[0].Body)/8 {
+			/* every tuple has a size and a field count */
+			r[0].Err = fmt.Errorf("Wrong tuple count: %d tuples in %d bytes", l, len(r[0].Body))
+		}
+		if r[0].Err != nil {
+			return 0
+		}
 		v.Set(reflect.MakeSlice(v.Type(), l, l))
 		var i int
 		for ; i < l; i++ {
@@ -200,7 +210,6 @@ func oneTuple(r *[2]marshal.Reader, v reflect.Value, rd *TReader) error {
 	if r[1].Err != nil {
 		log.Printf("oneTuple read error: %s %+v [% x]", r[1].Err, v.Interface(), body)
 	}
-	//r[0].Err = r[1].Err
-	//return r[0].Err
-	return nil
+	r[0].Err = r[1].Err
+	return r[0].Err
 }
-- 
2.43.0


From 7ab471ec51cadb9c438e9643a94fff92d59e737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:56 +0000
Subject: [PATCH 49/87] fix: ReadMany reads into lists of values and slices of
 pointers

---
 sbox/result.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sbox/result.go b/sbox/result.go
index 1c5d52e..fa8da23 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -92,7 +92,7 @@ func readFixedArray(r *[2]marshal.Reader, v reflect.Value, l int) int {
 	tel := v.Type().Elem()
 	switch tel.Kind() {
 	case reflect.Slice, reflect.Ptr:
-		rd := reader(v.Type())
+		rd := reader(tel)
 		ln := v.Len()
 		var i int
 		for i = 0; i < l && i < ln; i++ {
@@ -181,15 +181,15 @@ func readSlice(r *[2]marshal.Reader, v reflect.Value, l int) int {
 }
 
 func readInterfaceArray(r *[2]marshal.Reader, v reflect.Value, l int) int {
-	var i int
+	var read int
 	ln := v.Len()
-	for i = 0; i < ln && l > 0; i++ {
-		l -= readInterface(r, v.Index(i), l)
+	for i := 0; i < ln && read < l; i++ {
+		read += readInterface(r, v.Index(i).Elem(), l-read)
 		if r[0].Err != nil {
 			break
 		}
 	}
-	return i
+	return read
 }
 
 func oneTuple(r *[2]marshal.Reader, v reflect.Value, rd *TReader) error {
-- 
2.43.0


From 0c0bc910938884c2c0955d73e59905cf8119a055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:06 +0000
Subject: [PATCH 50/87] fix: a select announces as many keys as it writes, and
 any byte string is one key

---
 sbox/select.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/sbox/select.go b/sbox/select.go
index 279280d..29f5965 100644
--- a/sbox/select.go
+++ b/sbox/select.go
@@ -66,11 +66,7 @@ func CountKeys(keys interface{}) int {
 	case [][][]byte:
 		return len(k)
 	case []interface{}:
-		sum := 0
-		for _, v := range k {
-			sum += CountKeys(v)
-		}
-		return sum
+		return len(k)
 	default:
 		v := reflect.ValueOf(k)
 		if v.Kind() == reflect.Ptr {
@@ -88,7 +84,7 @@ func CountKeysValues(v reflect.Value) int {
 		reflect.Struct, reflect.String:
 		return 1
 	case reflect.Array, reflect.Slice:
-		if v.Kind() == reflect.Uint8 {
+		if v.Type().Elem().Kind() == reflect.Uint8 {
 			return 1
 		}
 		return v.Len()
@@ -161,14 +157,14 @@ func WriteKeysValues(w *marshal.Writer, v reflect.Value) {
 		wr.Write(w, v)
 	case reflect.Array, reflect.Slice:
 		l := v.Len()
-		switch v.Kind() {
+		switch v.Type().Elem().Kind() {
 		case reflect.Uint8:
 			wr := writer(v.Type())
 			wr.Write(w, v)
 		case reflect.Struct, reflect.Array, reflect.Slice,
 			reflect.Uint16, reflect.Uint32, reflect.Uint64,
 			reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
-			reflect.Float32, reflect.Float64, reflect.Ptr:
+			reflect.Float32, reflect.Float64, reflect.Ptr, reflect.String:
 			wr := writer(v.Type().Elem())
 			for i := 0; i < l; i++ {
 				wr.Write(w, v.Index(i))
-- 
2.43.0


From b250029fc4c376e881c13f3f1247646197ff9598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:07 +0000
Subject: [PATCH 51/87] fix: an update operation without a value, as a
 deletion, can be written

---
 sbox/modify.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sbox/modify.go b/sbox/modify.go
index 7227f9f..fc28dda 100644
--- a/sbox/modify.go
+++ b/sbox/modify.go
@@ -120,6 +120,8 @@ func (o Op) IWrite(w *marshal.Writer) {
 		w.Write(opmap[o.Op])
 	}
 	switch v := o.Val.(type) {
+	case nil:
+		w.Intvar(0)
 	case uint32:
 		w.Int8(4)
 		w.Uint32(v)
-- 
2.43.0


From ab2ac41e67a830bdefddb36bcea55532f0d62192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:32 +0000
Subject: [PATCH 52/87] fix: writing a tuple with a tail of variable-length
 numbers must not crash

---
 marshal/writer_reflect.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index da3e172..2ab8429 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -845,7 +845,9 @@ Fields:
 			case reflect.Slice:
 				switch fld.Type.Elem().Kind() {
 				case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-					fw.TWriter = BerSlWriter
+					fw.TWriter = &TWriter{}
+					*fw.TWriter = *BerSlWriter
+					fw.TWriter.Type = fld.Type
 				default:
 					log.Panicf("Could not apply 'ber' for slice []%+v", fld.Type.Elem())
 				}
@@ -853,6 +855,7 @@ Fields:
 				switch fld.Type.Elem().Kind() {
 				case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 					fw.TWriter = &TWriter{
+						Type: fld.Type,
 						Elem: BerWriter,
 						Sz:   -1,
 						Cnt:  -1,
-- 
2.43.0


From 7bc3af3561cb2fc3114f231b7dcd75a3b1388302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:33 +0000
Subject: [PATCH 53/87] fix: codec tables are published to other threads
 atomically

---
 marshal/reader_reflect.go | 17 ++++++++++-------
 marshal/writer_reflect.go | 17 ++++++++++-------
 sbox/reader.go            | 17 ++++++++++-------
 sbox/writer.go            | 17 ++++++++++-------
 4 files changed, 40 insertions(+), 28 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index bed67e8..01efd06 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -6,6 +6,7 @@ import (
 	"reflect"
 	"strings"
 	"sync"
+	"sync/atomic"
 )
 
 func (r *Reader) Read(i interface{}) error {
@@ -366,22 +367,24 @@ func (r *Reader) ReadTail(i interface{}) error {
 	return r.Err
 }
 
-var rs = make(map[uintptr]*TReader)
-var rss = rs
+var rs atomic.Value // of map[uintptr]*TReader, never changed when stored
+var rss map[uintptr]*TReader
 var rsL sync.Mutex
 
 func ReaderFor(rt reflect.Type) (rd *TReader) {
 	rtid := reflect.ValueOf(rt).Pointer()
-	if rd = rs[rtid]; rd == nil {
+	known, _ := rs.Load().(map[uintptr]*TReader)
+	if rd = known[rtid]; rd == nil {
 		rsL.Lock()
 		defer rsL.Unlock()
-		if rd = rs[rtid]; rd == nil {
-			rss = make(map[uintptr]*TReader, len(ws)+1)
-			for t, r := range rs {
+		known, _ = rs.Load().(map[uintptr]*TReader)
+		if rd = known[rtid]; rd == nil {
+			rss = make(map[uintptr]*TReader, len(known)+1)
+			for t, r := range known {
 				rss[t] = r
 			}
 			rd = _reader(rt)
-			rs = rss
+			rs.Store(rss)
 		}
 	}
 	return
diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 2ab8429..88d4d1f 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -5,6 +5,7 @@ import (
 	"reflect"
 	"strings"
 	"sync"
+	"sync/atomic"
 )
 
 func (w *Writer) Write(i interface{}) {
@@ -222,22 +223,24 @@ func (w *Writer) WriteValueWithSize(val reflect.Value, ws func(*Writer, int)) {
 	wr.WithSize(w, val, ws)
 }
 
-var ws = make(map[uintptr]*TWriter)
-var wss = ws
+var ws atomic.Value // of map[uintptr]*TWriter, never changed when stored
+var wss map[uintptr]*TWriter
 var wsL sync.Mutex
 
 func WriterFor(rt reflect.Type) (wr *TWriter) {
 	rtid := reflect.ValueOf(rt).Pointer()
-	if wr = ws[rtid]; wr == nil {
+	known, _ := ws.Load().(map[uintptr]*TWriter)
+	if wr = known[rtid]; wr == nil {
 		wsL.Lock()
 		defer wsL.Unlock()
-		if wr = ws[rtid]; wr == nil {
-			wss = make(map[uintptr]*TWriter, len(ws)+1)
-			for t, w := range ws {
+		known, _ = ws.Load().(map[uintptr]*TWriter)
+		if wr = known[rtid]; wr == nil {
+			wss = make(map[uintptr]*TWriter, len(known)+1)
+			for t, w := range known {
 				wss[t] = w
 			}
 			wr = _writer(rt)
-			ws = wss
+			ws.Store(wss)
 		}
 	}
 	return
diff --git a/sbox/reader.go b/sbox/reader.go
index 8f2af9a..0e0c9fe 100644
--- a/sbox/reader.go
+++ b/sbox/reader.go
@@ -6,6 +6,7 @@ import (
 	"reflect"
 	"strings"
 	"sync"
+	"sync/atomic"
 
 	"github.com/funny-falcon/go-iproto/marshal"
 )
@@ -48,22 +49,24 @@ func ReadRawTuple(r *marshal.Reader, i interface{}) error {
 	return r.Err
 }
 
-var rs = make(map[uintptr]*TReader)
-var rss = rs
+var rs atomic.Value // of map[uintptr]*TReader, never changed when stored
+var rss map[uintptr]*TReader
 var rsL sync.Mutex
 
 func reader(rt reflect.Type) (rd *TReader) {
 	rtid := reflect.ValueOf(rt).Pointer()
-	if rd = rs[rtid]; rd == nil {
+	known, _ := rs.Load().(map[uintptr]*TReader)
+	if rd = known[rtid]; rd == nil {
 		rsL.Lock()
 		defer rsL.Unlock()
-		if rd = rs[rtid]; rd == nil {
-			rss = make(map[uintptr]*TReader, len(ws)+1)
-			for t, r := range rs {
+		known, _ = rs.Load().(map[uintptr]*TReader)
+		if rd = known[rtid]; rd == nil {
+			rss = make(map[uintptr]*TReader, len(known)+1)
+			for t, r := range known {
 				rss[t] = r
 			}
 			rd = _reader(rt)
-			rs = rss
+			rs.Store(rss)
 		}
 	}
 	return
diff --git a/sbox/writer.go b/sbox/writer.go
index f2d645c..5ed0bc4 100644
--- a/sbox/writer.go
+++ b/sbox/writer.go
@@ -5,6 +5,7 @@ import (
 	"reflect"
 	"strings"
 	"sync"
+	"sync/atomic"
 
 	"github.com/funny-falcon/go-iproto/marshal"
 )
@@ -77,22 +78,24 @@ func WriteTuple(w *marshal.Writer, i interface{}) {
 	return
 }
 
-var ws = make(map[uintptr]*TWriter)
-var wss = ws
+var ws atomic.Value // of map[uintptr]*TWriter, never changed when stored
+var wss map[uintptr]*TWriter
 var wsL sync.Mutex
 
 func writer(rt reflect.Type) (wr *TWriter) {
 	rtid := reflect.ValueOf(rt).Pointer()
-	if wr = ws[rtid]; wr == nil {
+	known, _ := ws.Load().(map[uintptr]*TWriter)
+	if wr = known[rtid]; wr == nil {
 		wsL.Lock()
 		defer wsL.Unlock()
-		if wr = ws[rtid]; wr == nil {
-			wss = make(map[uintptr]*TWriter, len(ws)+1)
-			for t, w := range ws {
+		known, _ = ws.Load().(map[uintptr]*TWriter)
+		if wr = known[rtid]; wr == nil {
+			wss = make(map[uintptr]*TWriter, len(known)+1)
+			for t, w := range known {
 				wss[t] = w
 			}
 			wr = _writer(rt)
-			ws = wss
+			ws.Store(wss)
 		}
 	}
 	return
-- 
2.43.0


From 8b5186df88a83cbe7670aea5e5e79d5edd15eb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:35 +0000
Subject: [PATCH 54/87] fix: the cached reader of results is loaded atomically

---
 sbox/result.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sbox/result.go b/sbox/result.go
index fa8da23..1f1e7cb 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -16,7 +16,7 @@ var readerCache unsafe.Pointer = unsafe.Pointer(&[2]marshal.Reader{})
 func ReadFirst(b []byte, v interface{}) (read bool, total int, err error) {
 	var t unsafe.Pointer
 	var r *[2]marshal.Reader
-	if t = readerCache; t != nil {
+	if t = atomic.LoadPointer(&readerCache); t != nil {
 		if atomic.CompareAndSwapPointer(&readerCache, t, nil) {
 			r = (*[2]marshal.Reader)(t)
 			*r = [2]marshal.Reader{{Body: b}, {}}
@@ -46,7 +46,7 @@ Got:
 func ReadMany(b []byte, v interface{}) (read, total int, err error) {
 	var t unsafe.Pointer
 	var r *[2]marshal.Reader
-	if t = readerCache; t != nil {
+	if t = atomic.LoadPointer(&readerCache); t != nil {
 		if atomic.CompareAndSwapPointer(&readerCache, t, nil) {
 			r = (*[2]marshal.Reader)(t)
 			*r = [2]marshal.Reader{{Body: b}, {}}
-- 
2.43.0


From 4703c0a68ea1e1cb0275064eecfc8e7a006afcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:24 +0000
Subject: [PATCH 55/87] fix: an internal return code can be mapped to RcOK

---
 net/server/connection.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index 7e99713..ff4d706 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -73,11 +73,9 @@ func (conn *Connection) Stop() {
 
 func (conn *Connection) Respond(r *iproto.Response) {
 	if r.Code&iproto.RcKindMask == iproto.RcInternal {
-		if conn.RCMap != nil {
-			if repl := conn.RCMap[r.Code]; repl != 0 {
-				r.Code = repl
-				goto CodeEnd
-			}
+		if repl, ok := conn.RCMap[r.Code]; ok {
+			r.Code = repl
+			goto CodeEnd
 		}
 		r.Code = (r.Code &^ iproto.RcKindMask) | iproto.RcFatal
 	}
-- 
2.43.0


From e11ca1c6f6a759b924fce4bc05f5432212213724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:24 +0000
Subject: [PATCH 56/87] fix: answering a request or a ping never blocks on a
 slow or failed connection

---
 net/server/connection.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index ff4d706..ded58f3 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -84,18 +84,22 @@ CodeEnd:
 	conn.Lock()
 	if _, ok := conn.inFly[r.Id]; ok {
 		delete(conn.inFly, r.Id)
+		conn.push(nt.Response(*r))
+	}
+	conn.Unlock()
+}
 
-		if len(conn.buf) == 0 {
-			select {
-			case conn.out <- nt.Response(*r):
-				conn.Unlock()
-				return
-			}
+// push queues response for writing and never blocks. It is called with conn locked.
+func (conn *Connection) push(res nt.Response) {
+	if len(conn.buf) == 0 {
+		select {
+		case conn.out <- res:
+			return
+		default:
 		}
-		conn.buf = append(conn.buf, nt.Response(*r))
-		conn.bufRealCap = cap(conn.buf)
 	}
-	conn.Unlock()
+	conn.buf = append(conn.buf, res)
+	conn.bufRealCap = cap(conn.buf)
 }
 
 func (conn *Connection) cancelInFly() {
@@ -175,7 +179,9 @@ func (conn *Connection) readLoop() {
 				Id:  req.Id,
 				Msg: iproto.Ping,
 			}
-			conn.out <- res
+			conn.Lock()
+			conn.push(res)
+			conn.Unlock()
 			continue
 		}
 
-- 
2.43.0


From 4cf8c5b79bc4b29e906e8a489d303911db69a95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:25 +0000
Subject: [PATCH 57/87] fix: output channel of server connection is closed once

---
 net/server/connection.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index ded58f3..333e4c8 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -15,7 +15,6 @@ type notifyAction uint32
 const (
 	writeClosed = notifyAction(iota + 1)
 	readClosed
-	inFlyEmpty
 )
 
 type ConnState uint32
@@ -144,8 +143,6 @@ func (conn *Connection) controlLoop() {
 			if conn.state&CsReadClosed == 0 {
 				conn.conn.CloseRead()
 			}
-		case inFlyEmpty:
-			close(conn.out)
 		}
 
 		if conn.state&CsClosed == CsClosed {
@@ -275,7 +272,6 @@ Loop:
 				}
 			} else if conn.state&CsReadClosed != 0 && len(conn.inFly) == 0 && len(conn.out) == 0 {
 				conn.Unlock()
-				conn.notifyLoop(inFlyEmpty)
 				break Loop
 			}
 			conn.Unlock()
-- 
2.43.0


From 4064bcd0b0e6deadc4da8bd30b3c9037183cc184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:26 +0000
Subject: [PATCH 58/87] fix: server connection reports once that it is closed,
 after all its requests are cancelled

---
 net/server/connection.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index 333e4c8..6127195 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -114,12 +114,15 @@ func (conn *Connection) cancelInFly() {
 	for _, req := range reqs {
 		req.Cancel()
 	}
-	conn.Server.connClosed <- conn.Id
 }
 
 func (conn *Connection) closed() {
+	/* requests, which were read after writing had failed */
+	conn.cancelInFly()
+	conn.Lock()
 	conn.buf = nil
 	conn.inFly = nil
+	conn.Unlock()
 	conn.Server.connClosed <- conn.Id
 }
 
@@ -137,8 +140,10 @@ func (conn *Connection) controlLoop() {
 			}
 			conn.Unlock()
 		case writeClosed:
+			conn.Lock()
 			conn.state &= CsClosed
 			conn.state |= CsWriteClosed
+			conn.Unlock()
 			conn.cancelInFly()
 			if conn.state&CsReadClosed == 0 {
 				conn.conn.CloseRead()
-- 
2.43.0


From 6068b8df919140159d340222e020bf313ad87088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:27 +0000
Subject: [PATCH 59/87] fix: connection is closed when writing to it has failed

---
 net/server/connection.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/server/connection.go b/net/server/connection.go
index 6127195..06782c9 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -254,6 +254,9 @@ func (conn *Connection) writeLoop() {
 				conn.conn.CloseWrite()
 			}
 		}
+		if err != nil {
+			conn.conn.Close()
+		}
 		conn.notifyLoop(writeClosed)
 	}()
 
-- 
2.43.0


From bae95960608c71819d3e818e2bb1d227ef9c3e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:02 +0000
Subject: [PATCH 60/87] fix: requests queued when a client is stopped are
 completed

---
 net/client/server.go |  1 +
 service.go           | 31 +++++++++++++++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/net/client/server.go b/net/client/server.go
index eb5cd3f..426cecc 100644
--- a/net/client/server.go
+++ b/net/client/server.go
@@ -139,6 +139,7 @@ func (serv *Server) Loop() {
 			break
 		}
 	}
+	serv.ShutDownQueued()
 }
 
 func (serv *Server) onAction(action action) {
diff --git a/service.go b/service.go
index 1d3168e..e3de2ed 100644
--- a/service.go
+++ b/service.go
@@ -68,6 +68,7 @@ type SimplePoint struct {
 	exit       chan bool
 	stopped    bool
 	standalone bool
+	flushed    chan bool
 	PointLoop
 	Timeout     time.Duration
 	TimeoutCode RetCode
@@ -92,6 +93,9 @@ func (s *SimplePoint) Run(ch chan *Request) {
 		ch = make(chan *Request, 16*1024)
 		s.standalone = true
 		s.b.init()
+		flushed := make(chan bool)
+		s.flushed = flushed
+		s.b.onExit = func() { close(flushed) }
 	}
 	s.b.ch = ch
 	if s.standalone {
@@ -155,6 +159,33 @@ func (s *SimplePoint) Stop() {
 	s.exit <- true
 }
 
+// ShutDownQueued responds with RcShutdown to all requests, which were sent before the
+// endpoint was stopped and are not received yet. It is for endpoint which is stopped and
+// will not receive requests anymore. A child endpoint leaves them for others.
+func (s *SimplePoint) ShutDownQueued() {
+	if !s.standalone {
+		return
+	}
+	flushed := s.flushed
+	for {
+		select {
+		case r := <-s.b.ch:
+			r.ShutDown()
+			continue
+		default:
+		}
+		if flushed == nil {
+			return
+		}
+		select {
+		case r := <-s.b.ch:
+			r.ShutDown()
+		case <-flushed:
+			flushed = nil
+		}
+	}
+}
+
 func (s *SimplePoint) Stopped() bool {
 	return s.stopped
 }
-- 
2.43.0


From 8636cd4d25bd96ac65895e3da5eec4e1a5cd9f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:03 +0000
Subject: [PATCH 61/87] fix: every client connection is counted, and stopped,
 once

---
 net/client/server.go | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/net/client/server.go b/net/client/server.go
index 426cecc..af89b25 100644
--- a/net/client/server.go
+++ b/net/client/server.go
@@ -36,6 +36,7 @@ type Server struct {
 	iproto.SimplePoint
 
 	connections map[uint64]*connection.Connection
+	live        map[uint64]*connection.Connection // dialing and established, not stopped
 	curId       uint64
 	needConns   int
 	dialing     int
@@ -77,6 +78,7 @@ func (cfg ServerConfig) NewServer() (serv *Server) {
 		connErr:     make(chan connection.Error, 4),
 		actions:     make(chan action, 1),
 		connections: make(map[uint64]*connection.Connection),
+		live:        make(map[uint64]*connection.Connection),
 	}
 
 	serv.SimplePoint.Init(serv)
@@ -86,30 +88,22 @@ func (cfg ServerConfig) NewServer() (serv *Server) {
 }
 
 func (serv *Server) fixConnections() {
-	needConn := serv.needConns - (serv.dialing + serv.established)
+	needConn := serv.needConns - len(serv.live)
 	for ; needConn > 0; needConn-- {
 		serv.curId++
 		conn := connection.NewConnection(&serv.CConf, serv.curId)
 		serv.connections[serv.curId] = conn
+		serv.live[serv.curId] = conn
 		serv.RunChild(conn)
 		serv.dialing++
 	}
-	if needConn < 0 {
-		for _, conn := range serv.connections {
-			switch conn.State {
-			case connection.CsDialing:
-				conn.Stop()
-				serv.dialing--
-				needConn++
-			case connection.CsConnected:
-				conn.Stop()
-				serv.established--
-				needConn++
-			}
-			if needConn == 0 {
-				break
-			}
+	for id, conn := range serv.live {
+		if needConn == 0 {
+			break
 		}
+		conn.Stop()
+		delete(serv.live, id)
+		needConn++
 	}
 }
 
@@ -134,7 +128,7 @@ func (serv *Server) Loop() {
 			serv.fixConnections()
 		}
 
-		if serv.exiting && serv.established+serv.dialing == 0 {
+		if serv.exiting && len(serv.connections) == 0 && serv.established+serv.dialing == 0 {
 			serv.reconnecter.Stop()
 			break
 		}
@@ -168,6 +162,7 @@ func (serv *Server) onConnError(connErr connection.Error) {
 				log.Panicf("Unknown connection failed %+v", conn)
 			}
 			delete(serv.connections, conn.Id)
+			delete(serv.live, conn.Id)
 			if serv.established == 0 && serv.Standalone() {
 				serv.AllDisconnected()
 			}
@@ -176,6 +171,7 @@ func (serv *Server) onConnError(connErr connection.Error) {
 		log.Printf("%s: write side closed %v -> %v", serv.conf.Name, conn.LocalAddr(), conn.RemoteAddr())
 		serv.established--
 		serv.dying++
+		delete(serv.live, conn.Id)
 		if serv.established == 0 && serv.Standalone() {
 			serv.AllDisconnected()
 		}
-- 
2.43.0


From cd01c2952cbebf46ed75ded248bc201612b5c1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:04 +0000
Subject: [PATCH 62/87] fix: resizing a client which is stopping does not open
 connections

---
 net/client/server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/net/client/server.go b/net/client/server.go
index af89b25..c68a1c5 100644
--- a/net/client/server.go
+++ b/net/client/server.go
@@ -140,7 +140,9 @@ func (serv *Server) onAction(action action) {
 	switch action.kind {
 	case setServ:
 		serv.Connections = action.servs
-		serv.needConns = action.servs
+		if !serv.exiting {
+			serv.needConns = action.servs
+		}
 	}
 }
 
-- 
2.43.0


From e4843e6ea812c638ea530c818e0e9df3c07afc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:05 +0000
Subject: [PATCH 63/87] fix: client connection which got an id it did not use
 is closed when all answers are received

---
 net/client/connection/connection.go     |  9 ++++++---
 net/client/connection/request_holder.go | 10 ++++++++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index e69ce0c..4b06368 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -219,7 +219,7 @@ func (conn *Connection) readLoop() {
 		if ireq := conn.inFly.remove(res.Id); ireq != nil {
 			ireq.RespondBytes(res.Code, res.Body)
 		}
-		if conn.State&CsWriteClosed != 0 && conn.inFly.put >= conn.inFly.got {
+		if conn.State&CsWriteClosed != 0 && conn.inFly.count() == 0 {
 			conn.notifyLoop(readEmpty)
 		}
 	}
@@ -240,8 +240,13 @@ func (conn *Connection) writeLoop() {
 		pingTicker.Stop()
 	}
 
+	var req *Request
+
 	defer func() {
 		pingTicker.Stop()
+		if req != nil {
+			conn.inFly.putBack(req)
+		}
 		if err == nil {
 			if err = w.Flush(); err == nil {
 				conn.conn.CloseWrite()
@@ -251,8 +256,6 @@ func (conn *Connection) writeLoop() {
 		conn.ConnErr <- Error{conn, Write, err}
 	}()
 
-	var req *Request
-
 Loop:
 	for {
 		var request *iproto.Request
diff --git a/net/client/connection/request_holder.go b/net/client/connection/request_holder.go
index d569d42..b94b918 100644
--- a/net/client/connection/request_holder.go
+++ b/net/client/connection/request_holder.go
@@ -45,7 +45,7 @@ func (h *RequestHolder) init() {
 }
 
 func (h *RequestHolder) getNext(conn *Connection) (req *Request) {
-	h.got++
+	atomic.AddUint64(&h.got, 1)
 	for {
 		id := atomic.AddUint32(&h.curId, 1)
 		big := id >> rowLogN
@@ -93,10 +93,16 @@ func (h *RequestHolder) remove(fakeId uint32) (ireq *iproto.Request) {
 	req := &reqs.reqs[fakeId&rowMask]
 	req.fakeId = 0
 	ireq = req.Request
-	h.put++
+	atomic.AddUint64(&h.put, 1)
 	return
 }
 
+// putBack returns request which were got but not used
+func (h *RequestHolder) putBack(req *Request) {
+	req.fakeId = 0
+	atomic.AddUint64(&h.put, 1)
+}
+
 func (h *RequestHolder) getAll() (reqs []*Request) {
 	h.Lock()
 	defer h.Unlock()
-- 
2.43.0


From da86c651598836c5444d829bc4b1603d3d4a2bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:06 +0000
Subject: [PATCH 64/87] fix: client connection is closed when writing to it has
 failed

---
 net/client/connection/connection.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index 4b06368..7122112 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -70,6 +70,7 @@ type Connection struct {
 
 	closeWrite chan bool
 	readErr    error
+	writeErr   error
 
 	inFly RequestHolder
 
@@ -171,7 +172,7 @@ func (conn *Connection) controlLoop() {
 		}
 
 		if conn.State&CsWriteClosed != 0 {
-			if !closeReadCalled && conn.inFly.count() == 0 {
+			if !closeReadCalled && (conn.inFly.count() == 0 || conn.writeErr != nil) {
 				conn.conn.CloseRead()
 				closeReadCalled = true
 			}
@@ -252,6 +253,7 @@ func (conn *Connection) writeLoop() {
 				conn.conn.CloseWrite()
 			}
 		}
+		conn.writeErr = err
 		conn.notifyLoop(writeClosed)
 		conn.ConnErr <- Error{conn, Write, err}
 	}()
-- 
2.43.0


From 9aa3034222822fab9f430ee2f92a510daaced1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:07 +0000
Subject: [PATCH 65/87] fix: client closes its connections

---
 net/client/connection/connection.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index 7122112..0f7ff61 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -148,6 +148,7 @@ func (conn *Connection) controlLoopExit() {
 	if conn.State&CsWriteClosed == 0 {
 		conn.conn.CloseWrite()
 	}
+	conn.conn.Close()
 	conn.ConnErr <- Error{conn, Read, conn.readErr}
 	conn.flushInFly()
 }
-- 
2.43.0


From e8f7b3a3c069d1f149239f0e1535e349bca62541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:08 +0000
Subject: [PATCH 66/87] fix: dial timeout of a client is respected

---
 net/client/connection/connection.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index 0f7ff61..96b2ef8 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -102,7 +102,10 @@ func NewConnection(conf *CConf, id uint64) (conn *Connection) {
 const DialTimeout = 5 * time.Second
 
 func (conn *Connection) Loop() {
-	dialer := net.Dialer{Timeout: DialTimeout}
+	dialer := net.Dialer{Timeout: conn.DialTimeout}
+	if dialer.Timeout <= 0 {
+		dialer.Timeout = DialTimeout
+	}
 	conn.State = CsDialing
 	if netconn, err := dialer.Dial(conn.Network, conn.Address); err != nil {
 		conn.ConnErr <- Error{conn, Dial, err}
-- 
2.43.0


From a89f56d0a50979c058e47716baee22a1e4939434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:36 +0000
Subject: [PATCH 67/87] fix: a request cancelled while it is being sent is not
 sent with an empty body

---
 net/client/connection/connection.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index 96b2ef8..102f3bd 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -295,14 +295,18 @@ Loop:
 			if req == nil {
 				req = conn.inFly.getNext(conn)
 			}
-			if !request.SetInFly(req) {
-				continue
-			}
+			/* body of a request is lost when request is performed, which could happen
+			 * at any moment */
+			request.Lock()
 			requestHeader = nt.Request{
 				Msg:  request.Msg,
 				Id:   req.fakeId,
 				Body: request.Body,
 			}
+			request.Unlock()
+			if !request.SetInFly(req) {
+				continue
+			}
 			req = nil
 
 			err = w.WriteRequest(requestHeader)
-- 
2.43.0


From 55aa669443b639b8b93b88ada75b34a183539c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:45 +0000
Subject: [PATCH 68/87] fix: the directory of clients is published to other
 threads atomically

---
 net/client/auto.go | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/net/client/auto.go b/net/client/auto.go
index 62e6869..d6a3128 100644
--- a/net/client/auto.go
+++ b/net/client/auto.go
@@ -2,37 +2,37 @@ package client
 
 import (
 	"sync"
+	"sync/atomic"
 
 	"github.com/funny-falcon/go-iproto"
 )
 
 type Auto struct {
 	Config  *ServerConfig
-	servers map[string]*Server
+	servers atomic.Value // map[string]*Server, which is copied on write
 	sync.Mutex
 }
 
+func (a *Auto) known() map[string]*Server {
+	servers, _ := a.servers.Load().(map[string]*Server)
+	return servers
+}
+
 func (a *Auto) Get(addr string) (serv *Server) {
-	if a.servers == nil {
+	if serv = a.known()[addr]; serv == nil {
 		a.Lock()
-		if a.servers == nil {
-			a.servers = make(map[string]*Server, len(a.servers))
-		}
-		a.Unlock()
-	}
-	if serv = a.servers[addr]; serv == nil {
-		a.Lock()
-		if serv = a.servers[addr]; serv == nil {
+		servers := a.known()
+		if serv = servers[addr]; serv == nil {
 			conf := *a.Config
 			conf.Address = addr
 			serv = conf.NewServer()
 			iproto.Run(serv)
-			newServs := make(map[string]*Server, len(a.servers))
+			newServs := make(map[string]*Server, len(servers)+1)
 			newServs[addr] = serv
-			for a, s := range a.servers {
+			for a, s := range servers {
 				newServs[a] = s
 			}
-			a.servers = newServs
+			a.servers.Store(newServs)
 		}
 		a.Unlock()
 	}
@@ -41,11 +41,9 @@ func (a *Auto) Get(addr string) (serv *Server) {
 
 func (a *Auto) Stop() {
 	a.Lock()
-	if a.servers != nil {
-		for _, serv := range a.servers {
-			serv.Stop()
-		}
-		a.servers = nil
+	for _, serv := range a.known() {
+		serv.Stop()
 	}
+	a.servers.Store(map[string]*Server(nil))
 	a.Unlock()
 }
-- 
2.43.0


From 033b3a215621c73f0eaa112c6a4c4c4db84addd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:12 +0000
Subject: [PATCH 69/87] fix: timer queues are replaced as a whole when their
 number grows

---
 custom_timer.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/custom_timer.go b/custom_timer.go
index 3bb54c6..cd5e01e 100644
--- a/custom_timer.go
+++ b/custom_timer.go
@@ -47,10 +47,13 @@ func (t *Timer) Stop() {
 	}
 }
 
-var heaps = []*tHeap{newHeap(1), newHeap(2)}
+var heaps atomic.Value // of []*tHeap, which is copied when it grows
 var heapM sync.Mutex
 var heapI uint32
-var heapN uint32 = 2
+
+func init() {
+	heaps.Store([]*tHeap{newHeap(1), newHeap(2)})
+}
 
 func nextHeap() *tHeap {
 	i := atomic.AddUint32(&heapI, 1)
@@ -62,17 +65,19 @@ func nextHeap() *tHeap {
 		} else {
 			n *= 8
 		}
-		for len(heaps) < n {
-			heaps = append(heaps, newHeap(uint32(len(heaps)+1)))
+		hs := append([]*tHeap(nil), heaps.Load().([]*tHeap)...)
+		for len(hs) < n {
+			hs = append(hs, newHeap(uint32(len(hs)+1)))
 		}
-		heapN = uint32(n)
+		heaps.Store(hs)
 		heapM.Unlock()
 	}
-	return heaps[i%heapN]
+	hs := heaps.Load().([]*tHeap)
+	return hs[i%uint32(len(hs))]
 }
 
 func getHeap(h uint32) *tHeap {
-	return heaps[h-1]
+	return heaps.Load().([]*tHeap)[h-1]
 }
 
 type htindex uint32
-- 
2.43.0


From 8ed5e8fff52e20cacecb383f4f5ba17e4fa88e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:09 +0000
Subject: [PATCH 70/87] fix: every thread that waits for a context is woken
 when its work is done

---
 context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 008a1e9..1c784b3 100644
--- a/context.go
+++ b/context.go
@@ -72,7 +72,7 @@ func (c *Context) RemoveCanceler(cn Canceler) {
 		delete(c.cancelsm, cn)
 	}
 	if c.cancelsn == 0 && len(c.cancelsm) == 0 {
-		c.childCond.Signal()
+		c.childCond.Broadcast()
 	}
 	c.m.Unlock()
 }
-- 
2.43.0


From 0a0d13f71310a0e949cdefe619a7a14bc9b45c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:27 +0000
Subject: [PATCH 71/87] fix: a client connection whose reading ended is given
 up without waiting for a ping

---
 net/client/connection/connection.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index 102f3bd..01aab05 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -90,6 +90,7 @@ func NewConnection(conf *CConf, id uint64) (conn *Connection) {
 		CConf: conf,
 		Id:    id,
 
+		closeWrite: make(chan bool),
 		loopNotify: make(chan notifyAction, 2),
 		State:      CsNew,
 	}
@@ -172,6 +173,7 @@ func (conn *Connection) controlLoop() {
 			if conn.State&CsWriteClosed == 0 {
 				conn.conn.CloseWrite()
 			}
+			close(conn.closeWrite)
 		case readEmpty:
 		}
 
@@ -283,6 +285,8 @@ Loop:
 			case <-pingTicker.C:
 				ping = true
 			case request = <-conn.ReceiveChan():
+			case <-conn.closeWrite:
+				break Loop
 			case <-conn.ExitChan():
 				conn.shutdown = true
 				break Loop
-- 
2.43.0


From 9b3a19723f4135302b6e77b098664437d424b34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:35 +0000
Subject: [PATCH 72/87] fix: a value that could not be encoded left its first
 bytes in the next request of the generator

---
 generator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/generator.go b/generator.go
index 8f3ecb5..86e9844 100644
--- a/generator.go
+++ b/generator.go
@@ -36,6 +36,8 @@ func (gen *RGenerator) Request(id uint32, msg RequestType, val interface{}) (req
 	req.Msg = msg
 	var ok bool
 	if req.Body, ok = val.(Body); !ok {
+		// drop what is left of a value which encoding has panicked
+		gen.w.Reset()
 		gen.w.Write(val)
 		req.Body = gen.w.Written()
 	}
-- 
2.43.0


From 70cf0c54c397d458ba009eed519212c7e2291fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:17 +0000
Subject: [PATCH 73/87] fix: a timer armed for the longest durations fired at
 once, its deadline overflowed

---
 epoch.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/epoch.go b/epoch.go
index 4b61c88..048d775 100644
--- a/epoch.go
+++ b/epoch.go
@@ -1,6 +1,7 @@
 package iproto
 
 import (
+	"math"
 	"time"
 )
 
@@ -24,8 +25,13 @@ func (e Epoch) Sub(o Epoch) time.Duration {
 	return time.Duration(e - o)
 }
 
+// Add returns the last Epoch possible if the sum is after it.
 func (e Epoch) Add(dur time.Duration) Epoch {
-	return e + Epoch(dur)
+	sum := e + Epoch(dur)
+	if dur > 0 && sum < e {
+		sum = math.MaxInt64
+	}
+	return sum
 }
 
 func (e Epoch) SubTime(tm time.Time) time.Duration {
-- 
2.43.0


From c615ceb41d8c9470c957b892ed36c5585e3c5a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:19 +0000
Subject: [PATCH 74/87] fix: requests queued in a stopped balancer were never
 completed when no child drains them

---
 balancer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/balancer.go b/balancer.go
index db66648..09c658a 100644
--- a/balancer.go
+++ b/balancer.go
@@ -37,4 +37,5 @@ func (b *BalancerPoint) Loop() {
 	}
 	b.looping = false
 	b.m.Unlock()
+	b.ShutDownQueued()
 }
-- 
2.43.0


From a83017200fbac4abc6c4db003d534d4bb417a54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:20 +0000
Subject: [PATCH 75/87] fix: sizes and counts that do not fit in their field
 were silently truncated

---
 marshal/writer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/marshal/writer.go b/marshal/writer.go
index 4cf490c..7824c9b 100644
--- a/marshal/writer.go
+++ b/marshal/writer.go
@@ -2,6 +2,7 @@ package marshal
 
 import (
 	"log"
+	"math"
 	"reflect"
 	"unsafe"
 )
@@ -137,14 +138,23 @@ func (w *Writer) IntUint64(i int) {
 }
 
 func (w *Writer) IntUint32(i int) {
+	if int64(i) > math.MaxUint32 {
+		log.Panicf("iproto.Writer: %d does not fit in uint32", i)
+	}
 	w.Uint32(uint32(i))
 }
 
 func (w *Writer) IntUint16(i int) {
+	if i > math.MaxUint16 {
+		log.Panicf("iproto.Writer: %d does not fit in uint16", i)
+	}
 	w.Uint16(uint16(i))
 }
 
 func (w *Writer) IntUint8(i int) {
+	if i > math.MaxUint8 {
+		log.Panicf("iproto.Writer: %d does not fit in uint8", i)
+	}
 	w.Uint8(uint8(i))
 }
 
-- 
2.43.0


From 42ae3cf1f3e46070bfe3fe98a75632301dee7b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:22 +0000
Subject: [PATCH 76/87] fix: a responder that panics left its request locked,
 and its timer blocked all timers

---
 request.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/request.go b/request.go
index 7191f11..0404bb1 100644
--- a/request.go
+++ b/request.go
@@ -163,18 +163,19 @@ func (r *Request) Respond(code RetCode, val interface{}) {
 
 func (r *Request) RespondBytes(code RetCode, body []byte) {
 	r.Lock()
+	// a Responder may panic
+	defer r.Unlock()
 	if r.state == RsInFly {
 		r.chainResponse(code, body)
 	}
-	r.Unlock()
 }
 
 func (r *Request) RespondFail(code RetCode) {
 	r.Lock()
+	defer r.Unlock()
 	if r.state&RsPerforming == 0 {
 		r.chainResponse(code, nil)
 	}
-	r.Unlock()
 }
 
 func (r *Request) ChainBookmark(res RequestBookmark) (chained bool) {
-- 
2.43.0


From 8eddad50535ba405806c3719441fb2ea8b83bbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:23 +0000
Subject: [PATCH 77/87] fix: the body of a ping was left in the stream and
 garbled the packets after it

---
 net/header.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/net/header.go b/net/header.go
index d581cf6..a25e869 100644
--- a/net/header.go
+++ b/net/header.go
@@ -114,6 +114,8 @@ func (h *HeaderReader) ReadPing() (err error) {
 
 	if msg != iproto.Ping || id != iproto.PingRequestId {
 		err = errors.New("Iproto ping failed")
+	} else {
+		_, err = h.r.Read(int(bin_le.Uint32(head[4:8])))
 	}
 	return
 }
-- 
2.43.0


From 71dc82a78d46f4c393ea22f6598f98547520212a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:24 +0000
Subject: [PATCH 78/87] fix: a lookup refused with a panic left the directory
 locked

---
 net/client/auto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/client/auto.go b/net/client/auto.go
index d6a3128..5f89eef 100644
--- a/net/client/auto.go
+++ b/net/client/auto.go
@@ -21,6 +21,7 @@ func (a *Auto) known() map[string]*Server {
 func (a *Auto) Get(addr string) (serv *Server) {
 	if serv = a.known()[addr]; serv == nil {
 		a.Lock()
+		defer a.Unlock()
 		servers := a.known()
 		if serv = servers[addr]; serv == nil {
 			conf := *a.Config
@@ -34,7 +35,6 @@ func (a *Auto) Get(addr string) (serv *Server) {
 			}
 			a.servers.Store(newServs)
 		}
-		a.Unlock()
 	}
 	return
 }
-- 
2.43.0


From aba4b80daf92c35b7f366dc9310dfcf6bf10a015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:25 +0000
Subject: [PATCH 79/87] fix: a response to a request not in flight crashed the
 client or corrupted its request counters

---
 net/client/connection/request_holder.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/net/client/connection/request_holder.go b/net/client/connection/request_holder.go
index b94b918..355323c 100644
--- a/net/client/connection/request_holder.go
+++ b/net/client/connection/request_holder.go
@@ -68,20 +68,28 @@ func (h *RequestHolder) getNext(conn *Connection) (req *Request) {
 	}
 }
 
+// remove returns nil for an id which is not in flight.
 func (h *RequestHolder) remove(fakeId uint32) (ireq *iproto.Request) {
-	var ok bool
 	big := fakeId >> rowLogN
 	if h.lastBig != big {
 		h.Lock()
-		if h.last, ok = h.reqs[big]; !ok {
-			h.Unlock()
-			log.Panicf("Map has no RequestRow for %d", fakeId)
+		row, ok := h.reqs[big]
+		h.Unlock()
+		if !ok {
+			log.Printf("Map has no RequestRow for %d", fakeId)
+			return
 		}
+		h.last = row
 		h.lastBig = big
-		h.Unlock()
 	}
 
 	reqs := h.last
+	req := &reqs.reqs[fakeId&rowMask]
+	if fakeId == 0 || req.fakeId != fakeId {
+		log.Printf("No request in flight for %d", fakeId)
+		return
+	}
+
 	reqs.freed++
 	border := big == 0 || big == uint32(iproto.PingRequestId>>8)
 	if reqs.freed == rowN || (reqs.freed == rowN1 && border) {
@@ -90,7 +98,6 @@ func (h *RequestHolder) remove(fakeId uint32) (ireq *iproto.Request) {
 		h.Unlock()
 	}
 
-	req := &reqs.reqs[fakeId&rowMask]
 	req.fakeId = 0
 	ireq = req.Request
 	atomic.AddUint64(&h.put, 1)
-- 
2.43.0


From 5a4c25b94c4e31dbdeb641f5e4322fd313b69cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:52 +0000
Subject: [PATCH 80/87] fix: cancelling a context waited for its functions to
 end, for ever if one of them did it, and blocked all timers

---
 context.go | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/context.go b/context.go
index 1c784b3..a600199 100644
--- a/context.go
+++ b/context.go
@@ -2,7 +2,6 @@ package iproto
 
 import (
 	"log"
-	"runtime"
 	"sync"
 	"sync/atomic"
 )
@@ -104,26 +103,23 @@ func (c *Context) AddCanceler(cn Canceler) (ok bool) {
 	return
 }
 
+// cancelAll does not wait for cancelers to be removed: a function, which runs in the
+// Context or has to collect its MultiRequest, could be the one who cancels it.
 func (c *Context) cancelAll() {
-	// wait for an AddCanceler that has not seen the new State yet
+	// after it AddCanceler sees the new State
 	c.m.Lock()
-	c.m.Unlock()
-	for len(c.cancelsm) > 0 || c.cancelsn > 0 {
-		c.m.Lock()
-		cancels := make([]Canceler, 0, len(c.cancels)+c.cancelsn)
-		for i := 0; i < len(c.cancels); i++ {
-			if c.cancels[i] != nil {
-				cancels = append(cancels, c.cancels[i])
-			}
-		}
-		for cancel := range c.cancelsm {
-			cancels = append(cancels, cancel)
-		}
-		c.m.Unlock()
-		for _, cancel := range cancels {
-			cancel.Cancel()
+	cancels := make([]Canceler, 0, len(c.cancels)+len(c.cancelsm))
+	for i := 0; i < len(c.cancels); i++ {
+		if c.cancels[i] != nil {
+			cancels = append(cancels, c.cancels[i])
 		}
-		runtime.Gosched()
+	}
+	for cancel := range c.cancelsm {
+		cancels = append(cancels, cancel)
+	}
+	c.m.Unlock()
+	for _, cancel := range cancels {
+		cancel.Cancel()
 	}
 }
 
-- 
2.43.0


From 0e85a232499c5f09828f9a90aa495abdc0448dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:47 +0000
Subject: [PATCH 81/87] fix: sending while an end point with an overflowed
 queue was stopped crashed, or lost requests sent before

---
 buffer.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/buffer.go b/buffer.go
index a33e3c8..80a4929 100644
--- a/buffer.go
+++ b/buffer.go
@@ -40,6 +40,8 @@ type Buffer struct {
 	rows       map[uint64]*bufferRow
 	head, tail uint64
 	hRow, tRow *bufferRow
+	closed     uint32
+	exited     uint32
 }
 
 func (b *Buffer) init() {
@@ -78,22 +80,28 @@ func (b *Buffer) push(r *Request) {
 	} else {
 		middle.state = bsFree
 	}
-	select {
-	case b.set <- true:
-	default:
+	b.wake()
+	if atomic.LoadUint32(&b.exited) != 0 {
+		r.ShutDown()
 	}
 }
 
-func (b *Buffer) close() {
+func (b *Buffer) wake() {
 	select {
 	case b.set <- true:
 	default:
 	}
-	close(b.set)
+}
+
+// close does not close b.set, others could be pushing at the moment
+func (b *Buffer) close() {
+	atomic.StoreUint32(&b.closed, 1)
+	b.wake()
 }
 
 func (b *Buffer) loop() {
-	for <-b.set {
+	for atomic.LoadUint32(&b.exited) == 0 {
+		<-b.set
 	Tiny:
 		for ; b.head < atomic.LoadUint64(&b.tail); b.head++ {
 			var ok bool
@@ -122,6 +130,13 @@ func (b *Buffer) loop() {
 			case bsFree:
 			}
 		}
+		if atomic.LoadUint32(&b.closed) != 0 && b.head == atomic.LoadUint64(&b.tail) {
+			atomic.StoreUint32(&b.exited, 1)
+			if b.head != atomic.LoadUint64(&b.tail) {
+				// a concurrent push, which could have not seen it
+				atomic.StoreUint32(&b.exited, 0)
+			}
+		}
 	}
 	if b.onExit != nil {
 		b.onExit()
-- 
2.43.0


From 6ac4b459b46787bfe62f417442ffe1364d1f2f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:48 +0000
Subject: [PATCH 82/87] fix: answering a request released the generator its
 context was still using

---
 request.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request.go b/request.go
index 0404bb1..74dc129 100644
--- a/request.go
+++ b/request.go
@@ -200,9 +200,9 @@ func (cm *ReqContext) Respond(res *Response) {
 		cm.Expire()
 		cm.Request.ResetToPending()
 		cm.Request.SetInFly(nil)
-	} else {
-		cm.Context.Done()
 	}
+	// otherwise it is up to Done: the handler, which could be in another thread,
+	// may still use the Context
 }
 
 func (cm *ReqContext) Done() {
-- 
2.43.0


From 82b9994401321c44e1bfb727006a0b3a63e6d7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:49 +0000
Subject: [PATCH 83/87] fix: ids of requests in flight were given out again
 when all ids had been used

---
 net/client/connection/request_holder.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/net/client/connection/request_holder.go b/net/client/connection/request_holder.go
index 355323c..541ff8f 100644
--- a/net/client/connection/request_holder.go
+++ b/net/client/connection/request_holder.go
@@ -50,11 +50,19 @@ func (h *RequestHolder) getNext(conn *Connection) (req *Request) {
 		id := atomic.AddUint32(&h.curId, 1)
 		big := id >> rowLogN
 		if h.big != big {
-			h.big = big
-			h.cur = &RequestRow{}
 			h.Lock()
-			h.reqs[big] = h.cur
+			_, used := h.reqs[big]
+			if !used {
+				h.big = big
+				h.cur = &RequestRow{}
+				h.reqs[big] = h.cur
+			}
 			h.Unlock()
+			if used {
+				/* ids are used for the second time, and a request waits here since the first */
+				atomic.StoreUint32(&h.curId, id|rowMask)
+				continue
+			}
 		}
 		reqs := h.cur
 		if id != 0 && id != uint32(iproto.PingRequestId) {
-- 
2.43.0


From faa520c3659bbf82d2eb19d4f8145b70a283faca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:52 +0000
Subject: [PATCH 84/87] fix: deeply nested input exhausted the stack, nested
 counts reserved memory over and over

---
 marshal/reader.go         | 21 +++++++++++++++--
 marshal/reader_reflect.go | 49 ++++++++++++++++++++++++++++-----------
 2 files changed, 54 insertions(+), 16 deletions(-)

diff --git a/marshal/reader.go b/marshal/reader.go
index 75e8f45..81811db 100644
--- a/marshal/reader.go
+++ b/marshal/reader.go
@@ -11,8 +11,25 @@ import (
 var _ = log.Print
 
 type Reader struct {
-	Body []byte
-	Err  error
+	Body  []byte
+	Err   error
+	depth int
+}
+
+// maxDepth limits how deep values could be nested, otherwise the stack could be exhausted
+const maxDepth = 100000
+
+// down should be followed by up when a nested value has been read
+func (r *Reader) down() bool {
+	r.depth++
+	if r.depth > maxDepth && r.Err == nil {
+		r.Err = errors.New("iproto.Reader: values are nested too deep")
+	}
+	return r.Err == nil
+}
+
+func (r *Reader) up() {
+	r.depth--
 }
 
 func (r *Reader) Uint8() (res uint8) {
diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 01efd06..dbbb9c7 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -495,7 +495,7 @@ func (t *TReader) WithSize(r *Reader, v reflect.Value, szrd func(*Reader) int) {
 		t.Fixed(r, v)
 		return
 	}
-	rr := Reader{Body: r.Slice(sz), Err: r.Err}
+	rr := Reader{Body: r.Slice(sz), Err: r.Err, depth: r.depth}
 	was := rr.Body
 	t.Tail(&rr, v)
 	if rr.Err != nil {
@@ -856,12 +856,17 @@ func (t *TReader) FillPtr() {
 			}
 			v.Set(reflect.New(t.Elem.Type))
 		}
-		t.Elem.Auto(r, v.Elem())
+		if r.down() {
+			t.Elem.Auto(r, v.Elem())
+		}
+		r.up()
 	}
 	t.Tail = func(r *Reader, v reflect.Value) {
-		if r.Err != nil {
+		if !r.down() {
+			r.up()
 			return
 		}
+		defer r.up()
 		if len(r.Body) > 0 {
 			if v.IsNil() {
 				if v.CanSet() {
@@ -929,6 +934,9 @@ func (t *TReader) FillArray() {
 	}
 }
 
+// maxTrusted is how many elements of unknown size are allocated at once
+const maxTrusted = 32
+
 func (t *TReader) FillSlice() {
 	t.CntSet = func(v reflect.Value, cnt int) error {
 		if v.Len() != cnt {
@@ -1007,30 +1015,43 @@ func (t *TReader) FillSlice() {
 
 	t.Fixed = func(r *Reader, v reflect.Value) {
 		l := v.Len()
-		for i := 0; i < l; i++ {
-			t.Elem.Auto(r, v.Index(i))
+		if r.down() {
+			for i := 0; i < l; i++ {
+				t.Elem.Auto(r, v.Index(i))
+			}
 		}
+		r.up()
 	}
 
 	if t.Elem.Sz < 0 {
 		t.AutoCount = func(r *Reader, v reflect.Value, cnt int) {
-			n := cnt
-			if l := len(r.Body); n > l && n != v.Len() {
-				/* do not trust the count while there is less data */
-				n = l
-			}
-			if r.Err = t.CntSet(v, n); r.Err != nil {
+			if cnt <= maxTrusted || cnt == v.Len() || !v.CanSet() {
+				if r.Err = t.CntSet(v, cnt); r.Err == nil {
+					t.Fixed(r, v)
+				}
 				return
 			}
+			/* do not trust the count while the data is not there, elements could
+			 * begin with such a count too */
+			v.Set(reflect.MakeSlice(t.Type, maxTrusted, maxTrusted))
 			t.Fixed(r, v)
-			for ; n < cnt && r.Err == nil; n++ {
-				v.Set(reflect.Append(v, reflect.Zero(t.Elem.Type)))
-				t.Elem.Auto(r, v.Index(n))
+			z := reflect.Zero(t.Elem.Type)
+			if r.down() {
+				for n := maxTrusted; n < cnt && r.Err == nil; n++ {
+					v.Set(reflect.Append(v, z))
+					t.Elem.Auto(r, v.Index(n))
+				}
 			}
+			r.up()
 		}
 	}
 
 	t.Tail = func(r *Reader, v reflect.Value) {
+		if !r.down() {
+			r.up()
+			return
+		}
+		defer r.up()
 		if !v.CanSet() {
 			l := v.Len()
 			for i := 0; i < l; i++ {
-- 
2.43.0


From 53a451d321c2f6a50899e59fc5ecee255d41d6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:56 +0000
Subject: [PATCH 85/87] fix: byte strings that were read do not share memory
 with what follows when appended to

---
 marshal/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marshal/reader.go b/marshal/reader.go
index 81811db..f18a53e 100644
--- a/marshal/reader.go
+++ b/marshal/reader.go
@@ -154,7 +154,8 @@ func (r *Reader) Slice(sz int) (res []byte) {
 		r.Err = fmt.Errorf("iproto.Reader: not enough data for Slice(%d)", sz)
 		return
 	}
-	res = r.Body[:sz]
+	// who appends to it should not overwrite what follows
+	res = r.Body[:sz:sz]
 	r.Body = r.Body[sz:]
 	return
 }
-- 
2.43.0


From 00024f8451b978d481d3e0898ebdfa6e2c5c473c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:57 +0000
Subject: [PATCH 86/87] fix: appending to the body of a packet does not
 overwrite the packets after it

---
 net/slice_reader.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/net/slice_reader.go b/net/slice_reader.go
index fa059ae..ea535fa 100644
--- a/net/slice_reader.go
+++ b/net/slice_reader.go
@@ -16,7 +16,8 @@ type SliceReader struct {
 
 func (sl *SliceReader) Read(n int) (res []byte, err error) {
 	if len(sl.buf) > n {
-		res = sl.buf[:n]
+		// who appends to it should not overwrite what follows
+		res = sl.buf[:n:n]
 		sl.buf = sl.buf[n:]
 		return
 	}
@@ -38,7 +39,7 @@ func (sl *SliceReader) Read(n int) (res []byte, err error) {
 		l += nn
 	}
 	if l >= n {
-		res = buf[:n]
+		res = buf[:n:n]
 		sl.buf = buf[n:l]
 		err = nil
 	} else if l > 0 && err == io.EOF {
-- 
2.43.0


From 32d5b7cbc3dfd48fb06c710a89ad2edd80d948d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:58 +0000
Subject: [PATCH 87/87] fix: the end of writing and the last answer could miss
 each other in a client connection

---
 net/client/connection/connection.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index 01aab05..2a0d896 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -5,6 +5,7 @@ import (
 	"log"
 	"net"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/funny-falcon/go-iproto"
@@ -165,8 +166,8 @@ func (conn *Connection) controlLoop() {
 
 		switch action {
 		case writeClosed:
-			conn.State &= CsClosed
-			conn.State |= CsWriteClosed
+			/* readLoop should see it, if it is not seen here what readLoop removed from inFly */
+			atomic.StoreUint32((*uint32)(&conn.State), uint32(conn.State&CsClosed|CsWriteClosed))
 		case readClosed:
 			conn.State &= CsClosed
 			conn.State |= CsReadClosed
@@ -226,7 +227,7 @@ func (conn *Connection) readLoop() {
 		if ireq := conn.inFly.remove(res.Id); ireq != nil {
 			ireq.RespondBytes(res.Code, res.Body)
 		}
-		if conn.State&CsWriteClosed != 0 && conn.inFly.count() == 0 {
+		if atomic.LoadUint32((*uint32)(&conn.State))&CsWriteClosed != 0 && conn.inFly.count() == 0 {
 			conn.notifyLoop(readEmpty)
 		}
 	}
-- 
2.43.0


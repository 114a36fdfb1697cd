From 75e510b74614c5fbcd93e9dae65e9762ec121aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:03 +0000
Subject: [PATCH 01/18] fix: UBufFrom panics when the user slice is shorter
 than its capacity

---
 ubuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ubuf.go b/ubuf.go
index b9a7598..aeb2016 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -105,7 +105,7 @@ func UBufFromWithHeadReserved(data []byte, reserved int) *UBuf {
 		writerIndex: reserved,
 		data: &uBufData{
 			refCount: 1,
-			bytes:    data,
+			bytes:    data[:capacity],
 		},
 		copyOnWrite: false,
 	}
-- 
2.43.0


From 882c1b1ec538043da93bacb5ead6e8b31293a736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:03 +0000
Subject: [PATCH 02/18] fix: head write on a shared copy-on-write UBuf panics

---
 ubuf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ubuf.go b/ubuf.go
index aeb2016..fa6f552 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -568,6 +568,9 @@ func (ub *UBuf) writeHead(dataSize int, fn func() error) error {
 		return errors.New("UBuf Head room is not enouth")
 	}
 
+	// copy the shared data while the indexes are still in order
+	ub.resolveCopyOnWriteIfNeed()
+
 	// all the writes are from writerIndex
 	// backup the writerIndex first
 	oldWriterIndex := ub.writerIndex
-- 
2.43.0


From da2d73ee1db7f05ba4b7ba38a09021b47a2b07dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:03 +0000
Subject: [PATCH 03/18] fix: UBuf.ReadFrom loses data returned together with an
 error

---
 ubuf.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ubuf.go b/ubuf.go
index fa6f552..99a758d 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -472,13 +472,11 @@ func (ub *UBuf) ReadFrom(r io.Reader) (n int64, err error) {
 	ub.resolveCopyOnWriteIfNeed()
 
 	length, err := r.Read(ub.data.bytes[ub.writerIndex:])
-	if err != nil {
-		return 0, err
-	}
 
+	// a reader may return data together with an error
 	ub.writerIndex += length
 
-	return int64(length), nil
+	return int64(length), err
 }
 
 // ReadU16 returns uint16 data or error
-- 
2.43.0


From e41f45d01c7af3ab881152a82a39db81089cd4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:03 +0000
Subject: [PATCH 04/18] fix: UBuf.WriteTo keeps data the writer accepted before
 failing

---
 ubuf.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ubuf.go b/ubuf.go
index 99a758d..97ea7c8 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -352,13 +352,11 @@ func (ub *UBuf) WriteTo(w io.Writer) (n int64, err error) {
 	}
 
 	written, err := w.Write(ub.data.bytes[ub.readerIndex:ub.writerIndex])
-	if err != nil {
-		return int64(written), err
-	}
 
+	// a writer may accept part of the data before it fails
 	ub.readerIndex += written
 
-	return int64(written), nil
+	return int64(written), err
 }
 
 // WriteU16 writes uint16 data into data space
-- 
2.43.0


From 8749e1907e3bbfd28df6919a857c72a054b1eb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:03 +0000
Subject: [PATCH 05/18] fix: Filter and Forwarder call a nil rule

---
 proc_filter.go    | 2 +-
 proc_forwarder.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc_filter.go b/proc_filter.go
index 3d6f4ad..486fdcb 100644
--- a/proc_filter.go
+++ b/proc_filter.go
@@ -18,7 +18,7 @@ type Filter struct {
 func NewFilter(filterFn ...FilterFn) DataProcessor {
 	filter := &Filter{
 		ProcBase:  NewProcBaseInstance("Filter"),
-		filterFn:  make([]FilterFn, 1),
+		filterFn:  make([]FilterFn, 0),
 		txCounter: 0,
 		rxCounter: 0,
 	}
diff --git a/proc_forwarder.go b/proc_forwarder.go
index dfe1199..b68ac3d 100644
--- a/proc_forwarder.go
+++ b/proc_forwarder.go
@@ -18,7 +18,7 @@ type Forwarder struct {
 func NewForwarder(forwardFn ...ForwardFn) DataProcessor {
 	fwd := &Forwarder{
 		ProcBase:  NewProcBaseInstance("Forwarder"),
-		forwardFn: make([]ForwardFn, 1),
+		forwardFn: make([]ForwardFn, 0),
 		txCounter: 0,
 		rxCounter: 0,
 	}
-- 
2.43.0


From 5059b2497942032ad78253c8d111fa5f3c595b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:03 +0000
Subject: [PATCH 06/18] fix: FrameDecoder sends reference messages upwards
 instead of down

---
 proc_frame_decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 0666121..10e5c0c 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -36,7 +36,7 @@ func (frm *FrameDecoder) GetOverhead() int {
 // OnUpperData ...
 func (frm *FrameDecoder) OnUpperData(context Context) {
 	if context.GetConnection().UseReference() {
-		frm.upper.OnUpperData(context)
+		frm.lower.OnUpperData(context)
 		return
 	}
 
-- 
2.43.0


From 39d26dc1b70ee73c2f4cbf9b975a4cc7aa63c229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:03 +0000
Subject: [PATCH 07/18] fix: processors send the message without header when
 the head room is short

---
 proc_frame_decoder.go |  5 ++++-
 proc_heartbeat.go     |  5 ++++-
 proc_load_balancer.go | 10 ++++++++--
 proc_stat_counter.go  |  7 +++++--
 4 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 10e5c0c..9b78fc0 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -47,7 +47,10 @@ func (frm *FrameDecoder) OnUpperData(context Context) {
 		}
 
 		// add frame length in head space
-		ub.WriteHeadU32BE(uint32(ub.ReadableLength()))
+		err := ub.WriteHeadU32BE(uint32(ub.ReadableLength()))
+		if err != nil {
+			return
+		}
 	}
 
 	frm.lower.OnUpperData(context)
diff --git a/proc_heartbeat.go b/proc_heartbeat.go
index 3b9a55d..3d3853c 100644
--- a/proc_heartbeat.go
+++ b/proc_heartbeat.go
@@ -103,7 +103,10 @@ func (hb *Heartbeat) OnUpperData(context Context) {
 		return
 	}
 
-	ub.WriteHeadByte(HeartbeatUplayerMessageTag)
+	err := ub.WriteHeadByte(HeartbeatUplayerMessageTag)
+	if err != nil {
+		return
+	}
 
 	hb.lower.OnUpperData(context)
 }
diff --git a/proc_load_balancer.go b/proc_load_balancer.go
index cad6075..0950a5c 100644
--- a/proc_load_balancer.go
+++ b/proc_load_balancer.go
@@ -47,11 +47,17 @@ func (lb *LoadBalancer) OnUpperData(context Context) {
 		return
 	}
 
+	var err error
+
 	if lb.enable {
 		fmt.Println("LoadBalancer: OnUpperData: todo")
-		ub.WriteHeadByte(LoadBalancerSelfMessageReqWorkTag)
+		err = ub.WriteHeadByte(LoadBalancerSelfMessageReqWorkTag)
 	} else {
-		ub.WriteHeadByte(StatCounterUplayerMessageTag)
+		err = ub.WriteHeadByte(StatCounterUplayerMessageTag)
+	}
+
+	if err != nil {
+		return
 	}
 
 	lb.lower.OnUpperData(context)
diff --git a/proc_stat_counter.go b/proc_stat_counter.go
index 6cb5643..36abbd0 100644
--- a/proc_stat_counter.go
+++ b/proc_stat_counter.go
@@ -51,13 +51,16 @@ func (sc *StatCounter) OnUpperData(context Context) {
 		return
 	}
 
+	err := ub.WriteHeadByte(StatCounterUplayerMessageTag)
+	if err != nil {
+		return
+	}
+
 	if sc.enable {
 		sc.txCounter++
 		// fmt.Println("StatCounter: txCounter:", sc.txCounter)
 	}
 
-	ub.WriteHeadByte(StatCounterUplayerMessageTag)
-
 	sc.lower.OnUpperData(context)
 }
 
-- 
2.43.0


From 997ec53e7db3a29753f1ce7a3bfa3550599b8a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:03 +0000
Subject: [PATCH 08/18] fix: Heartbeat and StatCounter control messages kill
 reference connections

---
 proc_heartbeat.go    | 5 +++++
 proc_stat_counter.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/proc_heartbeat.go b/proc_heartbeat.go
index 3d3853c..835a8cb 100644
--- a/proc_heartbeat.go
+++ b/proc_heartbeat.go
@@ -144,6 +144,11 @@ func (hb *Heartbeat) OnEvent(event Event) {
 		interval := hb.intervalInSecond
 		connection := event.Data.(TransportConnection)
 
+		// reference connection can not carry the heartbeat message
+		if connection.UseReference() {
+			return
+		}
+
 		hb.updateMonitor(connection)
 
 		go func() {
diff --git a/proc_stat_counter.go b/proc_stat_counter.go
index 36abbd0..902a5c2 100644
--- a/proc_stat_counter.go
+++ b/proc_stat_counter.go
@@ -156,6 +156,11 @@ func (sc *StatCounter) OnEvent(event Event) {
 
 		connection := event.Data.(TransportConnection)
 
+		// reference connection can not carry the collect message
+		if connection.UseReference() {
+			return
+		}
+
 		go func() {
 			for {
 				if connection.Closed() {
-- 
2.43.0


From 4e93fcf37c9fdb9293f6f9bd10d22c9deb4f9013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:03 +0000
Subject: [PATCH 09/18] fix: UpperDeck goroutine reads the endpoint table
 unlocked and misses its stop

---
 proc_upperdeck.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/proc_upperdeck.go b/proc_upperdeck.go
index d889fd8..0eb67d2 100644
--- a/proc_upperdeck.go
+++ b/proc_upperdeck.go
@@ -36,7 +36,8 @@ func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
 	ud.Lock()
 	defer ud.Unlock()
 
-	ud.endpoints[ep] = make(chan bool, 1)
+	stopchan := make(chan bool, 1)
+	ud.endpoints[ep] = stopchan
 
 	session := ep.GetSession()
 	txchan := ep.GetTxChannel()
@@ -47,7 +48,7 @@ func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
 	go func() {
 		for {
 			select {
-			case stop := <-ud.endpoints[ep]:
+			case stop := <-stopchan:
 				if stop {
 					return
 				}
-- 
2.43.0


From b07483b0b9b5f66b523a5025fae383b71b41f38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:03 +0000
Subject: [PATCH 10/18] fix: TCPTransport saves the nil connection of a stopped
 transport

---
 tran_tcp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tran_tcp.go b/tran_tcp.go
index ea70b73..8106f90 100644
--- a/tran_tcp.go
+++ b/tran_tcp.go
@@ -139,6 +139,10 @@ func (t *TCPTransport) doInit() {
 
 // saveConnections ...
 func (t *TCPTransport) saveConnection(tc TransportConnection) {
+	if tc == nil {
+		return
+	}
+
 	t.Lock()
 	defer t.Unlock()
 
-- 
2.43.0


From 62206ecbf32e4364c02132cb952b213575019835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:03 +0000
Subject: [PATCH 11/18] fix: overhead of the UStack accumulates when it is run
 again

---
 ustack_default.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ustack_default.go b/ustack_default.go
index 01a87c6..c9a0ade 100644
--- a/ustack_default.go
+++ b/ustack_default.go
@@ -139,6 +139,7 @@ func (u *DefaultUStack) build() {
 		u.lowerDeck.SetUpper(u.processors[count-1])
 	}
 
+	u.overhead = 0
 	for i := 0; i < count; i++ {
 		u.processors[i].SetUStack(u)
 		u.overhead += u.processors[i].GetOverhead()
-- 
2.43.0


From 0a8bae821282e2160ee4c45b1c2acbfbce26aa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:03 +0000
Subject: [PATCH 12/18] fix: setters of NewProcBase and NewFeatBase objects
 return another object

---
 feat_base.go | 1 +
 proc_base.go | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/feat_base.go b/feat_base.go
index 14bafe3..524d8a0 100644
--- a/feat_base.go
+++ b/feat_base.go
@@ -26,6 +26,7 @@ func NewFeatBaseInstance(name string) FeatBase {
 // NewFeatBase return a new instance that meets for Feature interface
 func NewFeatBase() Feature {
 	base := NewFeatBaseInstance("FeatBase")
+	base.where = &base
 	return &base
 }
 
diff --git a/proc_base.go b/proc_base.go
index 6c71649..c6943a7 100644
--- a/proc_base.go
+++ b/proc_base.go
@@ -35,7 +35,7 @@ func NewProcBaseInstance(name string) ProcBase {
 // NewProcBase return a new instance that meets for DataProcessor interface
 func NewProcBase() DataProcessor {
 	base := NewProcBaseInstance("ProcBase")
-	return &base
+	return base.SetWhere(&base)
 }
 
 // SetWhere where the base is embedded in
-- 
2.43.0


From e13d4ad6a79bac2d8ac8a03d47d818e7206649f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:37 +0000
Subject: [PATCH 13/18] fix: FrameDecoder loses or corrupts fragmented frames

The length field does not count itself, so up to 4 bytes of the frame were
missing when it was taken for complete; the room of consumed frames was never
reclaimed and data not fitting in the cache was dropped; a frame with empty
payload panicked in UBufAlloc; and a delivered frame had no head room to be
sent back.
---
 proc_frame_decoder.go | 95 +++++++++++++------------------------------
 1 file changed, 28 insertions(+), 67 deletions(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 9b78fc0..ef8646f 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -56,72 +56,24 @@ func (frm *FrameDecoder) OnUpperData(context Context) {
 	frm.lower.OnUpperData(context)
 }
 
-// handleCurrentData ...
-func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
-	// if there is data in cache, put current data into cache
-	if frm.cache.ReadableLength() > 0 {
-		frm.cache.ReadFrom(ub)
-		return
+// fillCache moves as much current data as possible into cache
+// returns false if there is no room for any data
+func (frm *FrameDecoder) fillCache(ub *UBuf) bool {
+	// reclaim the room of the consumed frames
+	if frm.cache.HeadWritableLength() > 0 {
+		remaining := make([]byte, frm.cache.ReadableLength())
+		frm.cache.Read(remaining)
+		frm.cache.Reset()
+		frm.cache.Write(remaining)
 	}
 
-	// cache is empty
-	// handle as much as possiable with loop
-	for {
-		// very less data, cache the data
-		if ub.ReadableLength() < FrameLengthFieldSizeInByte {
-			frm.cache.ReadFrom(ub)
-			return
-		}
-
-		expectedLength, err := ub.PeekU32BE()
-		if err != nil {
-			// bad buffer, discard it
-			frm.cache.Reset()
-			return
-		}
-
-		actuallyLength := uint32(ub.ReadableLength())
-
-		// not a complete frame, cache the data
-		if expectedLength > actuallyLength {
-			frm.cache.ReadFrom(ub)
-			return
-		}
-
-		// just one frame, need not to alloc new UBuf
-		if expectedLength == actuallyLength {
-			// drop size-field-data by dummy reading
-			ub.ReadU32BE()
-
-			context.SetBuffer(ub)
-			frm.upper.OnLowerData(context)
-			return
-		}
+	n, _ := frm.cache.ReadFrom(ub)
 
-		// here: expectedLength < actuallyLength
-		// there must have at least one complete frame
-		newUbuf := UBufAlloc(int(expectedLength))
-
-		// drop size-field-data by dummy reading
-		ub.ReadU32BE()
-
-		// fill the new buffer for uplayer
-		_, err = io.CopyN(newUbuf, ub, int64(expectedLength))
-		if err != nil {
-			// bad buffer, discard it
-			frm.cache.Reset()
-			return
-		}
-
-		context.SetBuffer(newUbuf)
-
-		// invoke uplayer
-		frm.upper.OnLowerData(context)
-	}
+	return n > 0
 }
 
 // handleCachedData ...
-func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
+func (frm *FrameDecoder) handleCachedData(context Context) {
 	// handle as much as possiable with loop
 	for {
 		cachedLength := frm.cache.ReadableLength()
@@ -143,13 +95,16 @@ func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
 			return
 		}
 
-		if cachedLength < int(expectedLength) {
+		if cachedLength < FrameLengthFieldSizeInByte+int(expectedLength) {
 			// wait for more data
 			return
 		}
 
 		// there must have at least one complete frame
-		newUbuf := UBufAlloc(int(expectedLength))
+		// keep the head room so that the frame can be sent back
+		newUbuf := UBufAllocWithHeadReserved(
+			FrameLengthFieldSizeInByte+int(expectedLength),
+			FrameLengthFieldSizeInByte)
 
 		// drop size-field-data by dummy reading
 		frm.cache.ReadU32BE()
@@ -182,11 +137,17 @@ func (frm *FrameDecoder) OnLowerData(context Context) {
 	}
 
 	if frm.enable {
-		// handle current received data
-		frm.handleCurrentData(context, ub)
-
-		// handle history cached data
-		frm.handleCachedData(context, ub)
+		for ub.ReadableLength() > 0 {
+			// put current received data into cache
+			if !frm.fillCache(ub) {
+				// frame is larger than cache, discard it
+				frm.cache.Reset()
+				return
+			}
+
+			// handle cached data
+			frm.handleCachedData(context)
+		}
 	} else {
 		frm.upper.OnLowerData(context)
 	}
-- 
2.43.0


From de4a699c0338c99b0befb4eacdb3ff356b584db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:37 +0000
Subject: [PATCH 14/18] fix: FrameDecoder mixes the incomplete frames of
 different connections

---
 proc_frame_decoder.go | 81 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 60 insertions(+), 21 deletions(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index ef8646f..7378be3 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -7,6 +7,8 @@ package ustack
 import (
 	"fmt"
 	"io"
+	"log"
+	"sync"
 )
 
 const FrameLengthFieldSizeInByte int = 4
@@ -15,7 +17,8 @@ const FrameLengthFieldSizeInByte int = 4
 type FrameDecoder struct {
 	ProcBase
 	cacheCapacity int
-	cache         *UBuf
+	mutex         sync.Mutex
+	caches        map[TransportConnection]*UBuf
 }
 
 // NewFrameDecoder ...
@@ -23,7 +26,7 @@ func NewFrameDecoder() DataProcessor {
 	frm := &FrameDecoder{
 		ProcBase:      NewProcBaseInstance("FrameDecoder"),
 		cacheCapacity: 1024,
-		cache:         nil,
+		caches:        make(map[TransportConnection]*UBuf, 16),
 	}
 	return frm.ProcBase.SetWhere(frm)
 }
@@ -56,30 +59,52 @@ func (frm *FrameDecoder) OnUpperData(context Context) {
 	frm.lower.OnUpperData(context)
 }
 
+// getCache returns the cache of the connection
+func (frm *FrameDecoder) getCache(connection TransportConnection) *UBuf {
+	frm.mutex.Lock()
+	defer frm.mutex.Unlock()
+
+	cache, ok := frm.caches[connection]
+	if !ok {
+		cache = UBufAlloc(frm.cacheCapacity)
+		frm.caches[connection] = cache
+	}
+
+	return cache
+}
+
+// deleteCache ...
+func (frm *FrameDecoder) deleteCache(connection TransportConnection) {
+	frm.mutex.Lock()
+	defer frm.mutex.Unlock()
+
+	delete(frm.caches, connection)
+}
+
 // fillCache moves as much current data as possible into cache
 // returns false if there is no room for any data
-func (frm *FrameDecoder) fillCache(ub *UBuf) bool {
+func (frm *FrameDecoder) fillCache(cache *UBuf, ub *UBuf) bool {
 	// reclaim the room of the consumed frames
-	if frm.cache.HeadWritableLength() > 0 {
-		remaining := make([]byte, frm.cache.ReadableLength())
-		frm.cache.Read(remaining)
-		frm.cache.Reset()
-		frm.cache.Write(remaining)
+	if cache.HeadWritableLength() > 0 {
+		remaining := make([]byte, cache.ReadableLength())
+		cache.Read(remaining)
+		cache.Reset()
+		cache.Write(remaining)
 	}
 
-	n, _ := frm.cache.ReadFrom(ub)
+	n, _ := cache.ReadFrom(ub)
 
 	return n > 0
 }
 
 // handleCachedData ...
-func (frm *FrameDecoder) handleCachedData(context Context) {
+func (frm *FrameDecoder) handleCachedData(context Context, cache *UBuf) {
 	// handle as much as possiable with loop
 	for {
-		cachedLength := frm.cache.ReadableLength()
+		cachedLength := cache.ReadableLength()
 
 		if cachedLength == 0 {
-			frm.cache.Reset()
+			cache.Reset()
 			return
 		}
 
@@ -88,10 +113,10 @@ func (frm *FrameDecoder) handleCachedData(context Context) {
 			return
 		}
 
-		expectedLength, err := frm.cache.PeekU32BE()
+		expectedLength, err := cache.PeekU32BE()
 		if err != nil {
 			// bad buffer, discard it
-			frm.cache.Reset()
+			cache.Reset()
 			return
 		}
 
@@ -107,13 +132,13 @@ func (frm *FrameDecoder) handleCachedData(context Context) {
 			FrameLengthFieldSizeInByte)
 
 		// drop size-field-data by dummy reading
-		frm.cache.ReadU32BE()
+		cache.ReadU32BE()
 
 		// fill the new buffer for uplayer
-		_, err = io.CopyN(newUbuf, frm.cache, int64(expectedLength))
+		_, err = io.CopyN(newUbuf, cache, int64(expectedLength))
 		if err != nil {
 			// bad buffer, discard it
-			frm.cache.Reset()
+			cache.Reset()
 			return
 		}
 
@@ -137,22 +162,34 @@ func (frm *FrameDecoder) OnLowerData(context Context) {
 	}
 
 	if frm.enable {
+		cache := frm.getCache(context.GetConnection())
+
 		for ub.ReadableLength() > 0 {
 			// put current received data into cache
-			if !frm.fillCache(ub) {
+			if !frm.fillCache(cache, ub) {
 				// frame is larger than cache, discard it
-				frm.cache.Reset()
+				cache.Reset()
 				return
 			}
 
 			// handle cached data
-			frm.handleCachedData(context)
+			frm.handleCachedData(context, cache)
 		}
 	} else {
 		frm.upper.OnLowerData(context)
 	}
 }
 
+// OnEvent ...
+func (frm *FrameDecoder) OnEvent(event Event) {
+	if event.Type == UStackEventConnectionClosed {
+		connection, ok := event.Data.(TransportConnection)
+		if ok {
+			frm.deleteCache(connection)
+		}
+	}
+}
+
 // Run ...
 func (frm *FrameDecoder) Run() DataProcessor {
 	cacheCapacity, exists := OptionParseInt(frm.GetOption("CacheCapacity"), 2*frm.ustack.GetMTU())
@@ -163,7 +200,9 @@ func (frm *FrameDecoder) Run() DataProcessor {
 		fmt.Println("FrameDecoder: option CacheCapacity:", frm.cacheCapacity)
 	}
 
-	frm.cache = UBufAlloc(frm.cacheCapacity)
+	if frm.cacheCapacity <= 0 {
+		log.Panicf("FrameDecoder: bad CacheCapacity: %d\n", frm.cacheCapacity)
+	}
 
 	return frm
 }
-- 
2.43.0


From baf3e0f7249cf266f32a4fdd03139054d54f3f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:37 +0000
Subject: [PATCH 15/18] fix: ReferenceTransport is never marked running and can
 not be stopped

---
 tran_reference.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/tran_reference.go b/tran_reference.go
index e1ebfe2..233a03b 100644
--- a/tran_reference.go
+++ b/tran_reference.go
@@ -220,8 +220,15 @@ func (sm *ReferenceTransport) GetAddress() string {
 // NextConnection ...
 func (sm *ReferenceTransport) NextConnection() TransportConnection {
 	next := <-sm.next
+	if next == nil {
+		return nil
+	}
+
+	sm.Lock()
+	defer sm.Unlock()
+
 	sm.connection = next
-	return sm.connection
+	return next
 }
 
 // Two Transports(Client side and Server side) should use the same
@@ -239,8 +246,12 @@ func (sm *ReferenceTransport) Run() Transport {
 		return sm
 	}
 
+	sm.isRunning = true
+
 	sm.parseOptions()
 
+	sm.next = make(chan TransportConnection, 1)
+
 	mutex.Lock()
 
 	// check if some Transport have created
@@ -269,7 +280,12 @@ func (sm *ReferenceTransport) Stop() Transport {
 		return sm
 	}
 
-	sm.connection.Close()
+	close(sm.next)
+
+	if sm.connection != nil {
+		sm.connection.Close()
+		sm.connection = nil
+	}
 
 	mutex.Lock()
 
@@ -285,5 +301,7 @@ func (sm *ReferenceTransport) Stop() Transport {
 
 	mutex.Unlock()
 
+	sm.isRunning = false
+
 	return sm
 }
-- 
2.43.0


From 1af05c1e4d54b2c42fecd496d80f6751226622cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:06 +0000
Subject: [PATCH 16/18] fix: a truncated message makes the GOB decoder spin on
 an empty UBuf forever

---
 proc_codec_gob.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/proc_codec_gob.go b/proc_codec_gob.go
index f344732..9636dc5 100644
--- a/proc_codec_gob.go
+++ b/proc_codec_gob.go
@@ -5,6 +5,7 @@
 package ustack
 
 import (
+	"bytes"
 	"encoding/gob"
 	"fmt"
 	"reflect"
@@ -57,8 +58,16 @@ func (g *GOBCodec) OnLowerData(context Context) {
 			return
 		}
 
+		data := make([]byte, ub.ReadableLength())
+
+		n, err := ub.Read(data)
+		if n == 0 || err != nil {
+			return
+		}
+
+		// the decoder never ends on UBuf if data is truncated
 		objectItf := reflect.New(g.objectType).Interface()
-		err := gob.NewDecoder(ub).Decode(objectItf)
+		err = gob.NewDecoder(bytes.NewReader(data)).Decode(objectItf)
 		if err != nil {
 			fmt.Println("GOBCodec: gob encode error:", err)
 			return
-- 
2.43.0


From 2d5534a3c24c92f4bd2e2093a2f742daddf7b1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:31 +0000
Subject: [PATCH 17/18] fix: a stopped transport no longer hands out
 connections nobody closes

NextConnection returned connections still queued when the transport was
stopped; they were open, in no connection list any Stop would close, and
sending on such a reference connection panicked on the closed channel.
---
 tran_reference.go |  6 ++++++
 tran_tcp.go       | 17 +++++++++++++----
 tran_unix.go      | 17 +++++++++++++----
 3 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/tran_reference.go b/tran_reference.go
index 233a03b..805e3ec 100644
--- a/tran_reference.go
+++ b/tran_reference.go
@@ -227,6 +227,12 @@ func (sm *ReferenceTransport) NextConnection() TransportConnection {
 	sm.Lock()
 	defer sm.Unlock()
 
+	// was stopped in the meantime, nobody would close it any more
+	if !sm.isRunning {
+		next.Close()
+		return nil
+	}
+
 	sm.connection = next
 	return next
 }
diff --git a/tran_tcp.go b/tran_tcp.go
index 8106f90..de2648c 100644
--- a/tran_tcp.go
+++ b/tran_tcp.go
@@ -138,20 +138,27 @@ func (t *TCPTransport) doInit() {
 }
 
 // saveConnections ...
-func (t *TCPTransport) saveConnection(tc TransportConnection) {
+func (t *TCPTransport) saveConnection(tc TransportConnection) bool {
 	if tc == nil {
-		return
+		return false
 	}
 
 	t.Lock()
 	defer t.Unlock()
 
+	// was stopped in the meantime, nobody would close it any more
+	if !t.isRunning {
+		tc.Close()
+		return false
+	}
+
 	for _, c := range t.connections {
 		if c == tc {
-			return
+			return true
 		}
 	}
 	t.connections = append(t.connections, tc)
+	return true
 }
 
 // dropConnections ...
@@ -249,7 +256,9 @@ func (t *TCPTransport) GetAddress() string {
 // NextConnection ...
 func (t *TCPTransport) NextConnection() TransportConnection {
 	next := <-t.next
-	t.saveConnection(next)
+	if !t.saveConnection(next) {
+		return nil
+	}
 	return next
 }
 
diff --git a/tran_unix.go b/tran_unix.go
index d1b5369..9d97585 100644
--- a/tran_unix.go
+++ b/tran_unix.go
@@ -139,20 +139,27 @@ func (uds *UDSTransport) doInit() {
 }
 
 // saveConnections ...
-func (uds *UDSTransport) saveConnection(tc TransportConnection) {
+func (uds *UDSTransport) saveConnection(tc TransportConnection) bool {
 	if tc == nil {
-		return
+		return false
 	}
 
 	uds.Lock()
 	defer uds.Unlock()
 
+	// was stopped in the meantime, nobody would close it any more
+	if !uds.isRunning {
+		tc.Close()
+		return false
+	}
+
 	for _, c := range uds.connections {
 		if c == tc {
-			return
+			return true
 		}
 	}
 	uds.connections = append(uds.connections, tc)
+	return true
 }
 
 // dropConnections ...
@@ -253,7 +260,9 @@ func (uds *UDSTransport) GetAddress() string {
 // NextConnection ...
 func (uds *UDSTransport) NextConnection() TransportConnection {
 	next := <-uds.next
-	uds.saveConnection(next)
+	if !uds.saveConnection(next) {
+		return nil
+	}
 	return next
 }
 
-- 
2.43.0


From 186e38668a37239d6f8bef1eb4331782baf014e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:32 +0000
Subject: [PATCH 18/18] fix: goroutines of a stopped TCP or Unix transport
 cannot crash or disturb it

Stop while accepting or dialing made the goroutine of that run send on the
closed queue and panic, left a listener open when Stop came before Listen,
and let the goroutine of an earlier run stop the transport (or remove the
socket file) of a later one.
---
 tran_tcp.go  |  98 +++++++++++++++++++++++++++++++++++++++-----------
 tran_unix.go | 100 +++++++++++++++++++++++++++++++++++++++------------
 2 files changed, 156 insertions(+), 42 deletions(-)

diff --git a/tran_tcp.go b/tran_tcp.go
index de2648c..f4f6a4f 100644
--- a/tran_tcp.go
+++ b/tran_tcp.go
@@ -161,6 +161,44 @@ func (t *TCPTransport) saveConnection(tc TransportConnection) bool {
 	return true
 }
 
+// active tells if the run that created the queue is not stopped yet,
+// the lock must be held
+func (t *TCPTransport) active(queue chan TransportConnection) bool {
+	return t.isRunning && t.next == queue
+}
+
+// deliver queues a new connection for NextConnection,
+// it closes the connection if the transport was stopped in the meantime
+func (t *TCPTransport) deliver(queue chan TransportConnection, tc TransportConnection) bool {
+	for {
+		t.Lock()
+		if !t.active(queue) {
+			t.Unlock()
+			tc.Close()
+			return false
+		}
+		select {
+		case queue <- tc:
+			t.Unlock()
+			return true
+		default:
+			// the queue is full, try later
+			t.Unlock()
+			time.Sleep(time.Millisecond)
+		}
+	}
+}
+
+// finish stops the transport if the run that created the queue is still active
+func (t *TCPTransport) finish(queue chan TransportConnection) {
+	t.Lock()
+	defer t.Unlock()
+
+	if t.active(queue) {
+		t.shutdown()
+	}
+}
+
 // dropConnections ...
 func (t *TCPTransport) dropConnections() {
 	for _, c := range t.connections {
@@ -169,52 +207,69 @@ func (t *TCPTransport) dropConnections() {
 }
 
 // accept ...
-func (t *TCPTransport) accept() {
+func (t *TCPTransport) accept(queue chan TransportConnection) {
 	listener, err := net.Listen("tcp", t.address)
 	if err != nil {
 		log.Fatal(err)
 	}
 
+	t.Lock()
+	if !t.active(queue) {
+		// was stopped before listening
+		t.Unlock()
+		listener.Close()
+		return
+	}
 	t.listener = listener
+	t.Unlock()
 
 	fmt.Println("Wait client connection ...")
 
 	for {
-		next, err := t.listener.Accept()
+		next, err := listener.Accept()
 		if err != nil {
 			break
 		}
 
-		t.next <- NewTCPTransportConnection(
+		if !t.deliver(queue, NewTCPTransportConnection(
 			next.RemoteAddr().String(),
-			next)
+			next)) {
+			return
+		}
 	}
 
-	t.Stop()
+	t.finish(queue)
 }
 
 // connect ...
-func (t *TCPTransport) connect() {
+func (t *TCPTransport) connect(queue chan TransportConnection) {
 	fmt.Println("Dial server ...")
 
 	for i := 0; i < t.maxRetryCount; i++ {
 		connection, err := net.DialTimeout("tcp", t.address, time.Second)
 
 		if connection != nil && err == nil {
-			t.next <- NewTCPTransportConnection(
+			t.deliver(queue, NewTCPTransportConnection(
 				connection.RemoteAddr().String(),
-				connection)
+				connection))
 			return
 		}
 
 		fmt.Println(err, "retry", i)
 
 		time.Sleep(time.Second * time.Duration(t.retryIntervalInSecond))
+
+		t.Lock()
+		stopped := !t.active(queue)
+		t.Unlock()
+		if stopped {
+			return
+		}
 	}
 
 	fmt.Println("Timeout to connect server")
 
-	t.Stop()
+	t.finish(queue)
 }
 
 // ForServer ...
@@ -277,22 +332,15 @@ func (t *TCPTransport) Run() Transport {
 	t.doInit()
 
 	if t.forServer {
-		go t.accept()
+		go t.accept(t.next)
 	} else {
-		go t.connect()
+		go t.connect(t.next)
 	}
 	return t
 }
 
-// Stop ...
-func (t *TCPTransport) Stop() Transport {
-	t.Lock()
-	defer t.Unlock()
-
-	if !t.isRunning {
-		return t
-	}
-
+// shutdown ends the current run, the lock must be held
+func (t *TCPTransport) shutdown() {
 	if t.listener != nil {
 		t.listener.Close()
 		t.listener = nil
@@ -303,6 +351,16 @@ func (t *TCPTransport) Stop() Transport {
 	t.dropConnections()
 
 	t.isRunning = false
+}
+
+// Stop ...
+func (t *TCPTransport) Stop() Transport {
+	t.Lock()
+	defer t.Unlock()
+
+	if t.isRunning {
+		t.shutdown()
+	}
 
 	return t
 }
diff --git a/tran_unix.go b/tran_unix.go
index 9d97585..994042d 100644
--- a/tran_unix.go
+++ b/tran_unix.go
@@ -162,6 +162,44 @@ func (uds *UDSTransport) saveConnection(tc TransportConnection) bool {
 	return true
 }
 
+// active tells if the run that created the queue is not stopped yet,
+// the lock must be held
+func (uds *UDSTransport) active(queue chan TransportConnection) bool {
+	return uds.isRunning && uds.next == queue
+}
+
+// deliver queues a new connection for NextConnection,
+// it closes the connection if the transport was stopped in the meantime
+func (uds *UDSTransport) deliver(queue chan TransportConnection, tc TransportConnection) bool {
+	for {
+		uds.Lock()
+		if !uds.active(queue) {
+			uds.Unlock()
+			tc.Close()
+			return false
+		}
+		select {
+		case queue <- tc:
+			uds.Unlock()
+			return true
+		default:
+			// the queue is full, try later
+			uds.Unlock()
+			time.Sleep(time.Millisecond)
+		}
+	}
+}
+
+// finish stops the transport if the run that created the queue is still active
+func (uds *UDSTransport) finish(queue chan TransportConnection) {
+	uds.Lock()
+	defer uds.Unlock()
+
+	if uds.active(queue) {
+		uds.shutdown()
+	}
+}
+
 // dropConnections ...
 func (uds *UDSTransport) dropConnections() {
 	for _, c := range uds.connections {
@@ -170,7 +208,7 @@ func (uds *UDSTransport) dropConnections() {
 }
 
 // accept ...
-func (uds *UDSTransport) accept() {
+func (uds *UDSTransport) accept(queue chan TransportConnection) {
 	os.Remove(uds.filename)
 
 	listener, err := net.Listen("unix", uds.filename)
@@ -178,47 +216,62 @@ func (uds *UDSTransport) accept() {
 		log.Fatal(err)
 	}
 
-	defer os.Remove(uds.filename)
-
+	uds.Lock()
+	if !uds.active(queue) {
+		// was stopped before listening
+		uds.Unlock()
+		listener.Close()
+		return
+	}
 	uds.listener = listener
+	uds.Unlock()
 
 	fmt.Println("Wait client connection ...")
 
 	for {
-		next, err := uds.listener.Accept()
+		next, err := listener.Accept()
 		if err != nil {
 			break
 		}
 
-		uds.next <- NewUDSTransportConnection(
+		if !uds.deliver(queue, NewUDSTransportConnection(
 			next.RemoteAddr().String(),
-			next)
+			next)) {
+			return
+		}
 	}
 
-	uds.Stop()
+	uds.finish(queue)
 }
 
 // connect ...
-func (uds *UDSTransport) connect() {
+func (uds *UDSTransport) connect(queue chan TransportConnection) {
 	fmt.Println("Dial server ...")
 
 	for i := 0; i < uds.maxRetryCount; i++ {
 		connection, err := net.DialTimeout("unix", uds.filename, time.Second)
 
 		if connection != nil && err == nil {
-			uds.next <- NewUDSTransportConnection(
+			uds.deliver(queue, NewUDSTransportConnection(
 				connection.RemoteAddr().String(),
-				connection)
+				connection))
 			return
 		}
 
 		fmt.Println(err, "retry", i+1)
 
 		time.Sleep(time.Second * time.Duration(uds.retryIntervalInSecond))
+
+		uds.Lock()
+		stopped := !uds.active(queue)
+		uds.Unlock()
+		if stopped {
+			return
+		}
 	}
 
 	fmt.Println("Timeout to connect server")
-	uds.Stop()
+	uds.finish(queue)
 }
 
 // ForServer ...
@@ -281,22 +334,15 @@ func (uds *UDSTransport) Run() Transport {
 	uds.doInit()
 
 	if uds.forServer {
-		go uds.accept()
+		go uds.accept(uds.next)
 	} else {
-		go uds.connect()
+		go uds.connect(uds.next)
 	}
 	return uds
 }
 
-// Stop ...
-func (uds *UDSTransport) Stop() Transport {
-	uds.Lock()
-	defer uds.Unlock()
-
-	if !uds.isRunning {
-		return uds
-	}
-
+// shutdown ends the current run, the lock must be held
+func (uds *UDSTransport) shutdown() {
 	if uds.listener != nil {
 		uds.listener.Close()
 		uds.listener = nil
@@ -307,6 +353,16 @@ func (uds *UDSTransport) Stop() Transport {
 	uds.dropConnections()
 
 	uds.isRunning = false
+}
+
+// Stop ...
+func (uds *UDSTransport) Stop() Transport {
+	uds.Lock()
+	defer uds.Unlock()
+
+	if uds.isRunning {
+		uds.shutdown()
+	}
 
 	return uds
 }
-- 
2.43.0


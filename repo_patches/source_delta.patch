From 95888e66f73fe4bb46f6200587249f579eaeaa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:04 +0000
Subject: [PATCH 01/47] fix: do not call handlers of file events removed
 earlier in the same round

---
 ae/ae.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ae/ae.go b/ae/ae.go
index 0328dec..55a6b03 100644
--- a/ae/ae.go
+++ b/ae/ae.go
@@ -200,6 +200,11 @@ func (el *EventLoop) processEvents(timeEvents []*TimeEvent, fileEvents []*FileEv
 	}
 
 	for _, fe := range fileEvents {
+		// the event may have been removed, and its fd reused, by a handler called earlier in this round
+		if el.fileEventMap[getFileEventMapKey(fe.fd, fe.mask)] != fe {
+			continue
+		}
+
 		fe.proc(el, fe.fd, fe.clientData)
 	}
 
-- 
2.43.0


From e42b38985a9834e43c72500a09b6dff33e0a0042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:04 +0000
Subject: [PATCH 02/47] fix: do not run time events removed earlier in the same
 round

---
 ae/ae.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ae/ae.go b/ae/ae.go
index 55a6b03..e12566f 100644
--- a/ae/ae.go
+++ b/ae/ae.go
@@ -48,6 +48,7 @@ type TimeEvent struct {
 	interval   int64
 	proc       TimeProc
 	clientData any
+	removed    bool
 }
 
 type EventLoop struct {
@@ -152,6 +153,7 @@ func (el *EventLoop) RemoveTimeEvent(id int64) error {
 		te := e.Value.(*TimeEvent)
 		if te.id == id {
 			el.timeEventHead.Remove(e)
+			te.removed = true
 
 			return nil
 		}
@@ -188,8 +190,16 @@ func (el *EventLoop) Stop() {
 // processEvents processes time events and file events
 func (el *EventLoop) processEvents(timeEvents []*TimeEvent, fileEvents []*FileEvent) error {
 	for _, te := range timeEvents {
+		if te.removed {
+			continue // removed by a callback called earlier in this round
+		}
+
 		te.proc(el, te.id, te.clientData)
 
+		if te.removed {
+			continue // removed by its own callback
+		}
+
 		if te.mask == TypeTimeEventOnce {
 			if err := el.RemoveTimeEvent(te.id); err != nil {
 				return errors.Wrapf(err, "failed to remove time event: %v", te)
-- 
2.43.0


From 6802955eb8b0411303e83286e800c07389ed26f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:04 +0000
Subject: [PATCH 03/47] fix: drive timers by the monotonic clock

---
 ae/ae.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ae/ae.go b/ae/ae.go
index e12566f..a32ef2f 100644
--- a/ae/ae.go
+++ b/ae/ae.go
@@ -318,7 +318,10 @@ func getFileEventType(epollEventType uint32) TypeFileEvent {
 	}
 }
 
-// now returns current time in milliseconds
+// startTime is the origin of the clock of the event loop
+var startTime = time.Now()
+
+// now returns the time elapsed since startTime in milliseconds, timers must not be affected by wall clock jumps
 func now() int64 {
-	return time.Now().UnixMilli()
+	return time.Since(startTime).Milliseconds()
 }
-- 
2.43.0


From 7250ed7feb1d3e6ffa920696de68b134812dc31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:04 +0000
Subject: [PATCH 04/47] fix: run due time events when the wait is interrupted

---
 ae/ae.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ae/ae.go b/ae/ae.go
index a32ef2f..67898b0 100644
--- a/ae/ae.go
+++ b/ae/ae.go
@@ -230,7 +230,7 @@ func (el *EventLoop) wait() ([]*TimeEvent, []*FileEvent, error) {
 
 	events := make([]syscall.EpollEvent, 1024)
 	nReady, err := syscall.EpollWait(el.fileEventFd, events, int(timeout))
-	if err != nil {
+	if err != nil && !errors.Is(err, syscall.EINTR) { // time events may be due even if the wait was interrupted
 		return nil, nil, errors.Wrap(err, "epoll wait failed")
 	}
 
-- 
2.43.0


From fadb36b63e2bf395ab56164d820003d7606899c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:04 +0000
Subject: [PATCH 05/47] fix: send replies only after the before-sleep hook of
 their round

---
 ae/ae.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ae/ae.go b/ae/ae.go
index 67898b0..c6021b8 100644
--- a/ae/ae.go
+++ b/ae/ae.go
@@ -239,7 +239,8 @@ func (el *EventLoop) wait() ([]*TimeEvent, []*FileEvent, error) {
 		fileEvents []*FileEvent
 	)
 
-	epollEventTypes := []uint32{syscall.EPOLLIN, syscall.EPOLLOUT}
+	// writable first: what a readable handler queues must not be written before the next beforeSleep call
+	epollEventTypes := []uint32{syscall.EPOLLOUT, syscall.EPOLLIN}
 	for i := 0; i < nReady; i++ {
 		ev := events[i]
 		for _, epollEventType := range epollEventTypes {
-- 
2.43.0


From 3850515619a2712ae6661e21a096dbebab513682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 06/47] fix: wait for the CRLF of a bulk string before looking
 at it

---
 server/resp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/resp.go b/server/resp.go
index c781c6f..e10f57c 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -163,7 +163,7 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 			client.moveToNextLineInQueryBuffer(index)
 		}
 
-		if client.queryLen < client.bulkLen {
+		if client.queryLen < client.bulkLen+2 {
 			return false, nil
 		}
 
-- 
2.43.0


From 409e6975ff1df6a92bb3e600ce94957429b31604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 07/47] fix: keep the unprocessed input when a command is done

---
 server/client.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/server/client.go b/server/client.go
index 664b77e..8573e72 100644
--- a/server/client.go
+++ b/server/client.go
@@ -196,8 +196,6 @@ func (c *Client) free() {
 }
 
 func (c *Client) reset() {
-	c.queryBuf = nil
-	c.queryLen = 0
 	c.cmdType = CommandTypeUnknown
 	c.args = nil
 	c.multiBulkLen = 0
-- 
2.43.0


From 427b37b45a18d03520e8c1c2983c98809c267090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 08/47] fix: accept empty bulk strings

---
 server/client.go |  5 +++--
 server/resp.go   | 17 ++++++++---------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/server/client.go b/server/client.go
index 8573e72..7d4c143 100644
--- a/server/client.go
+++ b/server/client.go
@@ -33,7 +33,7 @@ type Client struct {
 	cmdType       CommandType
 	args          []string
 	multiBulkLen  int
-	bulkLen       int
+	bulkLen       int        // -1 when the length is not read yet
 	replayHead    *list.List // string
 	sentLen       int
 	authenticated bool // when server requirPassword is not empty, client must auth first
@@ -45,6 +45,7 @@ func NewClient(srv *Server, fd socket.FD) *Client {
 		db:         srv.dbs[0],
 		fd:         fd,
 		queryBuf:   make([]byte, maxBulk),
+		bulkLen:    -1,
 		replayHead: list.New(),
 	}
 }
@@ -199,5 +200,5 @@ func (c *Client) reset() {
 	c.cmdType = CommandTypeUnknown
 	c.args = nil
 	c.multiBulkLen = 0
-	c.bulkLen = 0
+	c.bulkLen = -1
 }
diff --git a/server/resp.go b/server/resp.go
index e10f57c..aa3a62f 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -77,7 +77,7 @@ func processInlineBuffer(client *Client) (bool, error) {
 }
 
 func processBulkBuffer(client *Client) (bool, error) {
-	if client.bulkLen == 0 {
+	if client.bulkLen == -1 {
 		index := client.getCRLFIndexFromQueryBuffer()
 		if index == -1 {
 			if client.queryLen > MaxInlineSize {
@@ -94,10 +94,6 @@ func processBulkBuffer(client *Client) (bool, error) {
 
 		client.moveToNextLineInQueryBuffer(index)
 
-		if num == 0 {
-			return true, nil
-		}
-
 		client.bulkLen = num
 	}
 
@@ -105,10 +101,13 @@ func processBulkBuffer(client *Client) (bool, error) {
 		return false, nil
 	}
 
-	client.args = append(client.args, byteutils.B2S(client.queryBuf[0:client.bulkLen]))
+	if client.bulkLen > 0 {
+		client.args = append(client.args, byteutils.B2S(client.queryBuf[0:client.bulkLen]))
+	}
+
 	client.moveToNextLineInQueryBuffer(client.bulkLen)
 
-	client.bulkLen = 0
+	client.bulkLen = -1
 
 	return true, nil
 }
@@ -140,7 +139,7 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 	}
 
 	for client.multiBulkLen > 0 {
-		if client.bulkLen == 0 {
+		if client.bulkLen == -1 {
 			index := client.getCRLFIndexFromQueryBuffer()
 			if index == -1 {
 				if client.queryLen > MaxInlineSize {
@@ -173,7 +172,7 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 		}
 
 		client.args[len(client.args)-client.multiBulkLen] = byteutils.B2S(client.queryBuf[:index])
-		client.bulkLen = 0
+		client.bulkLen = -1
 		client.multiBulkLen--
 
 		client.moveToNextLineInQueryBuffer(index)
-- 
2.43.0


From b799881b6d485e91d3cd4a3be379186798cbc850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 09/47] fix: reject negative and absurd lengths in requests
 instead of panicking

---
 server/resp.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/server/resp.go b/server/resp.go
index aa3a62f..e8addef 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -7,7 +7,11 @@ import (
 	"github.com/pkg/errors"
 )
 
-const MaxInlineSize = 1024 * 64
+const (
+	MaxInlineSize   = 1024 * 64
+	MaxMultiBulkLen = 1024 * 1024
+	MaxBulkSize     = 1024 * 1024 * 512
+)
 
 // https://redis.io/docs/reference/protocol-spec/
 func processInputBuffer(client *Client) error {
@@ -92,6 +96,10 @@ func processBulkBuffer(client *Client) (bool, error) {
 			return false, errors.Wrap(err, "failed to get bulk length")
 		}
 
+		if num < 0 || num > MaxBulkSize {
+			return false, errors.New("invalid bulk length")
+		}
+
 		client.moveToNextLineInQueryBuffer(index)
 
 		client.bulkLen = num
@@ -128,9 +136,13 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 			return false, errors.Wrap(err, "failed to get multi bulk length")
 		}
 
+		if num > MaxMultiBulkLen {
+			return false, errors.New("invalid multi bulk length")
+		}
+
 		client.moveToNextLineInQueryBuffer(index)
 
-		if num == 0 {
+		if num <= 0 {
 			return true, nil
 		}
 
@@ -158,6 +170,10 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 				return false, errors.Wrap(err, "failed to get multi bulk length")
 			}
 
+			if num < 0 || num > MaxBulkSize {
+				return false, errors.New("invalid bulk length")
+			}
+
 			client.bulkLen = num
 			client.moveToNextLineInQueryBuffer(index)
 		}
-- 
2.43.0


From 03da71e297f0815002dd988108f20ccf05e626fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 10/47] fix: ignore blank lines instead of panicking

---
 server/resp.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/resp.go b/server/resp.go
index e8addef..de8ef90 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -71,6 +71,12 @@ func processInlineBuffer(client *Client) (bool, error) {
 		return false, nil
 	}
 
+	if index == 0 { // ignore blank lines
+		client.moveToNextLineInQueryBuffer(index)
+
+		return true, nil
+	}
+
 	subs := strings.Split(byteutils.B2S(client.queryBuf[1:index]), " ")
 	client.args = make([]string, len(subs))
 	copy(client.args, subs)
-- 
2.43.0


From 11d92b4dce4894a54472b73c34b5e87dd4e9f537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 11/47] fix: release the client when reading from it fails

---
 server/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/server.go b/server/server.go
index 03d4f50..6920da4 100644
--- a/server/server.go
+++ b/server/server.go
@@ -191,6 +191,7 @@ func readQueryFromClient(el *ae.EventLoop, fd socket.FD, clientData any) {
 			nRead = 0
 		default:
 			log.Error("failed to read", zap.Error(err))
+			client.free()
 
 			return
 		}
-- 
2.43.0


From 5beccf5b1f083d5e1cb5580d357ad037ba2fac26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 12/47] fix: bind and connect to the given address

---
 socket/socket.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socket/socket.go b/socket/socket.go
index 333ae41..13bb243 100644
--- a/socket/socket.go
+++ b/socket/socket.go
@@ -27,7 +27,7 @@ func (fd FD) Close() error {
 }
 
 func (fd FD) Connect(ip string, port uint16) error {
-	ipAddr := net.ParseIP(ip)
+	ipAddr := net.ParseIP(ip).To4()
 	if ipAddr == nil {
 		return errors.New("invalid ip address")
 	}
@@ -42,7 +42,7 @@ func (fd FD) Connect(ip string, port uint16) error {
 }
 
 func (fd FD) Bind(ip string, port uint16) error {
-	ipAddr := net.ParseIP(ip)
+	ipAddr := net.ParseIP(ip).To4()
 	if ipAddr == nil {
 		return errors.New("invalid ip address")
 	}
-- 
2.43.0


From d818704bc57f3915e8dab70adbb484ef4406c695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 13/47] fix: find list elements of the second half that are not
 in the first page

---
 datastruct/quicklist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/quicklist.go b/datastruct/quicklist.go
index 19ce289..68e58c9 100644
--- a/datastruct/quicklist.go
+++ b/datastruct/quicklist.go
@@ -253,7 +253,7 @@ func (q *Quicklist) get(index int) *QuicklistIterator {
 			pageIndex += pageLen
 		}
 	} else {
-		pageIndex := q.length
+		pageIndex = q.length
 		for node = q.data.Back(); node != nil; node = node.Prev() {
 			pageLen := node.Value.(quicklistPage).Len()
 			if pageIndex -= pageLen; pageIndex <= index {
-- 
2.43.0


From c389151a768c6def34027a92b1b94fc752535558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:06 +0000
Subject: [PATCH 14/47] fix: do not panic on ranges with a huge end

---
 datastruct/quicklist.go | 4 ++++
 datastruct/skiplist.go  | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/datastruct/quicklist.go b/datastruct/quicklist.go
index 68e58c9..1472ba0 100644
--- a/datastruct/quicklist.go
+++ b/datastruct/quicklist.go
@@ -201,6 +201,10 @@ func (q *Quicklist) Range(start, stop int) []any {
 		return nil
 	}
 
+	if stop >= q.length {
+		stop = q.length - 1
+	}
+
 	iter := q.get(start)
 	if iter == nil {
 		return nil
diff --git a/datastruct/skiplist.go b/datastruct/skiplist.go
index 4e5b86e..1d5894c 100644
--- a/datastruct/skiplist.go
+++ b/datastruct/skiplist.go
@@ -247,6 +247,14 @@ func (s *Skiplist) RangeByRank(start, end int64, reverse bool) []*SkiplistNode {
 		}
 	}
 
+	if end > s.Length {
+		end = s.Length
+	}
+
+	if start > end {
+		return nil
+	}
+
 	rangeLen := end - start + 1
 	elements := make([]*SkiplistNode, 0, rangeLen)
 	for i := int64(0); i < rangeLen && node != nil; i++ {
-- 
2.43.0


From 4f9a44f83d204be6aad9c948f15cb86281d45105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:07 +0000
Subject: [PATCH 15/47] fix: remove the old node when the score of a sorted set
 member changes

---
 datastruct/zset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/zset.go b/datastruct/zset.go
index 35b968f..98f3b8b 100644
--- a/datastruct/zset.go
+++ b/datastruct/zset.go
@@ -27,8 +27,8 @@ func (z *Zset) Add(score float64, member string) bool {
 	element := z.Get(member)
 	if element != nil {
 		if score != element.Score {
-			element.Score = score
 			z.skiplist.Delete(element.Score, element.Member)
+			element.Score = score
 			z.skiplist.Insert(score, member)
 		}
 
-- 
2.43.0


From f07d3cb26177850da03848286e00302b41f3d96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 16/47] fix: count the rank across levels when removing a range
 by rank

---
 datastruct/skiplist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/skiplist.go b/datastruct/skiplist.go
index 1d5894c..e7c2bee 100644
--- a/datastruct/skiplist.go
+++ b/datastruct/skiplist.go
@@ -161,8 +161,8 @@ func (s *Skiplist) DeleteRangeByRank(start, end int64) []*SkiplistNode {
 	update := make([]*SkiplistNode, maxLevel)
 	x := s.Head
 
+	rank := int64(0)
 	for i := s.Level - 1; i >= 0; i-- {
-		rank := int64(0)
 		for x.Levels[i].Forward != nil && (rank+x.Levels[i].Span) < start {
 			rank += x.Levels[i].Span
 			x = x.Levels[i].Forward
-- 
2.43.0


From f00a336f7a4b969e3314b64884d4c96f77259db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 17/47] fix: copy collections too in the snapshot taken for a
 log rewrite

---
 datastruct/dict.go      | 17 ++++++++++++++++-
 datastruct/quicklist.go | 12 ++++++++++++
 datastruct/set.go       |  4 ++++
 datastruct/zset.go      | 10 ++++++++++
 4 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/datastruct/dict.go b/datastruct/dict.go
index 0d9f611..10dc9a3 100644
--- a/datastruct/dict.go
+++ b/datastruct/dict.go
@@ -276,12 +276,27 @@ func (d *Dict) DeepCopy() *Dict {
 
 	dict := NewDict(d.DictType)
 	for entry := iter.Next(); entry != nil; entry = iter.Next() {
-		dict.Set(entry.Key, entry.Value)
+		dict.Set(entry.Key, deepCopyValue(entry.Value))
 	}
 
 	return dict
 }
 
+func deepCopyValue(value any) any {
+	switch v := value.(type) {
+	case *Dict:
+		return v.DeepCopy()
+	case *Set:
+		return v.DeepCopy()
+	case *Zset:
+		return v.DeepCopy()
+	case *Quicklist:
+		return v.DeepCopy()
+	default:
+		return value
+	}
+}
+
 // keyIndex returns the index of a free slot that can be used to store the given key.
 // if the key already exists, -1 is returned.
 // Note that if it is in the process of rehashing, the index is always returned in the second (new) hash table.
diff --git a/datastruct/quicklist.go b/datastruct/quicklist.go
index 1472ba0..724b6ce 100644
--- a/datastruct/quicklist.go
+++ b/datastruct/quicklist.go
@@ -231,6 +231,18 @@ func (q *Quicklist) Get(index int) any {
 	return iter.value()
 }
 
+func (q *Quicklist) DeepCopy() *Quicklist {
+	quicklist := NewQuicklist()
+	for node := q.data.Front(); node != nil; node = node.Next() {
+		page := make(quicklistPage, 0, pageSize)
+		quicklist.data.PushBack(append(page, node.Value.(quicklistPage)...))
+	}
+
+	quicklist.length = q.length
+
+	return quicklist
+}
+
 func (q *Quicklist) Len() int {
 	return q.length
 }
diff --git a/datastruct/set.go b/datastruct/set.go
index 64e4d6a..aa08746 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -16,6 +16,10 @@ func (s *Set) Delete(member any) error {
 	return s.dict.Delete(member)
 }
 
+func (s *Set) DeepCopy() *Set {
+	return &Set{dict: s.dict.DeepCopy()}
+}
+
 func (s *Set) Size() int64 {
 	return s.dict.Size()
 }
diff --git a/datastruct/zset.go b/datastruct/zset.go
index 98f3b8b..6d2e85c 100644
--- a/datastruct/zset.go
+++ b/datastruct/zset.go
@@ -139,6 +139,16 @@ func (z *Zset) RangeByScore(min, max float64, limit int64, reverse bool) []*Zset
 	return elements
 }
 
+// DeepCopy returns a copy of the zset which shares nothing with it.
+func (z *Zset) DeepCopy() *Zset {
+	zset := NewZset(z.dict.DictType)
+	for node := z.skiplist.Head.Levels[0].Forward; node != nil; node = node.Levels[0].Forward {
+		zset.Add(node.Score, node.Member)
+	}
+
+	return zset
+}
+
 // Size returns the number of elements in the zset.
 func (z *Zset) Size() int64 {
 	return z.skiplist.Length
-- 
2.43.0


From 2cfb79e356fb4b5c13f3a19cf333b05dfe32abed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 18/47] fix: reject negative database indexes instead of
 panicking

---
 server/commandconnection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/commandconnection.go b/server/commandconnection.go
index f3cbddc..ed66966 100644
--- a/server/commandconnection.go
+++ b/server/commandconnection.go
@@ -12,7 +12,7 @@ func selectCommand(client *Client) error {
 		return client.addReplyError(err.Error())
 	}
 
-	if dbIndex >= len(client.srv.dbs) {
+	if dbIndex < 0 || dbIndex >= len(client.srv.dbs) {
 		return client.addReplyError("invalid db index")
 	}
 
-- 
2.43.0


From 98021a7c394ea95cb0906cdacd1c1cb60ccc0e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 19/47] fix: SUNION must not be empty because its first key
 does not exist

---
 server/commandset.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/commandset.go b/server/commandset.go
index 6c0a129..2ed9d56 100644
--- a/server/commandset.go
+++ b/server/commandset.go
@@ -179,11 +179,11 @@ func sInterCommand(client *Client) error {
 func sUnionCommand(client *Client) error {
 	set, err := getSetIfExist(client, client.args[1])
 	if err != nil {
-		if errors.Is(err, errNotExist) {
-			return client.addReplyEmpty()
+		if !errors.Is(err, errNotExist) {
+			return client.addReplyError(err.Error())
 		}
 
-		return client.addReplyError(err.Error())
+		set = datastruct.NewSet(&database.DictType{})
 	}
 
 	for i := 2; i < len(client.args); i++ {
-- 
2.43.0


From d6a030565637cf301b0f17c33b380a86a8a84425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 20/47] fix: apply ZADD as a whole or not at all, reject NaN
 scores

---
 server/commandzset.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/server/commandzset.go b/server/commandzset.go
index 7c61771..39f45fa 100644
--- a/server/commandzset.go
+++ b/server/commandzset.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"math"
 	"strconv"
 
 	"github.com/IfanTsai/metis/database"
@@ -15,6 +16,21 @@ func zAddCommand(client *Client) error {
 
 	key := client.args[1]
 
+	// check all the scores first, the command must not be applied partially
+	scores := make([]float64, 0, len(client.args)/2-1)
+	for i := 2; i < len(client.args); i += 2 {
+		score, err := strconv.ParseFloat(client.args[i], 64)
+		if err != nil {
+			return client.addReplyErrorf("invalid score: %s, error: %v", client.args[i], err)
+		}
+
+		if math.IsNaN(score) {
+			return client.addReplyErrorf("invalid score: %s", client.args[i])
+		}
+
+		scores = append(scores, score)
+	}
+
 	zset, err := getZset(client, key)
 	if err != nil {
 		return client.addReplyError(err.Error())
@@ -22,13 +38,8 @@ func zAddCommand(client *Client) error {
 
 	var created int64
 	for i := 2; i < len(client.args); i += 2 {
-		score, err := strconv.ParseFloat(client.args[i], 64)
-		if err != nil {
-			return client.addReplyErrorf("invalid score: %s, error: %v", client.args[i], err)
-		}
-
 		member := client.args[i+1]
-		if zset.Add(score, member) {
+		if zset.Add(scores[i/2-1], member) {
 			created++
 		}
 
-- 
2.43.0


From 7e06f8421be108067c820c970d8ee6418b6eca21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 21/47] fix: keep error replies on a single line

---
 server/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/client.go b/server/client.go
index 7d4c143..8c69815 100644
--- a/server/client.go
+++ b/server/client.go
@@ -96,6 +96,9 @@ func (c *Client) addReplyInt(num int64) error {
 }
 
 func (c *Client) addReplyError(err string) error {
+	// an error is a single line, whatever the arguments quoted in it contain
+	err = strings.NewReplacer("\r", " ", "\n", " ").Replace(err)
+
 	return c.addReplyStringf("-ERR %s\r\n", err)
 }
 
-- 
2.43.0


From ff4d6ce3b19869197c240c7f4217684cd0064a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:48 +0000
Subject: [PATCH 22/47] fix: log a command that changed data even if its reply
 cannot be queued

---
 server/command.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/server/command.go b/server/command.go
index 207fddb..1a768e6 100644
--- a/server/command.go
+++ b/server/command.go
@@ -129,14 +129,12 @@ func processCommand(client *Client) error {
 // call is the core of Metis execution of a command.
 func call(client *Client, cmd *command) error {
 	dirty := client.srv.dirty
-	if err := cmd.proc(client); err != nil {
-		return err
-	}
+	err := cmd.proc(client)
 	dirty = client.srv.dirty - dirty
 
 	if client.srv.aofEnable && dirty != 0 {
 		feedAppendOnlyFile(client.srv, cmd, client.db.ID, client.args)
 	}
 
-	return nil
+	return err
 }
-- 
2.43.0


From 55efb1bdf8c5a1764fa8ecf745df3ad80ceeb4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 23/47] fix: treat expired keys as absent in TTL and in
 commands that add to collections

---
 server/commandhash.go | 5 +++++
 server/commandkey.go  | 5 +++++
 server/commandlist.go | 5 +++++
 server/commandset.go  | 5 +++++
 server/commandzset.go | 5 +++++
 5 files changed, 25 insertions(+)

diff --git a/server/commandhash.go b/server/commandhash.go
index bc5bb8d..8da466a 100644
--- a/server/commandhash.go
+++ b/server/commandhash.go
@@ -130,6 +130,11 @@ func hLenCommand(client *Client) error {
 }
 
 func getHash(client *Client, key string) (*datastruct.Dict, error) {
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return nil, err
+	}
+
 	dict := client.db.Dict
 	value := dict.Get(key)
 	if value == nil {
diff --git a/server/commandkey.go b/server/commandkey.go
index b4f5b19..6d2db20 100644
--- a/server/commandkey.go
+++ b/server/commandkey.go
@@ -40,6 +40,11 @@ func expireAtCommand(client *Client) error {
 func ttlCommand(client *Client) error {
 	key := client.args[1]
 
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return client.addReplyError(err.Error())
+	}
+
 	if client.db.Dict.Find(key) == nil {
 		return client.addReplyInt(-2)
 	}
diff --git a/server/commandlist.go b/server/commandlist.go
index d1a5a8e..bf91968 100644
--- a/server/commandlist.go
+++ b/server/commandlist.go
@@ -157,6 +157,11 @@ func lRangeCommand(client *Client) error {
 }
 
 func getQuickList(client *Client, key string) (*datastruct.Quicklist, error) {
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return nil, err
+	}
+
 	dict := client.db.Dict
 	value := dict.Get(key)
 	if value == nil {
diff --git a/server/commandset.go b/server/commandset.go
index 2ed9d56..3b3ebd6 100644
--- a/server/commandset.go
+++ b/server/commandset.go
@@ -203,6 +203,11 @@ func sUnionCommand(client *Client) error {
 }
 
 func getSet(client *Client, key string) (*datastruct.Set, error) {
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return nil, err
+	}
+
 	dict := client.db.Dict
 	value := dict.Get(key)
 	if value == nil {
diff --git a/server/commandzset.go b/server/commandzset.go
index 39f45fa..bd2f8b9 100644
--- a/server/commandzset.go
+++ b/server/commandzset.go
@@ -248,6 +248,11 @@ func zRemRangeByScoreCommand(client *Client) error {
 }
 
 func getZset(client *Client, key string) (*datastruct.Zset, error) {
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return nil, err
+	}
+
 	dict := client.db.Dict
 	value := dict.Get(key)
 	if value == nil {
-- 
2.43.0


From 129ed10602d3be2e16b8dc4973a603b507f7dd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 24/47] fix: do not set deadlines on keys that do not exist

---
 server/commandkey.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/server/commandkey.go b/server/commandkey.go
index 6d2db20..1f94d07 100644
--- a/server/commandkey.go
+++ b/server/commandkey.go
@@ -16,6 +16,15 @@ func expireCommand(client *Client) error {
 		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)
 	}
 
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return client.addReplyError(err.Error())
+	}
+
+	if client.db.Dict.Find(key) == nil {
+		return client.addReplyOK()
+	}
+
 	when := time.Now().UnixMilli() + expireInt*1000
 	client.db.Expire.Set(key, when)
 	client.srv.dirty++
@@ -31,6 +40,15 @@ func expireAtCommand(client *Client) error {
 		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)
 	}
 
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return client.addReplyError(err.Error())
+	}
+
+	if client.db.Dict.Find(key) == nil {
+		return client.addReplyOK()
+	}
+
 	client.db.Expire.Set(key, expireInt*1000)
 	client.srv.dirty++
 
-- 
2.43.0


From f626432e307d9f841550118af04d156b1e09e5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 25/47] fix: remove collections that become empty

---
 server/command.go     |  7 +++++++
 server/commandhash.go |  4 ++++
 server/commandlist.go | 16 ++++++++++++++--
 server/commandset.go  |  8 ++++++++
 server/commandzset.go | 12 ++++++++++++
 5 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/server/command.go b/server/command.go
index 1a768e6..304f7d6 100644
--- a/server/command.go
+++ b/server/command.go
@@ -4,6 +4,7 @@ import (
 	"strings"
 	"time"
 
+	"github.com/IfanTsai/metis/database"
 	"github.com/pkg/errors"
 )
 
@@ -92,6 +93,12 @@ func expireIfNeeded(client *Client, key string) (bool, error) {
 	return false, nil
 }
 
+// deleteKey deletes the key and its deadline.
+func deleteKey(db *database.Databse, key string) {
+	_ = db.Dict.Delete(key)
+	_ = db.Expire.Delete(key)
+}
+
 func lookupCommand(name string) *command {
 	for _, cmd := range commandTable {
 		if cmd.name == name {
diff --git a/server/commandhash.go b/server/commandhash.go
index 8da466a..9f40432 100644
--- a/server/commandhash.go
+++ b/server/commandhash.go
@@ -69,6 +69,10 @@ func hDelCommand(client *Client) error {
 		}
 	}
 
+	if hash.Size() == 0 {
+		deleteKey(client.db, key)
+	}
+
 	return client.addReplyInt(deleted)
 }
 
diff --git a/server/commandlist.go b/server/commandlist.go
index bf91968..74f2f93 100644
--- a/server/commandlist.go
+++ b/server/commandlist.go
@@ -57,7 +57,13 @@ func lPopCommand(client *Client) error {
 
 	client.srv.dirty++
 
-	return client.addReplyBulkString(list.PopFront().(string))
+	value := list.PopFront().(string)
+
+	if list.Len() == 0 {
+		deleteKey(client.db, key)
+	}
+
+	return client.addReplyBulkString(value)
 }
 
 func rPopCommand(client *Client) error {
@@ -78,7 +84,13 @@ func rPopCommand(client *Client) error {
 
 	client.srv.dirty++
 
-	return client.addReplyBulkString(list.PopBack().(string))
+	value := list.PopBack().(string)
+
+	if list.Len() == 0 {
+		deleteKey(client.db, key)
+	}
+
+	return client.addReplyBulkString(value)
 }
 
 func lLenCommand(client *Client) error {
diff --git a/server/commandset.go b/server/commandset.go
index 3b3ebd6..928cd78 100644
--- a/server/commandset.go
+++ b/server/commandset.go
@@ -46,6 +46,10 @@ func sRemCommand(client *Client) error {
 		}
 	}
 
+	if set.Size() == 0 {
+		deleteKey(client.db, key)
+	}
+
 	return client.addReplyInt(deleted)
 }
 
@@ -70,6 +74,10 @@ func sPopCommand(client *Client) error {
 		return client.addReplyErrorf("delete random member error: %v", err)
 	}
 
+	if set.Size() == 0 {
+		deleteKey(client.db, key)
+	}
+
 	client.srv.dirty++
 
 	return client.addReplyBulkString(randomMember.(string))
diff --git a/server/commandzset.go b/server/commandzset.go
index bd2f8b9..7b6f184 100644
--- a/server/commandzset.go
+++ b/server/commandzset.go
@@ -188,6 +188,10 @@ func zRemCommand(client *Client) error {
 		}
 	}
 
+	if zset.Size() == 0 {
+		deleteKey(client.db, key)
+	}
+
 	return client.addReplyInt(int64(deleted))
 }
 
@@ -216,6 +220,10 @@ func zRemRangeByRankCommand(client *Client) error {
 	deletedElements := zset.DeleteRangeByRank(start, stop)
 	client.srv.dirty += int64(len(deletedElements))
 
+	if zset.Size() == 0 {
+		deleteKey(client.db, key)
+	}
+
 	return client.addReplyInt(int64(len(deletedElements)))
 }
 
@@ -244,6 +252,10 @@ func zRemRangeByScoreCommand(client *Client) error {
 	deletedElements := zset.DeleteRangeByScore(min, max)
 	client.srv.dirty += int64(len(deletedElements))
 
+	if zset.Size() == 0 {
+		deleteKey(client.db, key)
+	}
+
 	return client.addReplyInt(int64(len(deletedElements)))
 }
 
-- 
2.43.0


From 75a532ea902f52837327456324f435051abee845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 26/47] fix: log the member removed by SPOP

---
 server/commandset.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/commandset.go b/server/commandset.go
index 928cd78..ca01169 100644
--- a/server/commandset.go
+++ b/server/commandset.go
@@ -80,6 +80,9 @@ func sPopCommand(client *Client) error {
 
 	client.srv.dirty++
 
+	// the log must name the member, a replay would pop another one
+	client.args = []string{"srem", key, randomMember.(string)}
+
 	return client.addReplyBulkString(randomMember.(string))
 }
 
-- 
2.43.0


From 27a0817f1e2975b97c67ce970bd04fe889c78507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:34 +0000
Subject: [PATCH 27/47] fix: log the selected database after a start and when a
 rewrite starts

---
 server/aof.go    | 3 +++
 server/server.go | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/server/aof.go b/server/aof.go
index 7955918..96ad7a6 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -220,6 +220,9 @@ func rewriteAppendOnlyFileBackground(srv *Server) {
 		return
 	}
 
+	// what is logged from now on may follow the dump, which leaves any database selected
+	srv.aofSelectDBID = -1
+
 	tmpDBs := make([]*database.Databse, len(srv.dbs))
 	for i, db := range srv.dbs {
 		tmpDBs[i] = db.DeepCopy()
diff --git a/server/server.go b/server/server.go
index 6920da4..1faf7e3 100644
--- a/server/server.go
+++ b/server/server.go
@@ -50,7 +50,7 @@ type Server struct {
 	aofFilename      string
 	aofFsync         config.TypeAppnedFsync
 	aofLastFsyncTime time.Time
-	aofSelectDBID    int
+	aofSelectDBID    int // database selected in the log, -1 if unknown
 	aofFile          *os.File
 	aofBuf           strings.Builder
 	aofCurrentSize   uint
@@ -76,6 +76,7 @@ func NewServer(config *config.Config) *Server {
 		aofEnable:         config.AofEnable,
 		aofFilename:       config.AofFilename,
 		aofFsync:          config.AofFsync,
+		aofSelectDBID:     -1,
 		aofRewritePercent: config.AofRewritePercent,
 		aofRewriteMinSize: config.AofRewriteMinSize,
 		aofRewriteDoneCh:  make(chan string, 1),
-- 
2.43.0


From dfe732a53f3277e245415f485671c37311409ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 28/47] fix: log SETEX as one record

---
 server/aof.go           | 20 ++++++++++++--------
 server/commandstring.go | 20 ++++++++++++++++++++
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index 96ad7a6..a0fe92e 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -39,9 +39,8 @@ func feedAppendOnlyFile(srv *Server, cmd *command, dbID int, args []string) {
 		// translate EXPIRE to EXPIREAT
 		aofStr += catAppendOnlyExpireCommand(args)
 	case "setex":
-		// translate SETEX to SET and EXPIREAT
-		aofStr += catAppendOnlyGenericCommand([]string{"set", args[1], args[3]})
-		aofStr += catAppendOnlyExpireCommand([]string{"expireat", args[1], args[2]})
+		// translate SETEX to SET with EXAT, in one record so that a crash cannot separate the key and its deadline
+		aofStr += catAppendOnlyGenericCommand([]string{"set", args[1], args[3], "exat", expireArgToUnixTime(args[2])})
 	default:
 		aofStr += catAppendOnlyGenericCommand(args)
 	}
@@ -59,17 +58,22 @@ func feedAppendOnlyFile(srv *Server, cmd *command, dbID int, args []string) {
 // catAppendOnlyExpireCommand is used to create the string representation of a EXPIRE command.
 // It is translated to EXPIREAT.
 func catAppendOnlyExpireCommand(args []string) string {
-	expireInt, err := strconv.ParseInt(args[2], 10, 64)
+	args[0] = "expireat"
+	args[2] = expireArgToUnixTime(args[2])
+
+	return catAppendOnlyGenericCommand(args)
+}
+
+// expireArgToUnixTime translates a time to live to the unix time of the deadline, both in seconds.
+func expireArgToUnixTime(arg string) string {
+	expireInt, err := strconv.ParseInt(arg, 10, 64)
 	if err != nil {
 		log.Fatal("failed to parse expire time", zap.Error(err))
 	}
 
 	when := time.Now().Unix() + expireInt
 
-	args[0] = "expireat"
-	args[2] = strconv.FormatInt(when, 10)
-
-	return catAppendOnlyGenericCommand(args)
+	return strconv.FormatInt(when, 10)
 }
 
 // catAppendOnlyGenericCommand is used to create the string representation of a command
diff --git a/server/commandstring.go b/server/commandstring.go
index 7ee7178..d8161b5 100644
--- a/server/commandstring.go
+++ b/server/commandstring.go
@@ -2,6 +2,7 @@ package server
 
 import (
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/IfanTsai/metis/datastruct"
@@ -9,8 +10,27 @@ import (
 
 func setCommand(client *Client) error {
 	key, value := client.args[1], client.args[2]
+
+	// SET key value EXAT unix-time-in-seconds
+	hasDeadline := len(client.args) == 5 && strings.EqualFold(client.args[3], "exat")
+
+	var when int64
+	if hasDeadline {
+		expireInt, err := strconv.ParseInt(client.args[4], 10, 64)
+		if err != nil {
+			return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[4], err)
+		}
+
+		when = expireInt * 1000
+	}
+
 	_ = client.db.Expire.Delete(key)
 	client.db.Dict.Set(key, value)
+
+	if hasDeadline {
+		client.db.Expire.Set(key, when)
+	}
+
 	client.srv.dirty++
 
 	return client.addReplyOK()
-- 
2.43.0


From 8e83c93e4ab14a91287b253eb0919aaa664bd823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:36 +0000
Subject: [PATCH 29/47] fix: keep the order of lists in a log rewrite

---
 server/aof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/aof.go b/server/aof.go
index a0fe92e..022ac63 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -308,7 +308,7 @@ func rewriteListObject(file *os.File, key string, value *datastruct.Quicklist) e
 
 	itemsChunks := lo.Chunk(items, AofRewriteItemsPerCommand)
 	for _, chunk := range itemsChunks {
-		aofStr := catAppendOnlyGenericCommand(append([]string{"lpush", key}, chunk...))
+		aofStr := catAppendOnlyGenericCommand(append([]string{"rpush", key}, chunk...))
 		if _, err := file.WriteString(aofStr); err != nil {
 			return errors.Wrapf(err, "failed to write qucik list to AOF file, key: %s, value: %v", key, chunk)
 		}
-- 
2.43.0


From 273ec2a5fa41c54ad365bb73f98d37ab234a8eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:37 +0000
Subject: [PATCH 30/47] fix: write scores before members in a log rewrite

---
 server/aof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/aof.go b/server/aof.go
index 022ac63..8e59186 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -358,7 +358,7 @@ func rewriteZsetObject(file *os.File, key string, value *datastruct.Zset) error
 	items := make([]string, 0, value.Size())
 
 	for _, item := range value.RangeByRank(0, value.Size()-1, false) {
-		items = append(items, item.Member, strconv.FormatFloat(item.Score, 'f', -1, 64))
+		items = append(items, strconv.FormatFloat(item.Score, 'f', -1, 64), item.Member)
 	}
 
 	itemsChunks := lo.Chunk(items, AofRewriteItemsPerCommand*2)
-- 
2.43.0


From ee4bdc288f7acbcddad879cf2ad876882a9f3355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 31/47] fix: load records of any size, drop a record cut by a
 crash, make what was loaded durable

---
 server/aof.go | 115 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 75 insertions(+), 40 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index 8e59186..8a05173 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -136,18 +136,68 @@ func aofFileSync(srv *Server) {
 	}
 }
 
-// loadAppendOnlyFile replays the AOF file.
-func loadAppendOnlyFile(srv *Server) {
+// readAppendOnlyRecord reads a complete record of the AOF file and returns its arguments and its size in the file.
+// The error is io.EOF or io.ErrUnexpectedEOF when there is no complete record left.
+func readAppendOnlyRecord(reader *bufio.Reader) ([]string, int64, error) {
+	var size int64
+
 	// readline is a helper function that reads a line from the AOF file.
-	readLine := func(reader *bufio.Reader) (string, error) {
+	readLine := func() (string, error) {
 		buf, err := reader.ReadBytes('\n')
 		if err != nil {
 			return "", err
 		}
 
+		size += int64(len(buf))
+
 		return byteutils.B2S(bytes.TrimRight(buf, "\r\n")), nil
 	}
 
+	// readNum is a helper function that reads a line made of the prefix and a number from the AOF file.
+	readNum := func(prefix byte) (int, error) {
+		buf, err := readLine()
+		if err != nil {
+			return 0, err
+		}
+
+		if len(buf) == 0 || buf[0] != prefix {
+			log.Panic("invalid aof file format")
+		}
+
+		num, err := strconv.Atoi(buf[1:])
+		if err != nil || num < 0 {
+			log.Panic("invalid aof file format", zap.Error(err))
+		}
+
+		return num, nil
+	}
+
+	argc, err := readNum('*')
+	if err != nil {
+		return nil, 0, err
+	}
+
+	args := make([]string, argc)
+	for i := 0; i < argc; i++ {
+		argLen, err := readNum('$')
+		if err != nil {
+			return nil, 0, err
+		}
+
+		arg := make([]byte, argLen+2) // CRLF included
+		if _, err := io.ReadFull(reader, arg); err != nil {
+			return nil, 0, err
+		}
+
+		size += int64(len(arg))
+		args[i] = byteutils.B2S(arg[:argLen])
+	}
+
+	return args, size, nil
+}
+
+// loadAppendOnlyFile replays the AOF file.
+func loadAppendOnlyFile(srv *Server) {
 	aofFile, err := os.Open(srv.aofFilename)
 	if err != nil {
 		log.Fatal("failed to open aof file", zap.Error(err))
@@ -157,53 +207,23 @@ func loadAppendOnlyFile(srv *Server) {
 	fakeClient := NewClient(srv, -1)
 	defer fakeClient.free()
 
+	var validSize int64 // size of the complete records
+
 	reader := bufio.NewReaderSize(aofFile, MaxInlineSize)
 	for {
-		buf, err := readLine(reader)
+		args, size, err := readAppendOnlyRecord(reader)
 		if err != nil {
-			if errors.Is(err, io.EOF) {
+			if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
 				break
 			}
 
 			log.Panic("failed to read aof file", zap.Error(err))
 		}
 
-		if buf[0] != '*' {
-			log.Panic("invalid aof file format")
-		}
-
-		argc, err := strconv.Atoi(buf[1:])
-		if err != nil {
-			log.Panic("invalid aof file format", zap.Error(err))
-		}
-
-		args := make([]string, argc)
-		for i := 0; i < argc; i++ {
-			buf, err = readLine(reader)
-			if err != nil {
-				log.Panic("failed to read aof file", zap.Error(err))
-			}
+		validSize += size
 
-			if buf[0] != '$' {
-				log.Panic("invalid aof file format")
-			}
-
-			argLen, err := strconv.Atoi(buf[1:])
-			if err != nil {
-				log.Panic("invalid aof file format", zap.Error(err))
-			}
-
-			arg := make([]byte, argLen)
-			if _, err := reader.Read(arg); err != nil {
-				log.Panic("failed to read aof file", zap.Error(err))
-			}
-
-			// discard CRLF
-			if _, err := reader.Read(make([]byte, 2)); err != nil {
-				log.Panic("failed to read aof file", zap.Error(err))
-			}
-
-			args[i] = byteutils.B2S(arg)
+		if len(args) == 0 {
+			continue
 		}
 
 		cmd := lookupCommand(strings.ToLower(args[0]))
@@ -216,6 +236,21 @@ func loadAppendOnlyFile(srv *Server) {
 		_ = cmd.proc(fakeClient)
 	}
 
+	// a crash may have cut the last record, what is logged from now on must not be appended to the rest of it
+	if uint(validSize) < srv.aofCurrentSize {
+		log.Error("truncate incomplete record at the end of aof file", zap.Int64("size", validSize))
+
+		if err := srv.aofFile.Truncate(validSize); err != nil {
+			log.Panic("failed to truncate aof file", zap.Error(err))
+		}
+
+		srv.aofCurrentSize = uint(validSize)
+	}
+
+	// the last records may not be on disk yet, and clients are about to see what is in them
+	if err := srv.aofFile.Sync(); err != nil {
+		log.Panic("failed to fsync the AOF file", zap.Error(err))
+	}
 }
 
 // rewriteAppendOnlyFileBackground rewrites the AOF file in background.
-- 
2.43.0


From b73053112b2d6c90bee4084854f691c07f49f635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:30 +0000
Subject: [PATCH 32/47] fix: log the removal of expired keys, do not expire
 keys while the log is loaded

---
 server/aof.go        |  3 +++
 server/command.go    | 18 ++++++++++++++++--
 server/commandkey.go | 18 ++++++++++++++++++
 server/server.go     |  4 ++--
 4 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index 8a05173..429ba9d 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -207,6 +207,9 @@ func loadAppendOnlyFile(srv *Server) {
 	fakeClient := NewClient(srv, -1)
 	defer fakeClient.free()
 
+	srv.aofLoading = true
+	defer func() { srv.aofLoading = false }()
+
 	var validSize int64 // size of the complete records
 
 	reader := bufio.NewReaderSize(aofFile, MaxInlineSize)
diff --git a/server/command.go b/server/command.go
index 304f7d6..8430b03 100644
--- a/server/command.go
+++ b/server/command.go
@@ -31,6 +31,7 @@ var commandTable = []command{
 	{"expireat", expireAtCommand, 3},
 	{"ttl", ttlCommand, 2},
 	{"keys", keysCommand, 2},
+	{"del", delCommand, -2},
 	// string
 	{"set", setCommand, -3},
 	{"setex", setExCommand, 4},
@@ -75,6 +76,11 @@ var commandTable = []command{
 }
 
 func expireIfNeeded(client *Client, key string) (bool, error) {
+	// the log tells when a key expired
+	if client.srv.aofLoading {
+		return false, nil
+	}
+
 	expireObj := client.db.Expire.Find(key)
 	if expireObj != nil {
 		when, ok := expireObj.Value.(int64)
@@ -83,8 +89,7 @@ func expireIfNeeded(client *Client, key string) (bool, error) {
 		}
 
 		if when < time.Now().UnixMilli() {
-			_ = client.db.Dict.Delete(key)
-			_ = client.db.Expire.Delete(key)
+			deleteExpiredKey(client.srv, client.db, key)
 
 			return true, nil
 		}
@@ -99,6 +104,15 @@ func deleteKey(db *database.Databse, key string) {
 	_ = db.Expire.Delete(key)
 }
 
+// deleteExpiredKey deletes the key and logs that, commands that follow in the log must not find the key.
+func deleteExpiredKey(srv *Server, db *database.Databse, key string) {
+	deleteKey(db, key)
+
+	if srv.aofEnable {
+		feedAppendOnlyFile(srv, &command{name: "del"}, db.ID, []string{"del", key})
+	}
+}
+
 func lookupCommand(name string) *command {
 	for _, cmd := range commandTable {
 		if cmd.name == name {
diff --git a/server/commandkey.go b/server/commandkey.go
index 1f94d07..dc8d7e3 100644
--- a/server/commandkey.go
+++ b/server/commandkey.go
@@ -82,6 +82,24 @@ func ttlCommand(client *Client) error {
 	return client.addReplyInt(ttl)
 }
 
+func delCommand(client *Client) error {
+	var deleted int64
+	for _, key := range client.args[1:] {
+		// check if key expired
+		if _, err := expireIfNeeded(client, key); err != nil {
+			return client.addReplyError(err.Error())
+		}
+
+		if client.db.Dict.Find(key) != nil {
+			deleteKey(client.db, key)
+			deleted++
+			client.srv.dirty++
+		}
+	}
+
+	return client.addReplyInt(deleted)
+}
+
 func keysCommand(client *Client) error {
 	dict := client.db.Dict
 	iter := datastruct.NewDictIterator(dict)
diff --git a/server/server.go b/server/server.go
index 1faf7e3..250a9e4 100644
--- a/server/server.go
+++ b/server/server.go
@@ -47,6 +47,7 @@ type Server struct {
 
 	// AOF persistence
 	aofEnable        bool
+	aofLoading       bool
 	aofFilename      string
 	aofFsync         config.TypeAppnedFsync
 	aofLastFsyncTime time.Time
@@ -290,8 +291,7 @@ func databasesCron(srv *Server) {
 			}
 
 			if when < time.Now().UnixMilli() {
-				db.Dict.Delete(entry.Key)
-				db.Expire.Delete(entry.Key)
+				deleteExpiredKey(srv, db, entry.Key.(string))
 			}
 		}
 	}
-- 
2.43.0


From 66ce47047023c69c2799538b68d700d1a19ed3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:31 +0000
Subject: [PATCH 33/47] fix: sync the log with everysec also when idle, do not
 crash when it is replaced meanwhile

---
 server/aof.go    | 6 +++++-
 server/server.go | 8 +++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index 429ba9d..15acb33 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -109,6 +109,7 @@ func flushAppendOnlyFile(srv *Server) {
 
 	srv.aofBuf.Reset()
 	srv.aofCurrentSize += uint(nWritten)
+	srv.aofUnsynced = true
 
 	// fsync if needed
 	aofFileSync(srv)
@@ -125,14 +126,17 @@ func aofFileSync(srv *Server) {
 				log.Panic("failed to fsync the AOF file", zap.Error(err))
 			}
 		case config.TypeAppendFsyncEverySecond:
+			// the file may be closed meanwhile, by a rewrite that has written all of it to a new file
+			aofFile := srv.aofFile
 			go func() {
-				if err := srv.aofFile.Sync(); err != nil {
+				if err := aofFile.Sync(); err != nil && !errors.Is(err, os.ErrClosed) {
 					log.Panic("failed to fsync the AOF file", zap.Error(err))
 				}
 			}()
 		}
 
 		srv.aofLastFsyncTime = now
+		srv.aofUnsynced = false
 	}
 }
 
diff --git a/server/server.go b/server/server.go
index 250a9e4..9047644 100644
--- a/server/server.go
+++ b/server/server.go
@@ -51,7 +51,8 @@ type Server struct {
 	aofFilename      string
 	aofFsync         config.TypeAppnedFsync
 	aofLastFsyncTime time.Time
-	aofSelectDBID    int // database selected in the log, -1 if unknown
+	aofUnsynced      bool // something was written since the last fsync
+	aofSelectDBID    int  // database selected in the log, -1 if unknown
 	aofFile          *os.File
 	aofBuf           strings.Builder
 	aofCurrentSize   uint
@@ -256,6 +257,11 @@ func serverCron(el *ae.EventLoop, id int64, clientData any) {
 
 	databasesCron(srv)
 
+	// with appendfsync everysec the last writes before the server became idle are not synced yet
+	if srv.aofUnsynced {
+		aofFileSync(srv)
+	}
+
 	if srv.backgroundTaskTypeAtomic.Load() == uint32(TypeBackgroundTaskNone) &&
 		srv.aofRewritePercent > 0 && srv.aofCurrentSize > srv.aofRewriteMinSize {
 		base := srv.aofRewriteBaseSize
-- 
2.43.0


From 336d476fc2232072e868e5b299e1beebff4892f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 34/47] fix: switch to the rewritten log in one atomic step,
 once it is complete and on disk

---
 server/aof.go    | 58 ++++++++++++++++++++++++++++++++++--------------
 server/server.go |  5 +++++
 2 files changed, 46 insertions(+), 17 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index 15acb33..7c2f1d8 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -5,7 +5,7 @@ import (
 	"bytes"
 	"io"
 	"os"
-	"os/exec"
+	"path/filepath"
 	"strconv"
 	"strings"
 	"time"
@@ -278,7 +278,8 @@ func rewriteAppendOnlyFileBackground(srv *Server) {
 }
 
 func rewriteAppendOnlyFile(dbs []*database.Databse, srv *Server) {
-	tmpFile, err := os.CreateTemp("", AofRewriteTempFilePrefix)
+	// in the directory of the AOF file, so that it can be renamed
+	tmpFile, err := os.CreateTemp(filepath.Dir(srv.aofFilename), AofRewriteTempFilePrefix)
 	if err != nil {
 		log.Panic("failed to create temp file", zap.Error(err))
 	}
@@ -328,6 +329,10 @@ func rewriteAppendOnlyFile(dbs []*database.Databse, srv *Server) {
 		}
 	}
 
+	if err := tmpFile.Sync(); err != nil {
+		log.Panic("failed to fsync the temp file", zap.Error(err))
+	}
+
 	srv.aofRewriteDoneCh <- tmpFile.Name()
 }
 
@@ -418,25 +423,15 @@ func rewriteZsetObject(file *os.File, key string, value *datastruct.Zset) error
 func aofRewriteDoneCallback(srv *Server) {
 	defer srv.backgroundTaskTypeAtomic.Store(uint32(TypeBackgroundTaskNone))
 
-	if srv.aofFile != nil {
-		srv.aofFile.Close()
-	}
+	// what is in the AOF buffer is in the AOF rewrite buffer too
+	flushAppendOnlyFile(srv)
 
 	tmpAofFilename := <-srv.aofRewriteDoneCh
-	defer os.Remove(tmpAofFilename)
-
-	// occurs error "invalid cross-device link" if use os.Rename
-	if err := exec.Command("mv", tmpAofFilename, srv.aofFilename).Run(); err != nil {
-		log.Panic("failed to mv",
-			zap.Error(err),
-			zap.String("from", tmpAofFilename),
-			zap.String("to", srv.aofFilename))
-	}
 
-	aofFile, err := os.OpenFile(srv.aofFilename, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
+	aofFile, err := os.OpenFile(tmpAofFilename, os.O_APPEND|os.O_WRONLY, 0644)
 	if err != nil {
 		log.Panic("failed to open file",
-			zap.Error(err), zap.String("filename", srv.aofFilename))
+			zap.Error(err), zap.String("filename", tmpAofFilename))
 	}
 
 	//  append AOF rewrite buffer to AOF file
@@ -448,6 +443,26 @@ func aofRewriteDoneCallback(srv *Server) {
 
 	srv.aofRewriteBuf.Reset()
 
+	// the new file must be complete and on disk before it replaces the old one
+	if err := aofFile.Sync(); err != nil {
+		log.Panic("failed to fsync the temp file", zap.Error(err))
+	}
+
+	if err := os.Rename(tmpAofFilename, srv.aofFilename); err != nil {
+		log.Panic("failed to rename",
+			zap.Error(err),
+			zap.String("from", tmpAofFilename),
+			zap.String("to", srv.aofFilename))
+	}
+
+	if err := syncDir(filepath.Dir(srv.aofFilename)); err != nil {
+		log.Panic("failed to fsync directory", zap.Error(err))
+	}
+
+	if srv.aofFile != nil {
+		srv.aofFile.Close()
+	}
+
 	fileInfo, err := aofFile.Stat()
 	if err != nil {
 		log.Panic("failed to stat file", zap.Error(err))
@@ -456,6 +471,15 @@ func aofRewriteDoneCallback(srv *Server) {
 	srv.aofCurrentSize = uint(fileInfo.Size())
 	srv.aofRewriteBaseSize = srv.aofCurrentSize
 	srv.aofFile = aofFile
+}
 
-	aofFileSync(srv)
+// syncDir makes the names of the files in the directory durable
+func syncDir(name string) error {
+	dir, err := os.Open(name)
+	if err != nil {
+		return err
+	}
+	defer dir.Close()
+
+	return dir.Sync()
 }
diff --git a/server/server.go b/server/server.go
index 9047644..5afe69d 100644
--- a/server/server.go
+++ b/server/server.go
@@ -2,6 +2,7 @@ package server
 
 import (
 	"os"
+	"path/filepath"
 	"strings"
 	"sync/atomic"
 	"syscall"
@@ -97,6 +98,10 @@ func NewServer(config *config.Config) *Server {
 			log.Fatal("failed to get append only file info", zap.Error(err))
 		}
 
+		if err := syncDir(filepath.Dir(server.aofFilename)); err != nil {
+			log.Fatal("failed to fsync directory", zap.Error(err))
+		}
+
 		server.aofCurrentSize = uint(fileInfo.Size())
 		server.aofFile = appendFile
 	}
-- 
2.43.0


From 0e98c4d45f714b337e12fc7a1cf9a2549ef98fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 35/47] fix: count the growth of the log from its size at
 startup

---
 server/aof.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/aof.go b/server/aof.go
index 7c2f1d8..2429b38 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -254,6 +254,8 @@ func loadAppendOnlyFile(srv *Server) {
 		srv.aofCurrentSize = uint(validSize)
 	}
 
+	srv.aofRewriteBaseSize = srv.aofCurrentSize
+
 	// the last records may not be on disk yet, and clients are about to see what is in them
 	if err := srv.aofFile.Sync(); err != nil {
 		log.Panic("failed to fsync the AOF file", zap.Error(err))
-- 
2.43.0


From bd542e001e0364d68f27d16a8c3d009e1d85517b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 36/47] fix: refuse a log rewrite without a file name instead
 of panicking

---
 server/commandserver.go | 4 ++++
 server/server.go        | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/server/commandserver.go b/server/commandserver.go
index 59e5093..4c9c622 100644
--- a/server/commandserver.go
+++ b/server/commandserver.go
@@ -3,6 +3,10 @@ package server
 func bgRewriteAofCommand(client *Client) error {
 	srv := client.srv
 
+	if srv.aofFilename == "" {
+		return client.addReplyError("no append only file name is configured")
+	}
+
 	if srv.backgroundTaskTypeAtomic.Load() != uint32(TypeBackgroundTaskNone) {
 		return client.addReplySimpleString("Background append only file rewriting scheduled")
 	}
diff --git a/server/server.go b/server/server.go
index 5afe69d..3bf8285 100644
--- a/server/server.go
+++ b/server/server.go
@@ -268,7 +268,7 @@ func serverCron(el *ae.EventLoop, id int64, clientData any) {
 	}
 
 	if srv.backgroundTaskTypeAtomic.Load() == uint32(TypeBackgroundTaskNone) &&
-		srv.aofRewritePercent > 0 && srv.aofCurrentSize > srv.aofRewriteMinSize {
+		srv.aofFilename != "" && srv.aofRewritePercent > 0 && srv.aofCurrentSize > srv.aofRewriteMinSize {
 		base := srv.aofRewriteBaseSize
 		if base == 0 {
 			base = 1
-- 
2.43.0


From f78a34758e3bcf2472c7f151b843c4ac7cf59f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 37/47] fix: sync the log on stop

---
 server/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/server.go b/server/server.go
index 3bf8285..996101c 100644
--- a/server/server.go
+++ b/server/server.go
@@ -152,6 +152,7 @@ func (s *Server) Stop() {
 	close(s.aofRewriteDoneCh)
 
 	if s.aofFile != nil {
+		_ = s.aofFile.Sync()
 		s.aofFile.Close()
 	}
 }
-- 
2.43.0


From 4b0333ef8cc386f4a70a9ef49596c80a57247f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:24 +0000
Subject: [PATCH 38/47] fix: do not panic on empty arguments, empty lines and
 empty lengths

---
 server/aof.go    |  5 ++---
 server/client.go | 11 ++++++++++-
 server/resp.go   |  7 +++----
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index 2429b38..61b0b11 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -10,7 +10,6 @@ import (
 	"strings"
 	"time"
 
-	"github.com/IfanTsai/go-lib/utils/byteutils"
 	"github.com/IfanTsai/metis/config"
 	"github.com/IfanTsai/metis/database"
 	"github.com/IfanTsai/metis/datastruct"
@@ -154,7 +153,7 @@ func readAppendOnlyRecord(reader *bufio.Reader) ([]string, int64, error) {
 
 		size += int64(len(buf))
 
-		return byteutils.B2S(bytes.TrimRight(buf, "\r\n")), nil
+		return b2s(bytes.TrimRight(buf, "\r\n")), nil
 	}
 
 	// readNum is a helper function that reads a line made of the prefix and a number from the AOF file.
@@ -194,7 +193,7 @@ func readAppendOnlyRecord(reader *bufio.Reader) ([]string, int64, error) {
 		}
 
 		size += int64(len(arg))
-		args[i] = byteutils.B2S(arg[:argLen])
+		args[i] = b2s(arg[:argLen])
 	}
 
 	return args, size, nil
diff --git a/server/client.go b/server/client.go
index 8c69815..d3095aa 100644
--- a/server/client.go
+++ b/server/client.go
@@ -39,6 +39,15 @@ type Client struct {
 	authenticated bool // when server requirPassword is not empty, client must auth first
 }
 
+// b2s converts a byte slice, which may be empty, to a string without memory allocation.
+func b2s(b []byte) string {
+	if len(b) == 0 {
+		return ""
+	}
+
+	return byteutils.B2S(b)
+}
+
 func NewClient(srv *Server, fd socket.FD) *Client {
 	return &Client{
 		srv:        srv,
@@ -55,7 +64,7 @@ func (c *Client) getCRLFIndexFromQueryBuffer() int {
 }
 
 func (c *Client) getNumFromQueryBuffer(indexCRLF int) (int, error) {
-	return strconv.Atoi(byteutils.B2S(c.queryBuf[1:indexCRLF]))
+	return strconv.Atoi(b2s(c.queryBuf[1:indexCRLF]))
 }
 
 func (c *Client) moveToNextLineInQueryBuffer(indexCRLF int) {
diff --git a/server/resp.go b/server/resp.go
index de8ef90..1d7c015 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -3,7 +3,6 @@ package server
 import (
 	"strings"
 
-	"github.com/IfanTsai/go-lib/utils/byteutils"
 	"github.com/pkg/errors"
 )
 
@@ -77,7 +76,7 @@ func processInlineBuffer(client *Client) (bool, error) {
 		return true, nil
 	}
 
-	subs := strings.Split(byteutils.B2S(client.queryBuf[1:index]), " ")
+	subs := strings.Split(b2s(client.queryBuf[1:index]), " ")
 	client.args = make([]string, len(subs))
 	copy(client.args, subs)
 
@@ -116,7 +115,7 @@ func processBulkBuffer(client *Client) (bool, error) {
 	}
 
 	if client.bulkLen > 0 {
-		client.args = append(client.args, byteutils.B2S(client.queryBuf[0:client.bulkLen]))
+		client.args = append(client.args, b2s(client.queryBuf[0:client.bulkLen]))
 	}
 
 	client.moveToNextLineInQueryBuffer(client.bulkLen)
@@ -193,7 +192,7 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 			return false, errors.New("expected CRLF for end of bulk string")
 		}
 
-		client.args[len(client.args)-client.multiBulkLen] = byteutils.B2S(client.queryBuf[:index])
+		client.args[len(client.args)-client.multiBulkLen] = b2s(client.queryBuf[:index])
 		client.bulkLen = -1
 		client.multiBulkLen--
 
-- 
2.43.0


From 35dff80d0b8800c0631db260bcaa1a1d6834d417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 39/47] fix: a log rewrite that runs out of descriptors is
 given up instead of bringing the server down

---
 server/aof.go | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index 61b0b11..2cc3dfb 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -282,7 +282,11 @@ func rewriteAppendOnlyFile(dbs []*database.Databse, srv *Server) {
 	// in the directory of the AOF file, so that it can be renamed
 	tmpFile, err := os.CreateTemp(filepath.Dir(srv.aofFilename), AofRewriteTempFilePrefix)
 	if err != nil {
-		log.Panic("failed to create temp file", zap.Error(err))
+		// the server may be out of descriptors, the AOF file stays as it is
+		log.Error("failed to create temp file", zap.Error(err))
+		srv.aofRewriteDoneCh <- ""
+
+		return
 	}
 	defer tmpFile.Close()
 
@@ -428,12 +432,31 @@ func aofRewriteDoneCallback(srv *Server) {
 	flushAppendOnlyFile(srv)
 
 	tmpAofFilename := <-srv.aofRewriteDoneCh
+	if tmpAofFilename == "" {
+		srv.aofRewriteBuf.Reset()
+
+		return
+	}
 
 	aofFile, err := os.OpenFile(tmpAofFilename, os.O_APPEND|os.O_WRONLY, 0644)
 	if err != nil {
-		log.Panic("failed to open file",
+		log.Error("failed to open file",
 			zap.Error(err), zap.String("filename", tmpAofFilename))
+		abandonRewrite(srv, tmpAofFilename)
+
+		return
+	}
+
+	// opened before the rename, the server may be out of descriptors
+	dir, err := os.Open(filepath.Dir(srv.aofFilename))
+	if err != nil {
+		log.Error("failed to open directory", zap.Error(err))
+		aofFile.Close()
+		abandonRewrite(srv, tmpAofFilename)
+
+		return
 	}
+	defer dir.Close()
 
 	//  append AOF rewrite buffer to AOF file
 	if srv.aofRewriteBuf.Len() > 0 {
@@ -456,7 +479,7 @@ func aofRewriteDoneCallback(srv *Server) {
 			zap.String("to", srv.aofFilename))
 	}
 
-	if err := syncDir(filepath.Dir(srv.aofFilename)); err != nil {
+	if err := dir.Sync(); err != nil {
 		log.Panic("failed to fsync directory", zap.Error(err))
 	}
 
@@ -474,6 +497,12 @@ func aofRewriteDoneCallback(srv *Server) {
 	srv.aofFile = aofFile
 }
 
+// abandonRewrite drops the result of a rewrite, the AOF file stays as it is
+func abandonRewrite(srv *Server, tmpAofFilename string) {
+	srv.aofRewriteBuf.Reset()
+	_ = os.Remove(tmpAofFilename)
+}
+
 // syncDir makes the names of the files in the directory durable
 func syncDir(name string) error {
 	dir, err := os.Open(name)
-- 
2.43.0


From 18f9011b43ad1955dd0523bb05bf4a507829ee19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 40/47] fix: a time to live too large to be counted in
 milliseconds is refused instead of wrapping around

---
 server/commandkey.go    | 22 ++++++++++++++++++++--
 server/commandstring.go |  5 ++---
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/server/commandkey.go b/server/commandkey.go
index dc8d7e3..2eea6d0 100644
--- a/server/commandkey.go
+++ b/server/commandkey.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"math"
 	"regexp"
 	"strconv"
 	"time"
@@ -8,10 +9,27 @@ import (
 	"github.com/IfanTsai/metis/datastruct"
 )
 
+// maxExpireSeconds limits times to live and deadlines to what fits when counted in milliseconds.
+const maxExpireSeconds = math.MaxInt64 / 1000 / 2
+
+// parseExpire parses a time to live or a deadline in seconds.
+func parseExpire(arg string) (int64, error) {
+	expireInt, err := strconv.ParseInt(arg, 10, 64)
+	if err != nil {
+		return 0, err
+	}
+
+	if expireInt > maxExpireSeconds || expireInt < -maxExpireSeconds {
+		return 0, strconv.ErrRange
+	}
+
+	return expireInt, nil
+}
+
 func expireCommand(client *Client) error {
 	key := client.args[1]
 
-	expireInt, err := strconv.ParseInt(client.args[2], 10, 64)
+	expireInt, err := parseExpire(client.args[2])
 	if err != nil {
 		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)
 	}
@@ -35,7 +53,7 @@ func expireCommand(client *Client) error {
 func expireAtCommand(client *Client) error {
 	key := client.args[1]
 
-	expireInt, err := strconv.ParseInt(client.args[2], 10, 64)
+	expireInt, err := parseExpire(client.args[2])
 	if err != nil {
 		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)
 	}
diff --git a/server/commandstring.go b/server/commandstring.go
index d8161b5..8d873bb 100644
--- a/server/commandstring.go
+++ b/server/commandstring.go
@@ -1,7 +1,6 @@
 package server
 
 import (
-	"strconv"
 	"strings"
 	"time"
 
@@ -16,7 +15,7 @@ func setCommand(client *Client) error {
 
 	var when int64
 	if hasDeadline {
-		expireInt, err := strconv.ParseInt(client.args[4], 10, 64)
+		expireInt, err := parseExpire(client.args[4])
 		if err != nil {
 			return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[4], err)
 		}
@@ -38,7 +37,7 @@ func setCommand(client *Client) error {
 
 func setExCommand(client *Client) error {
 	key, value := client.args[1], client.args[3]
-	expireInt, err := strconv.ParseInt(client.args[2], 10, 64)
+	expireInt, err := parseExpire(client.args[2])
 	if err != nil {
 		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)
 	}
-- 
2.43.0


From b6536ec20251ce208bd68b373eeb522de33f92a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 41/47] fix: LINDEX counts negative indexes from the end like
 LRANGE

---
 server/commandlist.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/commandlist.go b/server/commandlist.go
index 74f2f93..ff1d5e5 100644
--- a/server/commandlist.go
+++ b/server/commandlist.go
@@ -125,6 +125,10 @@ func lIndexCommand(client *Client) error {
 		return client.addReplyErrorf("invalid index: %s, error: %v", client.args[2], err)
 	}
 
+	if index < 0 { // counted from the end
+		index += list.Len()
+	}
+
 	v := list.Get(index)
 	if v == nil {
 		return client.addReplyNull()
-- 
2.43.0


From ce7d443e932dfa63f268197abbefdb8e73a45033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:03 +0000
Subject: [PATCH 42/47] fix: a score range bounded by NaN is refused instead of
 selecting arbitrary members

---
 server/commandzset.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/server/commandzset.go b/server/commandzset.go
index 7b6f184..a8ea054 100644
--- a/server/commandzset.go
+++ b/server/commandzset.go
@@ -9,6 +9,20 @@ import (
 	"github.com/pkg/errors"
 )
 
+// parseScore parses a score or a bound of a range of scores, which NaN cannot be: it has no place in the order.
+func parseScore(arg string) (float64, error) {
+	score, err := strconv.ParseFloat(arg, 64)
+	if err != nil {
+		return 0, err
+	}
+
+	if math.IsNaN(score) {
+		return 0, errors.New("not a number")
+	}
+
+	return score, nil
+}
+
 func zAddCommand(client *Client) error {
 	if len(client.args)&1 != 0 {
 		return client.addReplyError("wrong number of arguments for 'zadd' command")
@@ -19,15 +33,11 @@ func zAddCommand(client *Client) error {
 	// check all the scores first, the command must not be applied partially
 	scores := make([]float64, 0, len(client.args)/2-1)
 	for i := 2; i < len(client.args); i += 2 {
-		score, err := strconv.ParseFloat(client.args[i], 64)
+		score, err := parseScore(client.args[i])
 		if err != nil {
 			return client.addReplyErrorf("invalid score: %s, error: %v", client.args[i], err)
 		}
 
-		if math.IsNaN(score) {
-			return client.addReplyErrorf("invalid score: %s", client.args[i])
-		}
-
 		scores = append(scores, score)
 	}
 
@@ -90,12 +100,12 @@ func zScoreCommand(client *Client) error {
 func zCountCommand(client *Client) error {
 	key := client.args[1]
 
-	min, err := strconv.ParseFloat(client.args[2], 64)
+	min, err := parseScore(client.args[2])
 	if err != nil {
 		return client.addReplyErrorf("invalid min: %s, error: %v", client.args[2], err)
 	}
 
-	max, err := strconv.ParseFloat(client.args[3], 64)
+	max, err := parseScore(client.args[3])
 	if err != nil {
 		return client.addReplyErrorf("invalid max: %s, error: %v", client.args[3], err)
 	}
@@ -144,12 +154,12 @@ func zRangeCommand(client *Client) error {
 func zRangeByScoreCommand(client *Client) error {
 	key := client.args[1]
 
-	min, err := strconv.ParseFloat(client.args[2], 64)
+	min, err := parseScore(client.args[2])
 	if err != nil {
 		return client.addReplyErrorf("invalid start: %s, error: %v", client.args[2], err)
 	}
 
-	max, err := strconv.ParseFloat(client.args[3], 64)
+	max, err := parseScore(client.args[3])
 	if err != nil {
 		return client.addReplyErrorf("invalid start: %s, error: %v", client.args[3], err)
 	}
@@ -230,12 +240,12 @@ func zRemRangeByRankCommand(client *Client) error {
 func zRemRangeByScoreCommand(client *Client) error {
 	key := client.args[1]
 
-	min, err := strconv.ParseFloat(client.args[2], 64)
+	min, err := parseScore(client.args[2])
 	if err != nil {
 		return client.addReplyErrorf("invalid start: %s, error: %v", client.args[2], err)
 	}
 
-	max, err := strconv.ParseFloat(client.args[3], 64)
+	max, err := parseScore(client.args[3])
 	if err != nil {
 		return client.addReplyErrorf("invalid start: %s, error: %v", client.args[3], err)
 	}
-- 
2.43.0


From e1ae7c692474b2a97365da10b21e8e4277b86880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:54 +0000
Subject: [PATCH 43/47] fix: a background rewrite finishing while the server
 stops no longer panics before the log is synced

---
 server/server.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index 996101c..577107c 100644
--- a/server/server.go
+++ b/server/server.go
@@ -149,7 +149,6 @@ func (s *Server) Run() error {
 func (s *Server) Stop() {
 	s.eventLoop.Stop()
 	s.fd.Close()
-	close(s.aofRewriteDoneCh)
 
 	if s.aofFile != nil {
 		_ = s.aofFile.Sync()
-- 
2.43.0


From 8326a799ac8e2be719ca509076d9ffc09d541969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:19 +0000
Subject: [PATCH 44/47] fix: a mistake in the configuration file edited while
 the server runs no longer brings it down

---
 config/config.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/config/config.go b/config/config.go
index ce472e3..39d4f1c 100644
--- a/config/config.go
+++ b/config/config.go
@@ -63,11 +63,16 @@ func LoadConfig(configFile, configType string) *Config {
 		viper.WatchConfig()
 
 		viper.OnConfigChange(func(e fsnotify.Event) {
-			if err := viper.Unmarshal(&config); err != nil {
-				log.Fatalln("failed to unmarshal from config:", err)
+			// the file is edited while the server runs, a mistake in it must not bring the server down
+			newConfig := config
+			if err := viper.Unmarshal(&newConfig); err != nil {
+				log.Println("failed to unmarshal from config:", err)
+
+				return
 			}
 
-			config.AofRewriteMinSize = viper.GetSizeInBytes("auto-aof-rewrite-min-size")
+			newConfig.AofRewriteMinSize = viper.GetSizeInBytes("auto-aof-rewrite-min-size")
+			config = newConfig
 		})
 	})
 
-- 
2.43.0


From 6982a070b430035df6526824f58219d1aa36644f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:16 +0000
Subject: [PATCH 45/47] fix: the listening socket is closed once when the
 server stops, not again when its descriptor may belong to another file

---
 server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index 577107c..c208388 100644
--- a/server/server.go
+++ b/server/server.go
@@ -147,8 +147,8 @@ func (s *Server) Run() error {
 }
 
 func (s *Server) Stop() {
+	// Run closes the listening socket. Closed here too, its descriptor might be that of another file by then.
 	s.eventLoop.Stop()
-	s.fd.Close()
 
 	if s.aofFile != nil {
 		_ = s.aofFile.Sync()
-- 
2.43.0


From d375c3abe4379277c8629ddcb844f150449a4e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:44 +0000
Subject: [PATCH 46/47] fix: a server asked to stop before it is ready stops
 instead of panicking

---
 server/server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index c208388..1358038 100644
--- a/server/server.go
+++ b/server/server.go
@@ -148,7 +148,9 @@ func (s *Server) Run() error {
 
 func (s *Server) Stop() {
 	// Run closes the listening socket. Closed here too, its descriptor might be that of another file by then.
-	s.eventLoop.Stop()
+	if s.eventLoop != nil { // nil while the server starts
+		s.eventLoop.Stop()
+	}
 
 	if s.aofFile != nil {
 		_ = s.aofFile.Sync()
-- 
2.43.0


From 914541455c3ba232bad1e9de5e2c5c5939c6fa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:50 +0000
Subject: [PATCH 47/47] fix: the log is not closed on stop while the event loop
 may still be writing or syncing it

---
 server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index 1358038..d6b5775 100644
--- a/server/server.go
+++ b/server/server.go
@@ -152,9 +152,9 @@ func (s *Server) Stop() {
 		s.eventLoop.Stop()
 	}
 
+	// the event loop may still be using the file, it is closed with the process
 	if s.aofFile != nil {
 		_ = s.aofFile.Sync()
-		s.aofFile.Close()
 	}
 }
 
-- 
2.43.0


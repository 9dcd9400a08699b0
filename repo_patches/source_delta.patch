From 6fbb6b3b84ea21e7d08709304893e0439f6f451e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:56 +0000
Subject: [PATCH 01/44] fix: quicklist index lookup in the back half of a
 multi-page list

---
 datastruct/quicklist.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datastruct/quicklist.go b/datastruct/quicklist.go
index 19ce289..a7d2836 100644
--- a/datastruct/quicklist.go
+++ b/datastruct/quicklist.go
@@ -118,9 +118,9 @@ func (q *Quicklist) Insert(index int, v any) bool {
 		return true
 	}
 
+	iter := q.get(index)
 	q.length++
 
-	iter := q.get(index)
 	page := iter.page()
 	// if the page is not full, just insert the value
 	if len(page) < pageSize {
@@ -253,7 +253,7 @@ func (q *Quicklist) get(index int) *QuicklistIterator {
 			pageIndex += pageLen
 		}
 	} else {
-		pageIndex := q.length
+		pageIndex = q.length
 		for node = q.data.Back(); node != nil; node = node.Prev() {
 			pageLen := node.Value.(quicklistPage).Len()
 			if pageIndex -= pageLen; pageIndex <= index {
-- 
2.43.0


From f60a36c14335badcc1a20bb4b6d805a59723f3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:57 +0000
Subject: [PATCH 02/44] fix: quicklist range past the end must not allocate by
 the requested size

---
 datastruct/quicklist.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datastruct/quicklist.go b/datastruct/quicklist.go
index a7d2836..76621be 100644
--- a/datastruct/quicklist.go
+++ b/datastruct/quicklist.go
@@ -201,6 +201,10 @@ func (q *Quicklist) Range(start, stop int) []any {
 		return nil
 	}
 
+	if stop >= q.length {
+		stop = q.length - 1
+	}
+
 	iter := q.get(start)
 	if iter == nil {
 		return nil
-- 
2.43.0


From 85dd32bff898f7aecdd22d62c37ff3eb5c7171d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:58 +0000
Subject: [PATCH 03/44] fix: zset score update must remove the node stored
 under the old score

---
 datastruct/zset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/zset.go b/datastruct/zset.go
index 35b968f..f3e6979 100644
--- a/datastruct/zset.go
+++ b/datastruct/zset.go
@@ -27,9 +27,9 @@ func (z *Zset) Add(score float64, member string) bool {
 	element := z.Get(member)
 	if element != nil {
 		if score != element.Score {
-			element.Score = score
 			z.skiplist.Delete(element.Score, element.Member)
 			z.skiplist.Insert(score, member)
+			element.Score = score
 		}
 
 		return false
-- 
2.43.0


From bd945a055afec8dce9c235a3ff62aa94806d178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:58 +0000
Subject: [PATCH 04/44] fix: skiplist delete by rank must accumulate the rank
 across levels

---
 datastruct/skiplist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/skiplist.go b/datastruct/skiplist.go
index 4e5b86e..5aeeabf 100644
--- a/datastruct/skiplist.go
+++ b/datastruct/skiplist.go
@@ -161,8 +161,8 @@ func (s *Skiplist) DeleteRangeByRank(start, end int64) []*SkiplistNode {
 	update := make([]*SkiplistNode, maxLevel)
 	x := s.Head
 
+	rank := int64(0)
 	for i := s.Level - 1; i >= 0; i-- {
-		rank := int64(0)
 		for x.Levels[i].Forward != nil && (rank+x.Levels[i].Span) < start {
 			rank += x.Levels[i].Span
 			x = x.Levels[i].Forward
-- 
2.43.0


From da0a16ab056b6eba324446bd021772b5fb5bb894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:59 +0000
Subject: [PATCH 05/44] fix: skiplist delete must return nil when the element
 is not found

---
 datastruct/skiplist.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datastruct/skiplist.go b/datastruct/skiplist.go
index 5aeeabf..a88e514 100644
--- a/datastruct/skiplist.go
+++ b/datastruct/skiplist.go
@@ -120,9 +120,11 @@ func (s *Skiplist) Delete(score float64, member string) *SkiplistNode {
 	x = x.Levels[0].Forward
 	if x != nil && score == x.Score && member == x.Member {
 		s.deleteNode(x, update)
+
+		return x
 	}
 
-	return x
+	return nil
 }
 
 // DeleteRangeByScore deletes all the elements with score between min and max (inclusive).
-- 
2.43.0


From ad9b9182bff2b5ad8e6f7b145539145d013abfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 06/44] fix: skiplist rank of the empty member must not match
 the head node

---
 datastruct/skiplist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/skiplist.go b/datastruct/skiplist.go
index a88e514..7025824 100644
--- a/datastruct/skiplist.go
+++ b/datastruct/skiplist.go
@@ -202,7 +202,7 @@ func (s *Skiplist) GetRank(score float64, member string) int64 {
 			x = x.Levels[i].Forward
 		}
 
-		if member == x.Member {
+		if x != s.Head && member == x.Member {
 			return rank
 		}
 	}
-- 
2.43.0


From f82a763f5a9ddc6b133c1020a3ceff40fffa0d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:01 +0000
Subject: [PATCH 07/44] fix: skiplist rank lookup below 1 must not return the
 head node

---
 datastruct/skiplist.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datastruct/skiplist.go b/datastruct/skiplist.go
index 7025824..41aa88a 100644
--- a/datastruct/skiplist.go
+++ b/datastruct/skiplist.go
@@ -212,6 +212,10 @@ func (s *Skiplist) GetRank(score float64, member string) int64 {
 
 // GetElementByRank returns the element at the given rank. The rank is 1-based.
 func (s *Skiplist) GetElementByRank(rank int64) *SkiplistNode {
+	if rank < 1 {
+		return nil
+	}
+
 	var traversed int64
 
 	x := s.Head
-- 
2.43.0


From f9ef64e7873549fd3c2a188bd5590e4b2ca525e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:02 +0000
Subject: [PATCH 08/44] fix: skiplist range by rank must not allocate by the
 requested size

---
 datastruct/skiplist.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/datastruct/skiplist.go b/datastruct/skiplist.go
index 41aa88a..7fce4b9 100644
--- a/datastruct/skiplist.go
+++ b/datastruct/skiplist.go
@@ -240,6 +240,14 @@ func (s *Skiplist) RangeByRank(start, end int64, reverse bool) []*SkiplistNode {
 		return nil
 	}
 
+	if end > s.Length {
+		end = s.Length
+	}
+
+	if start > end {
+		return nil
+	}
+
 	var node *SkiplistNode
 	if reverse {
 		node = s.Tail
-- 
2.43.0


From 11cfd90279911642ab68d56b5679d937eb473393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:03 +0000
Subject: [PATCH 09/44] fix: releasing a dict iterator that never started must
 not drop another one

---
 datastruct/dict.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/dict.go b/datastruct/dict.go
index 0d9f611..c58f46a 100644
--- a/datastruct/dict.go
+++ b/datastruct/dict.go
@@ -63,7 +63,7 @@ func NewDictIterator(dict *Dict) *DictIterator {
 }
 
 func (di *DictIterator) Release() {
-	if di.index != -1 || di.dict.iterators != 0 {
+	if di.index != -1 {
 		di.dict.iterators--
 	}
 }
-- 
2.43.0


From 4d632b210c02b6a24a5d90876445c39ea0cdb694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:04 +0000
Subject: [PATCH 10/44] fix: random member of an empty set

---
 datastruct/set.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index 64e4d6a..cd3cf4c 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -33,7 +33,12 @@ func (s *Set) Range() []any {
 }
 
 func (s *Set) GetRandom() any {
-	return s.dict.GetRandomKey().Key
+	entry := s.dict.GetRandomKey()
+	if entry == nil {
+		return nil
+	}
+
+	return entry.Key
 }
 
 func (s *Set) Contains(member any) bool {
-- 
2.43.0


From 2497af4528ce65100e2bd0d2960a3bd6f5e91d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 11/44] fix: database deep copy must not share the values with
 the live dataset

---
 datastruct/dict.go      | 18 +++++++++++++++++-
 datastruct/quicklist.go | 11 +++++++++++
 datastruct/set.go       |  4 ++++
 datastruct/zset.go      | 10 ++++++++++
 4 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/datastruct/dict.go b/datastruct/dict.go
index c58f46a..bfb3774 100644
--- a/datastruct/dict.go
+++ b/datastruct/dict.go
@@ -276,12 +276,28 @@ func (d *Dict) DeepCopy() *Dict {
 
 	dict := NewDict(d.DictType)
 	for entry := iter.Next(); entry != nil; entry = iter.Next() {
-		dict.Set(entry.Key, entry.Value)
+		dict.Set(entry.Key, deepCopyValue(entry.Value))
 	}
 
 	return dict
 }
 
+// deepCopyValue returns a copy of the value that shares no mutable state with it.
+func deepCopyValue(value any) any {
+	switch v := value.(type) {
+	case *Dict:
+		return v.DeepCopy()
+	case *Set:
+		return v.DeepCopy()
+	case *Zset:
+		return v.DeepCopy()
+	case *Quicklist:
+		return v.DeepCopy()
+	default:
+		return value
+	}
+}
+
 // keyIndex returns the index of a free slot that can be used to store the given key.
 // if the key already exists, -1 is returned.
 // Note that if it is in the process of rehashing, the index is always returned in the second (new) hash table.
diff --git a/datastruct/quicklist.go b/datastruct/quicklist.go
index 76621be..65079c4 100644
--- a/datastruct/quicklist.go
+++ b/datastruct/quicklist.go
@@ -222,6 +222,17 @@ func (q *Quicklist) Range(start, stop int) []any {
 	return values
 }
 
+func (q *Quicklist) DeepCopy() *Quicklist {
+	quicklist := NewQuicklist()
+	for node := q.data.Front(); node != nil; node = node.Next() {
+		for _, value := range node.Value.(quicklistPage) {
+			quicklist.PushBack(value)
+		}
+	}
+
+	return quicklist
+}
+
 func (q *Quicklist) Get(index int) any {
 	iter := q.get(index)
 	if iter == nil {
diff --git a/datastruct/set.go b/datastruct/set.go
index cd3cf4c..2a5d94f 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -45,6 +45,10 @@ func (s *Set) Contains(member any) bool {
 	return s.dict.Find(member) != nil
 }
 
+func (s *Set) DeepCopy() *Set {
+	return &Set{dict: s.dict.DeepCopy()}
+}
+
 func (s *Set) Union(other *Set) *Set {
 	iter1 := NewDictIterator(s.dict)
 	defer iter1.Release()
diff --git a/datastruct/zset.go b/datastruct/zset.go
index f3e6979..8acad5f 100644
--- a/datastruct/zset.go
+++ b/datastruct/zset.go
@@ -144,6 +144,16 @@ func (z *Zset) Size() int64 {
 	return z.skiplist.Length
 }
 
+// DeepCopy returns a copy of the zset that shares no mutable state with it.
+func (z *Zset) DeepCopy() *Zset {
+	zset := NewZset(z.dict.DictType)
+	for node := z.skiplist.Head.Levels[0].Forward; node != nil; node = node.Levels[0].Forward {
+		zset.Add(node.Score, node.Member)
+	}
+
+	return zset
+}
+
 // Count returns the number of elements with score between min and max.
 func (z *Zset) Count(min, max float64) int64 {
 	return z.skiplist.Count(min, max)
-- 
2.43.0


From 2a30627e8688b106a1b5814e09218b97d73cb3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 12/44] fix: zadd must reject NaN and must not create the key
 or apply a part when a score is invalid

---
 server/commandzset.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/server/commandzset.go b/server/commandzset.go
index 7c61771..0385a9e 100644
--- a/server/commandzset.go
+++ b/server/commandzset.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"math"
 	"strconv"
 
 	"github.com/IfanTsai/metis/database"
@@ -15,19 +16,29 @@ func zAddCommand(client *Client) error {
 
 	key := client.args[1]
 
-	zset, err := getZset(client, key)
-	if err != nil {
-		return client.addReplyError(err.Error())
-	}
-
-	var created int64
+	// parse all the scores before touching the keyspace, so that an invalid one leaves no trace
+	scores := make([]float64, 0, len(client.args)/2-1)
 	for i := 2; i < len(client.args); i += 2 {
 		score, err := strconv.ParseFloat(client.args[i], 64)
 		if err != nil {
 			return client.addReplyErrorf("invalid score: %s, error: %v", client.args[i], err)
 		}
 
-		member := client.args[i+1]
+		if math.IsNaN(score) {
+			return client.addReplyErrorf("invalid score: %s", client.args[i])
+		}
+
+		scores = append(scores, score)
+	}
+
+	zset, err := getZset(client, key)
+	if err != nil {
+		return client.addReplyError(err.Error())
+	}
+
+	var created int64
+	for i, score := range scores {
+		member := client.args[2*i+3]
 		if zset.Add(score, member) {
 			created++
 		}
-- 
2.43.0


From f9066afea383a7d437ad43786b97d42a8abcfd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:54 +0000
Subject: [PATCH 13/44] fix: select with a negative index must not crash the
 server

---
 server/commandconnection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/commandconnection.go b/server/commandconnection.go
index f3cbddc..ed66966 100644
--- a/server/commandconnection.go
+++ b/server/commandconnection.go
@@ -12,7 +12,7 @@ func selectCommand(client *Client) error {
 		return client.addReplyError(err.Error())
 	}
 
-	if dbIndex >= len(client.srv.dbs) {
+	if dbIndex < 0 || dbIndex >= len(client.srv.dbs) {
 		return client.addReplyError("invalid db index")
 	}
 
-- 
2.43.0


From 4fe5d2ef3fe3a8c096b8c5b58b57a105877c02b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:55 +0000
Subject: [PATCH 14/44] fix: push on a key of another type must report the
 wrong type

---
 server/commandlist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/commandlist.go b/server/commandlist.go
index d1a5a8e..2ebc2a8 100644
--- a/server/commandlist.go
+++ b/server/commandlist.go
@@ -166,7 +166,7 @@ func getQuickList(client *Client, key string) (*datastruct.Quicklist, error) {
 
 	list, ok := value.(*datastruct.Quicklist)
 	if !ok {
-		return nil, errNotExist
+		return nil, errWrongType
 	}
 
 	return list, nil
-- 
2.43.0


From c2014d59479ff0f64f0f37aab69502ae8d64259e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:56 +0000
Subject: [PATCH 15/44] fix: aof rewrite must keep the order of list items

---
 server/aof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/aof.go b/server/aof.go
index 7955918..f7fc407 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -301,7 +301,7 @@ func rewriteListObject(file *os.File, key string, value *datastruct.Quicklist) e
 
 	itemsChunks := lo.Chunk(items, AofRewriteItemsPerCommand)
 	for _, chunk := range itemsChunks {
-		aofStr := catAppendOnlyGenericCommand(append([]string{"lpush", key}, chunk...))
+		aofStr := catAppendOnlyGenericCommand(append([]string{"rpush", key}, chunk...))
 		if _, err := file.WriteString(aofStr); err != nil {
 			return errors.Wrapf(err, "failed to write qucik list to AOF file, key: %s, value: %v", key, chunk)
 		}
-- 
2.43.0


From 1bb42fe172d7af7b940aa9f45b58fc1da37827a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 16/44] fix: aof load must read whole arguments across buffer
 boundaries

---
 server/aof.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index f7fc407..d89d067 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -190,12 +190,12 @@ func loadAppendOnlyFile(srv *Server) {
 			}
 
 			arg := make([]byte, argLen)
-			if _, err := reader.Read(arg); err != nil {
+			if _, err := io.ReadFull(reader, arg); err != nil {
 				log.Panic("failed to read aof file", zap.Error(err))
 			}
 
 			// discard CRLF
-			if _, err := reader.Read(make([]byte, 2)); err != nil {
+			if _, err := io.ReadFull(reader, make([]byte, 2)); err != nil {
 				log.Panic("failed to read aof file", zap.Error(err))
 			}
 
-- 
2.43.0


From 2b11023861696b26b1e124e34d577ba698e1369d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 17/44] fix: aof load must accept empty arguments

---
 server/aof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/aof.go b/server/aof.go
index d89d067..767dba0 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -199,7 +199,7 @@ func loadAppendOnlyFile(srv *Server) {
 				log.Panic("failed to read aof file", zap.Error(err))
 			}
 
-			args[i] = byteutils.B2S(arg)
+			args[i] = string(arg)
 		}
 
 		cmd := lookupCommand(strings.ToLower(args[0]))
-- 
2.43.0


From fbd0e33b6ba4c64924796af23e32b6f15082d269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:58 +0000
Subject: [PATCH 18/44] fix: commands appended after an aof load must select
 their db

---
 server/aof.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/aof.go b/server/aof.go
index 767dba0..587ac3f 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -212,6 +212,8 @@ func loadAppendOnlyFile(srv *Server) {
 		_ = cmd.proc(fakeClient)
 	}
 
+	// the file ends with this db selected, the commands to come are appended after it
+	srv.aofSelectDBID = fakeClient.db.ID
 }
 
 // rewriteAppendOnlyFileBackground rewrites the AOF file in background.
-- 
2.43.0


From 0009449e00519a8ef458152c1b1c72d60728d249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 19/44] fix: commands executed during an aof rewrite must
 select their db

---
 server/aof.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/aof.go b/server/aof.go
index 587ac3f..4d2e9c4 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -227,6 +227,10 @@ func rewriteAppendOnlyFileBackground(srv *Server) {
 		tmpDBs[i] = db.DeepCopy()
 	}
 
+	// the rewritten file may end with any db selected, so that the differences appended to it
+	// must start with a select command
+	srv.aofSelectDBID = -1
+
 	go rewriteAppendOnlyFile(tmpDBs, srv)
 }
 
-- 
2.43.0


From 789b7504e0d26c50cbc9341033da429b707ff3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:00 +0000
Subject: [PATCH 20/44] fix: spop must be propagated to the aof as the removal
 of the popped member

---
 server/commandset.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/commandset.go b/server/commandset.go
index 6c0a129..80f5d96 100644
--- a/server/commandset.go
+++ b/server/commandset.go
@@ -72,6 +72,9 @@ func sPopCommand(client *Client) error {
 
 	client.srv.dirty++
 
+	// propagate as SREM, the member popped must be the same when the AOF is replayed
+	client.args = []string{"srem", key, randomMember.(string)}
+
 	return client.addReplyBulkString(randomMember.(string))
 }
 
-- 
2.43.0


From 4e026ec147b5ad4a3c317d9f3bb32aa38e028387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:01 +0000
Subject: [PATCH 21/44] fix: bind and connect must use the given IPv4 address

---
 socket/socket.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socket/socket.go b/socket/socket.go
index 333ae41..13bb243 100644
--- a/socket/socket.go
+++ b/socket/socket.go
@@ -27,7 +27,7 @@ func (fd FD) Close() error {
 }
 
 func (fd FD) Connect(ip string, port uint16) error {
-	ipAddr := net.ParseIP(ip)
+	ipAddr := net.ParseIP(ip).To4()
 	if ipAddr == nil {
 		return errors.New("invalid ip address")
 	}
@@ -42,7 +42,7 @@ func (fd FD) Connect(ip string, port uint16) error {
 }
 
 func (fd FD) Bind(ip string, port uint16) error {
-	ipAddr := net.ParseIP(ip)
+	ipAddr := net.ParseIP(ip).To4()
 	if ipAddr == nil {
 		return errors.New("invalid ip address")
 	}
-- 
2.43.0


From be914035b60e6bbb4a63c42214ba24fb2608ae92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:01 +0000
Subject: [PATCH 22/44] fix: error replies must stay on one line

---
 server/client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/client.go b/server/client.go
index 664b77e..5fe2f58 100644
--- a/server/client.go
+++ b/server/client.go
@@ -95,6 +95,9 @@ func (c *Client) addReplyInt(num int64) error {
 }
 
 func (c *Client) addReplyError(err string) error {
+	// an error is a single line, line breaks in it would be taken as the end of the reply
+	err = strings.NewReplacer("\r", " ", "\n", " ").Replace(err)
+
 	return c.addReplyStringf("-ERR %s\r\n", err)
 }
 
@@ -134,7 +137,7 @@ func (c *Client) addReplyZsetElements(elements []*datastruct.ZsetElement, withSc
 		if strings.EqualFold(c.args[withScoreIndex], "WITHSCORES") {
 			withScore = true
 		} else {
-			return c.addReplyError("invalid option: %s" + c.args[withScoreIndex])
+			return c.addReplyError("invalid option: " + c.args[withScoreIndex])
 		}
 	}
 
-- 
2.43.0


From 71c34073b0ba2e597de07aa4404ab0114f073727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 23/44] fix: bgrewriteaof without an append only file name must
 not crash the server

---
 server/commandserver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/commandserver.go b/server/commandserver.go
index 59e5093..bb0e271 100644
--- a/server/commandserver.go
+++ b/server/commandserver.go
@@ -7,6 +7,10 @@ func bgRewriteAofCommand(client *Client) error {
 		return client.addReplySimpleString("Background append only file rewriting scheduled")
 	}
 
+	if srv.aofFilename == "" {
+		return client.addReplyError("append only file name is not configured")
+	}
+
 	rewriteAppendOnlyFileBackground(srv)
 
 	return client.addReplySimpleString("Background append only file rewriting started")
-- 
2.43.0


From 765fee5af6bf772eab7e8da3e6368a362571da96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 24/44] fix: background fsync must survive the replacement of
 the aof file

---
 server/aof.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/aof.go b/server/aof.go
index 4d2e9c4..829ced3 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -121,8 +121,10 @@ func aofFileSync(srv *Server) {
 				log.Panic("failed to fsync the AOF file", zap.Error(err))
 			}
 		case config.TypeAppendFsyncEverySecond:
+			// the file may be replaced and closed by an AOF rewrite in the meantime
+			aofFile := srv.aofFile
 			go func() {
-				if err := srv.aofFile.Sync(); err != nil {
+				if err := aofFile.Sync(); err != nil && !errors.Is(err, os.ErrClosed) {
 					log.Panic("failed to fsync the AOF file", zap.Error(err))
 				}
 			}()
-- 
2.43.0


From e69d9487c86238883676ec769e020ea291eafd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:04 +0000
Subject: [PATCH 25/44] fix: aof rewrite must not replace the old file before
 the new one is complete

---
 server/aof.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index 829ced3..ab03273 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -384,6 +384,22 @@ func aofRewriteDoneCallback(srv *Server) {
 	tmpAofFilename := <-srv.aofRewriteDoneCh
 	defer os.Remove(tmpAofFilename)
 
+	// append AOF rewrite buffer to the rewritten file before it replaces the old one,
+	// so that no crash in between loses the commands executed during the rewrite
+	if srv.aofRewriteBuf.Len() > 0 {
+		tmpFile, err := os.OpenFile(tmpAofFilename, os.O_APPEND|os.O_WRONLY, 0644)
+		if err != nil {
+			log.Panic("failed to open file",
+				zap.Error(err), zap.String("filename", tmpAofFilename))
+		}
+
+		if _, err := tmpFile.WriteString(srv.aofRewriteBuf.String()); err != nil {
+			log.Panic("failed to write to AOF file", zap.Error(err))
+		}
+
+		tmpFile.Close()
+	}
+
 	// occurs error "invalid cross-device link" if use os.Rename
 	if err := exec.Command("mv", tmpAofFilename, srv.aofFilename).Run(); err != nil {
 		log.Panic("failed to mv",
@@ -398,13 +414,6 @@ func aofRewriteDoneCallback(srv *Server) {
 			zap.Error(err), zap.String("filename", srv.aofFilename))
 	}
 
-	//  append AOF rewrite buffer to AOF file
-	if srv.aofRewriteBuf.Len() > 0 {
-		if _, err := aofFile.WriteString(srv.aofRewriteBuf.String()); err != nil {
-			log.Panic("failed to write to AOF file", zap.Error(err))
-		}
-	}
-
 	srv.aofRewriteBuf.Reset()
 
 	fileInfo, err := aofFile.Stat()
-- 
2.43.0


From 0b570f355d0ea7139a311880f3c6429b10238b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:05 +0000
Subject: [PATCH 26/44] fix: aof rewrite must replace the old file atomically

---
 server/aof.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/aof.go b/server/aof.go
index ab03273..2ef16bd 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"os"
 	"os/exec"
+	"path/filepath"
 	"strconv"
 	"strings"
 	"time"
@@ -237,7 +238,7 @@ func rewriteAppendOnlyFileBackground(srv *Server) {
 }
 
 func rewriteAppendOnlyFile(dbs []*database.Databse, srv *Server) {
-	tmpFile, err := os.CreateTemp("", AofRewriteTempFilePrefix)
+	tmpFile, err := os.CreateTemp(filepath.Dir(srv.aofFilename), AofRewriteTempFilePrefix)
 	if err != nil {
 		log.Panic("failed to create temp file", zap.Error(err))
 	}
-- 
2.43.0


From 2b1c5bfcf3a7a1d3003986da85479d8c1c1c7a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:06 +0000
Subject: [PATCH 27/44] fix: event loop must not dispatch a file event that has
 been removed

---
 ae/ae.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ae/ae.go b/ae/ae.go
index 0328dec..72469f2 100644
--- a/ae/ae.go
+++ b/ae/ae.go
@@ -200,6 +200,11 @@ func (el *EventLoop) processEvents(timeEvents []*TimeEvent, fileEvents []*FileEv
 	}
 
 	for _, fe := range fileEvents {
+		// the event may have been removed by the events processed before it
+		if el.fileEventMap[getFileEventMapKey(fe.fd, fe.mask)] != fe {
+			continue
+		}
+
 		fe.proc(el, fe.fd, fe.clientData)
 	}
 
-- 
2.43.0


From 4a41a04354de112cbe1eda7e57bf18c96de4788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 28/44] fix: write commands and ttl must not see an expired key

---
 server/commandhash.go | 5 +++++
 server/commandkey.go  | 5 +++++
 server/commandlist.go | 5 +++++
 server/commandset.go  | 5 +++++
 server/commandzset.go | 5 +++++
 5 files changed, 25 insertions(+)

diff --git a/server/commandhash.go b/server/commandhash.go
index bc5bb8d..8da466a 100644
--- a/server/commandhash.go
+++ b/server/commandhash.go
@@ -130,6 +130,11 @@ func hLenCommand(client *Client) error {
 }
 
 func getHash(client *Client, key string) (*datastruct.Dict, error) {
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return nil, err
+	}
+
 	dict := client.db.Dict
 	value := dict.Get(key)
 	if value == nil {
diff --git a/server/commandkey.go b/server/commandkey.go
index b4f5b19..6d2db20 100644
--- a/server/commandkey.go
+++ b/server/commandkey.go
@@ -40,6 +40,11 @@ func expireAtCommand(client *Client) error {
 func ttlCommand(client *Client) error {
 	key := client.args[1]
 
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return client.addReplyError(err.Error())
+	}
+
 	if client.db.Dict.Find(key) == nil {
 		return client.addReplyInt(-2)
 	}
diff --git a/server/commandlist.go b/server/commandlist.go
index 2ebc2a8..fcec28c 100644
--- a/server/commandlist.go
+++ b/server/commandlist.go
@@ -157,6 +157,11 @@ func lRangeCommand(client *Client) error {
 }
 
 func getQuickList(client *Client, key string) (*datastruct.Quicklist, error) {
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return nil, err
+	}
+
 	dict := client.db.Dict
 	value := dict.Get(key)
 	if value == nil {
diff --git a/server/commandset.go b/server/commandset.go
index 80f5d96..6a32403 100644
--- a/server/commandset.go
+++ b/server/commandset.go
@@ -206,6 +206,11 @@ func sUnionCommand(client *Client) error {
 }
 
 func getSet(client *Client, key string) (*datastruct.Set, error) {
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return nil, err
+	}
+
 	dict := client.db.Dict
 	value := dict.Get(key)
 	if value == nil {
diff --git a/server/commandzset.go b/server/commandzset.go
index 0385a9e..cbf3dbf 100644
--- a/server/commandzset.go
+++ b/server/commandzset.go
@@ -248,6 +248,11 @@ func zRemRangeByScoreCommand(client *Client) error {
 }
 
 func getZset(client *Client, key string) (*datastruct.Zset, error) {
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return nil, err
+	}
+
 	dict := client.db.Dict
 	value := dict.Get(key)
 	if value == nil {
-- 
2.43.0


From 1131a686c55480f770a3cd061601bdd7ef792e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 29/44] fix: expire time out of range must be rejected instead
 of overflowing

---
 server/commandkey.go    | 13 +++++++++++++
 server/commandstring.go |  4 ++++
 2 files changed, 17 insertions(+)

diff --git a/server/commandkey.go b/server/commandkey.go
index 6d2db20..f73a8d0 100644
--- a/server/commandkey.go
+++ b/server/commandkey.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"math"
 	"regexp"
 	"strconv"
 	"time"
@@ -8,6 +9,10 @@ import (
 	"github.com/IfanTsai/metis/datastruct"
 )
 
+// maxExpireSeconds is the longest time to live, both the deadline in milliseconds
+// and the absolute time in seconds it is persisted as are far from overflow.
+const maxExpireSeconds = math.MaxInt64 / 1000 / 2
+
 func expireCommand(client *Client) error {
 	key := client.args[1]
 
@@ -16,6 +21,10 @@ func expireCommand(client *Client) error {
 		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)
 	}
 
+	if expireInt < -maxExpireSeconds || expireInt > maxExpireSeconds {
+		return client.addReplyErrorf("invalid expire: %s", client.args[2])
+	}
+
 	when := time.Now().UnixMilli() + expireInt*1000
 	client.db.Expire.Set(key, when)
 	client.srv.dirty++
@@ -31,6 +40,10 @@ func expireAtCommand(client *Client) error {
 		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)
 	}
 
+	if expireInt < -2*maxExpireSeconds || expireInt > 2*maxExpireSeconds {
+		return client.addReplyErrorf("invalid expire: %s", client.args[2])
+	}
+
 	client.db.Expire.Set(key, expireInt*1000)
 	client.srv.dirty++
 
diff --git a/server/commandstring.go b/server/commandstring.go
index 7ee7178..9d52b8c 100644
--- a/server/commandstring.go
+++ b/server/commandstring.go
@@ -23,6 +23,10 @@ func setExCommand(client *Client) error {
 		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)
 	}
 
+	if expireInt < -maxExpireSeconds || expireInt > maxExpireSeconds {
+		return client.addReplyErrorf("invalid expire: %s", client.args[2])
+	}
+
 	when := time.Now().UnixMilli() + expireInt*1000
 	client.db.Expire.Set(key, when)
 	client.db.Dict.Set(key, value)
-- 
2.43.0


From cb0b8401d8eeb1f273570324758ae08c2cd4f340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:33 +0000
Subject: [PATCH 30/44] fix: expire of a missing key must not apply to a key
 created later

---
 server/commandkey.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/server/commandkey.go b/server/commandkey.go
index f73a8d0..e594d2e 100644
--- a/server/commandkey.go
+++ b/server/commandkey.go
@@ -25,6 +25,15 @@ func expireCommand(client *Client) error {
 		return client.addReplyErrorf("invalid expire: %s", client.args[2])
 	}
 
+	exist, err := keyExists(client, key)
+	if err != nil {
+		return client.addReplyError(err.Error())
+	}
+
+	if !exist {
+		return client.addReplyInt(0)
+	}
+
 	when := time.Now().UnixMilli() + expireInt*1000
 	client.db.Expire.Set(key, when)
 	client.srv.dirty++
@@ -44,12 +53,30 @@ func expireAtCommand(client *Client) error {
 		return client.addReplyErrorf("invalid expire: %s", client.args[2])
 	}
 
+	exist, err := keyExists(client, key)
+	if err != nil {
+		return client.addReplyError(err.Error())
+	}
+
+	if !exist {
+		return client.addReplyInt(0)
+	}
+
 	client.db.Expire.Set(key, expireInt*1000)
 	client.srv.dirty++
 
 	return client.addReplyOK()
 }
 
+// keyExists returns whether the key exists and has not expired.
+func keyExists(client *Client, key string) (bool, error) {
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return false, err
+	}
+
+	return client.db.Dict.Find(key) != nil, nil
+}
+
 func ttlCommand(client *Client) error {
 	key := client.args[1]
 
-- 
2.43.0


From f6c0ee7313a719de813ae65e01aba1e9d3ee9dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 31/44] fix: expirations must be persisted as deletions in the
 aof

---
 server/aof.go        |  6 ++++++
 server/command.go    | 21 +++++++++++++++++++--
 server/commandkey.go | 19 +++++++++++++++++++
 server/server.go     |  4 ++--
 4 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index 2ef16bd..836e27d 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -156,6 +156,9 @@ func loadAppendOnlyFile(srv *Server) {
 	fakeClient := NewClient(srv, -1)
 	defer fakeClient.free()
 
+	srv.loading = true
+	defer func() { srv.loading = false }()
+
 	reader := bufio.NewReaderSize(aofFile, MaxInlineSize)
 	for {
 		buf, err := readLine(reader)
@@ -378,6 +381,9 @@ func rewriteZsetObject(file *os.File, key string, value *datastruct.Zset) error
 func aofRewriteDoneCallback(srv *Server) {
 	defer srv.backgroundTaskTypeAtomic.Store(uint32(TypeBackgroundTaskNone))
 
+	// the commands in the AOF buffer are in the AOF rewrite buffer as well
+	flushAppendOnlyFile(srv)
+
 	if srv.aofFile != nil {
 		srv.aofFile.Close()
 	}
diff --git a/server/command.go b/server/command.go
index 207fddb..72d8b8c 100644
--- a/server/command.go
+++ b/server/command.go
@@ -4,6 +4,7 @@ import (
 	"strings"
 	"time"
 
+	"github.com/IfanTsai/metis/database"
 	"github.com/pkg/errors"
 )
 
@@ -30,6 +31,7 @@ var commandTable = []command{
 	{"expireat", expireAtCommand, 3},
 	{"ttl", ttlCommand, 2},
 	{"keys", keysCommand, 2},
+	{"del", delCommand, -2},
 	// string
 	{"set", setCommand, -3},
 	{"setex", setExCommand, 4},
@@ -74,6 +76,11 @@ var commandTable = []command{
 }
 
 func expireIfNeeded(client *Client, key string) (bool, error) {
+	// keys do not expire while the AOF file is loaded, it contains their deletions
+	if client.srv.loading {
+		return false, nil
+	}
+
 	expireObj := client.db.Expire.Find(key)
 	if expireObj != nil {
 		when, ok := expireObj.Value.(int64)
@@ -82,8 +89,7 @@ func expireIfNeeded(client *Client, key string) (bool, error) {
 		}
 
 		if when < time.Now().UnixMilli() {
-			_ = client.db.Dict.Delete(key)
-			_ = client.db.Expire.Delete(key)
+			deleteExpiredKey(client.srv, client.db, key)
 
 			return true, nil
 		}
@@ -92,6 +98,17 @@ func expireIfNeeded(client *Client, key string) (bool, error) {
 	return false, nil
 }
 
+// deleteExpiredKey deletes the expired key and propagates the deletion to the AOF file,
+// so that the commands after it are replayed on the same dataset.
+func deleteExpiredKey(srv *Server, db *database.Databse, key string) {
+	_ = db.Dict.Delete(key)
+	_ = db.Expire.Delete(key)
+
+	if srv.aofEnable {
+		feedAppendOnlyFile(srv, &command{name: "del"}, db.ID, []string{"del", key})
+	}
+}
+
 func lookupCommand(name string) *command {
 	for _, cmd := range commandTable {
 		if cmd.name == name {
diff --git a/server/commandkey.go b/server/commandkey.go
index e594d2e..e199192 100644
--- a/server/commandkey.go
+++ b/server/commandkey.go
@@ -77,6 +77,25 @@ func keyExists(client *Client, key string) (bool, error) {
 	return client.db.Dict.Find(key) != nil, nil
 }
 
+func delCommand(client *Client) error {
+	var deleted int64
+	for _, key := range client.args[1:] {
+		exist, err := keyExists(client, key)
+		if err != nil {
+			return client.addReplyError(err.Error())
+		}
+
+		if exist {
+			_ = client.db.Dict.Delete(key)
+			_ = client.db.Expire.Delete(key)
+			deleted++
+			client.srv.dirty++
+		}
+	}
+
+	return client.addReplyInt(deleted)
+}
+
 func ttlCommand(client *Client) error {
 	key := client.args[1]
 
diff --git a/server/server.go b/server/server.go
index 03d4f50..e5dbd05 100644
--- a/server/server.go
+++ b/server/server.go
@@ -42,6 +42,7 @@ type Server struct {
 	dbs             []*database.Databse
 	requirePassword string
 	dirty           int64 // changes to DB from the last save
+	loading         bool  // the AOF file is being loaded
 
 	backgroundTaskTypeAtomic atomic.Uint32
 
@@ -288,8 +289,7 @@ func databasesCron(srv *Server) {
 			}
 
 			if when < time.Now().UnixMilli() {
-				db.Dict.Delete(entry.Key)
-				db.Expire.Delete(entry.Key)
+				deleteExpiredKey(srv, db, entry.Key.(string))
 			}
 		}
 	}
-- 
2.43.0


From bae10c9ba31e85056eb18d745207da7c3f2532ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 32/44] fix: pipelined commands must not be dropped

---
 server/client.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/server/client.go b/server/client.go
index 5fe2f58..f080d65 100644
--- a/server/client.go
+++ b/server/client.go
@@ -198,9 +198,8 @@ func (c *Client) free() {
 
 }
 
+// reset gets ready for the next command, which may already be in the query buffer.
 func (c *Client) reset() {
-	c.queryBuf = nil
-	c.queryLen = 0
 	c.cmdType = CommandTypeUnknown
 	c.args = nil
 	c.multiBulkLen = 0
-- 
2.43.0


From bc70807ef706508b68ef2cd26788108df67302a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:05 +0000
Subject: [PATCH 33/44] fix: empty strings in a request must not crash the
 server

---
 server/client.go | 3 +--
 server/resp.go   | 7 +++----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/server/client.go b/server/client.go
index f080d65..0a31f29 100644
--- a/server/client.go
+++ b/server/client.go
@@ -7,7 +7,6 @@ import (
 	"strconv"
 	"strings"
 
-	"github.com/IfanTsai/go-lib/utils/byteutils"
 	"github.com/IfanTsai/metis/ae"
 	"github.com/IfanTsai/metis/database"
 	"github.com/IfanTsai/metis/datastruct"
@@ -54,7 +53,7 @@ func (c *Client) getCRLFIndexFromQueryBuffer() int {
 }
 
 func (c *Client) getNumFromQueryBuffer(indexCRLF int) (int, error) {
-	return strconv.Atoi(byteutils.B2S(c.queryBuf[1:indexCRLF]))
+	return strconv.Atoi(string(c.queryBuf[1:indexCRLF]))
 }
 
 func (c *Client) moveToNextLineInQueryBuffer(indexCRLF int) {
diff --git a/server/resp.go b/server/resp.go
index c781c6f..933a218 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -3,7 +3,6 @@ package server
 import (
 	"strings"
 
-	"github.com/IfanTsai/go-lib/utils/byteutils"
 	"github.com/pkg/errors"
 )
 
@@ -67,7 +66,7 @@ func processInlineBuffer(client *Client) (bool, error) {
 		return false, nil
 	}
 
-	subs := strings.Split(byteutils.B2S(client.queryBuf[1:index]), " ")
+	subs := strings.Split(string(client.queryBuf[1:index]), " ")
 	client.args = make([]string, len(subs))
 	copy(client.args, subs)
 
@@ -105,7 +104,7 @@ func processBulkBuffer(client *Client) (bool, error) {
 		return false, nil
 	}
 
-	client.args = append(client.args, byteutils.B2S(client.queryBuf[0:client.bulkLen]))
+	client.args = append(client.args, string(client.queryBuf[0:client.bulkLen]))
 	client.moveToNextLineInQueryBuffer(client.bulkLen)
 
 	client.bulkLen = 0
@@ -172,7 +171,7 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 			return false, errors.New("expected CRLF for end of bulk string")
 		}
 
-		client.args[len(client.args)-client.multiBulkLen] = byteutils.B2S(client.queryBuf[:index])
+		client.args[len(client.args)-client.multiBulkLen] = string(client.queryBuf[:index])
 		client.bulkLen = 0
 		client.multiBulkLen--
 
-- 
2.43.0


From af5a20de49467b63a2c1e7954cd981f06db2854f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:06 +0000
Subject: [PATCH 34/44] fix: a blank request line must not crash the server

---
 server/resp.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/resp.go b/server/resp.go
index 933a218..5ba41a7 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -66,6 +66,13 @@ func processInlineBuffer(client *Client) (bool, error) {
 		return false, nil
 	}
 
+	// ignore blank lines
+	if index == 0 {
+		client.moveToNextLineInQueryBuffer(index)
+
+		return true, nil
+	}
+
 	subs := strings.Split(string(client.queryBuf[1:index]), " ")
 	client.args = make([]string, len(subs))
 	copy(client.args, subs)
-- 
2.43.0


From 56ec743276169f4ac4d329231646738dd3671459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:07 +0000
Subject: [PATCH 35/44] fix: the first letter of an inline command must not be
 dropped

---
 server/resp.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/server/resp.go b/server/resp.go
index 5ba41a7..5086d14 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -73,7 +73,13 @@ func processInlineBuffer(client *Client) (bool, error) {
 		return true, nil
 	}
 
-	subs := strings.Split(string(client.queryBuf[1:index]), " ")
+	// a line may have the type prefix of a simple string or an error
+	start := 0
+	if client.queryBuf[0] == '+' || client.queryBuf[0] == '-' {
+		start = 1
+	}
+
+	subs := strings.Split(string(client.queryBuf[start:index]), " ")
 	client.args = make([]string, len(subs))
 	copy(client.args, subs)
 
-- 
2.43.0


From 2133cbcfd842da5d31d33898cc981d858495020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:08 +0000
Subject: [PATCH 36/44] fix: negative or huge lengths in a request must not
 crash the server

---
 server/resp.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/server/resp.go b/server/resp.go
index 5086d14..ce32fec 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -6,7 +6,12 @@ import (
 	"github.com/pkg/errors"
 )
 
-const MaxInlineSize = 1024 * 64
+const (
+	MaxInlineSize = 1024 * 64
+
+	maxBulkLen      = 512 * 1024 * 1024
+	maxMultiBulkLen = 1024 * 1024
+)
 
 // https://redis.io/docs/reference/protocol-spec/
 func processInputBuffer(client *Client) error {
@@ -106,6 +111,10 @@ func processBulkBuffer(client *Client) (bool, error) {
 
 		client.moveToNextLineInQueryBuffer(index)
 
+		if num < 0 || num > maxBulkLen {
+			return false, errors.New("invalid bulk length")
+		}
+
 		if num == 0 {
 			return true, nil
 		}
@@ -143,7 +152,11 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 
 		client.moveToNextLineInQueryBuffer(index)
 
-		if num == 0 {
+		if num > maxMultiBulkLen {
+			return false, errors.New("invalid multi bulk length")
+		}
+
+		if num <= 0 {
 			return true, nil
 		}
 
@@ -171,6 +184,10 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 				return false, errors.Wrap(err, "failed to get multi bulk length")
 			}
 
+			if num < 0 || num > maxBulkLen {
+				return false, errors.New("invalid bulk length")
+			}
+
 			client.bulkLen = num
 			client.moveToNextLineInQueryBuffer(index)
 		}
-- 
2.43.0


From 7fdb425e2ff63fdff97c4ba659c58f98dec7f7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:08 +0000
Subject: [PATCH 37/44] fix: a bulk string must be complete with its CRLF
 before it is parsed

---
 server/resp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/resp.go b/server/resp.go
index ce32fec..448aed9 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -192,7 +192,7 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 			client.moveToNextLineInQueryBuffer(index)
 		}
 
-		if client.queryLen < client.bulkLen {
+		if client.queryLen < client.bulkLen+2 {
 			return false, nil
 		}
 
-- 
2.43.0


From 7c31ad5dc5412cf5bf505699a9fa564b7eaaff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:09 +0000
Subject: [PATCH 38/44] fix: an empty bulk string must not be taken as a
 missing header

---
 server/client.go | 6 +++++-
 server/resp.go   | 8 ++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/server/client.go b/server/client.go
index 0a31f29..e81f32e 100644
--- a/server/client.go
+++ b/server/client.go
@@ -23,6 +23,9 @@ const (
 	CommandTypeMultiBulk
 )
 
+// bulkLenUnknown is the length of a bulk string whose header is not parsed yet.
+const bulkLenUnknown = -1
+
 type Client struct {
 	srv           *Server
 	db            *database.Databse
@@ -44,6 +47,7 @@ func NewClient(srv *Server, fd socket.FD) *Client {
 		db:         srv.dbs[0],
 		fd:         fd,
 		queryBuf:   make([]byte, maxBulk),
+		bulkLen:    bulkLenUnknown,
 		replayHead: list.New(),
 	}
 }
@@ -202,5 +206,5 @@ func (c *Client) reset() {
 	c.cmdType = CommandTypeUnknown
 	c.args = nil
 	c.multiBulkLen = 0
-	c.bulkLen = 0
+	c.bulkLen = bulkLenUnknown
 }
diff --git a/server/resp.go b/server/resp.go
index 448aed9..a6b2f55 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -94,7 +94,7 @@ func processInlineBuffer(client *Client) (bool, error) {
 }
 
 func processBulkBuffer(client *Client) (bool, error) {
-	if client.bulkLen == 0 {
+	if client.bulkLen == bulkLenUnknown {
 		index := client.getCRLFIndexFromQueryBuffer()
 		if index == -1 {
 			if client.queryLen > MaxInlineSize {
@@ -129,7 +129,7 @@ func processBulkBuffer(client *Client) (bool, error) {
 	client.args = append(client.args, string(client.queryBuf[0:client.bulkLen]))
 	client.moveToNextLineInQueryBuffer(client.bulkLen)
 
-	client.bulkLen = 0
+	client.bulkLen = bulkLenUnknown
 
 	return true, nil
 }
@@ -165,7 +165,7 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 	}
 
 	for client.multiBulkLen > 0 {
-		if client.bulkLen == 0 {
+		if client.bulkLen == bulkLenUnknown {
 			index := client.getCRLFIndexFromQueryBuffer()
 			if index == -1 {
 				if client.queryLen > MaxInlineSize {
@@ -202,7 +202,7 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 		}
 
 		client.args[len(client.args)-client.multiBulkLen] = string(client.queryBuf[:index])
-		client.bulkLen = 0
+		client.bulkLen = bulkLenUnknown
 		client.multiBulkLen--
 
 		client.moveToNextLineInQueryBuffer(index)
-- 
2.43.0


From 4ee030e00bfc6ac49e53d6e8126e7340e17c9553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:54 +0000
Subject: [PATCH 39/44] fix: score ranges with NaN bounds must be rejected

---
 server/commandzset.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/server/commandzset.go b/server/commandzset.go
index cbf3dbf..f2a987f 100644
--- a/server/commandzset.go
+++ b/server/commandzset.go
@@ -100,6 +100,10 @@ func zCountCommand(client *Client) error {
 		return client.addReplyErrorf("invalid max: %s, error: %v", client.args[3], err)
 	}
 
+	if math.IsNaN(min) || math.IsNaN(max) {
+		return client.addReplyError("min or max is not a number")
+	}
+
 	zset, err := getZsetIfExist(client, key)
 	if err != nil {
 		if errors.Is(err, errNotExist) {
@@ -154,6 +158,10 @@ func zRangeByScoreCommand(client *Client) error {
 		return client.addReplyErrorf("invalid start: %s, error: %v", client.args[3], err)
 	}
 
+	if math.IsNaN(min) || math.IsNaN(max) {
+		return client.addReplyError("min or max is not a number")
+	}
+
 	zset, err := getZsetIfExist(client, key)
 	if err != nil {
 		if errors.Is(err, errNotExist) {
@@ -232,6 +240,10 @@ func zRemRangeByScoreCommand(client *Client) error {
 		return client.addReplyErrorf("invalid start: %s, error: %v", client.args[3], err)
 	}
 
+	if math.IsNaN(min) || math.IsNaN(max) {
+		return client.addReplyError("min or max is not a number")
+	}
+
 	zset, err := getZsetIfExist(client, key)
 	if err != nil {
 		if errors.Is(err, errNotExist) {
-- 
2.43.0


From 523f2f4e99c51b19d4a4d5c3fe4095db39090a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 40/44] fix: the rewritten ZADD must give the score before the
 member

---
 server/aof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/aof.go b/server/aof.go
index 836e27d..efbbe90 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -363,7 +363,7 @@ func rewriteZsetObject(file *os.File, key string, value *datastruct.Zset) error
 	items := make([]string, 0, value.Size())
 
 	for _, item := range value.RangeByRank(0, value.Size()-1, false) {
-		items = append(items, item.Member, strconv.FormatFloat(item.Score, 'f', -1, 64))
+		items = append(items, strconv.FormatFloat(item.Score, 'f', -1, 64), item.Member)
 	}
 
 	itemsChunks := lo.Chunk(items, AofRewriteItemsPerCommand*2)
-- 
2.43.0


From 1ac0e49e4fe737c477b3eeda4853fe9a042679e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 41/44] fix: a rewrite must keep emptied values

---
 server/aof.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/server/aof.go b/server/aof.go
index efbbe90..179b237 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -294,6 +294,12 @@ func rewriteAppendOnlyFile(dbs []*database.Databse, srv *Server) {
 	srv.aofRewriteDoneCh <- tmpFile.Name()
 }
 
+// catAppendOnlyEmptyObject is used to create the string representation of an emptied object.
+// There is no command to create one, so an element is added and removed again.
+func catAppendOnlyEmptyObject(add, remove []string) string {
+	return catAppendOnlyGenericCommand(add) + catAppendOnlyGenericCommand(remove)
+}
+
 func rewriteStringObject(file *os.File, key string, value string) error {
 	aofStr := catAppendOnlyGenericCommand([]string{"set", key, value})
 	if _, err := file.WriteString(aofStr); err != nil {
@@ -311,6 +317,13 @@ func rewriteListObject(file *os.File, key string, value *datastruct.Quicklist) e
 		items = append(items, element.(string))
 	}
 
+	if len(items) == 0 {
+		aofStr := catAppendOnlyEmptyObject([]string{"rpush", key, ""}, []string{"lpop", key})
+		if _, err := file.WriteString(aofStr); err != nil {
+			return errors.Wrapf(err, "failed to write qucik list to AOF file, key: %s", key)
+		}
+	}
+
 	itemsChunks := lo.Chunk(items, AofRewriteItemsPerCommand)
 	for _, chunk := range itemsChunks {
 		aofStr := catAppendOnlyGenericCommand(append([]string{"rpush", key}, chunk...))
@@ -332,6 +345,13 @@ func rewriteHashObject(file *os.File, key string, value *datastruct.Dict) error
 		items = append(items, entry.Key.(string), entry.Value.(string))
 	}
 
+	if len(items) == 0 {
+		aofStr := catAppendOnlyEmptyObject([]string{"hset", key, "", ""}, []string{"hdel", key, ""})
+		if _, err := file.WriteString(aofStr); err != nil {
+			return errors.Wrapf(err, "failed to write hash to AOF file, key: %s", key)
+		}
+	}
+
 	itemsChunks := lo.Chunk(items, AofRewriteItemsPerCommand*2)
 	for _, chunk := range itemsChunks {
 		aofStr := catAppendOnlyGenericCommand(append([]string{"hset", key}, chunk...))
@@ -348,6 +368,13 @@ func rewriteSetObject(file *os.File, key string, value *datastruct.Set) error {
 		return item.(string)
 	})
 
+	if len(items) == 0 {
+		aofStr := catAppendOnlyEmptyObject([]string{"sadd", key, ""}, []string{"srem", key, ""})
+		if _, err := file.WriteString(aofStr); err != nil {
+			return errors.Wrapf(err, "failed to write set to AOF file, key: %s", key)
+		}
+	}
+
 	itemsChunks := lo.Chunk(items, AofRewriteItemsPerCommand)
 	for _, chunk := range itemsChunks {
 		aofStr := catAppendOnlyGenericCommand(append([]string{"sadd", key}, chunk...))
@@ -366,6 +393,13 @@ func rewriteZsetObject(file *os.File, key string, value *datastruct.Zset) error
 		items = append(items, strconv.FormatFloat(item.Score, 'f', -1, 64), item.Member)
 	}
 
+	if len(items) == 0 {
+		aofStr := catAppendOnlyEmptyObject([]string{"zadd", key, "0", ""}, []string{"zrem", key, ""})
+		if _, err := file.WriteString(aofStr); err != nil {
+			return errors.Wrapf(err, "failed to write zset to AOF file, key: %s", key)
+		}
+	}
+
 	itemsChunks := lo.Chunk(items, AofRewriteItemsPerCommand*2)
 	for _, chunk := range itemsChunks {
 		aofStr := catAppendOnlyGenericCommand(append([]string{"zadd", key}, chunk...))
-- 
2.43.0


From 41baed548dc6c65367b4f433d49546c1a699f13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 42/44] fix: a time event removed by an earlier time event of
 the same round must not run

---
 ae/ae.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/ae/ae.go b/ae/ae.go
index 72469f2..dd1acd4 100644
--- a/ae/ae.go
+++ b/ae/ae.go
@@ -188,8 +188,18 @@ func (el *EventLoop) Stop() {
 // processEvents processes time events and file events
 func (el *EventLoop) processEvents(timeEvents []*TimeEvent, fileEvents []*FileEvent) error {
 	for _, te := range timeEvents {
+		// the event may have been removed by the events processed before it
+		if !el.hasTimeEvent(te) {
+			continue
+		}
+
 		te.proc(el, te.id, te.clientData)
 
+		// the event may have been removed by itself
+		if !el.hasTimeEvent(te) {
+			continue
+		}
+
 		if te.mask == TypeTimeEventOnce {
 			if err := el.RemoveTimeEvent(te.id); err != nil {
 				return errors.Wrapf(err, "failed to remove time event: %v", te)
@@ -265,6 +275,17 @@ func (el *EventLoop) getNearestTime(defaultNearestDelta int64) int64 {
 	return nearest
 }
 
+// hasTimeEvent returns whether the time event is registered
+func (el *EventLoop) hasTimeEvent(te *TimeEvent) bool {
+	for e := el.timeEventHead.Front(); e != nil; e = e.Next() {
+		if e.Value.(*TimeEvent) == te {
+			return true
+		}
+	}
+
+	return false
+}
+
 // getEpollEventMask returns current epoll event mask
 func (el *EventLoop) getEpollEventMask(fd socket.FD) uint32 {
 	var mask uint32
-- 
2.43.0


From d57309ef85d0fd60bfa30d89fcf66966a4815649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 43/44] fix: reject a bulk string request whose content does
 not end with CRLF

---
 server/resp.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/server/resp.go b/server/resp.go
index a6b2f55..ba55751 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -126,8 +126,13 @@ func processBulkBuffer(client *Client) (bool, error) {
 		return false, nil
 	}
 
-	client.args = append(client.args, string(client.queryBuf[0:client.bulkLen]))
-	client.moveToNextLineInQueryBuffer(client.bulkLen)
+	index := client.bulkLen
+	if client.queryBuf[index] != '\r' || client.queryBuf[index+1] != '\n' {
+		return false, errors.New("expected CRLF for end of bulk string")
+	}
+
+	client.args = append(client.args, string(client.queryBuf[0:index]))
+	client.moveToNextLineInQueryBuffer(index)
 
 	client.bulkLen = bulkLenUnknown
 
-- 
2.43.0


From 728e00e3cc6afafb0ad72211526de443541b59cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:47 +0000
Subject: [PATCH 44/44] fix: SUNION with a missing first key is the union of
 the others

---
 server/commandset.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/commandset.go b/server/commandset.go
index 6a32403..d5fcbb3 100644
--- a/server/commandset.go
+++ b/server/commandset.go
@@ -182,11 +182,11 @@ func sInterCommand(client *Client) error {
 func sUnionCommand(client *Client) error {
 	set, err := getSetIfExist(client, client.args[1])
 	if err != nil {
-		if errors.Is(err, errNotExist) {
-			return client.addReplyEmpty()
+		if !errors.Is(err, errNotExist) {
+			return client.addReplyError(err.Error())
 		}
 
-		return client.addReplyError(err.Error())
+		set = datastruct.NewSet(&database.DictType{})
 	}
 
 	for i := 2; i < len(client.args); i++ {
-- 
2.43.0


From 5f95185befbbc8b548d64382f221b44769ebee8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:23 +0000
Subject: [PATCH 1/6] fix: start the best-first bucket walk at the last element
 (getQueue indexed past the end)

---
 SmartCache/sim/cache/queue/genericF.go | 2 +-
 SmartCache/sim/cache/queue/lfu.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/SmartCache/sim/cache/queue/genericF.go b/SmartCache/sim/cache/queue/genericF.go
index a63efba..7d75347 100644
--- a/SmartCache/sim/cache/queue/genericF.go
+++ b/SmartCache/sim/cache/queue/genericF.go
@@ -48,7 +48,7 @@ func (q *QueueBaseFloat) getQueue() []*files.Stats {
 
 	for idxOVal := len(q.orderedValues) - 1; idxOVal > -1; idxOVal-- {
 		curQueue := q.queue[q.orderedValues[idxOVal]]
-		for idx := len(curQueue); idx > -1; idx-- {
+		for idx := len(curQueue) - 1; idx > -1; idx-- {
 			filename := curQueue[idx]
 			fileStats, inQueue := q.files[filename]
 
diff --git a/SmartCache/sim/cache/queue/lfu.go b/SmartCache/sim/cache/queue/lfu.go
index b07ae31..f78adfe 100644
--- a/SmartCache/sim/cache/queue/lfu.go
+++ b/SmartCache/sim/cache/queue/lfu.go
@@ -45,7 +45,7 @@ func (q *LFU) getQueue() []*files.Stats {
 
 	for idxOVal := len(q.orderedValues) - 1; idxOVal > -1; idxOVal-- {
 		curQueue := q.queue[q.orderedValues[idxOVal]]
-		for idx := len(curQueue); idx > -1; idx-- {
+		for idx := len(curQueue) - 1; idx > -1; idx-- {
 			filename := curQueue[idx]
 			fileStats, inQueue := q.files[filename]
 
-- 
2.43.0


From 0cf43a49bebd4cb2dffac0b54c676611e6c8c9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:53 +0000
Subject: [PATCH 2/6] fix: keep the sum of the weights when only the cache
 files are cleared

ClearFiles keeps the statistics, weights included, but Manager.Clear reset
the sum of the weights to zero: the mean the admission is compared to was
then wrong (even negative) until every known file had been forgotten.
---
 SmartCache/sim/cache/files/stats.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/SmartCache/sim/cache/files/stats.go b/SmartCache/sim/cache/files/stats.go
index 2d4f0eb..14028f9 100644
--- a/SmartCache/sim/cache/files/stats.go
+++ b/SmartCache/sim/cache/files/stats.go
@@ -70,10 +70,13 @@ func (s *Manager) GetTotDeletedFileMiss() int {
 
 // Clear Stats after load
 func (s *Manager) Clear() {
+	// the records keep their weights, so the sum restarts from them
+	s.weightSum = 0.0
+
 	for _, fileStats := range s.Data {
 		fileStats.Recency = 0
+		s.weightSum += fileStats.Weight
 	}
-	s.weightSum = 0.0
 }
 
 // Dirty indicates if the stats needs a purge
-- 
2.43.0


From fbcfb82a52531cc37a6aa075bea2f63e7d7a212c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:00 +0000
Subject: [PATCH 3/6] fix: keep the initialised queue in the dataset verifier
 cache

Init replaced the queue set up by SimpleCache.Init with a zero LRU, whose
maps are nil: the first admission panicked.
---
 SmartCache/sim/cache/lruDatasetVerifier.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/SmartCache/sim/cache/lruDatasetVerifier.go b/SmartCache/sim/cache/lruDatasetVerifier.go
index eb19b2c..67b149d 100644
--- a/SmartCache/sim/cache/lruDatasetVerifier.go
+++ b/SmartCache/sim/cache/lruDatasetVerifier.go
@@ -26,7 +26,6 @@ func (cache *LRUDatasetVerifier) Init(param InitParameters) interface{} {
 	param.QueueType = queue.LRUQueue
 	cache.SimpleCache.Init(param)
 
-	cache.files = &queue.LRU{}
 	cache.stats.Data = make(map[int64]*files.Stats)
 
 	cache.datasetFileMap = make(map[int64]bool)
-- 
2.43.0


From fffcc079d62f181c4d74daa9276943ab517a4453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:28 +0000
Subject: [PATCH 4/6] fix: read the job exit code of every record, so the
 success filter sees it

---
 SmartCache/sim/cache/simulation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SmartCache/sim/cache/simulation.go b/SmartCache/sim/cache/simulation.go
index cf3909c..9e087df 100644
--- a/SmartCache/sim/cache/simulation.go
+++ b/SmartCache/sim/cache/simulation.go
@@ -128,6 +128,7 @@ func recordGenerator(csvReader *csv.Reader, curFile *os.File, headerMap []int) c
 			taskMonitorID, _ := strconv.ParseInt(record[headerMap[4]], 10, 64)
 			jobID, _ := strconv.ParseInt(record[headerMap[5]], 10, 64)
 			protocol, _ := strconv.ParseInt(record[headerMap[6]], 10, 64)
+			jobExecExitCode, _ := strconv.ParseInt(record[headerMap[7]], 10, 64)
 			size, _ := strconv.ParseFloat(record[headerMap[13]], 64)
 			dataType, _ := strconv.ParseInt(record[headerMap[14]], 10, 64)
 			fileType, _ := strconv.ParseInt(record[headerMap[15]], 10, 64)
@@ -164,6 +165,8 @@ func recordGenerator(csvReader *csv.Reader, curFile *os.File, headerMap []int) c
 				SizeM:         sizeInMegabytes,
 				Campaign:      campaign,
 				Process:       process,
+
+				JobExecExitCode: jobExecExitCode,
 			}
 
 			// fmt.Println(curRecord)
-- 
2.43.0


From 9771ea140bdbfad1ce77b07b50849c1dbf8c6e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:17 +0000
Subject: [PATCH 5/6] fix: read the plain csv files of a folder, not only the
 compressed ones

---
 SmartCache/sim/cache/simulation.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/SmartCache/sim/cache/simulation.go b/SmartCache/sim/cache/simulation.go
index 9e087df..f46f48c 100644
--- a/SmartCache/sim/cache/simulation.go
+++ b/SmartCache/sim/cache/simulation.go
@@ -259,8 +259,7 @@ func OpenSimFolder(dirPath *os.File) chan CSVRecord {
 		for _, name := range fileList {
 			fileExt := path.Ext(name)
 			switch fileExt {
-			case ".csv":
-			case ".gz":
+			case ".csv", ".gz":
 				for record := range OpenSimFile(name) {
 					channel <- record
 				}
-- 
2.43.0


From 3191801989a8bcacd176638967a603c68ce08a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:54 +0000
Subject: [PATCH 6/6] fix: SimCache.Insert never returned for a file larger
 than the cache

---
 qLearning_smartCache/cache/cache.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qLearning_smartCache/cache/cache.go b/qLearning_smartCache/cache/cache.go
index bff1fe8..5786a09 100644
--- a/qLearning_smartCache/cache/cache.go
+++ b/qLearning_smartCache/cache/cache.go
@@ -83,6 +83,11 @@ func (cache SimCache) GetPoints() float64 {
 // Insert add a file into the cache. If there is no space left, it starts to
 // remove the files with less value and then adds it when there is space
 func (cache *SimCache) Insert(fileName string, size float64) {
+	if size > cache.MaxSize {
+		// it cannot fit, not even in the empty cache
+		return
+	}
+
 	if cache.GetSize()+size > cache.MaxSize {
 		for {
 			fileName, _ := cache.GetMinValue()
-- 
2.43.0


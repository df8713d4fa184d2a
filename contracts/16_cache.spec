area sim
// The caches on top of the queue and the per-file statistics.
owned cache.SimpleCache.dailyfreeSpace
def CQ(c) = c.files
def CM(c) = typed(c, *files.Manager)
def Held(c, x) = QF(c.files)[x] != 0
def CSZ() = fieldmap(files.Stats.Size)

// the parts are separate objects
def CacheSep(c) = ref(c) > 0 && ref(c) < alloc() && ref(c.files) > 0 && ref(c.files) < alloc() && tag(c.files) > 0 && ref(c.files) != ref(c)
def RecSep(c) = all(x, int, imp(in(x, c.stats.Data), ref(c.stats.Data[x]) != ref(c) && ref(c.stats.Data[x]) != ref(c.files)), pat(c.stats.Data[x]), pat(in(x, c.stats.Data)))
// every held file has its record in the statistics; sizes add up
def CacheOK(c) = CacheSep(c) && QOK(c.files) && QMem(c.files) && imp(QORD(c.files), QSeq(c.files)) && QKind(c.files) && MgrOK(CM(c)) && fin(QF(c.files)) &&
   RecSep(c) &&
   all(x, int, imp(Held(c, x), in(x, c.stats.Data) && ref(c.stats.Data[x]) == QF(c.files)[x] && c.stats.Data[x].Size >= 0), pat(QF(c.files)[x]), pat(c.stats.Data[x]))
def Occ(c) = c.size == ssum(QF(c.files), CSZ())

// the counters agree with each other
def CountsOK(c) = real(c.numReq) == c.hit + c.miss && c.dataRead == c.dataReadOnHit + c.dataReadOnMiss && len(c.dailyfreeSpace) == c.numReq && c.hit >= 0 && c.miss >= 0 &&
   real(c.numDailyHit) == c.hit && real(c.numDailyMiss) == c.miss && c.numAdded <= c.numDailyMiss && c.dataWritten <= c.dataReadOnMiss && c.numAdded >= 0 && c.numRedirected >= 0 && c.redirectSize >= 0
def FreeSumOK(c) = c.sumDailyFreeSpace == rsum(row(c.dailyfreeSpace), off(c.dailyfreeSpace), len(c.dailyfreeSpace))

template free
  requires CacheOK(cache)
  ensures CacheOK(cache)
  let F: QF(cache.files)
  let P: QP(cache.files)
  let N: QN(cache.files)
  let want: ite(percentage, amount * (cache.MaxSize / 100), amount)
  requires occ[OCC]: Occ(cache)
  ensures occ[OCC]: Occ(cache)
  ensures nonneg[OCC]: cache.size >= 0
  hint ssumNonneg(QF(cache.files), CSZ())
  hint ssumEmpty(QF(cache.files), CSZ())
  ensures empty[OCC]: imp(QN(cache.files) == 0, cache.size == 0)
  ensures freed[C04]: res == old(cache.size) - cache.size && cache.dataDeleted == old(cache.dataDeleted) + res
  ensures count[C04,C09,C11,C12,C13,C16]: cache.numDeleted == old(cache.numDeleted) + (N - QN(cache.files))
  ensures subset: all(x, int, QF(cache.files)[x] == 0 || QF(cache.files)[x] == F[x], pat(QF(cache.files)[x]))
  ensures worst[C04,C09]: imp(QORD(cache.files), all(x, int, QF(cache.files)[x] == ite(F[x] != 0 && P[x] < N - QN(cache.files), 0, F[x]), pat(QF(cache.files)[x])))
  ensures enough[OCC]: QN(cache.files) == 0 || cache.size <= old(cache.size) - want
  ensures shortest[C04,C09]: imp(QN(cache.files) < N && QORD(cache.files), psum(old(QW(cache.files)), F, CSZ(), N - QN(cache.files) - 1) < want)
  ensures noop[QUIET]: imp(want <= 0, QN(cache.files) == N && same(QF(cache.files)))
  ensures same(QORD(cache.files), QLRU(cache.files), QDESC(cache.files), QWEI(cache.files))
  ensures order[C04,Q02,Q03]: imp(QORD(cache.files), all(x, int, imp(Held(cache, x), QP(cache.files)[x] == P[x] - (N - QN(cache.files))), pat(QP(cache.files)[x])))
  ensures keys[C04,Q03]: same(QK(cache.files))
  ensures evictedSet[C16]: all(x, int, in(x, cache.stats.deletedFileMiss) == (F[x] != 0 && QF(cache.files)[x] == 0), pat(in(x, cache.stats.deletedFileMiss)))
  ensures misses[C16]: MissTot(CM(cache)) == old(MissTot(CM(cache)))
  modifies obj(cache.files), owned(cache.files), field(cache.size), field(cache.dataDeleted), field(cache.numDeleted), field(CM(cache).deletedFileMiss), field(CM(cache).deletedFilesMissLastCount)

func cache.(*SimpleCache).Free(cache, amount, percentage) -> (res)
  use free
  loop 1
  hint evictSum(QW(cache.files), QP(cache.files), QF(cache.files), CSZ(), K, K)
  inv K <= QN(cache.files)
  inv len(S0) == K && fresh(arr(S0)) && allocated(arr(S0)) && owner(arr(S0)) == 0 && off(S0) == 0
  inv forall(i, 0, K, S0[i] == QW(cache.files)[i], pat(QW(cache.files)[i]), pat(S0[i]))
  inv all(x, int, imp(QF(cache.files)[x] != 0 && 0 <= QP(cache.files)[x] && QP(cache.files)[x] < K, S0[QP(cache.files)[x]] == x), pat(QP(cache.files)[x]))
  inv F0 == psum(QW(cache.files), QF(cache.files), CSZ(), K)
  inv cache.size == pre(cache.size) - F0 && cache.dataDeleted == pre(cache.dataDeleted) + F0 && cache.numDeleted == pre(cache.numDeleted) + K
  inv all(x, int, in(x, cache.stats.deletedFileMiss) == (QF(cache.files)[x] != 0 && 0 <= QP(cache.files)[x] && QP(cache.files)[x] < K), pat(in(x, cache.stats.deletedFileMiss)))
  inv MissTot(CM(cache)) == pre(MissTot(CM(cache)))
  try cache.size == pre(cache.size)
  try cache.dataDeleted == pre(cache.dataDeleted)
  try cache.numDeleted == pre(cache.numDeleted)
  try cache.size == pre(cache.size) - psum(QW(cache.files), QF(cache.files), CSZ(), K)
  try cache.dataDeleted == pre(cache.dataDeleted) + psum(QW(cache.files), QF(cache.files), CSZ(), K)
  try ssum(trunc(QF(cache.files), QP(cache.files), K), CSZ()) == ssum(QF(cache.files), CSZ()) - psum(QW(cache.files), QF(cache.files), CSZ(), K)
  inv ssum(trunc(QF(cache.files), QP(cache.files), K), CSZ()) == ssum(QF(cache.files), CSZ()) - F0

def CRec(c, x) = typed(dref(CM(c), x), *files.Stats)

// what is recorded before the decision; stats is the template of every cache
template before
  requires ref(request) > 0
  requires CacheOK(cache)
  requires hit == Held(cache, request.Filename)
  requires size: request.Size >= 0 && imp(hit, cache.stats.Data[request.Filename].Size == request.Size)
  ensures CacheOK(cache)
  ensures same: h == hit
  ensures record: ref(stats) > 0 && in(request.Filename, cache.stats.Data) && cache.stats.Data[request.Filename] == stats
  ensures size: stats.Size == request.Size
  ensures sameFiles: same(QN(cache.files), QF(cache.files), QW(cache.files), QP(cache.files), QK(cache.files), QORD(cache.files), QLRU(cache.files), QDESC(cache.files), QWEI(cache.files))
  ensures requests[C05]: cache.numReq == old(cache.numReq) + 1
  ensures occ[OCC]: imp(old(Occ(cache)), Occ(cache))
  ensures first[C15]: stats.StatInsertTime == ite(old(in(request.Filename, cache.stats.Data)), old(cache.stats.Data[request.Filename].StatInsertTime), request.DayTime)
  ensures gap[C15]: stats.Recency == cache.tick && stats.DeltaLastRequest == ite(old(in(request.Filename, cache.stats.Data)), cache.tick - old(cache.stats.Data[request.Filename].Recency), 9223372036854775807)
  ensures others: all(x, int, imp(x != request.Filename, in(x, cache.stats.Data) == old(in(x, cache.stats.Data)) && cache.stats.Data[x] == old(cache.stats.Data[x])), pat(in(x, cache.stats.Data)), pat(cache.stats.Data[x]))
  hint ssumCong(QF(cache.files), old(CSZ()), CSZ())
  modifies map(cache.stats.Data), field(CM(cache).firstUpdateTime), field(CM(cache).lastUpdateTime), field(cache.numReq), obj(CRec(cache, request.Filename)), owned(CRec(cache, request.Filename))

template history
  ensures count[C15]: stats.Frequency == ite(old(in(request.Filename, cache.stats.Data)), old(cache.stats.Data[request.Filename].Frequency), 0) + 1
  ensures hits[C15]: stats.NHits == ite(old(in(request.Filename, cache.stats.Data)), old(cache.stats.Data[request.Filename].NHits), 0) + ite(hit, 1, 0)
  ensures misses[C15]: stats.NMiss == ite(old(in(request.Filename, cache.stats.Data)), old(cache.stats.Data[request.Filename].NMiss), 0) + ite(hit, 0, 1)
  ensures last[C15]: stats.StatLastUpdateTime == request.DayTime && stats.RequestedTimes[rpos(stats.idxLastRequest, 0)] == request.DayTime

func cache.(*SimpleCache).BeforeRequest(cache, request, hit) -> (stats, h)
  use before
  use history

// what a policy update guarantees in every bounded cache
template policy
  requires ref(request) > 0
  requires CacheOK(cache)
  requires occ[OCC]: Occ(cache)
  requires record: ref(fileStats) > 0 && in(request.Filename, cache.stats.Data) && cache.stats.Data[request.Filename] == fileStats
  requires size: fileStats.Size == request.Size && request.Size >= 0
  requires hit == Held(cache, request.Filename)
  ensures CacheOK(cache)
  ensures occ[OCC]: Occ(cache)
  ensures bounded[C02]: imp(old(cache.size) <= cache.MaxSize, cache.size <= cache.MaxSize) && cache.size >= 0
  ensures large[C02]: imp(request.Size > cache.MaxSize, !added)
  ensures held[C03]: imp(added, QF(cache.files)[request.Filename] == ref(fileStats))
  ensures absent[C03]: imp(!added && !hit, QF(cache.files)[request.Filename] == 0)
  ensures miss: imp(added, !hit)
  ensures onHit[QUIET]: imp(hit, !added && same(QF(cache.files), QN(cache.files)))
  ensures others[C04,C16]: all(x, int, imp(x != request.Filename, QF(cache.files)[x] == 0 || QF(cache.files)[x] == old(QF(cache.files))[x]), pat(QF(cache.files)[x]))
  ensures fits[C04,C16]: imp(hit || old(cache.size) + request.Size <= cache.MaxSize, all(x, int, imp(x != request.Filename, QF(cache.files)[x] == old(QF(cache.files))[x]), pat(QF(cache.files)[x])) && same(cache.numDeleted, cache.dataDeleted))
  ensures worst[C04]: imp(QORD(cache.files), all(x, int, imp(x != request.Filename, QF(cache.files)[x] == ite(old(QF(cache.files))[x] != 0 && old(QP(cache.files))[x] < cache.numDeleted - old(cache.numDeleted), 0, old(QF(cache.files))[x])), pat(QF(cache.files)[x])))
  ensures shortest[C04]: imp(QORD(cache.files) && cache.numDeleted > old(cache.numDeleted), psum(old(QW(cache.files)), old(QF(cache.files)), CSZ(), cache.numDeleted - old(cache.numDeleted) - 1) < request.Size)
  ensures deleted[C04]: cache.dataDeleted - old(cache.dataDeleted) == old(cache.size) + ite(added, request.Size, 0) - cache.size
  ensures count[C04,C16]: QN(cache.files) == old(QN(cache.files)) + ite(added, 1, 0) - (cache.numDeleted - old(cache.numDeleted))
  ensures misses[C16]: MissTot(CM(cache)) == old(MissTot(CM(cache)))
  ensures evictedSet[C16]: imp(cache.numDeleted > old(cache.numDeleted), all(x, int, in(x, cache.stats.deletedFileMiss) == (old(QF(cache.files))[x] != 0 && QF(cache.files)[x] == 0), pat(in(x, cache.stats.deletedFileMiss))))
  ensures sameSet[C16]: imp(hit || old(cache.size) + request.Size <= cache.MaxSize, all(x, int, in(x, cache.stats.deletedFileMiss) == old(in(x, cache.stats.deletedFileMiss)), pat(in(x, cache.stats.deletedFileMiss))))
  ensures order[C04,Q02,Q03]: imp(QORD(cache.files), all(x, int, y, int, imp(Held(cache, x) && Held(cache, y) && x != request.Filename && y != request.Filename, (QP(cache.files)[x] < QP(cache.files)[y]) == (old(QP(cache.files))[x] < old(QP(cache.files))[y])), pat(QP(cache.files)[x], QP(cache.files)[y])))
  ensures again[C04,C14,Q02,Q03]: imp(hit && QORD(cache.files), QPlaced(cache.files, request.Filename))
  ensures againSame[C04,C14,Q03]: imp(hit, QF(cache.files)[request.Filename] == ref(fileStats))
  ensures againKey[C04,C14,Q03]: imp(hit && QORD(cache.files) && !QLRU(cache.files), QK(cache.files)[request.Filename] == QKeyOf(cache.files, fileStats))
  ensures first[C04]: imp(added && QORD(cache.files), QPlaced(cache.files, request.Filename))
  ensures firstKey[C04]: imp(added && QORD(cache.files) && !QLRU(cache.files), QK(cache.files)[request.Filename] == QKeyOf(cache.files, fileStats))
  ensures keys[C04,Q03]: all(x, int, imp(Held(cache, x) && x != request.Filename, QK(cache.files)[x] == old(QK(cache.files))[x]), pat(QK(cache.files)[x]))
  ensures same(QORD(cache.files), QLRU(cache.files), QDESC(cache.files), QWEI(cache.files))
  hint ssumNonneg(old(QF(cache.files)), CSZ())
  hint ssumNonneg(QF(cache.files), CSZ())
  modifies obj(cache.files), owned(cache.files), field(cache.size), field(cache.dataDeleted), field(cache.numDeleted), field(CM(cache).deletedFileMiss), field(CM(cache).deletedFilesMissLastCount)

func cache.(*SimpleCache).UpdatePolicy(cache, request, fileStats, hit) -> (added)
  use policy
  ensures admit[C03]: imp(!hit && old(cache.size) <= cache.MaxSize, added == (request.Size <= cache.MaxSize))

// when the cleaning of the statistics is due, and whom it may drop
def CDue(c) = real(c.stats.lastUpdateTime - c.stats.firstUpdateTime) / 3600000000000 / 24 >= c.stats.deltaDaysStep
def CStale(c, r) = real(c.stats.lastUpdateTime - r.StatLastUpdateTime) / 3600000000000 / 24 >= c.stats.maxNumDayDiff

template after
  requires ref(request) > 0
  requires CacheOK(cache)
  ensures CacheOK(cache)
  ensures hits[C05]: cache.hit == old(cache.hit) + ite(hit, 1, 0) && cache.miss == old(cache.miss) + ite(hit, 0, 1)
  ensures read[C05]: cache.dataRead == old(cache.dataRead) + request.Size
  ensures readOn[C05]: cache.dataReadOnHit == old(cache.dataReadOnHit) + ite(hit, request.Size, 0) && cache.dataReadOnMiss == old(cache.dataReadOnMiss) + ite(hit, 0, request.Size)
  ensures daily[C05]: cache.numDailyHit == old(cache.numDailyHit) + ite(hit, 1, 0) && cache.numDailyMiss == old(cache.numDailyMiss) + ite(hit, 0, 1)
  ensures written[C05]: cache.dataWritten == old(cache.dataWritten) + ite(added, request.Size, 0) && cache.numAdded == old(cache.numAdded) + ite(added, 1, 0)
  ensures free[C05,C06]: len(cache.dailyfreeSpace) == old(len(cache.dailyfreeSpace)) + 1 && cache.sumDailyFreeSpace == old(cache.sumDailyFreeSpace) + (cache.MaxSize - cache.size)
  ensures freeSum[C06]: imp(old(cache.sumDailyFreeSpace == rsum(row(cache.dailyfreeSpace), off(cache.dailyfreeSpace), len(cache.dailyfreeSpace))), cache.sumDailyFreeSpace == rsum(row(cache.dailyfreeSpace), off(cache.dailyfreeSpace), len(cache.dailyfreeSpace)))
  ensures tick[C15]: cache.tick == old(cache.tick) + 1
  ensures notDue[C10]: imp(!old(CDue(cache)), all(x, int, in(x, cache.stats.Data) == old(in(x, cache.stats.Data)), pat(in(x, cache.stats.Data))) && same(cache.stats.firstUpdateTime))
  ensures kept[C10,C15]: all(x, int, imp(in(x, cache.stats.Data), old(in(x, cache.stats.Data)) && cache.stats.Data[x] == old(cache.stats.Data[x])), pat(in(x, cache.stats.Data)))
  ensures dropped[C10]: imp(old(CDue(cache)), all(x, int, in(x, cache.stats.Data) == (old(in(x, cache.stats.Data)) && (Held(cache, x) || !CStale(cache, old(cache.stats.Data[x])))), pat(in(x, cache.stats.Data))))
  ensures restart[C10]: imp(old(CDue(cache)), cache.stats.firstUpdateTime == cache.stats.lastUpdateTime)
  ensures weights[C12]: imp(cache.stats.calcWeight && old(cache.stats.weightSum == WeightTot(CM(cache))), cache.stats.weightSum == WeightTot(CM(cache)))
  modifies map(cache.stats.Data), field(CM(cache).weightSum), field(CM(cache).firstUpdateTime), field(cache.hit), field(cache.miss), field(cache.dataRead), field(cache.dataReadOnHit), field(cache.dataReadOnMiss), field(cache.numDailyHit), field(cache.numDailyMiss), field(cache.dataWritten), field(cache.numAdded), field(cache.dailyfreeSpace), elems(cache.dailyfreeSpace), field(cache.sumDailyFreeSpace), field(cache.tick), field(cache.upperCPUEff), field(cache.lowerCPUEff), field(cache.numLocal), field(cache.numRemote), field(cache.hitCPUEff), field(cache.missCPUEff)

func cache.(*SimpleCache).AfterRequest(cache, request, fileStats, hit, added)
  use after
  hint rsumS(row(cache.dailyfreeSpace), off(cache.dailyfreeSpace), len(cache.dailyfreeSpace))
  hint rsumCong(row(cache.dailyfreeSpace), off(cache.dailyfreeSpace), old(row(cache.dailyfreeSpace)), old(off(cache.dailyfreeSpace)), old(len(cache.dailyfreeSpace)))
  loop 1
  inv CacheOK(cache)
  inv all(x, int, imp(in(x, cache.stats.Data), pre(in(x, cache.stats.Data)) && cache.stats.Data[x] == pre(cache.stats.Data[x])), pat(in(x, cache.stats.Data)))
  inv all(x, int, in(x, cache.stats.Data) == (pre(in(x, cache.stats.Data)) && (!seen[x] || Held(cache, x) || !CStale(cache, pre(cache.stats.Data[x])))), pat(in(x, cache.stats.Data)), pat(seen[x]))
  inv imp(cache.stats.calcWeight && pre(cache.stats.weightSum == WeightTot(CM(cache))), cache.stats.weightSum == WeightTot(CM(cache)))

func cache.(*SimpleCache).Check(cache, filename) -> (res)
  requires CacheOK(cache)
  ensures held: res == Held(cache, filename)
  ensures CacheOK(cache)
  ensures listed[C16]: all(x, int, in(x, cache.stats.deletedFileMiss) == old(in(x, cache.stats.deletedFileMiss)), pat(in(x, cache.stats.deletedFileMiss)))
  ensures evictedMiss[C16]: MissTot(CM(cache)) == old(MissTot(CM(cache))) + ite(!res && old(in(filename, cache.stats.deletedFileMiss)), 1, 0)
  modifies map(cache.stats.deletedFileMiss)

func cache.(*SimpleCache).CheckRedirect(cache, filename, size) -> (res)
  requires ref(cache) > 0
  ensures off[C08]: imp(!cache.canRedirect, !res)
  ensures limit[C08]: imp(cache.canRedirect && cache.bandwidth > 0, res == (cache.dataReadOnMiss >= cache.bandwidth * 95 / 100))
  ensures counted[C05,C08]: cache.numRedirected == old(cache.numRedirected) + ite(res, 1, 0) && cache.redirectSize == old(cache.redirectSize) + ite(res, size, 0)
  modifies field(cache.numRedirected), field(cache.redirectSize)

template mark
  requires CacheOK(cache)
  requires occ[OCC]: Occ(cache)
  requires levels: imp(cache.useWatermarks, cache.MaxSize > 0 && 0 <= cache.lowWatermark && cache.lowWatermark <= cache.highWatermark)
  ensures CacheOK(cache)
  ensures occ[OCC]: Occ(cache)
  ensures bounded[OCC]: cache.size <= old(cache.size)
  ensures when[QUIET]: ok == !(cache.useWatermarks && old(cache.size) * 100 >= cache.highWatermark * cache.MaxSize)
  ensures quiet[QUIET]: imp(ok, same(cache.size, cache.numDeleted, cache.dataDeleted) && same(QF(cache.files), QN(cache.files), QP(cache.files)))
  ensures order[C04,C14,Q02,Q03]: imp(!cache.useWatermarks, same(QF(cache.files), QP(cache.files), QK(cache.files)))
  ensures drained[C09]: imp(!ok, cache.size * 100 <= cache.lowWatermark * cache.MaxSize)
  ensures deleted[C04]: cache.dataDeleted - old(cache.dataDeleted) == old(cache.size) - cache.size
  ensures count[C04,C09,C16]: QN(cache.files) == old(QN(cache.files)) - (cache.numDeleted - old(cache.numDeleted))
  ensures worst[C04,C09]: imp(QORD(cache.files), all(x, int, QF(cache.files)[x] == ite(old(QF(cache.files))[x] != 0 && old(QP(cache.files))[x] < cache.numDeleted - old(cache.numDeleted), 0, old(QF(cache.files))[x]), pat(QF(cache.files)[x])))
  ensures shortest[C09]: imp(QORD(cache.files) && cache.numDeleted > old(cache.numDeleted), (old(cache.size) - psum(old(QW(cache.files)), old(QF(cache.files)), CSZ(), cache.numDeleted - old(cache.numDeleted) - 1)) * 100 > cache.lowWatermark * cache.MaxSize)
  ensures subset: all(x, int, QF(cache.files)[x] == 0 || QF(cache.files)[x] == old(QF(cache.files))[x], pat(QF(cache.files)[x]))
  ensures same(QORD(cache.files), QLRU(cache.files), QDESC(cache.files), QWEI(cache.files))
  ensures misses[C16]: MissTot(CM(cache)) == old(MissTot(CM(cache)))
  ensures evictedSet[C16]: imp(!ok, all(x, int, in(x, cache.stats.deletedFileMiss) == (old(QF(cache.files))[x] != 0 && QF(cache.files)[x] == 0), pat(in(x, cache.stats.deletedFileMiss))))
  ensures sameSet[C16]: imp(ok, all(x, int, in(x, cache.stats.deletedFileMiss) == old(in(x, cache.stats.deletedFileMiss)), pat(in(x, cache.stats.deletedFileMiss))))
  modifies obj(cache.files), owned(cache.files), field(cache.size), field(cache.dataDeleted), field(cache.numDeleted), field(CM(cache).deletedFileMiss), field(CM(cache).deletedFilesMissLastCount)

func cache.(*SimpleCache).CheckWatermark(cache) -> (ok)
  use mark

func cache.(*SimpleCache).GetTotDeletedFileMiss(cache) -> (res)
  requires CacheOK(cache)
  ensures CacheOK(cache)
  ensures report[C16]: res == old(MissTot(CM(cache)))
  ensures reset[C16]: MissTot(CM(cache)) == 0
  ensures listed[C16]: all(x, int, in(x, cache.stats.deletedFileMiss) == old(in(x, cache.stats.deletedFileMiss)), pat(in(x, cache.stats.deletedFileMiss)))
  modifies field(CM(cache).deletedFilesMissLastCount), map(cache.stats.deletedFileMiss)

func cache.(*SimpleCache).HitRate(cache) -> (res)
  requires ref(cache) > 0
  requires cache.hit >= 0 && cache.miss >= 0
  ensures rate[C06]: imp(cache.hit + cache.miss > 0, res == cache.hit / (cache.hit + cache.miss) * 100)
  ensures none[C06]: imp(cache.hit + cache.miss == 0, res == 0)
  ensures range[C06]: 0 <= res && res <= 100
  pure

func cache.(*SimpleCache).AvgFreeSpace(cache) -> (res)
  requires ref(cache) > 0
  requires cache.sumDailyFreeSpace == rsum(row(cache.dailyfreeSpace), off(cache.dailyfreeSpace), len(cache.dailyfreeSpace))
  ensures mean[C06]: imp(len(cache.dailyfreeSpace) > 0, res == rsum(row(cache.dailyfreeSpace), off(cache.dailyfreeSpace), len(cache.dailyfreeSpace)) / real(len(cache.dailyfreeSpace)))
  pure

// every counter is zero
def ZeroStats(c) = c.hit == 0 && c.miss == 0 && c.dataWritten == 0 && c.dataRead == 0 && c.dataReadOnHit == 0 && c.dataReadOnMiss == 0 && c.dataDeleted == 0 &&
   len(c.dailyfreeSpace) == 0 && c.sumDailyFreeSpace == 0 && c.hitCPUEff == 0 && c.missCPUEff == 0 && c.upperCPUEff == 0 && c.lowerCPUEff == 0 &&
   c.numDailyHit == 0 && c.numDailyMiss == 0 && c.numReq == 0 && c.numAdded == 0 && c.numDeleted == 0 && c.numRedirected == 0 && c.numLocal == 0 && c.numRemote == 0 && c.redirectSize == 0

template zeroed
  modifies field(cache.hit), field(cache.miss), field(cache.dataWritten), field(cache.dataRead), field(cache.dataReadOnHit), field(cache.dataReadOnMiss), field(cache.dataDeleted), field(cache.dailyfreeSpace), field(cache.sumDailyFreeSpace), field(cache.hitCPUEff), field(cache.missCPUEff), field(cache.upperCPUEff), field(cache.lowerCPUEff), field(cache.numDailyHit), field(cache.numDailyMiss), field(cache.numReq), field(cache.numAdded), field(cache.numDeleted), field(cache.numRedirected), field(cache.numLocal), field(cache.numRemote), field(cache.redirectSize)

func cache.(*SimpleCache).ClearStats(cache)
  requires ref(cache) > 0
  ensures zero[C07]: ZeroStats(cache)
  ensures counts[C05]: CountsOK(cache)
  ensures freeSum[C06]: FreeSumOK(cache)
  use zeroed

def CacheParts(c) = CacheSep(c) && QOK(c.files) && MgrOK(CM(c)) && RecSep(c)

template emptied
  requires CacheParts(cache)
  ensures CacheOK(cache)
  ensures none[C07]: QN(cache.files) == 0 && all(x, int, !Held(cache, x), pat(QF(cache.files)[x]))
  ensures space[C07]: cache.size == 0
  ensures occ[OCC]: Occ(cache)
  ensures same(QORD(cache.files), QLRU(cache.files))
  hint ssumEmpty(QF(cache.files), CSZ())

func cache.(*SimpleCache).ClearFiles(cache)
  use emptied
  ensures weights[C12]: cache.stats.weightSum == WeightTot(CM(cache))
  modifies obj(cache.files), owned(cache.files), field(cache.size), all(files.Stats.Recency), field(CM(cache).weightSum)

func cache.(*SimpleCache).Clear(cache)
  use emptied
  use zeroed
  ensures zero[C07]: ZeroStats(cache) && cache.tick == 0
  ensures counts[C05]: CountsOK(cache)
  ensures freeSum[C06]: FreeSumOK(cache)
  ensures weights[C12]: cache.stats.weightSum == 0
  hint dsumEmpty(dom(cache.stats.Data), vals(cache.stats.Data), fieldmap(files.Stats.Weight))
  ensures forgotten: all(x, int, !in(x, cache.stats.Data), pat(in(x, cache.stats.Data)))
  modifies obj(cache.files), owned(cache.files), field(cache.size), all(files.Stats.Recency), field(CM(cache).weightSum), field(cache.tick), obj(CM(cache))

func cache.(*SimpleCache).Size(cache) -> (res)
  requires ref(cache) > 0
  ensures value: res == cache.size
  pure

func cache.(*SimpleCache).GetMaxSize(cache) -> (res)
  requires ref(cache) > 0
  ensures value[C02,C11]: res == cache.MaxSize
  pure

func cache.(*SimpleCache).DataWritten(cache) -> (res)
  requires ref(cache) > 0
  ensures value[C05]: res == cache.dataWritten
  pure

func cache.(*SimpleCache).DataRead(cache) -> (res)
  requires ref(cache) > 0
  ensures value[C05]: res == cache.dataRead
  pure

func cache.(*SimpleCache).DataReadOnHit(cache) -> (res)
  requires ref(cache) > 0
  ensures value[C05]: res == cache.dataReadOnHit
  pure

func cache.(*SimpleCache).DataReadOnMiss(cache) -> (res)
  requires ref(cache) > 0
  ensures value[C05]: res == cache.dataReadOnMiss
  pure

func cache.(*SimpleCache).DataDeleted(cache) -> (res)
  requires ref(cache) > 0
  ensures value[C04]: res == cache.dataDeleted
  pure

func cache.(*SimpleCache).NumRequests(cache) -> (res)
  requires ref(cache) > 0
  ensures value[C05]: res == cache.numReq
  pure

func cache.(*SimpleCache).NumRedirected(cache) -> (res)
  requires ref(cache) > 0
  ensures value[C08]: res == cache.numRedirected
  pure

func cache.(*SimpleCache).RedirectedSize(cache) -> (res)
  requires ref(cache) > 0
  ensures value[C08]: res == cache.redirectSize
  pure

func cache.(*SimpleCache).NumAdded(cache) -> (res)
  requires ref(cache) > 0
  ensures value[C05]: res == cache.numAdded
  pure

func cache.(*SimpleCache).NumDeleted(cache) -> (res)
  requires ref(cache) > 0
  ensures value[C04]: res == cache.numDeleted
  pure

func cache.(*SimpleCache).Bandwidth(cache) -> (res)
  requires ref(cache) > 0
  ensures value[C08]: res == cache.bandwidth
  pure

func cache.(*SimpleCache).NumHits(cache) -> (res)
  requires ref(cache) > 0
  ensures value[C05]: all(n, int, imp(cache.hit == real(n), res == n), pat(real(n)))
  ensures value0[C05]: imp(cache.hit == real(res) || cache.hit >= 0, real(res) <= cache.hit && cache.hit < real(res) + 1)
  pure

func cache.(*SimpleCache).SetBandwidth(cache, bandwidth)
  requires ref(cache) > 0
  ensures limit[C08]: cache.bandwidth == bandwidth * 10800000
  modifies field(cache.bandwidth)

func cache.(*SimpleCache).Capacity(cache) -> (res)
  requires ref(cache) > 0
  ensures share: imp(cache.MaxSize > 0, res == cache.size / cache.MaxSize * 100)
  pure

area sim
// Per-file statistics.
owned files.Manager.Data, files.Manager.deletedFileMiss
owned files.Stats.RequestedTimes

// the ring of the last 32 request times; rpos(s, i): slot of the i-th most recent
def StatsOK(s) = 0 <= s.idxLastRequest && s.idxLastRequest < 32 && 0 <= len(s.RequestedTimes) && len(s.RequestedTimes) <= 32 &&
   imp(len(s.RequestedTimes) < 32, s.idxLastRequest == len(s.RequestedTimes)) && s.Frequency >= 0 &&
   len(s.RequestedTimes) == min(s.Frequency, 32) && s.Frequency == s.NHits + s.NMiss && s.NHits >= 0 && s.NMiss >= 0
def rpos(i, x) = ite(i - 1 - x >= 0, i - 1 - x, i + 31 - x)

// the record of a file, 0 when there is none
def dref(m, x) = ite(in(x, m.Data), ref(m.Data[x]), 0)

def MgrOK(m) = m.Data != nil && m.deletedFileMiss != nil &&
   all(x, int, imp(in(x, m.Data), ref(m.Data[x]) > 0 && ref(m.Data[x]) < alloc() && m.Data[x].Filename == x && StatsOK(m.Data[x])), pat(in(x, m.Data)), pat(m.Data[x]))

func files.(*Stats).UpdateStats(stats, hit, size, userID, siteName, curTime)
  props C15, C05
  requires ref(stats) > 0
  requires StatsOK(stats)
  ensures StatsOK(stats)
  ensures size: stats.Size == size
  ensures count[C15]: stats.Frequency == old(stats.Frequency) + 1
  ensures hits[C15]: stats.NHits == old(stats.NHits) + ite(hit, 1, 0)
  ensures misses[C15]: stats.NMiss == old(stats.NMiss) + ite(hit, 0, 1)
  ensures last[C15]: stats.StatLastUpdateTime == curTime
  ensures newest[C15]: stats.RequestedTimes[rpos(stats.idxLastRequest, 0)] == curTime
  ensures kept[C15]: forall(k, 0, min(old(len(stats.RequestedTimes)), 31), stats.RequestedTimes[rpos(stats.idxLastRequest, k + 1)] == old(stats.RequestedTimes[rpos(stats.idxLastRequest, k)]))
  modifies field(stats.Size), field(stats.Frequency), field(stats.NHits), field(stats.NMiss), field(stats.StatLastUpdateTime), field(stats.RequestedTimes), field(stats.idxLastRequest), owned(stats)

func files.(*Manager).Init(s, maxNumDayDiff, deltaDaysStep, calcWeight)
  requires ref(s) > 0
  ensures MgrOK(s)
  ensures empty: all(x, int, !in(x, s.Data), pat(in(x, s.Data)))
  ensures none: all(x, int, !in(x, s.deletedFileMiss), pat(in(x, s.deletedFileMiss)))
  ensures s.calcWeight == calcWeight && s.maxNumDayDiff == maxNumDayDiff && s.deltaDaysStep == deltaDaysStep
  modifies field(s.Data), field(s.deletedFileMiss), field(s.calcWeight), field(s.maxNumDayDiff), field(s.deltaDaysStep), field(s.logger)

func files.(*Manager).GetOrCreate(s, filename, size, reqTime, curTick) -> (stats, newFile)
  requires ref(s) > 0
  requires MgrOK(s)
  ensures MgrOK(s)
  ensures isNew: newFile == !old(in(filename, s.Data))
  ensures record: in(filename, s.Data) && s.Data[filename] == stats && ref(stats) > 0
  ensures known: imp(!newFile, old(s.Data[filename]) == stats)
  ensures created: imp(newFile, fresh(ref(stats)))
  ensures others: all(x, int, imp(x != filename, in(x, s.Data) == old(in(x, s.Data)) && s.Data[x] == old(s.Data[x])), pat(in(x, s.Data)), pat(s.Data[x]))
  ensures size: stats.Size == size
  ensures firstSeen[C15]: imp(newFile, stats.StatInsertTime == reqTime)
  ensures gap[C15]: imp(!newFile, stats.DeltaLastRequest == curTick - old(s.Data[filename].Recency))
  ensures gapNew[C15]: imp(newFile, stats.DeltaLastRequest == 9223372036854775807)
  ensures tick[C15]: stats.Recency == curTick
  ensures zero[C15]: imp(newFile, stats.Frequency == 0 && stats.NHits == 0 && stats.NMiss == 0 && len(stats.RequestedTimes) == 0)
  ensures unweighed[C12]: imp(newFile, stats.Weight == 0)
  ensures weights[C12]: WeightTot(s) == old(WeightTot(s))
  hint dsumCong(old(dom(s.Data)), old(vals(s.Data)), vals(s.Data), old(fieldmap(files.Stats.Weight)), fieldmap(files.Stats.Weight))
  ensures age[C10]: s.lastUpdateTime == reqTime && s.firstUpdateTime == ite(old(s.firstUpdateTime) == zerotime(), reqTime, old(s.firstUpdateTime))
  modifies map(s.Data), field(s.firstUpdateTime), field(s.lastUpdateTime), field(typed(dref(s, filename), *files.Stats).Size), field(typed(dref(s, filename), *files.Stats).DeltaLastRequest), field(typed(dref(s, filename), *files.Stats).Recency)

func files.Manager.Dirty(s) -> (res)
  ensures due[C10]: res == (real(s.lastUpdateTime - s.firstUpdateTime) / 3600000000000 / 24 >= s.deltaDaysStep)
  pure

func files.Manager.Get(s, filename) -> (res)
  ensures imp(in(filename, s.Data), res == s.Data[filename])
  pure

// misses on evicted files since the last report
def MissTot(m) = m.deletedFilesMissLastCount + isum(dom(m.deletedFileMiss), vals(m.deletedFileMiss))

func files.(*Manager).AddDeletedFileMiss(s, filename)
  props C16
  requires ref(s) > 0
  requires s.deletedFileMiss != nil
  ensures listed: all(x, int, in(x, s.deletedFileMiss) == (x == filename || old(in(x, s.deletedFileMiss))), pat(in(x, s.deletedFileMiss)))
  ensures total: imp(!old(in(filename, s.deletedFileMiss)), MissTot(s) == old(MissTot(s)))
  modifies map(s.deletedFileMiss)

func files.(*Manager).IncDeletedFileMiss(s, filename)
  props C16
  requires ref(s) > 0
  requires s.deletedFileMiss != nil
  ensures listed: all(x, int, in(x, s.deletedFileMiss) == old(in(x, s.deletedFileMiss)), pat(in(x, s.deletedFileMiss)))
  ensures total: MissTot(s) == old(MissTot(s)) + ite(old(in(filename, s.deletedFileMiss)), 1, 0)
  modifies map(s.deletedFileMiss)

func files.(*Manager).ClearDeletedFileMiss(s)
  props C16
  requires ref(s) > 0
  requires s.deletedFileMiss != nil
  ensures none: all(x, int, !in(x, s.deletedFileMiss), pat(in(x, s.deletedFileMiss)))
  ensures s.deletedFileMiss != nil && fresh(s.deletedFileMiss)
  ensures total: MissTot(s) == old(MissTot(s))
  modifies field(s.deletedFilesMissLastCount), field(s.deletedFileMiss)
  hint isumEmpty(dom(s.deletedFileMiss), vals(s.deletedFileMiss))
  hint isumCong(seen1, old(dom(s.deletedFileMiss)), old(vals(s.deletedFileMiss)))
  loop 1
  inv all(x, int, imp(seen[x], in(x, s.deletedFileMiss)), pat(seen[x]))
  inv s.deletedFilesMissLastCount == pre(s.deletedFilesMissLastCount) + isum(seen, vals(s.deletedFileMiss))
  try s.deletedFilesMissLastCount == pre(s.deletedFilesMissLastCount)
  try I0 == isum(seen, vals(s.deletedFileMiss))
  try I0 == pre(s.deletedFilesMissLastCount) + isum(seen, vals(s.deletedFileMiss))

func files.(*Manager).GetTotDeletedFileMiss(s) -> (res)
  props C16
  requires ref(s) > 0
  requires s.deletedFileMiss != nil
  ensures report: res == old(MissTot(s))
  ensures reset: MissTot(s) == 0
  ensures listed: all(x, int, in(x, s.deletedFileMiss) == old(in(x, s.deletedFileMiss)), pat(in(x, s.deletedFileMiss)))
  modifies field(s.deletedFilesMissLastCount), map(s.deletedFileMiss)
  hint isumZero(dom(s.deletedFileMiss), vals(s.deletedFileMiss))
  hint all(x, int, imp(in(x, s.deletedFileMiss), seen1[x]), pat(in(x, s.deletedFileMiss)))
  loop 1
  inv I0 + isum(dom(s.deletedFileMiss), vals(s.deletedFileMiss)) == pre(MissTot(s))
  try I0 + s.deletedFilesMissLastCount + isum(dom(s.deletedFileMiss), vals(s.deletedFileMiss)) == pre(MissTot(s))
  try s.deletedFilesMissLastCount + isum(dom(s.deletedFileMiss), vals(s.deletedFileMiss)) == pre(MissTot(s))
  try s.deletedFilesMissLastCount == pre(s.deletedFilesMissLastCount)
  try s.deletedFilesMissLastCount == 0
  inv all(x, int, imp(seen[x], s.deletedFileMiss[x] == 0), pat(seen[x]))
  inv dom(s.deletedFileMiss) == pre(dom(s.deletedFileMiss))

// the weights of the known files
def WeightTot(m) = dsum(dom(m.Data), vals(m.Data), fieldmap(files.Stats.Weight))

func files.(*Manager).Clear(s)
  props C07, C12
  requires ref(s) > 0
  requires MgrOK(s)
  ensures MgrOK(s)
  ensures weights[C12]: s.weightSum == WeightTot(s)
  hint dsumSame(seen1, old(dom(s.Data)), old(vals(s.Data)), old(fieldmap(files.Stats.Weight)))
  ensures tick[C07]: all(x, int, imp(in(x, s.Data), s.Data[x].Recency == 0), pat(s.Data[x]))
  modifies all(files.Stats.Recency), field(s.weightSum)
  loop 1
  inv MgrOK(s)
  inv all(x, int, imp(seen[x], s.Data[x].Recency == 0 && in(x, s.Data)), pat(seen[x]))
  inv s.weightSum == dsum(seen, vals(s.Data), fieldmap(files.Stats.Weight))
  try F0 == dsum(seen, vals(s.Data), fieldmap(files.Stats.Weight))

// the value of a weight function; the three of the simulator are spelt out
uf wval(int, int, real, real, real, real, real) real
fieldfn functions.WeightFun(f, n, size, mean, alpha, beta, gamma) -> (res)
  ensures res == wval(f, n, size, mean, alpha, beta, gamma)
  pure
axiom wvalAdd(n: int, size: real, mean: real, alpha: real, beta: real, gamma: real)
  ensures wval(fn("functions.FileAdditiveWeight"), n, size, mean, alpha, beta, gamma) == alpha * real(n) + beta * size + gamma * mean
  auto wval(fn("functions.FileAdditiveWeight"), n, size, mean, alpha, beta, gamma)
uf m_pow(real, real) real
axiom wvalExp(n: int, size: real, mean: real, alpha: real, beta: real, gamma: real)
  ensures wval(fn("functions.FileAdditiveExpWeight"), n, size, mean, alpha, beta, gamma) == m_pow(real(n), alpha) + m_pow(size, beta) + m_pow(mean, gamma)
  auto wval(fn("functions.FileAdditiveExpWeight"), n, size, mean, alpha, beta, gamma)
axiom wvalMul(n: int, size: real, mean: real, alpha: real, beta: real, gamma: real)
  ensures wval(fn("functions.FileMultiplicativeWeight"), n, size, mean, alpha, beta, gamma) == m_pow(real(n), alpha) * m_pow(size, beta) * m_pow(mean, gamma)
  auto wval(fn("functions.FileMultiplicativeWeight"), n, size, mean, alpha, beta, gamma)

func functions.FileAdditiveWeight(n, size, mean, alpha, beta, gamma) -> (res)
  props C12
  ensures formula[C12]: res == wval(fn("functions.FileAdditiveWeight"), n, size, mean, alpha, beta, gamma)
  pure

func functions.FileAdditiveExpWeight(n, size, mean, alpha, beta, gamma) -> (res)
  props C12
  ensures formula[C12]: res == wval(fn("functions.FileAdditiveExpWeight"), n, size, mean, alpha, beta, gamma)
  pure

func functions.FileMultiplicativeWeight(n, size, mean, alpha, beta, gamma) -> (res)
  props C12
  ensures formula[C12]: res == wval(fn("functions.FileMultiplicativeWeight"), n, size, mean, alpha, beta, gamma)
  pure

// asum(r, o, t, n): the ages at time t of the first n recorded request times, unset ones left out
uf asum(int->int, int, int, int) int
axiom asum0(r: int->int, o: int, t: int)
  ensures asum(r, o, t, 0) == 0
  auto asum(r, o, t, 0)
axiom asumS(r: int->int, o: int, t: int, n: int)
  requires n > 0
  ensures asum(r, o, t, n) == asum(r, o, t, n - 1) + ite(r[o + (n - 1)] == 0, 0, t - r[o + (n - 1)])
// the mean age of the requests, in minutes over the 32 places
def MeanAge(s) = real(asum(row(s.RequestedTimes), off(s.RequestedTimes), s.StatLastUpdateTime, len(s.RequestedTimes))) / 60000000000 / 32

func files.(*Stats).getMeanReqTimes(stats) -> (res)
  props C12
  requires ref(stats) > 0
  ensures mean[C12]: res == MeanAge(stats)
  pure
  loop 1
  hint asumS(row(stats.RequestedTimes), off(stats.RequestedTimes), stats.StatLastUpdateTime, K + 1)
  inv K <= len(stats.RequestedTimes)
  inv timeDiffSum == asum(row(stats.RequestedTimes), off(stats.RequestedTimes), stats.StatLastUpdateTime, K)

func files.(*Manager).UpdateWeight(s, stats, newFile, wFun, alpha, beta, gamma)
  props C12
  requires ref(s) > 0 && ref(stats) > 0 && wFun != nil
  requires MgrOK(s)
  requires known: in(stats.Filename, s.Data) && ref(s.Data[stats.Filename]) == ref(stats)
  requires unweighed[C12]: imp(newFile, stats.Weight == 0)
  requires sum[C12]: s.weightSum == WeightTot(s)
  ensures sum[C12]: s.weightSum == WeightTot(s)
  ensures mean[C12]: stats.RequestedTimesMean == MeanAge(stats)
  ensures weight[C12]: stats.Weight == wval(wFun, stats.Frequency, stats.Size, stats.RequestedTimesMean, alpha, beta, gamma)
  ensures MgrOK(s)
  hint dsumDel(dom(s.Data), vals(s.Data), old(fieldmap(files.Stats.Weight)), stats.Filename)
  hint dsumDel(dom(s.Data), vals(s.Data), fieldmap(files.Stats.Weight), stats.Filename)
  hint dsumCong(store(dom(s.Data), stats.Filename, false), vals(s.Data), vals(s.Data), old(fieldmap(files.Stats.Weight)), fieldmap(files.Stats.Weight))
  modifies field(stats.Weight), field(stats.RequestedTimesMean), field(s.weightSum)

func files.(*Manager).GetWeightMedian(s) -> (res)
  props C12
  requires ref(s) > 0
  requires known: !all(x, int, !in(x, s.Data), pat(in(x, s.Data)))
  ensures mean: res == s.weightSum / real(len(s.Data))
  pure

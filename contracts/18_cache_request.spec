area sim
// A whole request, for each kind of cache.
// vars: name, size, protocol, cpu efficiency, day, site, user, file type
def VarsOK(v) = len(v) >= 2 && typeis(v[0], int64) && typeis(v[1], float64) && imp(len(v) > 2, typeis(v[2], int64)) && imp(len(v) > 3, typeis(v[3], float64)) &&
   imp(len(v) > 4, typeis(v[4], int64)) && imp(len(v) > 5, typeis(v[5], int64)) && imp(len(v) > 6, typeis(v[6], int64)) && imp(len(v) > 7, typeis(v[7], int64))
def RName(v) = pi(v[0])
def RSize(v) = pr(v[1])
def Levels(c) = imp(c.useWatermarks, c.MaxSize > 0 && 0 <= c.lowWatermark && c.lowWatermark <= c.highWatermark)
// over the limit: a miss is sent elsewhere
def OverBand(c) = c.canRedirect && c.bandwidth > 0 && c.dataReadOnMiss >= c.bandwidth * 95 / 100

template request
  requires vars != nil
  requires VarsOK(vars)
  requires CacheOK($1)
  requires occ[OCC]: Occ($1)
  requires Levels($1)
  requires counts[C05]: CountsOK($1)
  requires freeSum[C06]: FreeSumOK($1)
  requires bandwidth: imp($1.canRedirect, $1.bandwidth > 0)
  requires size: RSize(vars) >= 0 && imp(Held($1, RName(vars)), $1.stats.Data[RName(vars)].Size == RSize(vars))
  let x0: RName(vars)
  let sz: RSize(vars)
  let was: Held($1, RName(vars))
  let over: OverBand($1)
  let m0: MissTot(CM($1))
  ensures CacheOK($1)
  ensures occ[OCC]: Occ($1)
  ensures levels: Levels($1)
  ensures counts[C05]: CountsOK($1)
  ensures freeSum[C06]: FreeSumOK($1)
  ensures redirected[C08]: redirect == (!was && over)
  ensures untouched[C08]: imp(redirect, !added && same(QF($1.files), QN($1.files), QP($1.files), $1.size, $1.MaxSize, $1.hit, $1.miss, $1.numReq, $1.dataRead, $1.dataWritten, $1.dataDeleted, $1.numAdded, $1.numDeleted, $1.tick) && $1.numRedirected == old($1.numRedirected) + 1 && $1.redirectSize == old($1.redirectSize) + sz && same(dom($1.stats.Data), vals($1.stats.Data)))
  ensures served[C08]: imp(!redirect, same($1.numRedirected, $1.redirectSize))
  ensures outcome[C05]: imp(!redirect, $1.hit == old($1.hit) + ite(was, 1, 0) && $1.miss == old($1.miss) + ite(was, 0, 1) && $1.numReq == old($1.numReq) + 1)
  ensures read[C05]: imp(!redirect, $1.dataReadOnHit == old($1.dataReadOnHit) + ite(was, sz, 0) && $1.dataReadOnMiss == old($1.dataReadOnMiss) + ite(was, 0, sz))
  ensures written[C05]: imp(!redirect, $1.dataWritten == old($1.dataWritten) + ite(added, sz, 0) && $1.numAdded == old($1.numAdded) + ite(added, 1, 0))
  ensures fresh[C04]: all(x, int, imp(x != x0 && Held($1, x), QF($1.files)[x] == old(QF($1.files))[x]), pat(QF($1.files)[x]))
  ensures count[C04]: QN($1.files) == old(QN($1.files)) + ite(added, 1, 0) - ($1.numDeleted - old($1.numDeleted))
  ensures deleted[C04]: $1.dataDeleted - old($1.dataDeleted) == old($1.size) + ite(added, sz, 0) - $1.size
  ensures miss[C16]: MissTot(CM($1)) == m0 + ite(!was && old(in(x0, $1.stats.deletedFileMiss)), 1, 0)
  ensures newSet[C16]: imp($1.numDeleted > old($1.numDeleted), all(x, int, imp(in(x, $1.stats.deletedFileMiss), old(Held($1, x)) || x == x0), pat(in(x, $1.stats.deletedFileMiss))))
  ensures tick[C15]: imp(!redirect, $1.tick == old($1.tick) + 1)
  ensures others[C15]: all(x, int, imp(x != x0 && in(x, $1.stats.Data), old(in(x, $1.stats.Data)) && $1.stats.Data[x] == old($1.stats.Data[x]) && same($1.stats.Data[x].Frequency, $1.stats.Data[x].NHits, $1.stats.Data[x].NMiss, $1.stats.Data[x].Recency, $1.stats.Data[x].Size)), pat(in(x, $1.stats.Data)))
  hint ssumNonneg(QF($1.files), CSZ())
  modifies obj($1), obj($1.files), owned($1.files), map($1.stats.Data), map($1.stats.deletedFileMiss), elems($1.dailyfreeSpace), obj(CRec($1, RName(vars))), owned(CRec($1, RName(vars)))

// bounded caches
template bounded
  ensures room[C02]: imp(old($1.size) <= $1.MaxSize, $1.size <= $1.MaxSize) && $1.size >= 0 && same($1.MaxSize)
  ensures level[C09]: imp($1.useWatermarks && !redirect, $1.size * 100 < $1.highWatermark * $1.MaxSize || $1.size * 100 <= $1.lowWatermark * $1.MaxSize)
  ensures stays[C03]: imp(was && !$1.useWatermarks, QF($1.files)[x0] == old(QF($1.files))[x0] && !added)
  ensures again[C04,C14,Q02,Q03]: imp(!redirect && was && !$1.useWatermarks && QORD($1.files), QPlaced($1.files, x0))
  ensures againKey[C04,C14,Q03]: imp(!redirect && was && !$1.useWatermarks && QORD($1.files) && !QLRU($1.files), QK($1.files)[x0] == QKeyOf($1.files, typed(QF($1.files)[x0], *files.Stats)))
  ensures order[C04,Q02,Q03]: imp(QORD($1.files) && !$1.useWatermarks, all(x, int, y, int, imp(Held($1, x) && Held($1, y) && x != x0 && y != x0, (QP($1.files)[x] < QP($1.files)[y]) == (old(QP($1.files))[x] < old(QP($1.files))[y])), pat(QP($1.files)[x], QP($1.files)[y])))
  ensures keys[C04,Q03]: imp(!$1.useWatermarks, all(x, int, imp(Held($1, x) && x != x0, QK($1.files)[x] == old(QK($1.files))[x]), pat(QK($1.files)[x])))
  ensures first[C04]: imp(added && !$1.useWatermarks && QORD($1.files), QPlaced($1.files, x0))
  ensures kept[C03]: imp(added && !$1.useWatermarks, Held($1, x0))
  ensures history[C15]: imp(!redirect && in(x0, $1.stats.Data), $1.stats.Data[x0].Frequency == ite(old(in(x0, $1.stats.Data)), old($1.stats.Data[x0].Frequency), 0) + 1)
  ensures historyHits[C15]: imp(!redirect && in(x0, $1.stats.Data), $1.stats.Data[x0].NHits == ite(old(in(x0, $1.stats.Data)), old($1.stats.Data[x0].NHits), 0) + ite(was, 1, 0))

def SC(c) = typed(ref(c), *cache.SimpleCache)

func cache.GetFile@SimpleCache(cache, vars) -> (added, redirect)
  dyn cache *cache.SimpleCache
  use request(SC(cache))
  use bounded(SC(cache))
  ensures admit[C03]: imp(!redirect && !was && old(SC(cache).size) <= SC(cache).MaxSize, added == (sz <= SC(cache).MaxSize))

def RC(c) = typed(ref(c), *cache.RandomCache)
func cache.GetFile@RandomCache(cache, vars) -> (added, redirect)
  dyn cache *cache.RandomCache
  requires RC(cache).randomGenerator != nil
  use request(RC(cache))
  use bounded(RC(cache))
  ensures fit[C13]: imp(old(RC(cache).size) <= RC(cache).MaxSize && sz > RC(cache).MaxSize, !added)

def DC(c) = typed(ref(c), *cache.LRUDatasetVerifier)
func cache.GetFile@LRUDatasetVerifier(cache, vars) -> (added, redirect)
  dyn cache *cache.LRUDatasetVerifier
  use request(DC(cache))
  use bounded(DC(cache))
  ensures admit[C13]: imp(!redirect && !was && old(DC(cache).size) <= DC(cache).MaxSize, added == (in(x0, DC(cache).datasetFileMap) && sz <= DC(cache).MaxSize))
  ensures outside[C13]: imp(!in(x0, DC(cache).datasetFileMap) && !DC(cache).useWatermarks, !added && same(QF(DC(cache).files), DC(cache).size, DC(cache).numDeleted))

def WC(c) = typed(ref(c), *cache.WeightFun)
func cache.GetFile@WeightFun(cache, vars) -> (added, redirect)
  dyn cache *cache.WeightFun
  requires function: WC(cache).weightFunction != nil
  ensures function: same(WC(cache).weightFunction)
  requires weights: WC(cache).stats.calcWeight && WC(cache).stats.weightSum == WeightTot(CM(WC(cache)))
  use request(WC(cache))
  use bounded(WC(cache))
  ensures weights[C12]: WC(cache).stats.calcWeight && WC(cache).stats.weightSum == WeightTot(CM(WC(cache)))

def IC(c) = typed(ref(c), *cache.InfiniteCache)
func cache.GetFile@InfiniteCache(cache, vars) -> (added, redirect)
  dyn cache *cache.InfiniteCache
  use request(IC(cache))
  ensures admit[C11]: imp(!redirect, added == !was)
  ensures keeps[C11]: imp(!IC(cache).useWatermarks, all(x, int, QF(IC(cache).files)[x] == ite(x == x0 && added, QF(IC(cache).files)[x], old(QF(IC(cache).files))[x]), pat(QF(IC(cache).files)[x])) && imp(added, Held(IC(cache), x0)))
  ensures none[C11]: imp(!IC(cache).useWatermarks, same(IC(cache).numDeleted, IC(cache).dataDeleted) && IC(cache).size == old(IC(cache).size) + ite(added, sz, 0) && IC(cache).MaxSize == old(IC(cache).MaxSize) + ite(added, sz, 0))

// reports of a cache reached through its interface

func cache.Size@SimpleCache(cache) -> (res)
  dyn cache *cache.SimpleCache
  requires SC(cache) != nil
  ensures value[C01,C02]: res == SC(cache).size
  pure

func cache.GetMaxSize@SimpleCache(cache) -> (res)
  dyn cache *cache.SimpleCache
  requires SC(cache) != nil
  ensures value[C02,C11]: res == SC(cache).MaxSize
  pure

func cache.DataWritten@SimpleCache(cache) -> (res)
  dyn cache *cache.SimpleCache
  requires SC(cache) != nil
  ensures value[C05]: res == SC(cache).dataWritten
  pure

func cache.DataRead@SimpleCache(cache) -> (res)
  dyn cache *cache.SimpleCache
  requires SC(cache) != nil
  ensures value[C05]: res == SC(cache).dataRead
  pure

func cache.DataReadOnHit@SimpleCache(cache) -> (res)
  dyn cache *cache.SimpleCache
  requires SC(cache) != nil
  ensures value[C05]: res == SC(cache).dataReadOnHit
  pure

func cache.DataReadOnMiss@SimpleCache(cache) -> (res)
  dyn cache *cache.SimpleCache
  requires SC(cache) != nil
  ensures value[C05]: res == SC(cache).dataReadOnMiss
  pure

func cache.DataDeleted@SimpleCache(cache) -> (res)
  dyn cache *cache.SimpleCache
  requires SC(cache) != nil
  ensures value[C04]: res == SC(cache).dataDeleted
  pure

func cache.NumRequests@SimpleCache(cache) -> (res)
  dyn cache *cache.SimpleCache
  requires SC(cache) != nil
  ensures value[C05]: res == SC(cache).numReq
  pure

func cache.NumRedirected@SimpleCache(cache) -> (res)
  dyn cache *cache.SimpleCache
  requires SC(cache) != nil
  ensures value[C08]: res == SC(cache).numRedirected
  pure

func cache.RedirectedSize@SimpleCache(cache) -> (res)
  dyn cache *cache.SimpleCache
  requires SC(cache) != nil
  ensures value[C08]: res == SC(cache).redirectSize
  pure

func cache.NumAdded@SimpleCache(cache) -> (res)
  dyn cache *cache.SimpleCache
  requires SC(cache) != nil
  ensures value[C05]: res == SC(cache).numAdded
  pure

func cache.NumDeleted@SimpleCache(cache) -> (res)
  dyn cache *cache.SimpleCache
  requires SC(cache) != nil
  ensures value[C04]: res == SC(cache).numDeleted
  pure

func cache.HitRate@SimpleCache(cache) -> (res)
  dyn cache *cache.SimpleCache
  requires SC(cache) != nil && SC(cache).hit >= 0 && SC(cache).miss >= 0
  ensures rate[C06]: res == ite(SC(cache).hit + SC(cache).miss > 0, SC(cache).hit / (SC(cache).hit + SC(cache).miss) * 100, 0)
  pure

func cache.AvgFreeSpace@SimpleCache(cache) -> (res)
  dyn cache *cache.SimpleCache
  requires SC(cache) != nil && FreeSumOK(SC(cache))
  ensures mean[C06]: imp(len(SC(cache).dailyfreeSpace) > 0, res == rsum(row(SC(cache).dailyfreeSpace), off(SC(cache).dailyfreeSpace), len(SC(cache).dailyfreeSpace)) / real(len(SC(cache).dailyfreeSpace)))
  pure

func cache.NumHits@SimpleCache(cache) -> (res)
  dyn cache *cache.SimpleCache
  requires SC(cache) != nil && SC(cache).hit >= 0
  ensures value[C05]: real(res) <= SC(cache).hit && SC(cache).hit < real(res) + 1
  pure

func cache.GetTotDeletedFileMiss@SimpleCache(cache) -> (res)
  dyn cache *cache.SimpleCache
  requires CacheOK(SC(cache))
  ensures report[C16]: res == old(MissTot(CM(SC(cache)))) && MissTot(CM(SC(cache))) == 0
  modifies field(CM(SC(cache)).deletedFilesMissLastCount), map(SC(cache).stats.deletedFileMiss)

func cache.ClearStats@SimpleCache(cache)
  dyn cache *cache.SimpleCache
  requires CacheOK(SC(cache))
  ensures CacheOK(SC(cache))
  ensures counts[C05]: CountsOK(SC(cache))
  ensures freeSum[C06]: FreeSumOK(SC(cache))
  ensures zero[C07]: ZeroStats(SC(cache)) && same(QF(SC(cache).files), SC(cache).size, SC(cache).MaxSize)
  modifies obj(SC(cache))

func cache.ClearFiles@SimpleCache(cache)
  dyn cache *cache.SimpleCache
  requires CacheParts(SC(cache))
  ensures CacheOK(SC(cache))
  ensures none[C07]: SC(cache).size == 0 && all(x, int, !Held(SC(cache), x), pat(QF(SC(cache).files)[x]))
  modifies obj(SC(cache)), obj(SC(cache).files), owned(SC(cache).files), all(files.Stats.Recency)

func cache.Clear@SimpleCache(cache)
  dyn cache *cache.SimpleCache
  requires CacheParts(SC(cache))
  ensures CacheOK(SC(cache))
  ensures counts[C05]: CountsOK(SC(cache))
  ensures freeSum[C06]: FreeSumOK(SC(cache))
  ensures none[C07]: SC(cache).size == 0 && ZeroStats(SC(cache)) && all(x, int, !Held(SC(cache), x), pat(QF(SC(cache).files)[x]))
  modifies obj(SC(cache)), obj(SC(cache).files), owned(SC(cache).files), all(files.Stats.Recency)

// creation and initialisation by type name
func cache.GetCacheSize(cacheSize, cacheSizeUnit) -> (res)
  maypanic
  ensures mega[C14]: imp(cacheSizeUnit == "M" || cacheSizeUnit == "m", res == cacheSize)
  ensures giga[C14]: imp(cacheSizeUnit == "G" || cacheSizeUnit == "g", res == cacheSize * 1024)
  ensures tera[C14]: imp(cacheSizeUnit == "T" || cacheSizeUnit == "t", res == cacheSize * 1048576)
  ensures peta[C14]: imp(cacheSizeUnit == "P" || cacheSizeUnit == "p", res == cacheSize * 1073741824)
  ensures known[C14]: cacheSizeUnit == "M" || cacheSizeUnit == "m" || cacheSizeUnit == "G" || cacheSizeUnit == "g" || cacheSizeUnit == "T" || cacheSizeUnit == "t" || cacheSizeUnit == "P" || cacheSizeUnit == "p"
  pure

// the capacity in megabytes
def Mega(s, u) = ite(u == "M" || u == "m", s, ite(u == "G" || u == "g", s * 1024, ite(u == "T" || u == "t", s * 1048576, s * 1073741824)))
def SimpleName(t) = t == "lru" || t == "lfu" || t == "sizeBig" || t == "sizeSmall"
def RandName(t) = t == "random" || t == "random_lru"

func cache.Create(cacheType, cacheSize, cacheSizeUnit, weightFunc, weightFuncParams) -> (res)
  maypanic
  ensures simple[C14]: imp(SimpleName(cacheType), typeis(res, *cache.SimpleCache))
  ensures infinite[C14]: imp(cacheType == "infinite", typeis(res, *cache.InfiniteCache))
  ensures random[C14]: imp(RandName(cacheType), typeis(res, *cache.RandomCache))
  ensures dataset[C14]: imp(cacheType == "lruDatasetVerifier", typeis(res, *cache.LRUDatasetVerifier))
  ensures weight[C14]: imp(cacheType == "weightFunLRU", typeis(res, *cache.WeightFun))
  ensures learning[C14]: imp(cacheType == "aiRL", typeis(res, *cache.AIRL))
  ensures network[C14]: imp(cacheType == "aiNN", typeis(res, *cache.AINN))
  ensures capacity[C14]: imp(SimpleName(cacheType) || RandName(cacheType) || cacheType == "infinite" || cacheType == "lruDatasetVerifier" || cacheType == "weightFunLRU" || cacheType == "aiRL" || cacheType == "aiNN", ref(res) > 0 && fresh(ref(res)) && SC(res).MaxSize == Mega(cacheSize, cacheSizeUnit))
  ensures blank[C14]: SC(res).size == 0 && ZeroStats(SC(res)) && SC(res).tick == 0 && SC(res).stats.weightSum == 0

template initby
  requires ref(cacheInstance) > 0 && ref(cacheInstance) < alloc()
  requires quiet: !params.Log
  requires levels: params.LowWatermark <= params.HighWatermark
  requires blank: SC(cacheInstance).size == 0
  ensures CacheOK(SC(cacheInstance))
  ensures occ[OCC]: Occ(SC(cacheInstance))
  ensures empty[C14]: QN(SC(cacheInstance).files) == 0
  ensures options[C14]: SC(cacheInstance).canRedirect == params.RedirectReq && SC(cacheInstance).useWatermarks == params.Watermarks && SC(cacheInstance).highWatermark == params.HighWatermark && SC(cacheInstance).lowWatermark == params.LowWatermark
  ensures ages[C14]: SC(cacheInstance).stats.maxNumDayDiff == params.MaxNumDayDiff && SC(cacheInstance).stats.deltaDaysStep == params.DeltaDaysStep
  ensures capacity[C14]: same(SC(cacheInstance).MaxSize)
  modifies obj(SC(cacheInstance)), obj(CM(SC(cacheInstance)))

func cache.InitInstance@SimpleCache(cacheType, cacheInstance, params)
  dyn cacheInstance *cache.SimpleCache
  requires known: SimpleName(cacheType)
  use initby
  ensures lru[C14]: typeis(SC(cacheInstance).files, *queue.LRU) == (cacheType == "lru")
  ensures lfu[C14]: typeis(SC(cacheInstance).files, *queue.LFU) == (cacheType == "lfu")
  ensures big[C14]: typeis(SC(cacheInstance).files, *queue.SizeBig) == (cacheType == "sizeBig")
  ensures small[C14]: typeis(SC(cacheInstance).files, *queue.SizeSmall) == (cacheType == "sizeSmall")

func cache.InitInstance@InfiniteCache(cacheType, cacheInstance, params)
  dyn cacheInstance *cache.InfiniteCache
  requires known: cacheType == "infinite"
  use initby
  modifies obj(IC(cacheInstance))

func cache.InitInstance@RandomCache(cacheType, cacheInstance, params)
  dyn cacheInstance *cache.RandomCache
  requires known: RandName(cacheType)
  use initby
  ensures lru[C14]: typeis(SC(cacheInstance).files, *queue.LRU) == (cacheType == "random_lru") && typeis(SC(cacheInstance).files, *queue.QueueNone) == (cacheType == "random")
  modifies obj(RC(cacheInstance))

func cache.InitInstance@WeightFun(cacheType, cacheInstance, params)
  dyn cacheInstance *cache.WeightFun
  requires known: cacheType == "weightFunLRU"
  requires function: params.FunctionTypeString == "FuncAdditive" || params.FunctionTypeString == "FuncAdditiveExp" || params.FunctionTypeString == "FuncMultiplicative"
  use initby
  ensures lru[C14]: typeis(SC(cacheInstance).files, *queue.LRU)
  ensures set: WC(cacheInstance).weightFunction != nil
  ensures function[C12]: WC(cacheInstance).weightFunction == ite(params.FunctionTypeString == "FuncAdditive", fn("functions.FileAdditiveWeight"), ite(params.FunctionTypeString == "FuncAdditiveExp", fn("functions.FileAdditiveExpWeight"), fn("functions.FileMultiplicativeWeight")))
  ensures weighing[C12]: WC(cacheInstance).stats.calcWeight && imp(old(WC(cacheInstance).stats.weightSum == 0), WC(cacheInstance).stats.weightSum == WeightTot(CM(WC(cacheInstance))))
  modifies obj(WC(cacheInstance))

func cache.InitInstance@LRUDatasetVerifier(cacheType, cacheInstance, params)
  maypanic
  dyn cacheInstance *cache.LRUDatasetVerifier
  requires known: cacheType == "lruDatasetVerifier"
  use initby
  ensures lru[C14]: typeis(SC(cacheInstance).files, *queue.LRU)
  modifies obj(DC(cacheInstance))

area sim
// The kinds of cache: initialisation and admission.
def QKindOf(c, t) = typeis(c.files, *queue.LRU) == (t == 0 - 6) && typeis(c.files, *queue.LFU) == (t == 0 - 5) && typeis(c.files, *queue.SizeBig) == (t == 0 - 4) &&
   typeis(c.files, *queue.SizeSmall) == (t == 0 - 3) && typeis(c.files, *queue.Weighted) == (t == 0 - 2) && typeis(c.files, *queue.QueueNone) == (t == 0 - 1)

template init
  requires ref(cache) > 0 && ref(cache) < alloc()
  requires quiet: !param.Log
  requires levels: param.LowWatermark <= param.HighWatermark
  requires blank: cache.size == 0
  ensures CacheOK(cache)
  ensures occ[OCC]: Occ(cache)
  ensures empty[C07,C14]: QN(cache.files) == 0
  ensures forgotten: all(x, int, !in(x, cache.stats.Data), pat(in(x, cache.stats.Data)))
  ensures options[C08,C09,C14]: cache.canRedirect == param.RedirectReq && cache.useWatermarks == param.Watermarks && cache.highWatermark == param.HighWatermark && cache.lowWatermark == param.LowWatermark
  ensures ages[C10,C12,C14]: cache.stats.maxNumDayDiff == param.MaxNumDayDiff && cache.stats.deltaDaysStep == param.DeltaDaysStep && cache.stats.calcWeight == param.CalcWeight
  ensures logoff: same(cache.logFile)
  ensures counts[C05]: imp(old(ZeroStats(cache)), CountsOK(cache))
  ensures freeSum[C06]: imp(old(cache.sumDailyFreeSpace == 0), FreeSumOK(cache))
  modifies obj(cache), obj(CM(cache))
  hint ssumEmpty(QF(cache.files), CSZ())

func cache.(*SimpleCache).Init(cache, param) -> (res)
  requires param.QueueType == 0 - 6 || param.QueueType == 0 - 5 || param.QueueType == 0 - 4 || param.QueueType == 0 - 3 || param.QueueType == 0 - 2 || param.QueueType == 0 - 1
  use init
  ensures queue[C14,C11,C13]: QKindOf(cache, param.QueueType)
  ensures ordered[C14,C11,C13]: QORD(cache.files) == (param.QueueType != 0 - 1) && QLRU(cache.files) == (param.QueueType == 0 - 6)
  ensures size: same(cache.size, cache.MaxSize, cache.hit, cache.miss, cache.numReq, cache.stats.weightSum)
  ensures made: fresh(ref(cache.files))

func cache.(*InfiniteCache).BeforeRequest(cache, request, hit) -> (stats, h)
  use before

func cache.(*InfiniteCache).UpdatePolicy(cache, request, fileStats, hit) -> (added)
  requires ref(request) > 0
  requires CacheOK(cache)
  requires record: ref(fileStats) > 0 && in(request.Filename, cache.stats.Data) && cache.stats.Data[request.Filename] == fileStats
  requires size: fileStats.Size == request.Size && request.Size >= 0
  requires hit == Held(cache, request.Filename)
  ensures CacheOK(cache)
  ensures occ[OCC]: imp(old(Occ(cache)), Occ(cache))
  ensures miss: imp(added, !hit)
  ensures limit: cache.MaxSize >= old(cache.MaxSize)
  ensures admit[C11]: added == !hit
  ensures member[C11,C04,C16]: all(x, int, QF(cache.files)[x] == ite(!hit && x == request.Filename, ref(fileStats), old(QF(cache.files))[x]), pat(QF(cache.files)[x]))
  ensures grow[C11,C04]: cache.size == old(cache.size) + ite(added, request.Size, 0) && cache.MaxSize == old(cache.MaxSize) + ite(added, request.Size, 0)
  ensures count[C11,C04,C16]: QN(cache.files) == old(QN(cache.files)) + ite(added, 1, 0)
  ensures same(QORD(cache.files), QLRU(cache.files), QDESC(cache.files), QWEI(cache.files))
  modifies obj(cache.files), owned(cache.files), field(cache.size), field(cache.MaxSize)

func cache.(*RandomCache).UpdatePolicy(cache, request, fileStats, hit) -> (added)
  use policy
  requires cache.randomGenerator != nil
  ensures fit[C13]: imp(!hit && old(cache.size) <= cache.MaxSize && request.Size > cache.MaxSize, !added)

func cache.(*LRUDatasetVerifier).UpdatePolicy(cache, request, fileStats, hit) -> (added)
  use policy
  ensures admit[C13]: imp(!hit && old(cache.size) <= cache.MaxSize, added == (in(request.Filename, cache.datasetFileMap) && request.Size <= cache.MaxSize))
  ensures outside[C13]: imp(!in(request.Filename, cache.datasetFileMap), !added && same(QF(cache.files), cache.size, cache.numDeleted))

func cache.(*WeightFun).BeforeRequest(cache, request, hit) -> (stats, h)
  use before
  use history
  requires function: cache.weightFunction != nil
  requires weights: cache.stats.weightSum == WeightTot(CM(cache))
  ensures weights[C12]: cache.stats.weightSum == WeightTot(CM(cache))
  ensures mean[C12]: stats.RequestedTimesMean == MeanAge(stats)
  ensures weight[C12]: stats.Weight == wval(cache.weightFunction, stats.Frequency, stats.Size, stats.RequestedTimesMean, cache.fParams.Alpha, cache.fParams.Beta, cache.fParams.Gamma)
  modifies field(CM(cache).weightSum)

func cache.(*WeightFun).UpdatePolicy(cache, request, fileStats, hit) -> (added)
  use policy
  ensures admit[C12]: imp(!hit && old(cache.size) <= cache.MaxSize, added == (fileStats.Weight <= old(cache.stats.weightSum / real(len(cache.stats.Data))) && request.Size <= cache.MaxSize))
  ensures heavy[C12]: imp(!hit && fileStats.Weight > old(cache.stats.weightSum / real(len(cache.stats.Data))), !added && same(QF(cache.files), cache.size, cache.numDeleted))

func cache.(*InfiniteCache).Init(cache, param) -> (res)
  use init
  ensures queue[C14,C11]: QKindOf(cache, 0 - 1) && !QORD(cache.files)
  ensures size: same(cache.size, cache.MaxSize)

func cache.(*RandomCache).Init(cache, param) -> (res)
  requires param.QueueType == 0 - 6 || param.QueueType == 0 - 1
  use init
  ensures queue[C14]: QKindOf(cache, param.QueueType)
  ensures size: same(cache.size, cache.MaxSize)

func cache.(*WeightFun).Init(cache, param) -> (res)
  requires param.QueueType == 0 - 6
  requires wf: param.WfType == 0 - 4 || param.WfType == 0 - 3 || param.WfType == 0 - 2
  use init
  ensures queue[C14]: QKindOf(cache, param.QueueType)
  ensures size: same(cache.size, cache.MaxSize)
  ensures set: cache.weightFunction != nil
  ensures function[C12]: cache.weightFunction == ite(param.WfType == 0 - 4, fn("functions.FileAdditiveWeight"), ite(param.WfType == 0 - 3, fn("functions.FileAdditiveExpWeight"), fn("functions.FileMultiplicativeWeight")))
  ensures params[C12]: cache.fParams.Alpha == param.WfParams.Alpha && cache.fParams.Beta == param.WfParams.Beta && cache.fParams.Gamma == param.WfParams.Gamma
  ensures weights[C12]: imp(old(cache.stats.weightSum == 0), cache.stats.weightSum == WeightTot(CM(cache)))
  hint dsumEmpty(dom(cache.stats.Data), vals(cache.stats.Data), fieldmap(files.Stats.Weight))

func cache.(*LRUDatasetVerifier).Init(cache, param) -> (res)
  maypanic
  use init
  ensures queue[C14,C13]: QKindOf(cache, 0 - 6) && QORD(cache.files) && QLRU(cache.files)
  ensures size: same(cache.size, cache.MaxSize)
  hint all(x, int, in(x, cache.datasetFileMap) == inl(row(datasetFiles.SelectedFiles), off(datasetFiles.SelectedFiles), len(datasetFiles.SelectedFiles), x), pat(in(x, cache.datasetFileMap)))
  loop 1
  inv stp(K)
  inv CacheOK(cache) && datasetFiles != nil
  inv all(x, int, in(x, cache.datasetFileMap) == inl(row(datasetFiles.SelectedFiles), off(datasetFiles.SelectedFiles), K, x), pat(in(x, cache.datasetFileMap)))

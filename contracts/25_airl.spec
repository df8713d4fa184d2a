area sim
// The learning cache when only the admission agent learns.  Its agent is described
// here by what it may write ("@weak"); a run-time failure ends the request.
def RowsFree(t) = alls(k, int, imp(0 <= k && k < len(t.Actions), owner(arr(t.Actions[k])) == 0 && allocated(arr(t.Actions[k]))), pat(t.Actions[k]))
def LearnOK(c) = imp(c.additionAgentOK, RowsFree(c.additionAgent.QTable) && c.additionAgent.Memory != nil) && (arr(c.bufferIdxVector) == 0 || owner(arr(c.bufferIdxVector)) == 0 && allocated(arr(c.bufferIdxVector))) && c.actionCounters != nil && !c.evictionAgentOK

// how often the agent chose to store
def Stores(c) = ite(in(0 - 6, c.actionCounters), c.actionCounters[0 - 6], 0)

func qlearn.(*Agent).getArgMax@weak(agent, array) -> (idx, val)
  maytrap
  requires ref(agent) > 0
  pure
  loop 1
  inv fresh(arr(equalElms))

func qlearn.Agent.GetActionValue@weak(agent, stateIdx, action) -> (res)
  maytrap
  pure

func qlearn.Agent.GetBestActionValue@weak(agent, stateIdx) -> (res)
  maytrap
  weak qlearn.(*Agent).getArgMax
  pure

func qlearn.Agent.GetBestAction@weak(agent, stateIdx) -> (res)
  maytrap
  weak qlearn.(*Agent).getArgMax
  pure

func qlearn.Agent.GetRandomFloat@weak(agent) -> (res)
  maytrap
  pure

func qlearn.(*Agent).UpdateTable@weak(agent, stateIdx, newStateIdx, action, reward)
  maytrap
  weak qlearn.Agent.GetActionValue, qlearn.Agent.GetBestActionValue
  requires ref(agent) > 0 && RowsFree(agent.QTable)
  modifies field(agent.QValue), unowned(float64)

func qlearn.(*Agent).UpdateEpsilon@weak(agent)
  requires ref(agent) > 0
  modifies field(agent.Epsilon), field(agent.StepNum)

func qlearn.(*Agent).UnleashEpsilon@weak(agent, newEpsilon)
  maytrap
  weak qlearn.(*Agent).UpdateEpsilon
  requires ref(agent) > 0
  modifies field(agent.Epsilon), field(agent.StepNum)

func qlearn.(*Agent).ResetMemories@weak(agent)
  requires ref(agent) > 0
  modifies map(agent.Memory), field(agent.Memory)
  ensures agent.Memory != nil && fresh(ref(agent.Memory))

func qlearn.(*Agent).SaveMemory@weak(agent, key, choice)
  maytrap
  requires ref(agent) > 0
  modifies map(agent.Memory), rows(qlearn.Choice)

func qlearn.(*Agent).SaveMemoryWithNoLimits@weak(agent, key, choice)
  maytrap
  requires ref(agent) > 0
  modifies map(agent.Memory), rows(qlearn.Choice)

func qlearn.(*Agent).Remember@weak(agent, key) -> (res, known)
  maytrap
  requires ref(agent) > 0
  modifies map(agent.Memory)

func qlearn.QTable.FeatureIdxs2StateIdx@weak(table, featureIdxs) -> (res)
  maytrap
  pure

func featuremap.Obj.Index@weak(obj, value) -> (res)
  maytrap
  pure

func cache.(*SimpleCache).HitRate@weak(cache) -> (res)
  maytrap
  pure

template learns
  modifies field(cache.additionAgent.QValue), field(cache.additionAgent.Epsilon), field(cache.additionAgent.StepNum), map(cache.additionAgent.Memory), rows(qlearn.Choice), unowned(float64)

func cache.(*AIRL).getState4AdditionAgent(cache, hit, curFileStats) -> (res)
  maytrap
  weak cache.(*SimpleCache).HitRate, featuremap.Obj.Index, qlearn.QTable.FeatureIdxs2StateIdx
  requires ref(cache) > 0 && ref(curFileStats) > 0 && LearnOK(cache)
  ensures LearnOK(cache)
  modifies field(cache.bufferIdxVector), unowned(int)
  loop 1
  inv LearnOK(cache)

func cache.(*AIRL).delayedRewardAdditionAgent(cache, filename, hit)
  maytrap
  weak qlearn.(*Agent).Remember, qlearn.(*Agent).UpdateTable, qlearn.(*Agent).UpdateEpsilon
  requires ref(cache) > 0 && LearnOK(cache) && cache.additionAgentOK
  ensures LearnOK(cache)
  use learns
  loop 1
  inv LearnOK(cache)
  loop 2
  inv LearnOK(cache)

func cache.(*AIRL).BeforeRequest(cache, request, hit) -> (stats, h)
  maytrap
  weak qlearn.(*Agent).UnleashEpsilon, qlearn.(*Agent).ResetMemories
  use before
  use history
  requires LearnOK(cache)
  ensures memory: cache.additionAgent.Memory == old(cache.additionAgent.Memory) || fresh(ref(cache.additionAgent.Memory))
  ensures LearnOK(cache)
  modifies field(cache.curTime), field(cache.prevTime), field(cache.additionAgentBadQValue), field(cache.evictionAgentBadQValue), field(cache.additionAgentPrevQValue), field(cache.evictionAgentPrevQValue), field(cache.additionAgent.Epsilon), field(cache.additionAgent.StepNum), field(cache.additionAgent.Memory), map(cache.additionAgent.Memory)

func cache.(*AIRL).UpdatePolicy(cache, request, fileStats, hit) -> (added)
  maytrap
  weak qlearn.Agent.GetRandomFloat, qlearn.Agent.GetBestAction, qlearn.(*Agent).SaveMemory, qlearn.(*Agent).SaveMemoryWithNoLimits
  unreachable cache.(*AIRL).callEvictionAgent, cache.(*AIRL).punishEvictionAgentOnForcedCall, cache.(*AIRL).rewardEvictionAfterForcedCall, cache.CategoryManager.GetFileCategory, cache.(*CategoryManager).AddOrUpdateCategoryFile
  use policy
  use learns
  requires LearnOK(cache)
  requires quiet: cache.logFile == nil
  ensures LearnOK(cache)
  let taken0: Stores(cache)
  ensures refused[R06]: imp(cache.additionAgentOK && Stores(cache) == taken0, !added && same(QF(cache.files), QN(cache.files), cache.size, cache.numDeleted))
  ensures stored[R06]: imp((cache.additionAgentOK && Stores(cache) != taken0 || !cache.additionAgentOK && !hit) && old(cache.size) <= cache.MaxSize, added == (request.Size <= cache.MaxSize))
  ensures decided[R06]: imp(!cache.additionAgentOK || hit, Stores(cache) == taken0)
  modifies map(cache.actionCounters), field(cache.bufferIdxVector), unowned(int)
  ensures held[R06]: imp(added, QF(cache.files)[request.Filename] == ref(fileStats)) && imp(!added && !hit, QF(cache.files)[request.Filename] == 0)
  ensures bounded[R06]: imp(old(cache.size) <= cache.MaxSize, cache.size <= cache.MaxSize) && cache.size >= 0

func cache.(*AIRL).AfterRequest(cache, request, fileStats, hit, added)
  maytrap
  unreachable cache.(*AIRL).callEvictionAgent, cache.(*AIRL).delayedRewardEvictionAgent, cache.CategoryManager.GetNumCategories
  use after
  requires LearnOK(cache)
  requires quiet: cache.logFile == nil
  ensures LearnOK(cache)
  use learns

func cache.(*AIRL).CheckWatermark(cache) -> (ok)
  requires !cache.evictionAgentOK
  use mark

func cache.(*AIRL).Free(cache, amount, percentage) -> (res)
  use free

func cache.(*AIRL).ClearStats(cache)
  unreachable cache.(*AIRL).callEvictionAgent
  requires ref(cache) > 0 && LearnOK(cache)
  requires quiet: cache.logFile == nil
  ensures LearnOK(cache)
  ensures zero[C07]: ZeroStats(cache)
  ensures counts[C05]: CountsOK(cache)
  ensures freeSum[C06]: FreeSumOK(cache)
  use zeroed
  modifies map(cache.actionCounters), field(cache.evictionAgentNumCalls), field(cache.evictionAgentNumForcedCalls), field(cache.numDailyCategories), field(cache.sumNumDailyCategories)

def AC(c) = typed(ref(c), *cache.AIRL)
func cache.GetFile@AIRL(cache, vars) -> (added, redirect)
  dyn cache *cache.AIRL
  maytrap
  requires LearnOK(AC(cache))
  requires quiet: AC(cache).logFile == nil
  use request(AC(cache))
  use bounded(AC(cache))
  ensures LearnOK(AC(cache))
  let taken0: Stores(AC(cache))
  ensures refused[R06]: imp(!redirect && AC(cache).additionAgentOK && Stores(AC(cache)) == taken0 && !AC(cache).useWatermarks, !added && same(QF(AC(cache).files), QN(AC(cache).files), AC(cache).size, AC(cache).numDeleted))
  ensures stored[R06]: imp(!redirect && !was && (Stores(AC(cache)) != taken0 || !AC(cache).additionAgentOK) && old(AC(cache).size) <= AC(cache).MaxSize, added == (sz <= AC(cache).MaxSize))
  ensures bounded[R06]: imp(old(AC(cache).size) <= AC(cache).MaxSize, AC(cache).size <= AC(cache).MaxSize) && AC(cache).size >= 0 && same(AC(cache).MaxSize)
  ensures held[R06]: imp(added && !AC(cache).useWatermarks, Held(AC(cache), x0))
  modifies map(AC(cache).additionAgent.Memory), map(AC(cache).actionCounters), rows(qlearn.Choice), unowned(float64), unowned(int)

func cache.ClearStats@AIRL(cache)
  dyn cache *cache.AIRL
  requires CacheOK(AC(cache)) && LearnOK(AC(cache))
  requires quiet: AC(cache).logFile == nil
  ensures CacheOK(AC(cache)) && LearnOK(AC(cache))
  ensures counts[C05]: CountsOK(AC(cache))
  ensures freeSum[C06]: FreeSumOK(AC(cache))
  ensures zero[C07]: ZeroStats(AC(cache)) && same(QF(AC(cache).files), AC(cache).size, AC(cache).MaxSize)
  modifies obj(AC(cache)), map(AC(cache).actionCounters)

// set up
func featuremap.(*FeatureManager).Populate(manager, featureMapFilePath)
  maytrap
  requires ref(manager) > 0
  modifies obj(manager)
  ensures weights: WeightsOK(manager)
  ensures fileweights: FileWeightsOK(manager)
  loop 1
  inv cap(manager.Features) == 0 || fresh(arr(manager.Features))
  inv cap(manager.FileFeatures) == 0 || fresh(arr(manager.FileFeatures))
  inv fresh(ref(manager.FeatureIdxMap)) && fresh(ref(manager.FileFeatureIdxMap))

func featuremap.Parse(featureMapFilePath) -> (res)
  maytrap
  ensures weights: WeightsOK(res)
  ensures fileweights: FileWeightsOK(res)
  pure

func qlearn.(*QTable).Init@weak(table, featureManager, actions, randSeed)
  maytrap
  requires ref(table) > 0 && ref(featureManager) > 0
  modifies obj(table)
  ensures RowsFree(table)
  loop 1
  inv fresh(ref(table.ActionTypeIdxs)) && fresh(arr(table.ActionTypes))
  loop 3
  inv (cap(table.States) == 0 || fresh(arr(table.States))) && (cap(table.Actions) == 0 || fresh(arr(table.Actions)))
  inv RowsFree(table)

func qlearn.(*Agent).Init@weak(agent, featureManager, role, initEpsilon, decayRateEpsilon, allowEpsilonUnleash, randSeed)
  maytrap
  weak qlearn.(*QTable).Init
  requires ref(agent) > 0 && ref(featureManager) > 0
  modifies obj(agent)
  ensures imp(role == 0 - 1, RowsFree(agent.QTable)) && agent.Memory != nil

func cache.(*AIRL).Init(cache, param) -> (res)
  maytrap
  weak qlearn.(*Agent).Init
  unreachable cache.(*CategoryManager).Init
  requires alone: param.AIRLEvictionFeatureMap == ""
  requires !cache.evictionAgentOK && !cache.additionAgentOK && cache.bufferIdxVector == nil
  use init
  ensures LearnOK(cache)
  ensures queue[C14]: QKindOf(cache, 0 - 6)
  ensures size: same(cache.size, cache.MaxSize)
  modifies obj(cache)

func cache.InitInstance@AIRL(cacheType, cacheInstance, params)
  maytrap
  dyn cacheInstance *cache.AIRL
  requires known: cacheType == "aiRL"
  requires alone: params.AIRLEvictionFeatureMap == ""
  requires !AC(cacheInstance).evictionAgentOK && !AC(cacheInstance).additionAgentOK && AC(cacheInstance).bufferIdxVector == nil
  use initby
  ensures LearnOK(AC(cacheInstance))
  ensures lru[C14]: typeis(SC(cacheInstance).files, *queue.LRU)
  modifies obj(AC(cacheInstance))

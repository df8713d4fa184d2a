area sim
// Q-learning agent
uf m_exp(real) real
axiom expMono(x: real, y: real)
  requires x <= y
  ensures m_exp(x) <= m_exp(y)
axiom expPos(x: real)
  ensures m_exp(x) > 0
axiom expZero(x: real)
  requires x == 0
  ensures m_exp(x) == 1

def IsMax(s, b) = all(i, int, imp(0 <= i && i < len(s), s[i] <= b), pat(s[i])) && some(i, int, 0 <= i && i < len(s) && s[i] == b)
// every state has one value per action, in an array of its own
def ValuesOK(q) = len(q.ActionTypes) > 0 && alls(k, int, imp(0 <= k && k < len(q.Actions), len(q.Actions[k]) == len(q.ActionTypes) && arr(q.Actions[k]) > 0 && allocated(arr(q.Actions[k]))), pat(q.Actions[k])) &&
    alls(j, int, k, int, imp(0 <= j && j < k && k < len(q.Actions), arr(q.Actions[j]) != arr(q.Actions[k])), pat(q.Actions[j], q.Actions[k]))

func qlearn.(*Agent).getArgMax(agent, array) -> (idx, val)
  requires ref(agent) > 0 && len(array) > 0
  ensures max: 0 <= idx && idx < len(array) && val == array[idx] && forall(i, 0, len(array), array[i] <= val)
  pure
  loop 1
  inv 0 <= maxIdx && maxIdx < len(array) && maxElm == array[maxIdx] && forall(i, 0, K + 1, array[i] <= maxElm)
  inv forall(i, 0, len(equalElms), 0 <= equalElms[i] && equalElms[i] < len(array) && array[equalElms[i]] == maxElm)
  inv fresh(arr(equalElms))

func qlearn.Agent.GetActionValue(agent, stateIdx, action) -> (res)
  requires ValuesOK(agent.QTable) && ActsOK(agent.QTable) && 0 <= stateIdx && stateIdx < len(agent.QTable.Actions)
  ensures value: imp(in(action, agent.QTable.ActionTypeIdxs), res == agent.QTable.Actions[stateIdx][agent.QTable.ActionTypeIdxs[action]])
  pure

func qlearn.Agent.GetBestActionValue(agent, stateIdx) -> (res)
  requires ValuesOK(agent.QTable) && 0 <= stateIdx && stateIdx < len(agent.QTable.Actions)
  ensures max: IsMax(agent.QTable.Actions[stateIdx], res)
  pure

func qlearn.Agent.GetBestAction(agent, stateIdx) -> (res)
  requires ValuesOK(agent.QTable) && ActsOK(agent.QTable) && 0 <= stateIdx && stateIdx < len(agent.QTable.Actions)
  ensures best: in(res, agent.QTable.ActionTypeIdxs) && IsMax(agent.QTable.Actions[stateIdx], agent.QTable.Actions[stateIdx][agent.QTable.ActionTypeIdxs[res]])
  pure

func qlearn.(*Agent).UpdateTable(agent, stateIdx, newStateIdx, action, reward)
  requires ref(agent) > 0 && ValuesOK(agent.QTable) && ActsOK(agent.QTable)
  requires 0 <= stateIdx && stateIdx < len(agent.QTable.Actions) && 0 <= newStateIdx && newStateIdx < len(agent.QTable.Actions)
  okwhen in(action, agent.QTable.ActionTypeIdxs) && agent.UpdateAlgorithm == 0 - 1
  maypanic
  modifies field(agent.QValue), elems(agent.QTable.Actions[stateIdx])
  let a: agent.QTable.ActionTypeIdxs[action]
  ensures known: in(action, agent.QTable.ActionTypeIdxs) && agent.UpdateAlgorithm == 0 - 1
  ensures total: agent.QValue == old(agent.QValue) + reward
  ensures rule: all(b, real, imp(old(IsMax(agent.QTable.Actions[newStateIdx], b)), agent.QTable.Actions[stateIdx][a] == old(agent.QTable.Actions[stateIdx][a]) + agent.LearningRate * (reward + agent.DiscountFactor * b - old(agent.QTable.Actions[stateIdx][a]))), pat(b == b))
  ensures others: all(k, int, i, int, imp(0 <= k && k < len(agent.QTable.Actions) && 0 <= i && i < len(agent.QTable.Actions[k]) && !(k == stateIdx && i == a), agent.QTable.Actions[k][i] == old(agent.QTable.Actions[k][i])), pat(agent.QTable.Actions[k][i]))

def Eps(a, n) = a.MinEpsilon + (a.MaxEpsilon - a.MinEpsilon) * m_exp(0 - a.DecayRateEpsilon * real(n))
func qlearn.(*Agent).UpdateEpsilon(agent)
  requires ref(agent) > 0 && agent.MinEpsilon <= agent.MaxEpsilon && agent.DecayRateEpsilon >= 0 && agent.StepNum >= 0
  modifies field(agent.Epsilon), field(agent.StepNum)
  ensures floor: imp(old(agent.Epsilon) <= agent.MinEpsilon, agent.Epsilon == old(agent.Epsilon) && agent.StepNum == old(agent.StepNum))
  ensures step: imp(old(agent.Epsilon) > agent.MinEpsilon, agent.StepNum == old(agent.StepNum) + 1 && agent.Epsilon == Eps(agent, agent.StepNum))
  ensures bounds: imp(old(agent.Epsilon) > agent.MinEpsilon, agent.MinEpsilon <= agent.Epsilon && agent.Epsilon <= agent.MaxEpsilon && agent.Epsilon <= Eps(agent, agent.StepNum - 1))
  hint expMono(0 - agent.DecayRateEpsilon * real(agent.StepNum), 0 - agent.DecayRateEpsilon * real(agent.StepNum - 1))
  hint expMono(0 - agent.DecayRateEpsilon * real(agent.StepNum), 0)
  hint expPos(0 - agent.DecayRateEpsilon * real(agent.StepNum))
  hint expZero(0)

func qlearn.(*Agent).UnleashEpsilon(agent, newEpsilon)
  requires ref(agent) > 0 && agent.MinEpsilon <= agent.MaxEpsilon && agent.MaxEpsilon <= 1 && agent.MinEpsilon >= 0 && agent.DecayRateEpsilon >= 0
  requires isnil(newEpsilon) || typeis(newEpsilon, float64)
  modifies field(agent.Epsilon), field(agent.StepNum)
  ensures kept: imp(!agent.allowEpsilonUnleash, agent.Epsilon == old(agent.Epsilon) && agent.StepNum == old(agent.StepNum))
  ensures reset: imp(agent.allowEpsilonUnleash && isnil(newEpsilon), agent.Epsilon == 1 && agent.StepNum == 0)
  ensures target: imp(agent.allowEpsilonUnleash && !isnil(newEpsilon), agent.Epsilon <= pr(newEpsilon) && agent.Epsilon >= agent.MinEpsilon)
  loop 1
  inv agent.StepNum >= 0 && agent.MinEpsilon <= agent.Epsilon

func qlearn.Agent.GetCoverage(agent) -> (actions, states)
  requires ValuesOK(agent.QTable) && agent.NumStates == len(agent.QTable.Actions) && agent.NumStates > 0 && agent.NumVars == agent.NumStates * len(agent.QTable.ActionTypes)
  let m: len(agent.QTable.ActionTypes)
  ensures actions: 0 <= actions && actions <= 100
  ensures states: 0 <= states && states <= 100
  pure
  hint agent.NumVars > 0
  loop 1
  inv 0 <= actionsCov && actionsCov <= K * m && 0 <= stateCov && stateCov <= K
  loop 2
  inv 0 <= actionsCov && actionsCov <= Kout * m + K

// memories: the histories of different keys never share storage
def MemOK(a) = ref(a.Memory) > 0 && all(k, int, imp(in(k, a.Memory), len(a.Memory[k]) > 0 && arr(a.Memory[k]) > 0 && allocated(arr(a.Memory[k]))), pat(in(k, a.Memory)), pat(a.Memory[k])) &&
    all(j, int, k, int, imp(in(j, a.Memory) && in(k, a.Memory) && j != k, arr(a.Memory[j]) != arr(a.Memory[k])), pat(a.Memory[j], a.Memory[k]))

// every other key keeps its history
def OthersKept(a, key) = all(k, int, imp(k != mapkey(a.Memory, key), in(k, a.Memory) == old(in(k, a.Memory)) && imp(in(k, a.Memory), len(a.Memory[k]) == old(len(a.Memory[k])))), pat(in(k, a.Memory))) &&
    all(k, int, i, int, imp(k != mapkey(a.Memory, key) && in(k, a.Memory) && 0 <= i && i < len(a.Memory[k]), a.Memory[k][i] == old(a.Memory[k][i])), pat(in(k, a.Memory), a.Memory[k][i].State))

func qlearn.(*Agent).SaveMemory(agent, key, choice)
  requires ref(agent) > 0 && MemOK(agent)
  let known: in(key, agent.Memory)
  let n0: len(agent.Memory[key])
  modifies map(agent.Memory), elems(agent.Memory[key])
  ensures ok: MemOK(agent)
  ensures last: in(key, agent.Memory) && len(agent.Memory[key]) == ite(known, min(n0 + 1, max(n0, 32)), 1) && agent.Memory[key][len(agent.Memory[key]) - 1] == choice
  ensures order: imp(known, forall(i, 0, len(agent.Memory[key]) - 1, agent.Memory[key][i] == old(agent.Memory[key][i + ite(n0 < 32, 0, 1)])))
  ensures others: OthersKept(agent, key)

func qlearn.(*Agent).SaveMemoryWithNoLimits(agent, key, choice)
  requires ref(agent) > 0 && MemOK(agent)
  let known: in(key, agent.Memory)
  let n0: len(agent.Memory[key])
  modifies map(agent.Memory), elems(agent.Memory[key])
  ensures ok: MemOK(agent)
  ensures last: in(key, agent.Memory) && len(agent.Memory[key]) == ite(known, n0 + 1, 1) && agent.Memory[key][len(agent.Memory[key]) - 1] == choice
  ensures order: imp(known, forall(i, 0, len(agent.Memory[key]) - 1, agent.Memory[key][i] == old(agent.Memory[key][i])))
  ensures others: OthersKept(agent, key)

func qlearn.(*Agent).GetMemories(agent, key) -> (res)
  requires ref(agent) > 0 && MemOK(agent)
  okwhen in(key, agent.Memory)
  maypanic
  pure
  ensures known: in(key, agent.Memory) && res == agent.Memory[key]

func qlearn.(*Agent).Remember(agent, key) -> (res, known)
  requires ref(agent) > 0 && MemOK(agent)
  modifies map(agent.Memory)
  ensures ok: MemOK(agent)
  ensures known: known == old(in(key, agent.Memory)) && !in(key, agent.Memory)
  ensures history: imp(known, len(res) == old(len(agent.Memory[key])) && forall(i, 0, len(res), res[i] == old(agent.Memory[key][i]))) && imp(!known, len(res) == 0)
  ensures apart: imp(len(res) > 0, fresh(arr(res)))
  ensures others: OthersKept(agent, key)
  // copied one at a time
  alternative
  loop 1
  inv cap(S0) == 0 || fresh(arr(S0))
  inv len(S0) == K && forall(i, 0, K, S0[i] == old(agent.Memory[key][i]))

func qlearn.(*Agent).DeleteMemory(agent, key)
  requires ref(agent) > 0 && MemOK(agent)
  modifies map(agent.Memory)
  ensures ok: MemOK(agent)
  ensures gone: !in(key, agent.Memory)
  ensures slices: all(k, int, imp(in(k, agent.Memory), arr(agent.Memory[k]) == old(arr(agent.Memory[k])) && off(agent.Memory[k]) == old(off(agent.Memory[k]))), pat(in(k, agent.Memory)))
  ensures others: OthersKept(agent, key)

func qlearn.(*Agent).ResetMemories(agent)
  requires ref(agent) > 0 && MemOK(agent)
  modifies map(agent.Memory), field(agent.Memory)
  ensures ok: MemOK(agent)
  ensures none: all(k, int, !in(k, agent.Memory), pat(in(k, agent.Memory)))

func qlearn.(*QTable).ResetActions(table)
  requires ref(table) > 0 && ValuesOK(table)
  modifies elems(table.Actions)
  ensures ok: ValuesOK(table)
  ensures zero: alls(k, int, i, int, imp(0 <= k && k < len(table.Actions) && 0 <= i && i < len(table.ActionTypes), table.Actions[k][i] == 0), pat(table.Actions[k][i]))
  loop 1
  inv ValuesOK(table)
  inv alls(k, int, i, int, imp(0 <= k && k < K && 0 <= i && i < len(table.ActionTypes), table.Actions[k][i] == 0), pat(table.Actions[k][i]))
  inv alls(k, int, imp(0 <= k && k < len(table.Actions), ite(k < K, fresh(arr(table.Actions[k])), arr(table.Actions[k]) == old(arr(table.Actions[k])))), pat(table.Actions[k]))

func qlearn.(*Agent).Init(agent, featureManager, role, initEpsilon, decayRateEpsilon, allowEpsilonUnleash, randSeed)
  requires ref(agent) > 0 && ref(featureManager) > 0 && WeightsOK(featureManager) && forall(i, 0, len(featureManager.Features), FSize(featureManager, i) >= 1)
  requires role == 0 - 1 || role == 0 - 2
  modifies obj(agent)
  ensures ok: ValuesOK(agent.QTable) && ActsOK(agent.QTable) && MemOK(agent)
  ensures sizes: agent.NumStates == len(agent.QTable.Actions) && agent.NumStates > 0 && agent.NumVars == agent.NumStates * len(agent.QTable.ActionTypes)
  ensures params: agent.UpdateAlgorithm == 0 - 1 && agent.MinEpsilon <= agent.MaxEpsilon && agent.MaxEpsilon == 1 && agent.MinEpsilon >= 0 && agent.LearningRate > 0 && agent.LearningRate <= 1 && 0 <= agent.DiscountFactor && agent.DiscountFactor < 1
  ensures rates: agent.DecayRateEpsilon == decayRateEpsilon && agent.Epsilon == initEpsilon && agent.allowEpsilonUnleash == allowEpsilonUnleash
  ensures addition: imp(role == 0 - 1, len(agent.QTable.ActionTypes) == 2 && agent.QTable.ActionTypes[0] == 0 - 7 && agent.QTable.ActionTypes[1] == 0 - 6)
  ensures eviction: imp(role == 0 - 2, len(agent.QTable.ActionTypes) == 5 && agent.QTable.ActionTypes[0] == 0 - 5 && agent.QTable.ActionTypes[1] == 0 - 1 && agent.QTable.ActionTypes[2] == 0 - 2 && agent.QTable.ActionTypes[3] == 0 - 3 && agent.QTable.ActionTypes[4] == 0 - 4)

func qlearn.(*Agent).ResetParams(agent, initEpsilon, decayRateEpsilon)
  requires ref(agent) > 0
  modifies obj(agent)
  ensures params: agent.MinEpsilon <= agent.MaxEpsilon && agent.MaxEpsilon == 1 && agent.MinEpsilon >= 0 && agent.StepNum == 0 && agent.QValue == 0 && agent.Epsilon == initEpsilon && agent.DecayRateEpsilon == decayRateEpsilon
  ensures kept: same(agent.QTable.Actions, agent.QTable.States, agent.Memory, agent.NumStates, agent.NumVars, agent.UpdateAlgorithm, agent.allowEpsilonUnleash)

func qlearn.Agent.GetRandomFloat(agent) -> (res)
  requires ref(agent.RGenerator) > 0
  ensures range: 0 <= res && res < 1
  pure

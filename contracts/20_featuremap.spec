area sim
// Feature maps: buckets of a feature, weights of the state numbering.
def ObjKind(o) = o.ReflectType == 24 || o.ReflectType == 1 || o.ReflectType == 6 || o.ReflectType == 14
def ObjN(o) = ite(o.ReflectType == 24, len(o.StringValues), ite(o.ReflectType == 1, len(o.BoolValues), ite(o.ReflectType == 6, len(o.Int64Values), ite(o.ReflectType == 14, len(o.Float64Values), 0 - 1))))
def ObjSize(o) = ite(o.Buckets, ObjN(o), 0 - 1)

func featuremap.Obj.Size(obj) -> (res)
  ensures size: res == ObjSize(obj)
  pure

func featuremap.Obj.Value(obj, idx) -> (res)
  requires imp(obj.Buckets && ObjKind(obj), 0 <= idx && idx < ObjN(obj))
  ensures int: imp(obj.Buckets && obj.ReflectType == 6, typeis(res, int64) && pi(res) == obj.Int64Values[idx])
  ensures float: imp(obj.Buckets && obj.ReflectType == 14, typeis(res, float64) && pr(res) == obj.Float64Values[idx])
  ensures text: imp(obj.Buckets && obj.ReflectType == 24, typeis(res, string) && pi(res) == obj.StringValues[idx])
  ensures bool: imp(obj.Buckets && obj.ReflectType == 1, typeis(res, bool) && (pi(res) == 1) == obj.BoolValues[idx])
  ensures none: imp(!obj.Buckets, isnil(res))
  pure

func featuremap.Obj.Index(obj, value) -> (res)
  requires imp(obj.Buckets, ObjKind(obj))
  requires imp(obj.Buckets && obj.ReflectType == 24, typeis(value, string)) && imp(obj.Buckets && obj.ReflectType == 1, typeis(value, bool)) && imp(obj.Buckets && obj.ReflectType == 6, typeis(value, int64)) && imp(obj.Buckets && obj.ReflectType == 14, typeis(value, float64))
  ensures range: 0 - 1 <= res && (res == 0 - 1 || res < ObjSize(obj))
  ensures int: imp(obj.Buckets && obj.ReflectType == 6, imp(res >= 0, pi(value) <= obj.Int64Values[res]) && forall(i, 0, ite(res >= 0, res, len(obj.Int64Values)), pi(value) > obj.Int64Values[i]))
  ensures float: imp(obj.Buckets && obj.ReflectType == 14, imp(res >= 0, pr(value) <= obj.Float64Values[res]) && forall(i, 0, ite(res >= 0, res, len(obj.Float64Values)), pr(value) > obj.Float64Values[i]))
  ensures text: imp(obj.Buckets && obj.ReflectType == 24, imp(res >= 0, pi(value) == obj.StringValues[res]) && forall(i, 0, ite(res >= 0, res, len(obj.StringValues)), pi(value) != obj.StringValues[i]))
  ensures bool: imp(obj.Buckets && obj.ReflectType == 1, imp(res >= 0, (pi(value) == 1) == obj.BoolValues[res]) && forall(i, 0, ite(res >= 0, res, len(obj.BoolValues)), (pi(value) == 1) != obj.BoolValues[i]))
  ensures unbucketed: imp(!obj.Buckets, res == 0 - 1)
  pure
  loop 1
  inv forall(i, 0, K, pi(value) != obj.StringValues[i])
  loop 2
  inv forall(i, 0, K, (pi(value) == 1) != obj.BoolValues[i])
  loop 3
  inv forall(i, 0, K, pi(value) > obj.Int64Values[i])
  loop 4
  inv forall(i, 0, K, pr(value) > obj.Float64Values[i])

// prod(L, a, b) = L[a] * ... * L[b-1]
uf prod(int->int, int, int) int
axiom prod0(L: int->int, a: int)
  ensures prod(L, a, a) == 1
  auto prod(L, a, a)
axiom prodS(L: int->int, a: int, b: int)
  requires a <= b
  ensures prod(L, a, b + 1) == prod(L, a, b) * L[b]
lemma prodK(L: int->int, a: int, k: int)
  requires k >= 1
  ensures prod(L, a, a + k) == L[a] * prod(L, a + 1, a + k)
  induct k
  hint prodS(L, a, a + k - 1)
  hint prodS(L, a + 1, a + k - 1)
  hint prod0(L, a)
  hint prod0(L, a + 1)
lemma prodL(L: int->int, a: int, b: int)
  requires a < b
  ensures prod(L, a, b) == L[a] * prod(L, a + 1, b)
  hint prodK(L, a, b - a)
  auto pat(prod(L, a, b), L[a])

def FSize(m, i) = ObjSize(m.Features[i])
// w[i] is the product of the sizes after i
def WeightsOK(m) = len(m.FeatureIdxWeights) == len(m.Features) && imp(len(m.Features) > 0, m.FeatureIdxWeights[len(m.Features) - 1] == 1) &&
   all(i, int, imp(0 <= i && i < len(m.Features) - 1, m.FeatureIdxWeights[i] == m.FeatureIdxWeights[i + 1] * FSize(m, i + 1)), pat(m.FeatureIdxWeights[i]))

func featuremap.(*FeatureManager).makeFeatureIdxWeights(manager)
  requires ref(manager) > 0
  let L: lam(i, int, FSize(manager, i))
  let n: len(manager.Features)
  ensures weights: WeightsOK(manager)
  hint all(j, int, imp(0 <= j && j < n, prod(L, j, n) == L[j] * prod(L, j + 1, n)), pat(prod(L, j, n)))
  hint prod0(L, n)
  modifies field(manager.FeatureIdxWeights)
  loop 1
  inv len(manager.FeatureIdxWeights) == n && fresh(arr(manager.FeatureIdxWeights)) && len(manager.Features) == n
  inv forall(i, 0, K, manager.FeatureIdxWeights[i] == prod(L, i + 1, n), pat(manager.FeatureIdxWeights[i]))
  loop 2
  inv len(manager.FeatureIdxWeights) == n && fresh(arr(manager.FeatureIdxWeights)) && len(manager.Features) == n
  hint prod0(L, Kout + 1)
  inv forall(i, 0, Kout, manager.FeatureIdxWeights[i] == prod(L, i + 1, n), pat(manager.FeatureIdxWeights[i]))
  inv Kout + 1 + K <= n
  inv manager.FeatureIdxWeights[Kout] == prod(L, Kout + 1, Kout + 1 + K)
  hint prodS(L, Kout + 1, Kout + 1 + K)
  // a local accumulator
  alternative
  loop 1
  inv len(manager.FeatureIdxWeights) == n && fresh(arr(manager.FeatureIdxWeights)) && len(manager.Features) == n
  inv forall(i, 0, K, manager.FeatureIdxWeights[i] == prod(L, i + 1, n), pat(manager.FeatureIdxWeights[i]))
  loop 2
  hint prod0(L, Kout + 1)
  inv Kout + 1 + K <= n
  inv N0 == prod(L, Kout + 1, Kout + 1 + K)
  hint prodS(L, Kout + 1, Kout + 1 + K)
  // from the last feature to the first
  alternative
  loop 1
  hint prodL(L, n - 1 - K, n)
  inv len(manager.FeatureIdxWeights) == n && fresh(arr(manager.FeatureIdxWeights)) && len(manager.Features) == n
  inv K <= n
  inv N0 == prod(L, n - K, n)
  inv forall(i, n - K, n, manager.FeatureIdxWeights[i] == prod(L, i + 1, n), pat(manager.FeatureIdxWeights[i]))
  // in a slice of its own, stored at the end
  alternative
  loop 1
  inv len(M0) == n && fresh(arr(M0)) && len(manager.Features) == n
  inv forall(i, 0, K, M0[i] == prod(L, i + 1, n), pat(M0[i]))
  loop 2
  inv len(M0) == n && fresh(arr(M0)) && len(manager.Features) == n
  hint prod0(L, Kout + 1)
  inv forall(i, 0, Kout, M0[i] == prod(L, i + 1, n), pat(M0[i]))
  inv Kout + 1 + K <= n
  inv M0[Kout] == prod(L, Kout + 1, Kout + 1 + K)
  hint prodS(L, Kout + 1, Kout + 1 + K)

// the same for the file features
def FFSize(m, i) = ObjSize(m.FileFeatures[i])
def FileWeightsOK(m) = len(m.FileFeatureIdxWeights) == len(m.FileFeatures) && imp(len(m.FileFeatures) > 0, m.FileFeatureIdxWeights[len(m.FileFeatures) - 1] == 1) &&
   all(i, int, imp(0 <= i && i < len(m.FileFeatures) - 1, m.FileFeatureIdxWeights[i] == m.FileFeatureIdxWeights[i + 1] * FFSize(m, i + 1)), pat(m.FileFeatureIdxWeights[i]))

func featuremap.(*FeatureManager).makeFileFeatureIdxWeights(manager)
  requires ref(manager) > 0
  let L: lam(i, int, FFSize(manager, i))
  let n: len(manager.FileFeatures)
  ensures weights: FileWeightsOK(manager)
  hint all(j, int, imp(0 <= j && j < n, prod(L, j, n) == L[j] * prod(L, j + 1, n)), pat(prod(L, j, n)))
  hint prod0(L, n)
  modifies field(manager.FileFeatureIdxWeights)
  loop 1
  inv len(manager.FileFeatureIdxWeights) == n && fresh(arr(manager.FileFeatureIdxWeights)) && len(manager.FileFeatures) == n
  inv forall(i, 0, K, manager.FileFeatureIdxWeights[i] == prod(L, i + 1, n), pat(manager.FileFeatureIdxWeights[i]))
  loop 2
  inv len(manager.FileFeatureIdxWeights) == n && fresh(arr(manager.FileFeatureIdxWeights)) && len(manager.FileFeatures) == n
  hint prod0(L, Kout + 1)
  inv forall(i, 0, Kout, manager.FileFeatureIdxWeights[i] == prod(L, i + 1, n), pat(manager.FileFeatureIdxWeights[i]))
  inv Kout + 1 + K <= n
  inv manager.FileFeatureIdxWeights[Kout] == prod(L, Kout + 1, Kout + 1 + K)
  hint prodS(L, Kout + 1, Kout + 1 + K)
  // a local accumulator
  alternative
  loop 1
  inv len(manager.FileFeatureIdxWeights) == n && fresh(arr(manager.FileFeatureIdxWeights)) && len(manager.FileFeatures) == n
  inv forall(i, 0, K, manager.FileFeatureIdxWeights[i] == prod(L, i + 1, n), pat(manager.FileFeatureIdxWeights[i]))
  loop 2
  hint prod0(L, Kout + 1)
  inv Kout + 1 + K <= n
  inv N0 == prod(L, Kout + 1, Kout + 1 + K)
  hint prodS(L, Kout + 1, Kout + 1 + K)
  // from the last feature to the first
  alternative
  loop 1
  hint prodL(L, n - 1 - K, n)
  inv len(manager.FileFeatureIdxWeights) == n && fresh(arr(manager.FileFeatureIdxWeights)) && len(manager.FileFeatures) == n
  inv K <= n
  inv N0 == prod(L, n - K, n)
  inv forall(i, n - K, n, manager.FileFeatureIdxWeights[i] == prod(L, i + 1, n), pat(manager.FileFeatureIdxWeights[i]))
  // in a slice of its own, stored at the end
  alternative
  loop 1
  inv len(M0) == n && fresh(arr(M0)) && len(manager.FileFeatures) == n
  inv forall(i, 0, K, M0[i] == prod(L, i + 1, n), pat(M0[i]))
  loop 2
  inv len(M0) == n && fresh(arr(M0)) && len(manager.FileFeatures) == n
  hint prod0(L, Kout + 1)
  inv forall(i, 0, Kout, M0[i] == prod(L, i + 1, n), pat(M0[i]))
  inv Kout + 1 + K <= n
  inv M0[Kout] == prod(L, Kout + 1, Kout + 1 + K)
  hint prodS(L, Kout + 1, Kout + 1 + K)


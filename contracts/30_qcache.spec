area qcache
// The cache of the stand-alone Q-learning program.
def QHeld(c, x) = in(x, c.files)
def QSum(c) = dsum(dom(c.files), vals(c.stats), fieldmap(cache.FileStats.Size))
def QMax() = 100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000
// every held file has statistics, its recorded size is the one of its statistics, and its value is finite
def QOK(c) = c.files != nil && c.stats != nil &&
    all(x, int, imp(QHeld(c, x), in(x, c.stats) && c.files[x] == c.stats[x].Size), pat(in(x, c.files)), pat(c.files[x])) &&
    all(x, int, imp(in(x, c.stats), ref(c.stats[x]) > 0 && allocated(ref(c.stats[x])) && c.stats[x].Size >= 0 && c.stats[x].Value < QMax()), pat(in(x, c.stats)))

func cache.(*SimCache).Init(cache)
  requires ref(cache) > 0
  modifies obj(cache)
  ensures none: QOK(cache) && all(x, int, !QHeld(cache, x), pat(in(x, cache.files)))

func cache.SimCache.GetSize(cache) -> (res)
  requires QOK(cache)
  ensures sum: res == QSum(cache)
  ensures pos: res >= 0
  ensures some: imp(res > 0, some(x, int, QHeld(cache, x), pat(in(x, cache.files))))
  pure
  hint dsumSame(seen1, dom(cache.files), vals(cache.stats), fieldmap(cache.FileStats.Size))
  loop 1
  inv curSize == dsum(seen, vals(cache.stats), fieldmap(cache.FileStats.Size))
  inv curSize >= 0
  inv all(x, int, imp(seen[x], in(x, cache.files)), pat(seen[x]))
  inv imp(curSize > 0, some(x, int, seen[x], pat(seen[x])))

// the held file of lowest value
def QLowest(c, f) = QHeld(c, f) && all(x, int, imp(QHeld(c, x), c.stats[f].Value <= c.stats[x].Value), pat(in(x, c.files)))

func cache.SimCache.GetMinValue(cache) -> (name, value)
  requires QOK(cache)
  ensures lowest: imp(some(x, int, QHeld(cache, x), pat(in(x, cache.files))), QLowest(cache, name) && value == cache.stats[name].Value)
  pure
  loop 1
  inv imp(some(x, int, seen[x], pat(seen[x])), seen[minFileName] && QHeld(cache, minFileName) && minValue == cache.stats[minFileName].Value && all(x, int, imp(seen[x], minValue <= cache.stats[x].Value), pat(seen[x])))
  inv imp(!some(x, int, seen[x], pat(seen[x])), minValue >= QMax())

func cache.(*SimCache).Remove(cache, fileName)
  requires ref(cache) > 0 && QOK(cache)
  modifies map(cache.files)
  ensures ok: QOK(cache)
  ensures gone: all(x, int, QHeld(cache, x) == (x != fileName && old(QHeld(cache, x))), pat(in(x, cache.files)))
  ensures size: QSum(cache) == old(QSum(cache)) - old(ite(QHeld(cache, fileName), cache.stats[fileName].Size, 0))

func cache.(*SimCache).Insert(cache, fileName, size)
  requires ref(cache) > 0 && QOK(cache)
  requires in(fileName, cache.stats) && cache.stats[fileName].Size == size
  requires QSum(cache) <= cache.MaxSize
  modifies map(cache.files)
  atcall cache.(*SimCache).Remove lowest: QLowest(cache, a1)
  ensures ok: QOK(cache)
  ensures fits: QSum(cache) <= cache.MaxSize
  ensures refused: imp(size > cache.MaxSize, all(x, int, QHeld(cache, x) == old(QHeld(cache, x)), pat(in(x, cache.files))))
  ensures put: imp(size <= cache.MaxSize, QHeld(cache, fileName))
  ensures kept: imp(old(QSum(cache)) + size <= cache.MaxSize, all(x, int, imp(old(QHeld(cache, x)), QHeld(cache, x)), pat(in(x, cache.files))))
  ensures only: all(x, int, imp(QHeld(cache, x) && x != fileName, old(QHeld(cache, x))), pat(in(x, cache.files)))
  loop 1
  inv QOK(cache)
  inv size <= cache.MaxSize && size + QSum(cache) > cache.MaxSize
  inv QSum(cache) <= cache.MaxSize
  inv all(x, int, imp(QHeld(cache, x), pre(QHeld(cache, x))), pat(in(x, cache.files)))
  alternative
  loop 1
  inv QOK(cache)
  inv size <= cache.MaxSize
  inv QSum(cache) <= cache.MaxSize
  inv all(x, int, imp(QHeld(cache, x), pre(QHeld(cache, x))), pat(in(x, cache.files)))
  inv imp(pre(QSum(cache)) + size <= cache.MaxSize, all(x, int, QHeld(cache, x) == pre(QHeld(cache, x)), pat(in(x, cache.files))) && QSum(cache) == pre(QSum(cache)))

func cache.(*SimCache).UpdateStats(cache, fileName, size) -> (s, n, v)
  requires ref(cache) > 0 && QOK(cache) && size >= 0
  modifies map(cache.stats), field(cache.stats[fileName].NumReq), field(cache.stats[fileName].Value)
  hint dsumCong(dom(cache.files), old(vals(cache.stats)), vals(cache.stats), old(fieldmap(cache.FileStats.Size)), fieldmap(cache.FileStats.Size))
  ensures sums: QSum(cache) == old(QSum(cache))
  ensures ok: imp(v < QMax(), QOK(cache))
  ensures size: in(fileName, cache.stats) && cache.stats[fileName].Size == ite(old(in(fileName, cache.stats)), old(cache.stats[fileName].Size), size)
  ensures held: all(x, int, imp(QHeld(cache, x), in(x, cache.stats) && cache.files[x] == cache.stats[x].Size), pat(in(x, cache.files)))

func cache.SimCache.GetCapacity(cache) -> (res)
  requires QOK(cache) && cache.MaxSize > 0
  ensures percent: res == QSum(cache) / cache.MaxSize * 100
  pure

// generated from tools/bucket.spec.in by tools/genspecs.py
area sim
def QueueBaseFloatInv(q) = ref(q) > 0 && arr(q.buffer) != 0 && QAbs(q) && QORD(q) && !QLRU(q) && q.getFeature != nil && q.getInsertIdx != nil && q.getIndex2Remove != nil && q.files != nil && q.lastIndex != nil && q.lastVal != nil && q.queue != nil && arr(q.orderedValues) != 0 &&
   len(q.files) == QN(q) && len(q.orderedValues) == QGN(q) &&
   QueueBaseFloatOrd(q) && QueueBaseFloatBkt(q) && QueueBaseFloatMem(q)
def QueueBaseFloatSorted(q) = all(i, int, j, int, imp(0 <= i && i < j && j < len(q.orderedValues), ite(QDESC(q), 0 - (q.orderedValues[i]), q.orderedValues[i]) < ite(QDESC(q), 0 - (q.orderedValues[j]), q.orderedValues[j])), pat(q.orderedValues[i], q.orderedValues[j]))
def QueueBaseFloatOrd(q) = all(i, int, j, int, imp(0 <= i && i < j && j < QGN(q), ite(QDESC(q), 0 - (q.orderedValues[i]), q.orderedValues[i]) < ite(QDESC(q), 0 - (q.orderedValues[j]), q.orderedValues[j])), pat(q.orderedValues[i], q.orderedValues[j])) &&
   all(i, int, j, int, imp(0 <= i && j == i + 1 && j < QGN(q), QGSR(q)[q.orderedValues[j]] == QGSR(q)[q.orderedValues[i]] + len(q.queue[q.orderedValues[i]])), pat(q.orderedValues[i], q.orderedValues[j])) &&
   imp(QGN(q) > 0, QGSR(q)[q.orderedValues[0]] == 0) &&
   imp(QGN(q) > 0, QGSR(q)[q.orderedValues[QGN(q) - 1]] + len(q.queue[q.orderedValues[QGN(q) - 1]]) == QN(q)) &&
   imp(QGN(q) == 0, QN(q) == 0) &&
   all(u, real, v, real, imp(in(u, q.queue) && in(v, q.queue) && QOPR(q)[u] < QOPR(q)[v], QGSR(q)[u] + len(q.queue[u]) <= QGSR(q)[v]), pat(QOPR(q)[u], QOPR(q)[v]))
def QueueBaseFloatBkt(q) = forall(j, 0, QGN(q), in(q.orderedValues[j], q.queue) && QOPR(q)[q.orderedValues[j]] == j, pat(q.orderedValues[j])) &&
   all(v, real, imp(in(v, q.queue), 0 <= QOPR(q)[v] && QOPR(q)[v] < QGN(q) && q.orderedValues[QOPR(q)[v]] == v &&
      len(q.queue[v]) > 0 && 0 <= QGSR(q)[v] && QGSR(q)[v] + len(q.queue[v]) <= QN(q) &&
      owner(arr(q.queue[v])) == ref(q) && ownslot(arr(q.queue[v])) == slotcode("M:float64:[]int64") && ownkeyr(arr(q.queue[v])) == v && allocated(arr(q.queue[v]))), pat(in(v, q.queue)), pat(q.queue[v]), pat(QOPR(q)[v])) &&
   all(v, real, i, int, imp(in(v, q.queue) && 0 <= i && i < len(q.queue[v]), QF(q)[q.queue[v][i]] != 0 && q.lastVal[q.queue[v][i]] == v && QL(q)[q.queue[v][i]] == i), pat(q.queue[v][i]))
def QueueBaseFloatMem(q) = all(x, int, in(x, q.files) == (QF(q)[x] != 0) && in(x, q.lastIndex) == (QF(q)[x] != 0) && in(x, q.lastVal) == (QF(q)[x] != 0), pat(QF(q)[x]), pat(in(x, q.files)), pat(in(x, q.lastIndex)), pat(in(x, q.lastVal))) &&
   all(x, int, imp(QF(q)[x] != 0, ref(q.files[x]) == QF(q)[x] && in(q.lastVal[x], q.queue) && QK(q)[x] == ite(QDESC(q), 0 - (q.lastVal[x]), q.lastVal[x]) &&
      0 <= QL(q)[x] && QL(q)[x] < len(q.queue[q.lastVal[x]]) && q.queue[q.lastVal[x]][QL(q)[x]] == x &&
      QP(q)[x] == QGSR(q)[q.lastVal[x]] + QL(q)[x] && q.lastIndex[x] >= QL(q)[x]), pat(QF(q)[x]), pat(q.files[x]), pat(q.lastIndex[x]), pat(q.lastVal[x]), pat(QL(q)[x]))

template QueueBaseFloat
  define QOK(q) = QueueBaseFloatInv(q)
  ensures same(QDESC(q), QWEI(q))

func queue.(*QueueBaseFloat).Check(q, file) -> (res)
  implements queue.Queue.Check
  use QueueBaseFloat
  pure

func queue.(*QueueBaseFloat).len(q) -> (res)
  implements queue.Queue.len
  use QueueBaseFloat
  pure

func queue.(*QueueBaseFloat).getFileStats(q, filename) -> (res)
  implements queue.Queue.getFileStats
  use QueueBaseFloat
  pure

func queue.(*QueueBaseFloat).getFromWorst(q) -> (res)
  implements queue.Queue.getFromWorst
  use QueueBaseFloat
  loop 1
  inv K <= QGN(q)
  inv len(q.buffer) == ite(K < QGN(q), QGSR(q)[q.orderedValues[K]], QN(q))
  inv forall(k, 0, len(q.buffer), ref(q.buffer[k]) == QF(q)[QW(q)[k]])
  inv QueueBaseFloatInv(q)
  loop 2
  inv Kout < QGN(q) && K <= len(q.queue[q.orderedValues[Kout]])
  inv len(q.buffer) == QGSR(q)[q.orderedValues[Kout]] + K
  inv forall(k, 0, len(q.buffer), ref(q.buffer[k]) == QF(q)[QW(q)[k]])
  inv QueueBaseFloatInv(q)

func queue.(*QueueBaseFloat).getQueue(q) -> (res)
  implements queue.Queue.getQueue
  use QueueBaseFloat
  loop 1
  inv K <= QGN(q)
  inv len(q.buffer) == QN(q) - ite(K < QGN(q), QGSR(q)[q.orderedValues[QGN(q) - 1 - K]] + len(q.queue[q.orderedValues[QGN(q) - 1 - K]]), 0)
  inv forall(k, 0, len(q.buffer), ref(q.buffer[k]) == QF(q)[QW(q)[QN(q) - 1 - k]])
  inv QueueBaseFloatInv(q)
  loop 2
  inv Kout < QGN(q) && K <= len(q.queue[q.orderedValues[QGN(q) - 1 - Kout]])
  inv len(q.buffer) == QN(q) - QGSR(q)[q.orderedValues[QGN(q) - 1 - Kout]] - len(q.queue[q.orderedValues[QGN(q) - 1 - Kout]]) + K
  inv forall(k, 0, len(q.buffer), ref(q.buffer[k]) == QF(q)[QW(q)[QN(q) - 1 - k]])
  inv QueueBaseFloatInv(q)

func queue.(*QueueBaseFloat).getWorstFilesUp2Size(q, totSize) -> (res)
  implements queue.Queue.getWorstFilesUp2Size
  use QueueBaseFloat
  loop 1
  inv K <= QGN(q)
  inv len(q.buffer) == ite(K < QGN(q), QGSR(q)[q.orderedValues[K]], QN(q))
  inv forall(k, 0, len(q.buffer), ref(q.buffer[k]) == QF(q)[QW(q)[k]])
  inv QueueBaseFloatInv(q)
  inv F0 == psum(QW(q), QF(q), fieldmap(files.Stats.Size), len(q.buffer))
  inv forall(k, 0, len(q.buffer) + 1, psum(QW(q), QF(q), fieldmap(files.Stats.Size), k) < totSize)
  loop 2
  inv Kout < QGN(q) && K <= len(q.queue[q.orderedValues[Kout]])
  inv len(q.buffer) == QGSR(q)[q.orderedValues[Kout]] + K
  inv forall(k, 0, len(q.buffer), ref(q.buffer[k]) == QF(q)[QW(q)[k]])
  inv QueueBaseFloatInv(q)
  inv F0 == psum(QW(q), QF(q), fieldmap(files.Stats.Size), len(q.buffer))
  inv forall(k, 0, len(q.buffer) + 1, psum(QW(q), QF(q), fieldmap(files.Stats.Size), k) < totSize)

func queue.(*QueueBaseFloat).insertOrderedValue(q, oVal)
  requires ref(q) > 0 && arr(q.orderedValues) != 0 && q.getFeature != nil && q.getInsertIdx != nil && q.getIndex2Remove != nil
  requires absent: forall(j, 0, len(q.orderedValues), q.orderedValues[j] != oVal)
  requires QueueBaseFloatSorted(q)
  let n0: len(q.orderedValues)
  witness QI0(q) = choose(i, 0, n0 + 1, q.orderedValues[i] == oVal)
  ensures arr(q.orderedValues) != 0
  ensures length: len(q.orderedValues) == n0 + 1
  ensures place: 0 <= QI0(q) && QI0(q) < len(q.orderedValues) && q.orderedValues[QI0(q)] == oVal
  ensures before: forall(i, 0, QI0(q), q.orderedValues[i] == old(q.orderedValues[i]))
  ensures after: forall(i, QI0(q) + 1, len(q.orderedValues), q.orderedValues[i] == old(q.orderedValues[i - 1]))
  ensures sorted: QueueBaseFloatSorted(q)
  modifies field(q.orderedValues), elems(q.orderedValues), field(QI0(q))

func queue.(*QueueBaseFloat).removeOrderedValue(q, value2remove) -> (err)
  requires ref(q) > 0 && arr(q.orderedValues) != 0 && q.getFeature != nil && q.getInsertIdx != nil && q.getIndex2Remove != nil
  requires present: exists(j, 0, len(q.orderedValues), q.orderedValues[j] == value2remove)
  requires QueueBaseFloatSorted(q)
  let n0: len(q.orderedValues)
  let row0: row(q.orderedValues)
  witness QI0(q) = choose(i, 0, n0, old(q.orderedValues[i]) == value2remove)
  ensures isnil(err)
  ensures arr(q.orderedValues) == old(arr(q.orderedValues))
  ensures length: len(q.orderedValues) == n0 - 1
  ensures place: 0 <= QI0(q) && QI0(q) <= len(q.orderedValues)
  ensures at: row0[QI0(q)] == value2remove
  ensures before: forall(i, 0, QI0(q), q.orderedValues[i] == old(q.orderedValues[i]))
  ensures after: forall(i, QI0(q), len(q.orderedValues), q.orderedValues[i] == old(q.orderedValues[i + 1]))
  ensures sorted: QueueBaseFloatSorted(q)
  modifies field(q.orderedValues), elems(q.orderedValues), field(QI0(q))

func queue.(*QueueBaseFloat).insert(q, file) -> (err)
  implements queue.Queue.insert
  use QueueBaseFloat
  ensures key[Q03]: imp(isnil(err), QK(q)[file.Filename] == ite(QDESC(q), 0 - (ite(QWEI(q), file.Weight, file.Size)), ite(QWEI(q), file.Weight, file.Size)))
  ensures sorted[Q03]: QSorted(q)
  let key: ite(QWEI(q), file.Weight, file.Size)
  let isnew: !in(key, q.queue)
  let n0: QN(q)
  witness QK(q) = ite(isnil(err), store(QK(q), file.Filename, ite(QDESC(q), 0 - (key), key)), QK(q))
  witness QOPR(q) = ite(isnil(err) && isnew, lam(v, real, ite(v == key, QI0(q), ite(QOPR(q)[v] >= QI0(q), QOPR(q)[v] + 1, QOPR(q)[v]))), QOPR(q))
  witness QGSR(q) = ite(isnil(err), lam(v, real, ite(v == key && isnew, ite(QI0(q) + 1 < len(q.orderedValues), QGSR(q)[q.orderedValues[QI0(q) + 1]], n0), ite(QOPR(q)[v] > QOPR(q)[key], QGSR(q)[v] + 1, QGSR(q)[v]))), QGSR(q))
  witness QL(q) = ite(isnil(err), store(QL(q), file.Filename, len(q.queue[key]) - 1), QL(q))
  witness QP(q) = ite(isnil(err), lam(x, int, ite(x == file.Filename, QGSR(q)[key] + len(q.queue[key]) - 1, ite(QP(q)[x] < QGSR(q)[key] + len(q.queue[key]) - 1, QP(q)[x], QP(q)[x] + 1))), QP(q))
  witness QW(q) = ite(isnil(err), lam(k, int, ite(k < QP(q)[file.Filename], QW(q)[k], ite(k == QP(q)[file.Filename], file.Filename, QW(q)[k - 1]))), QW(q))
  witness QF(q) = ite(isnil(err), store(QF(q), file.Filename, ref(file)), QF(q))
  witness QN(q) = len(q.files)
  witness QGN(q) = len(q.orderedValues)

func queue.(*QueueBaseFloat).findIndex(q, filename, curQueue, lastIdx) -> (res)
  requires QueueBaseFloatInv(q)
  requires QF(q)[filename] != 0
  requires arr(curQueue) == arr(q.queue[q.lastVal[filename]]) && off(curQueue) == 0 && len(curQueue) == len(q.queue[q.lastVal[filename]])
  requires lastIdx >= QL(q)[filename]
  ensures QueueBaseFloatInv(q)
  ensures res == QL(q)[filename]
  modifies map(q.lastIndex)
  loop 1
  inv QueueBaseFloatInv(q)
  inv idx >= QL(q)[filename]
  inv idx < len(curQueue)

func queue.(*QueueBaseFloat).remove(q, files) -> (err)
  implements queue.Queue.remove
  use QueueBaseFloat
  ensures sorted[Q03]: QSorted(q)
  loop 1
  step row(files) == prev(row(files))
  step imp(len(q.orderedValues) < QGN(q), QI0(q) == QOPR(q)[vals(q.lastVal)[files[K - 1]]] && len(q.orderedValues) == QGN(q) - 1)
  step imp(len(q.orderedValues) < QGN(q), forall(i, 0, len(q.orderedValues), in(q.orderedValues[i], q.queue) && q.orderedValues[i] != vals(q.lastVal)[files[K - 1]] && QOPR(q)[q.orderedValues[i]] == ite(i < QI0(q), i, i + 1)))
  step imp(len(q.orderedValues) < QGN(q), all(i, int, j, int, imp(0 <= i && j == i + 1 && j < len(q.orderedValues), QGSR(q)[q.orderedValues[j]] == QGSR(q)[q.orderedValues[i]] + len(q.queue[q.orderedValues[i]]) + ite(j == QI0(q), 1, 0)), pat(q.orderedValues[i], q.orderedValues[j])))
  witness QGSR(q) = ite(K > 0, lam(v, real, ite(QOPR(q)[v] > QOPR(q)[vals(q.lastVal)[files[K - 1]]], QGSR(q)[v] - 1, QGSR(q)[v])), QGSR(q))
  witness QOPR(q) = ite(K > 0 && len(q.orderedValues) < QGN(q), lam(v, real, ite(QOPR(q)[v] > QOPR(q)[vals(q.lastVal)[files[K - 1]]], QOPR(q)[v] - 1, QOPR(q)[v])), QOPR(q))
  witness QL(q) = ite(K > 0, lam(x, int, ite(vals(q.lastVal)[x] == vals(q.lastVal)[files[K - 1]] && QL(q)[x] > QL(q)[files[K - 1]], QL(q)[x] - 1, QL(q)[x])), QL(q))
  witness QW(q) = ite(K > 0, lam(k, int, ite(k < QP(q)[files[K - 1]], QW(q)[k], QW(q)[k + 1])), QW(q))
  witness QP(q) = ite(K > 0, lam(x, int, ite(QP(q)[x] > QP(q)[files[K - 1]], QP(q)[x] - 1, QP(q)[x])), QP(q))
  witness QF(q) = ite(K > 0, store(QF(q), files[K - 1], 0), QF(q))
  witness QN(q) = len(q.files)
  witness QGN(q) = len(q.orderedValues)
  inv QueueBaseFloatInv(q)
  inv K <= len(files)
  inv QN(q) == pre(QN(q)) - K
  inv forall(i, 0, K, QF(q)[files[i]] == 0)
  inv forall(i, 0, K, pre(QF(q))[files[i]] != 0)
  inv stp(K)
  inv all(x, int, imp(inl(row(files), off(files), K, x), QF(q)[x] == 0), pat(QF(q)[x]))
  inv all(x, int, imp(!inl(row(files), off(files), K, x), QF(q)[x] == pre(QF(q))[x]), pat(QF(q)[x]))
  inv all(x, int, imp(QF(q)[x] != 0, QF(q)[x] == pre(QF(q))[x]), pat(QF(q)[x]))
  inv all(x, int, y, int, imp(QF(q)[x] != 0 && QF(q)[y] != 0, (QP(q)[x] < QP(q)[y]) == (pre(QP(q))[x] < pre(QP(q))[y])), pat(QP(q)[x], QP(q)[y]))

func queue.(*QueueBaseFloat).update(q, file) -> (err)
  implements queue.Queue.update
  use QueueBaseFloat
  ensures key[Q03]: imp(isnil(err), QK(q)[file.Filename] == ite(QDESC(q), 0 - (ite(QWEI(q), file.Weight, file.Size)), ite(QWEI(q), file.Weight, file.Size)))
  ensures sorted[Q03]: QSorted(q)

// removeWorst: k buckets consumed, m files gone
def QueueBaseFloatPart(q, k, m) = ref(q) > 0 && arr(q.buffer) != 0 && QAbs(q) && QORD(q) && !QLRU(q) && q.getFeature != nil && q.getInsertIdx != nil && q.getIndex2Remove != nil && q.files != nil && q.lastIndex != nil && q.lastVal != nil && q.queue != nil && arr(q.orderedValues) != 0 &&
   len(q.files) == QN(q) - m && QueueBaseFloatOrd(q) && QueueBaseFloatBktP(q, k) && QueueBaseFloatMemP(q, k, m)
def QueueBaseFloatBktP(q, k) = all(i, int, j, int, imp(0 <= i && i < j && j < QGN(q), QGSR(q)[q.orderedValues[i]] + len(q.queue[q.orderedValues[i]]) <= QGSR(q)[q.orderedValues[j]]), pat(q.orderedValues[i], q.orderedValues[j])) &&
   forall(j, 0, QGN(q), in(q.orderedValues[j], q.queue) == (j >= k) && QOPR(q)[q.orderedValues[j]] == j && len(q.queue[q.orderedValues[j]]) > 0, pat(q.orderedValues[j])) &&
   all(v, real, imp(in(v, q.queue), k <= QOPR(q)[v] && QOPR(q)[v] < QGN(q) && q.orderedValues[QOPR(q)[v]] == v &&
      len(q.queue[v]) > 0 && 0 <= QGSR(q)[v] && QGSR(q)[v] + len(q.queue[v]) <= QN(q) &&
      owner(arr(q.queue[v])) == ref(q) && ownslot(arr(q.queue[v])) == slotcode("M:float64:[]int64") && ownkeyr(arr(q.queue[v])) == v && allocated(arr(q.queue[v]))), pat(in(v, q.queue)), pat(q.queue[v]), pat(QOPR(q)[v])) &&
   all(v, real, i, int, imp(in(v, q.queue) && 0 <= i && i < len(q.queue[v]), QF(q)[q.queue[v][i]] != 0 && q.lastVal[q.queue[v][i]] == v && QL(q)[q.queue[v][i]] == i), pat(q.queue[v][i]))
def QueueBaseFloatMemP(q, k, m) = all(x, int, in(x, q.files) == (QF(q)[x] != 0 && QP(q)[x] >= m) && in(x, q.lastIndex) == (QF(q)[x] != 0 && QP(q)[x] >= m) && in(x, q.lastVal) == (QF(q)[x] != 0 && QP(q)[x] >= m), pat(QF(q)[x]), pat(in(x, q.files)), pat(in(x, q.lastIndex)), pat(in(x, q.lastVal))) &&
   all(x, int, imp(QF(q)[x] != 0, ref(q.files[x]) == QF(q)[x] && in(q.lastVal[x], q.queue) == (QOPR(q)[q.lastVal[x]] >= k) && 0 <= QOPR(q)[q.lastVal[x]] && QOPR(q)[q.lastVal[x]] < QGN(q) && q.orderedValues[QOPR(q)[q.lastVal[x]]] == q.lastVal[x] && QK(q)[x] == ite(QDESC(q), 0 - (q.lastVal[x]), q.lastVal[x]) &&
      0 <= QL(q)[x] && QL(q)[x] < len(q.queue[q.lastVal[x]]) &&
      QP(q)[x] == QGSR(q)[q.lastVal[x]] + QL(q)[x] && q.lastIndex[x] >= QL(q)[x]), pat(QF(q)[x]), pat(q.files[x]), pat(q.lastIndex[x]), pat(q.lastVal[x]), pat(QL(q)[x])) &&
   all(x, int, imp(QF(q)[x] != 0 && in(q.lastVal[x], q.queue), q.queue[q.lastVal[x]][QL(q)[x]] == x), pat(QL(q)[x]), pat(q.lastVal[x]))
def QueueBaseFloatStart(q, k) = ite(k < QGN(q), QGSR(q)[q.orderedValues[k]], QN(q))

func queue.(*QueueBaseFloat).removeWorst(q, files) -> (err)
  implements queue.Queue.removeWorst
  use QueueBaseFloat
  okwhen isnil(err)
  let n0: len(files)
  let row0: row(files)
  let o0: off(files)
  witness QL(q) = lam(x, int, ite(len(q.orderedValues) > 0 && vals(q.lastVal)[x] == q.orderedValues[0], QL(q)[x] - (n0 - QGSR(q)[q.orderedValues[0]]), QL(q)[x]))
  witness QF(q) = lam(x, int, ite(QF(q)[x] != 0 && 0 <= QP(q)[x] && QP(q)[x] < n0, 0, QF(q)[x]))
  witness QOPR(q) = lam(v, real, QOPR(q)[v] - (QGN(q) - len(q.orderedValues)))
  witness QGSR(q) = lam(v, real, ite(QGSR(q)[v] <= n0, 0, QGSR(q)[v] - n0))
  witness QP(q) = lam(x, int, QP(q)[x] - n0)
  witness QW(q) = lam(k, int, QW(q)[k + n0])
  witness QN(q) = len(q.files)
  witness QGN(q) = len(q.orderedValues)
  loop 1
  vars fs:S0
  inv K <= QGN(q) && len(q.orderedValues) == QGN(q)
  inv QueueBaseFloatPart(q, K, QueueBaseFloatStart(q, K))
  inv len(fs) == n0 - QueueBaseFloatStart(q, K)
  inv K == 0 || len(fs) > 0
  inv arr(fs) == arr(files) && off(fs) == o0
  inv forall(i, 0, len(fs), fs[i] == row0[o0 + i + QueueBaseFloatStart(q, K)])
  inv forall(i, 0, QueueBaseFloatStart(q, K), row0[o0 + i] == QW(q)[i])
  inv len(ordValues2remove) == K && owner(arr(ordValues2remove)) == 0 && fresh(arr(ordValues2remove)) && allocated(arr(ordValues2remove))
  inv forall(i, 0, K, ordValues2remove[i] == q.orderedValues[i])
  loop 2
  inv Kout < QGN(q) && len(q.orderedValues) == QGN(q)
  inv K <= len(q.queue[q.orderedValues[Kout]]) && K <= len(fs)
  inv QueueBaseFloatPart(q, Kout, QueueBaseFloatStart(q, Kout) + K)
  inv forall(i, 0, QueueBaseFloatStart(q, Kout) + K, row0[o0 + i] == QW(q)[i])
  loop 3
  modifies field(q.orderedValues), elems(q.orderedValues), field(QI0(q))
  inv K <= len(ordValues2remove) && len(ordValues2remove) <= QGN(q)
  inv arr(q.orderedValues) == pre(arr(q.orderedValues))
  inv forall(i, 0, len(ordValues2remove), ordValues2remove[i] == pre(q.orderedValues[i]))
  inv all(v, real, i, int, imp(in(v, q.queue) && 0 <= i && i < len(q.queue[v]), QF(q)[q.queue[v][i]] != 0 && q.lastVal[q.queue[v][i]] == v && QL(q)[q.queue[v][i]] == i + ite(QOPR(q)[v] == len(ordValues2remove), n0 - pre(QueueBaseFloatStart(q, len(ordValues2remove))), 0)), pat(q.queue[v][i]))
  inv all(x, int, imp(QF(q)[x] != 0 && QP(q)[x] >= n0, in(q.lastVal[x], q.queue) && 0 <= QL(q)[x] - ite(QOPR(q)[q.lastVal[x]] == len(ordValues2remove), n0 - pre(QueueBaseFloatStart(q, len(ordValues2remove))), 0) &&
     QL(q)[x] - ite(QOPR(q)[q.lastVal[x]] == len(ordValues2remove), n0 - pre(QueueBaseFloatStart(q, len(ordValues2remove))), 0) < len(q.queue[q.lastVal[x]]) &&
     q.queue[q.lastVal[x]][QL(q)[x] - ite(QOPR(q)[q.lastVal[x]] == len(ordValues2remove), n0 - pre(QueueBaseFloatStart(q, len(ordValues2remove))), 0)] == x), pat(QL(q)[x]), pat(QF(q)[x]))
  inv forall(j, K, QGN(q), q.orderedValues[j - K] == pre(q.orderedValues[j]))
  inv len(q.orderedValues) == QGN(q) - K
  inv QueueBaseFloatSorted(q)
  inv forall(i, 0, len(q.orderedValues), q.orderedValues[i] == pre(q.orderedValues[i + K]))

fieldfn queue.QueueBaseFloat.getFeature(q, file) -> (res)
  requires ref(file) > 0
  ensures feature: res == ite(QWEI(q), file.Weight, file.Size)
  pure

fieldfn queue.QueueBaseFloat.getInsertIdx(q, orderedValues, oVal) -> (res)
  requires all(i, int, j, int, imp(off(orderedValues) <= i && i < j && j < off(orderedValues) + len(orderedValues), ite(QDESC(q), 0 - (row(orderedValues)[i]), row(orderedValues)[i]) < ite(QDESC(q), 0 - (row(orderedValues)[j]), row(orderedValues)[j])), pat(row(orderedValues)[i], row(orderedValues)[j]))
  ensures bounds: 0 <= res && res <= len(orderedValues)
  ensures below: forall(i, 0, res, ite(QDESC(q), 0 - (orderedValues[i]), orderedValues[i]) <= ite(QDESC(q), 0 - (oVal), oVal))
  ensures above: forall(i, res, len(orderedValues), ite(QDESC(q), 0 - (orderedValues[i]), orderedValues[i]) > ite(QDESC(q), 0 - (oVal), oVal))
  pure

fieldfn queue.QueueBaseFloat.getIndex2Remove(q, orderedValues, value2remove) -> (res)
  requires all(i, int, j, int, imp(off(orderedValues) <= i && i < j && j < off(orderedValues) + len(orderedValues), ite(QDESC(q), 0 - (row(orderedValues)[i]), row(orderedValues)[i]) < ite(QDESC(q), 0 - (row(orderedValues)[j]), row(orderedValues)[j])), pat(row(orderedValues)[i], row(orderedValues)[j]))
  ensures bounds: 0 <= res && res <= len(orderedValues)
  ensures below: forall(i, 0, res, ite(QDESC(q), 0 - (orderedValues[i]), orderedValues[i]) < ite(QDESC(q), 0 - (value2remove), value2remove))
  ensures above: forall(i, res, len(orderedValues), ite(QDESC(q), 0 - (orderedValues[i]), orderedValues[i]) >= ite(QDESC(q), 0 - (value2remove), value2remove))
  pure

template floatinit
  implements queue.Queue.init
  define QOK(q) = QueueBaseFloatInv(q)
  witness QN(q) = 0
  witness QGN(q) = 0
  witness QF(q) = constarr("int->int", 0)
  witness QORD(q) = true
  witness QLRU(q) = false

func queue.(*SizeSmall).init(q)
  use floatinit
  witness QDESC(q) = false
  witness QWEI(q) = false
  ensures policy[C14]: !QDESC(q) && !QWEI(q)

func queue.(*SizeBig).init(q)
  use floatinit
  witness QDESC(q) = true
  witness QWEI(q) = false
  ensures policy[C14]: QDESC(q) && !QWEI(q)

func queue.(*Weighted).init(q)
  use floatinit
  witness QDESC(q) = false
  witness QWEI(q) = true
  ensures policy[C14]: !QDESC(q) && QWEI(q)

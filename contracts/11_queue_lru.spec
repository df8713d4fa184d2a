area sim
def LRUInv(q) = ref(q) > 0 && arr(q.buffer) != 0 && QAbs(q) && QORD(q) && QLRU(q) && q.files != nil && q.lastIndex != nil &&
   len(q.queue) == QN(q) && len(q.files) == QN(q) &&
   forall(k, 0, QN(q), q.queue[k] == QW(q)[k], pat(QW(q)[k]), pat(q.queue[k])) &&
   all(x, int, in(x, q.files) == (QF(q)[x] != 0) && in(x, q.lastIndex) == (QF(q)[x] != 0), pat(QF(q)[x]), pat(in(x, q.files)), pat(in(x, q.lastIndex))) &&
   all(x, int, imp(QF(q)[x] != 0, ref(q.files[x]) == QF(q)[x] && q.lastIndex[x] >= QP(q)[x]), pat(QF(q)[x]), pat(q.files[x]), pat(q.lastIndex[x]))

template lru
  define QOK(q) = LRUInv(q)

func queue.(*LRU).init(q)
  implements queue.Queue.init
  use lru
  witness QN(q) = 0
  witness QF(q) = constarr("int->int", 0)
  witness QORD(q) = true
  witness QLRU(q) = true
  ensures QORD(q) && QLRU(q)

func queue.(*LRU).Check(q, file) -> (res)
  implements queue.Queue.Check
  use lru
  pure

func queue.(*LRU).len(q) -> (res)
  implements queue.Queue.len
  use lru
  pure

func queue.(*LRU).getFileStats(q, filename) -> (res)
  implements queue.Queue.getFileStats
  use lru
  pure

func queue.(*LRU).getQueue(q) -> (res)
  implements queue.Queue.getQueue
  use lru
  requires QORD(q) && QLRU(q)
  loop 1
  inv len(q.buffer) == K && K <= QN(q)
  inv forall(k, 0, K, ref(q.buffer[k]) == QF(q)[QW(q)[QN(q) - 1 - k]])
  inv LRUInv(q)

func queue.(*LRU).getFromWorst(q) -> (res)
  implements queue.Queue.getFromWorst
  use lru
  loop 1
  inv len(q.buffer) == K && K <= QN(q)
  inv forall(k, 0, K, ref(q.buffer[k]) == QF(q)[QW(q)[k]])
  inv LRUInv(q)

func queue.(*LRU).getWorstFilesUp2Size(q, totSize) -> (res)
  implements queue.Queue.getWorstFilesUp2Size
  use lru
  loop 1
  inv len(q.buffer) == K && K <= QN(q)
  inv forall(k, 0, K, ref(q.buffer[k]) == QF(q)[QW(q)[k]])
  inv LRUInv(q)
  inv F0 == psum(QW(q), QF(q), fieldmap(files.Stats.Size), K)
  inv forall(k, 0, K + 1, psum(QW(q), QF(q), fieldmap(files.Stats.Size), k) < totSize)

func queue.(*LRU).insert(q, file) -> (err)
  implements queue.Queue.insert
  use lru
  witness QN(q) = len(q.queue)
  witness QF(q) = ite(isnil(err), store(QF(q), file.Filename, ref(file)), QF(q))
  witness QP(q) = ite(isnil(err), store(QP(q), file.Filename, QN(q) - 1), QP(q))
  witness QW(q) = ite(isnil(err), store(QW(q), QN(q) - 1, file.Filename), QW(q))

func queue.(*LRU).findIndex(q, filename, lastIdx) -> (res)
  requires LRUInv(q)
  requires lastIdx >= ite(QF(q)[filename] != 0, QP(q)[filename], 0)
  ensures same(QN(q), QF(q), QW(q), QP(q), QK(q), QORD(q), QLRU(q))
  ensures LRUInv(q)
  ensures res == ite(QF(q)[filename] != 0, QP(q)[filename], 0 - 1)
  modifies map(q.lastIndex)
  loop 1
  inv LRUInv(q)
  inv imp(QF(q)[filename] != 0, idx >= QP(q)[filename])
  inv idx < QN(q)

func queue.(*LRU).update(q, file) -> (err)
  implements queue.Queue.update
  use lru
  let p0: QP(q)[file.Filename]
  witness QP(q) = ite(isnil(err), lam(x, int, ite(x == file.Filename, QN(q) - 1, ite(QP(q)[x] > p0, QP(q)[x] - 1, QP(q)[x]))), QP(q))
  witness QW(q) = ite(isnil(err), row(q.queue), QW(q))

func queue.(*LRU).remove(q, files) -> (err)
  implements queue.Queue.remove
  use lru
  loop 1
  step row(files) == prev(row(files))
  witness QP(q) = ite(K > 0, lam(x, int, ite(QP(q)[x] > QP(q)[files[K - 1]], QP(q)[x] - 1, QP(q)[x])), QP(q))
  witness QF(q) = ite(K > 0, store(QF(q), files[K - 1], 0), QF(q))
  witness QW(q) = row(q.queue)
  witness QN(q) = len(q.queue)
  inv LRUInv(q)
  inv K <= len(files)
  inv QN(q) == pre(QN(q)) - K
  inv forall(i, 0, K, QF(q)[files[i]] == 0)
  inv forall(i, 0, K, pre(QF(q))[files[i]] != 0)
  inv stp(K)
  inv all(x, int, imp(inl(row(files), off(files), K, x), QF(q)[x] == 0), pat(QF(q)[x]))
  inv all(x, int, imp(!inl(row(files), off(files), K, x), QF(q)[x] == pre(QF(q))[x]), pat(QF(q)[x]))
  inv all(x, int, imp(QF(q)[x] != 0, QF(q)[x] == pre(QF(q))[x]), pat(QF(q)[x]))
  inv all(x, int, y, int, imp(QF(q)[x] != 0 && QF(q)[y] != 0, (QP(q)[x] < QP(q)[y]) == (pre(QP(q))[x] < pre(QP(q))[y])), pat(QP(q)[x], QP(q)[y]))

func queue.(*LRU).removeWorst(q, files) -> (err)
  implements queue.Queue.removeWorst
  use lru
  okwhen isnil(err)
  let qw0: QW(q)
  let qf0: QF(q)
  let qp0: QP(q)
  witness QN(q) = len(q.queue)
  witness QW(q) = row(q.queue)
  witness QP(q) = lam(x, int, qp0[x] - len(files))
  witness QF(q) = lam(x, int, ite(qf0[x] != 0 && qp0[x] < len(files), 0, qf0[x]))
  loop 1
  inv K <= len(files)
  inv forall(i, 0, K, files[i] == qw0[i])
  inv len(q.files) == QN(q) - K
  inv all(x, int, in(x, q.files) == (qf0[x] != 0 && qp0[x] >= K) && in(x, q.lastIndex) == (qf0[x] != 0 && qp0[x] >= K), pat(in(x, q.files)), pat(in(x, q.lastIndex)), pat(qf0[x]))

area sim
// The unordered queue: the listing order is the one met last.
def QNoneInv(q) = ref(q) > 0 && arr(q.buffer) != 0 && QMem(q) && !QORD(q) && !QLRU(q) && q.files != nil && len(q.files) == QN(q) &&
   all(x, int, in(x, q.files) == (QF(q)[x] != 0) && imp(QF(q)[x] != 0, ref(q.files[x]) == QF(q)[x]), pat(QF(q)[x]), pat(in(x, q.files)), pat(q.files[x]))

template none
  define QOK(q) = QNoneInv(q)

func queue.(*QueueNone).init(q)
  implements queue.Queue.init
  use none
  witness QN(q) = 0
  witness QF(q) = constarr("int->int", 0)
  witness QORD(q) = false
  witness QLRU(q) = false
  ensures !QORD(q) && !QLRU(q)

func queue.(*QueueNone).Check(q, file) -> (res)
  implements queue.Queue.Check
  use none
  pure

func queue.(*QueueNone).len(q) -> (res)
  implements queue.Queue.len
  use none
  pure

func queue.(*QueueNone).getFileStats(q, filename) -> (res)
  implements queue.Queue.getFileStats
  use none
  pure

template noneloop
  loop 1
  witness QW(q) = ite(K > 0, store(QW(q), K - 1, key), QW(q))
  witness QP(q) = ite(K > 0, store(QP(q), key, K - 1), constarr("int->int", 0 - 1))
  inv len(q.buffer) == K && K <= QN(q)
  inv all(x, int, imp(seen[x], QF(q)[x] != 0 && 0 <= QP(q)[x] && QP(q)[x] < K && QW(q)[QP(q)[x]] == x), pat(seen[x]), pat(QP(q)[x]))
  inv all(x, int, imp(!seen[x], QP(q)[x] == 0 - 1), pat(seen[x]), pat(QP(q)[x]))
  inv forall(k, 0, K, seen[QW(q)[k]] && QF(q)[QW(q)[k]] != 0 && QP(q)[QW(q)[k]] == k, pat(QW(q)[k]))
  inv forall(k, 0, K, ref(q.buffer[k]) == QF(q)[QW(q)[k]])
  inv QNoneInv(q)

func queue.(*QueueNone).getQueue(q) -> (res)
  implements queue.Queue.getQueue
  implements queue.Queue.getFromWorst
  use none
  use noneloop
  ensures all(x, int, imp(QF(q)[x] != 0, 0 <= QP(q)[x] && QP(q)[x] < QN(q) && QW(q)[QP(q)[x]] == x), pat(QP(q)[x]), pat(QF(q)[x]))

func queue.(*QueueNone).getFromWorst(q) -> (res)
  implements queue.Queue.getFromWorst
  use none

func queue.(*QueueNone).getWorstFilesUp2Size(q, totSize) -> (res)
  implements queue.Queue.getWorstFilesUp2Size
  use none
  witness QP(q) = ite(len(q.buffer) > K1, store(QP(q), rangekey, K1), QP(q))
  witness QW(q) = ite(len(q.buffer) > K1, store(QW(q), K1, rangekey), QW(q))
  use noneloop
  inv F0 == psum(QW(q), QF(q), fieldmap(files.Stats.Size), K)
  inv forall(k, 0, K + 1, psum(QW(q), QF(q), fieldmap(files.Stats.Size), k) < totSize)

func queue.(*QueueNone).insert(q, file) -> (err)
  implements queue.Queue.insert
  use none
  witness QN(q) = len(q.files)
  witness QF(q) = ite(isnil(err), store(QF(q), file.Filename, ref(file)), QF(q))

func queue.(*QueueNone).update(q, file) -> (err)
  implements queue.Queue.update
  use none

func queue.(*QueueNone).remove(q, files) -> (err)
  implements queue.Queue.remove
  use none
  loop 1
  witness QF(q) = ite(K > 0, store(QF(q), files[K - 1], 0), QF(q))
  witness QN(q) = len(q.files)
  inv QNoneInv(q)
  inv K <= len(files)
  inv forall(i, 0, K, QF(q)[files[i]] == 0)
  inv stp(K)
  inv all(x, int, imp(inl(row(files), off(files), K, x), QF(q)[x] == 0), pat(QF(q)[x]))
  inv all(x, int, imp(!inl(row(files), off(files), K, x), QF(q)[x] == pre(QF(q))[x]), pat(QF(q)[x]))
  inv all(x, int, imp(QF(q)[x] != 0, QF(q)[x] == pre(QF(q))[x]), pat(QF(q)[x]))

func queue.(*QueueNone).removeWorst(q, files) -> (err)
  implements queue.Queue.removeWorst
  use none
  inline queue.(*QueueNone).remove
  okwhen isnil(err)
  let qf0: QF(q)
  let qp0: QP(q)
  let qn0: QN(q)
  witness QN(q) = len(q.files)
  witness QF(q) = lam(x, int, ite(qf0[x] != 0 && 0 <= qp0[x] && qp0[x] < len(files), 0, qf0[x]))
  witness QP(q) = lam(x, int, qp0[x] - len(files))
  loop 1
  inv K <= len(files)
  inv len(q.files) == qn0 - K
  inv all(x, int, in(x, q.files) == (qf0[x] != 0 && !(0 <= qp0[x] && qp0[x] < K)), pat(in(x, q.files)), pat(qf0[x]))
  inv all(x, int, imp(in(x, q.files), len(q.files) > 0), pat(in(x, q.files)))

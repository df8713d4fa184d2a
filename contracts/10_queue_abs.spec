area sim
// Abstract view of a replacement queue: a finite map from file names to
// records together with the eviction order.
//   QN  number of files            QW  position -> name (worst first)
//   QP  name -> position           QF  name -> record (nil when absent)
//   QK  name -> key taken at the last insertion or update (ascending order
//       evicts first; the biggest-size queue uses the negated size)
//   QORD  the queue has an eviction order      QLRU  the order is recency
ghost QN int
ghost QW int->int
ghost QP int->int
ghost QF int->int
ghost QK int->real
ghost QORD bool
ghost QLRU bool
ghost QOK bool
//   QGN  number of buckets          QOPI/QOPR  bucket key -> bucket number
//   QGSI/QGSR  bucket key -> start position    QL  name -> index in its bucket
//   QDESC  larger keys evict first   QWEI  the key is the weight (else the size)
ghost QGN int
ghost QOPI int->int
ghost QOPR real->int
ghost QGSI int->int
ghost QGSR real->int
ghost QL int->int
ghost QDESC bool
ghost QWEI bool
ghost QI0 int

owned queue.LRU.files, queue.LRU.lastIndex, queue.LRU.queue, queue.LRU.buffer
owned queue.QueueNone.files, queue.QueueNone.buffer
owned queue.LFU.files, queue.LFU.lastVal, queue.LFU.lastIndex, queue.LFU.orderedValues, queue.LFU.queue, queue.LFU.buffer
owned queue.QueueBaseFloat.files, queue.QueueBaseFloat.lastVal, queue.QueueBaseFloat.lastIndex, queue.QueueBaseFloat.orderedValues, queue.QueueBaseFloat.queue, queue.QueueBaseFloat.buffer
owned M:int64:[]int64, M:float64:[]int64

def QPresent(q, x) = QF(q)[x] != 0
// what every queue guarantees about membership
def QMem(q) = QN(q) >= 0 && all(x, int, imp(QF(q)[x] != 0, QF(q)[x] > 0 && QF(q)[x] < alloc() && QN(q) > 0), pat(QF(q)[x]))
// positions and names are inverse to each other
def QSeq(q) = forall(k, 0, QN(q), QF(q)[QW(q)[k]] != 0 && QP(q)[QW(q)[k]] == k, pat(QW(q)[k])) &&
   all(x, int, imp(QF(q)[x] != 0, 0 <= QP(q)[x] && QP(q)[x] < QN(q) && QW(q)[QP(q)[x]] == x), pat(QF(q)[x]), pat(QP(q)[x]))
def QSorted(q) = all(x, int, y, int, imp(QF(q)[x] != 0 && QF(q)[y] != 0 && QP(q)[x] < QP(q)[y], QK(q)[x] <= QK(q)[y]), pat(QP(q)[x], QP(q)[y]))
def QAbs(q) = QMem(q) && QSeq(q)

// inl(r, o, n, x): x is among r[o], ..., r[o+n-1]
uf inl(int->int, int, int, int) bool
uf stp(int) bool
axiom stpT(n: int)
  ensures stp(n)
  auto stp(n)
axiom inl0(r: int->int, o: int, n: int, x: int)
  requires n <= 0
  ensures !inl(r, o, n, x)
  auto inl(r, o, n, x)
axiom inlS(r: int->int, o: int, n: int, x: int)
  requires n > 0
  ensures inl(r, o, n, x) == (inl(r, o, n - 1, x) || r[o + (n - 1)] == x)
  auto pat(inl(r, o, n, x), stp(n))

// the key a queue takes of a record, and the place of a name among the others
def QKeyOf(q, f) = ite(typeis(q, *queue.LFU), real(f.Frequency), ite(QDESC(q), 0 - (ite(QWEI(q), f.Weight, f.Size)), ite(QWEI(q), f.Weight, f.Size)))
// what the kinds of queue go by
def QKind(q) = imp(typeis(q, *queue.SizeBig) || typeis(q, *queue.SizeSmall), QDESC(q) == typeis(q, *queue.SizeBig) && !QWEI(q)) && imp(typeis(q, *queue.Weighted), !QDESC(q) && QWEI(q)) &&
   imp(typeis(q, *queue.LRU), QORD(q) && QLRU(q)) && imp(typeis(q, *queue.LFU) || typeis(q, *queue.SizeBig) || typeis(q, *queue.SizeSmall) || typeis(q, *queue.Weighted), QORD(q) && !QLRU(q)) && imp(typeis(q, *queue.QueueNone), !QORD(q) && !QLRU(q))
def QPlaced(q, n) = all(x, int, imp(QF(q)[x] != 0 && x != n, (QP(q)[x] < QP(q)[n]) == (QLRU(q) || QK(q)[x] <= QK(q)[n])), pat(QP(q)[x]))

iface queue.Queue.init(q)
  requires ref(q) > 0
  ensures kind: imp(old(QOK(q)), same(QORD(q), QLRU(q)))
  ensures policy: QKind(q)
  ensures QOK(q)
  ensures QN(q) == 0
  ensures wf: QMem(q) && imp(QORD(q), QSeq(q))
  ensures empty: all(x, int, QF(q)[x] == 0, pat(QF(q)[x]))
  modifies obj(q), owned(q)

iface queue.Queue.Check(q, file) -> (res)
  requires QOK(q)
  ensures member: res == (QF(q)[file] != 0)
  pure

iface queue.Queue.len(q) -> (res)
  requires QOK(q)
  ensures count: res == QN(q)
  pure

iface queue.Queue.getFileStats(q, filename) -> (res)
  requires QOK(q)
  requires present: QF(q)[filename] != 0
  ensures record: ref(res) == QF(q)[filename]
  pure

template listing
  requires QOK(q)
  ensures QOK(q)
  ensures unchanged: same(QN(q), QF(q), QK(q), QORD(q), QLRU(q), QDESC(q), QWEI(q)) && imp(QORD(q), same(QW(q), QP(q)))
  ensures owned: owner(arr(res)) == ref(q)
  ensures off(res) == 0
  ensures places: all(x, int, imp(QF(q)[x] != 0 && 0 <= QP(q)[x] && QP(q)[x] < len(res), QW(q)[QP(q)[x]] == x), pat(QP(q)[x]))
  modifies obj(q), owned(q)

iface queue.Queue.getFromWorst(q) -> (res)
  use listing
  ensures length: len(res) == QN(q)
  ensures listed: forall(k, 0, len(res), ref(res[k]) == QF(q)[QW(q)[k]] && QF(q)[QW(q)[k]] != 0 && QP(q)[QW(q)[k]] == k)
  ensures complete: all(x, int, imp(QF(q)[x] != 0, 0 <= QP(q)[x] && QP(q)[x] < QN(q) && QW(q)[QP(q)[x]] == x))

iface queue.Queue.getQueue(q) -> (res)
  use listing
  ensures length[Q06]: len(res) == QN(q)
  ensures listed[Q06]: imp(QORD(q), forall(k, 0, len(res), ref(res[k]) == QF(q)[QW(q)[QN(q) - 1 - k]]))
  ensures listedNone[Q06]: imp(!QORD(q), forall(k, 0, len(res), ref(res[k]) == QF(q)[QW(q)[k]]))
  ensures distinct[Q06]: forall(k, 0, len(res), QF(q)[QW(q)[k]] != 0 && QP(q)[QW(q)[k]] == k)
  ensures complete[Q06]: all(x, int, imp(QF(q)[x] != 0, 0 <= QP(q)[x] && QP(q)[x] < QN(q) && QW(q)[QP(q)[x]] == x))

// psum(W, F, S, n): total size of the first n files of the order W
uf psum(int->int, int->int, int->real, int) real
axiom psum0(W: int->int, F: int->int, S: int->real)
  ensures psum(W, F, S, 0) == 0
  auto psum(W, F, S, 0)
axiom psumS(W: int->int, F: int->int, S: int->real, n: int)
  requires n > 0
  ensures psum(W, F, S, n) == psum(W, F, S, n - 1) + S[F[W[n - 1]]]
  auto psum(W, F, S, n)

lemma psumStore(W: int->int, F: int->int, S: int->real, p: int, x: int, n: int)
  requires 0 <= n && n <= p
  ensures psum(store(W, p, x), F, S, n) == psum(W, F, S, n)
  induct n
  auto psum(store(W, p, x), F, S, n)

iface queue.Queue.getWorstFilesUp2Size(q, totSize) -> (res)
  requires positive: totSize > 0
  use listing
  ensures bound: len(res) <= QN(q)
  ensures listed: forall(k, 0, len(res), ref(res[k]) == QF(q)[QW(q)[k]] && QF(q)[QW(q)[k]] != 0 && QP(q)[QW(q)[k]] == k)
  ensures shortest[Q04,OCC]: forall(k, 0, len(res), psum(QW(q), QF(q), fieldmap(files.Stats.Size), k) < totSize)
  ensures reached[Q04,OCC]: len(res) == QN(q) || psum(QW(q), QF(q), fieldmap(files.Stats.Size), len(res)) >= totSize
  ensures complete[Q04,OCC]: imp(psum(QW(q), QF(q), fieldmap(files.Stats.Size), len(res)) < totSize || QORD(q) && len(res) == QN(q), all(x, int, imp(QF(q)[x] != 0, 0 <= QP(q)[x] && QP(q)[x] < QN(q) && QW(q)[QP(q)[x]] == x)))

iface queue.Queue.insert(q, file) -> (err)
  requires QOK(q)
  requires ref(file) > 0
  ensures QOK(q)
  ensures same(QORD(q), QLRU(q), QDESC(q), QWEI(q))
  ensures wf: QMem(q) && imp(QORD(q), QSeq(q))
  ensures refused: isnil(err) == (old(QF(q))[file.Filename] == 0)
  ensures refusedSame: imp(!isnil(err), same(QN(q), QF(q), QW(q), QP(q), QK(q)))
  ensures count: imp(isnil(err), QN(q) == old(QN(q)) + 1)
  ensures member: imp(isnil(err), all(x, int, QF(q)[x] == ite(x == file.Filename, ref(file), old(QF(q))[x]), pat(QF(q)[x])))
  ensures stored: imp(isnil(err), QF(q) == store(old(QF(q)), file.Filename, ref(file)))
  ensures keys[Q02,Q03,C04]: imp(isnil(err), all(x, int, imp(x != file.Filename, QK(q)[x] == old(QK(q))[x]), pat(QK(q)[x])))
  ensures order[Q02,Q03,C04]: imp(isnil(err) && QORD(q), all(x, int, y, int, imp(QF(q)[x] != 0 && QF(q)[y] != 0 && x != file.Filename && y != file.Filename,
     (QP(q)[x] < QP(q)[y]) == (old(QP(q))[x] < old(QP(q))[y])), pat(QP(q)[x], QP(q)[y])))
  ensures place[Q02,Q03,C04,C14]: imp(isnil(err) && QORD(q), QPlaced(q, file.Filename))
  ensures key[Q03,C04,C14]: imp(isnil(err) && QORD(q) && !QLRU(q), QK(q)[file.Filename] == QKeyOf(q, file))
  modifies obj(q), owned(q)

iface queue.Queue.update(q, file) -> (err)
  requires QOK(q)
  requires ref(file) > 0
  ensures QOK(q)
  ensures same(QORD(q), QLRU(q), QDESC(q), QWEI(q))
  ensures wf: QMem(q) && imp(QORD(q), QSeq(q))
  ensures refused: isnil(err) == (old(QF(q))[file.Filename] == ref(file))
  ensures refusedSame: imp(!isnil(err), same(QN(q), QF(q), QW(q), QP(q), QK(q)))
  ensures members: same(QN(q), QF(q))
  ensures keys[Q02,Q03,C04]: imp(isnil(err), all(x, int, imp(x != file.Filename, QK(q)[x] == old(QK(q))[x]), pat(QK(q)[x])))
  ensures order[Q02,Q03,C04]: imp(isnil(err) && QORD(q), all(x, int, y, int, imp(QF(q)[x] != 0 && QF(q)[y] != 0 && x != file.Filename && y != file.Filename,
     (QP(q)[x] < QP(q)[y]) == (old(QP(q))[x] < old(QP(q))[y])), pat(QP(q)[x], QP(q)[y])))
  ensures place[Q02,Q03,C04,C14]: imp(isnil(err) && QORD(q), QPlaced(q, file.Filename))
  ensures key[Q03,C04,C14]: imp(isnil(err) && QORD(q) && !QLRU(q), QK(q)[file.Filename] == QKeyOf(q, file))
  modifies obj(q), owned(q)

iface queue.Queue.remove(q, files) -> (err)
  requires QOK(q)
  requires outside: owner(arr(files)) != ref(q) && allocated(arr(files)) || arr(files) == 0
  ensures QOK(q)
  ensures same(QORD(q), QLRU(q), QDESC(q), QWEI(q))
  ensures wf: QMem(q) && imp(QORD(q), QSeq(q))
  ensures accepted: imp(forall(i, 0, len(files), old(QF(q))[files[i]] != 0 && !inl(row(files), off(files), i, files[i])), isnil(err))
  ensures refusedAbsent: imp(isnil(err) && QORD(q), forall(i, 0, len(files), old(QF(q))[files[i]] != 0))
  ensures count: imp(isnil(err) && QORD(q), QN(q) == old(QN(q)) - len(files))
  ensures removed: imp(isnil(err), forall(i, 0, len(files), QF(q)[files[i]] == 0))
  ensures removedAll: imp(isnil(err), stp(len(files)) && all(x, int, imp(inl(row(files), off(files), len(files), x), QF(q)[x] == 0), pat(QF(q)[x])))
  ensures kept: imp(isnil(err), all(x, int, imp(!inl(row(files), off(files), len(files), x), QF(q)[x] == old(QF(q))[x]), pat(QF(q)[x])))
  ensures subset: all(x, int, imp(QF(q)[x] != 0, QF(q)[x] == old(QF(q))[x]), pat(QF(q)[x]))
  ensures keys[Q02,Q03,C04]: same(QK(q))
  ensures order[Q02,Q03,C04]: imp(QORD(q), all(x, int, y, int, imp(QF(q)[x] != 0 && QF(q)[y] != 0,
     (QP(q)[x] < QP(q)[y]) == (old(QP(q))[x] < old(QP(q))[y])), pat(QP(q)[x], QP(q)[y])))
  modifies obj(q), owned(q)

iface queue.Queue.removeWorst(q, files) -> (err)
  requires QOK(q)
  requires outside: owner(arr(files)) != ref(q) && allocated(arr(files)) || arr(files) == 0
  requires selected: imp(!QORD(q), forall(i, 0, len(files), QF(q)[files[i]] != 0 && QP(q)[files[i]] == i) && all(x, int, imp(QF(q)[x] != 0 && 0 <= QP(q)[x] && QP(q)[x] < len(files), files[QP(q)[x]] == x), pat(QP(q)[x])))
  requires atMost: len(files) <= QN(q)
  ensures same(QORD(q), QLRU(q), QDESC(q), QWEI(q))
  ensures refused: isnil(err) == imp(QORD(q), forall(i, 0, len(files), old(files[i]) == old(QW(q))[i]))
  ensures ok: imp(isnil(err), QOK(q))
  ensures wf: imp(isnil(err), QMem(q) && imp(QORD(q), QSeq(q)))
  ensures count: imp(isnil(err), QN(q) == old(QN(q)) - len(files))
  ensures removed: imp(isnil(err), all(x, int, QF(q)[x] == ite(old(QF(q))[x] != 0 && 0 <= old(QP(q))[x] && old(QP(q))[x] < len(files), 0, old(QF(q))[x]), pat(QF(q)[x])))
  ensures truncated: imp(isnil(err), QF(q) == trunc(old(QF(q)), old(QP(q)), len(files)))
  ensures keys[Q02,Q03,C04]: imp(isnil(err), same(QK(q)))
  ensures order[Q02,Q03,C04]: imp(isnil(err) && QORD(q), all(x, int, imp(QF(q)[x] != 0, QP(q)[x] == old(QP(q))[x] - len(files)), pat(QP(q)[x])))
  modifies obj(q), owned(q), elems(files)

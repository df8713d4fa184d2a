area sim
// Categories of the eviction agent.
// lsum(r, o, v, n): v[r[o]] + ... + v[r[o+n-1]]
uf lsum(int->int, int, int->real, int) real
axiom lsum0(r: int->int, o: int, v: int->real)
  ensures lsum(r, o, v, 0) == 0
  auto lsum(r, o, v, 0)
axiom lsumS(r: int->int, o: int, v: int->real, n: int)
  ensures imp(n > 0, lsum(r, o, v, n) == lsum(r, o, v, n - 1) + v[r[o + (n - 1)]])
lemma lsumCong(r: int->int, o: int, v: int->real, s: int->int, p: int, w: int->real, n: int)
  requires n >= 0
  requires forall(k, 0, n, v[r[o + k]] == w[s[p + k]])
  ensures lsum(r, o, v, n) == lsum(s, p, w, n)
  induct n
  hint lsumS(r, o, v, n)
  hint lsumS(s, p, w, n)
lemma lsumStore(r: int->int, o: int, v: int->real, x: int, y: real, n: int)
  requires n >= 0
  requires forall(k, 0, n, r[o + k] != x)
  ensures lsum(r, o, store(v, x, y), n) == lsum(r, o, v, n)
  induct n
  hint lsumS(r, o, v, n)
  hint lsumS(r, o, store(v, x, y), n)
  auto lsum(r, o, store(v, x, y), n)
lemma lsumSame(r: int->int, o: int, v: int->real, w: int->real, n: int)
  requires n >= 0
  requires forall(k, 0, n, v[r[o + k]] == w[r[o + k]])
  ensures lsum(r, o, v, n) == lsum(r, o, w, n)
  induct n
  hint lsumS(r, o, v, n)
  hint lsumS(r, o, w, n)
  auto pat(lsum(r, o, v, n), lsum(r, o, w, n))
// one entry taken out, the later ones moved up
lemma lsumDel(r: int->int, o: int, s: int->int, p: int, v: int->real, d: int, j: int)
  requires 0 <= d && j >= 0
  requires forall(k, 0, d, r[o + k] == s[p + k])
  requires forall(k, d, d + j, r[o + (k + 1)] == s[p + k])
  ensures lsum(s, p, v, d + j) == lsum(r, o, v, d + 1 + j) - v[r[o + d]]
  induct j
  hint lsumS(r, o, v, d + 1 + j)
  hint lsumS(s, p, v, d + j)
  hint lsumCong(r, o, v, s, p, v, d)

// where each tracked file stands in the list of its category
ghost catpos int->int

def CL(m) = m.categoryFileListMap
def FC(m) = m.filesCategoryMap
def CP(m) = catpos(m.filesCategoryMap)
def Tracked(m, n) = in(n, FC(m))
def RecOf(m, n) = CL(m)[FC(m)[n]][CP(m)[n]]
def CatOK(m) = CL(m) != nil && FC(m) != nil && m.categorySizesMap != nil && m.fileSupportDataSizeMap != nil && m.categoryFileFeatureIdx != nil &&
    all(n, int, imp(Tracked(m, n), in(FC(m)[n], CL(m)) && 0 <= CP(m)[n] && CP(m)[n] < len(CL(m)[FC(m)[n]]) && RecOf(m, n).Filename == n), pat(in(n, FC(m)))) &&
    alls(c, int, i, int, imp(in(c, CL(m)) && 0 <= i && i < len(CL(m)[c]), ref(CL(m)[c][i]) > 0 && Tracked(m, CL(m)[c][i].Filename) && FC(m)[CL(m)[c][i].Filename] == c && CP(m)[CL(m)[c][i].Filename] == i && in(CL(m)[c][i], m.fileSupportDataSizeMap)), pat(CL(m)[c][i])) &&
    all(c, int, in(c, CL(m)) == in(c, m.categorySizesMap), pat(in(c, CL(m))), pat(in(c, m.categorySizesMap))) &&
    all(c, int, imp(in(c, CL(m)), m.categorySizesMap[c] == lsum(row(CL(m)[c]), off(CL(m)[c]), vals(m.fileSupportDataSizeMap), len(CL(m)[c]))), pat(in(c, CL(m))), pat(m.categorySizesMap[c])) &&
    all(c, int, imp(in(c, CL(m)), len(CL(m)[c]) >= 0 && arr(CL(m)[c]) > 0 && allocated(arr(CL(m)[c]))), pat(in(c, CL(m)))) &&
    alls(c, int, d, int, imp(in(c, CL(m)) && in(d, CL(m)) && c != d, arr(CL(m)[c]) != arr(CL(m)[d])), pat(in(c, CL(m)), in(d, CL(m))))

// the file features that make up a category, of the types their values have
def CatFeature(o) = imp(o.Name == "catSize" && o.Buckets, o.ReflectType == 14) && imp((o.Name == "catNumReq" || o.Name == "catDeltaLastRequest") && o.Buckets, o.ReflectType == 6)

// every other file keeps its category and its record
def OtherFiles(m, x) = all(n, int, imp(n != x, Tracked(m, n) == old(Tracked(m, n)) && imp(Tracked(m, n), FC(m)[n] == old(FC(m)[n]) && RecOf(m, n) == old(RecOf(m, n)))), pat(in(n, FC(m))))

func cache.(*CategoryManager).Init(catMan, features, featureWeights, fileFeatures, fileFeatureWeights, fileFeatureIdxMap)
  requires ref(catMan) > 0
  modifies obj(catMan)
  ensures ok: CatOK(catMan)
  ensures none: all(n, int, !Tracked(catMan, n), pat(in(n, FC(catMan)))) && all(c, int, !in(c, CL(catMan)), pat(in(c, CL(catMan))))

func cache.(*CategoryManager).deleteFileFromCategory(catMan, category, file2Remove)
  requires ref(catMan) > 0 && ref(file2Remove) > 0 && CatOK(catMan)
  requires Tracked(catMan, file2Remove.Filename) && FC(catMan)[file2Remove.Filename] == category && RecOf(catMan, file2Remove.Filename) == file2Remove
  modifies map(catMan.filesCategoryMap), map(catMan.categorySizesMap), map(catMan.categoryFileListMap), map(catMan.categoryFileFeatureIdx), elems(CL(catMan)[category]), field(catpos(catMan.filesCategoryMap))
  ensures ok: CatOK(catMan)
  ensures gone: !Tracked(catMan, file2Remove.Filename)
  ensures others: OtherFiles(catMan, file2Remove.Filename)
  let name: file2Remove.Filename
  let d: CP(catMan)[file2Remove.Filename]
  let n: len(CL(catMan)[category])
  hint lsumDel(old(row(CL(catMan)[category])), old(off(CL(catMan)[category])), row(old(CL(catMan)[category])), old(off(CL(catMan)[category])), vals(catMan.fileSupportDataSizeMap), d, n - 1 - d)
  hint sl: imp(in(category, CL(catMan)), len(CL(catMan)[category]) == n - 1 && off(CL(catMan)[category]) == old(off(CL(catMan)[category])) && arr(CL(catMan)[category]) == old(arr(CL(catMan)[category])))
  hint sv: imp(in(category, CL(catMan)), catMan.categorySizesMap[category] == old(catMan.categorySizesMap[category]) - vals(catMan.fileSupportDataSizeMap)[file2Remove])
  hint sd: vals(catMan.fileSupportDataSizeMap)[file2Remove] == vals(catMan.fileSupportDataSizeMap)[old(row(CL(catMan)[category]))[old(off(CL(catMan)[category])) + d]]
  hint oth: all(c, int, imp(in(c, CL(catMan)) && c != category, lsum(row(CL(catMan)[c]), off(CL(catMan)[c]), vals(catMan.fileSupportDataSizeMap), len(CL(catMan)[c])) == old(catMan.categorySizesMap[c])), pat(in(c, CL(catMan))), pat(catMan.categorySizesMap[c]))
  hint oth2: all(c, int, imp(in(c, CL(catMan)) && c != category, catMan.categorySizesMap[c] == old(catMan.categorySizesMap[c])), pat(in(c, CL(catMan))), pat(catMan.categorySizesMap[c]))
  hint self: imp(in(category, CL(catMan)), catMan.categorySizesMap[category] == lsum(row(CL(catMan)[category]), off(CL(catMan)[category]), vals(catMan.fileSupportDataSizeMap), len(CL(catMan)[category])))
  witness catpos(catMan.filesCategoryMap) = lam(x, int, ite(old(FC(catMan)[x]) == category && old(CP(catMan)[x]) > d, old(CP(catMan)[x]) - 1, old(CP(catMan)[x])))
  ensures lists: all(c, int, imp(c != category, in(c, CL(catMan)) == old(in(c, CL(catMan))) && arr(CL(catMan)[c]) == old(arr(CL(catMan)[c])) && off(CL(catMan)[c]) == old(off(CL(catMan)[c])) && len(CL(catMan)[c]) == old(len(CL(catMan)[c]))), pat(CL(catMan)[c]))
  ensures empty: in(category, CL(catMan)) == old(len(CL(catMan)[category]) > 1)
  loop 1
  inv forall(i, 0, K, categoryFiles[i].Filename != file2Remove.Filename)

func cache.(*CategoryManager).insertFileInCategory(catMan, category, file)
  requires ref(catMan) > 0 && ref(file) > 0 && CatOK(catMan)
  requires !Tracked(catMan, file.Filename)
  let n: ite(in(category, CL(catMan)), len(CL(catMan)[category]), 0)
  hint lsumS(row(CL(catMan)[category]), off(CL(catMan)[category]), vals(catMan.fileSupportDataSizeMap), n + 1)
  hint lsumCong(old(row(CL(catMan)[category])), old(off(CL(catMan)[category])), old(vals(catMan.fileSupportDataSizeMap)), row(CL(catMan)[category]), off(CL(catMan)[category]), vals(catMan.fileSupportDataSizeMap), n)
  hint sr: all(c, int, imp(in(c, CL(catMan)) && c != category, row(CL(catMan)[c]) == old(row(CL(catMan)[c])) && off(CL(catMan)[c]) == old(off(CL(catMan)[c])) && len(CL(catMan)[c]) == old(len(CL(catMan)[c]))), pat(in(c, CL(catMan))))
  hint ne: alls(c, int, i, int, imp(in(c, CL(catMan)) && c != category && 0 <= i && i < len(CL(catMan)[c]), CL(catMan)[c][i] != file), pat(CL(catMan)[c][i]))
  hint oth: all(c, int, imp(in(c, CL(catMan)) && c != category, lsum(row(CL(catMan)[c]), off(CL(catMan)[c]), vals(catMan.fileSupportDataSizeMap), len(CL(catMan)[c])) == old(catMan.categorySizesMap[c])), pat(in(c, CL(catMan))), pat(catMan.categorySizesMap[c]))
  hint oth2: all(c, int, imp(in(c, CL(catMan)) && c != category, catMan.categorySizesMap[c] == old(catMan.categorySizesMap[c])), pat(in(c, CL(catMan))), pat(catMan.categorySizesMap[c]))
  hint self: catMan.categorySizesMap[category] == lsum(row(CL(catMan)[category]), off(CL(catMan)[category]), vals(catMan.fileSupportDataSizeMap), len(CL(catMan)[category]))
  modifies map(catMan.filesCategoryMap), map(catMan.categorySizesMap), map(catMan.categoryFileListMap), map(catMan.fileSupportDataSizeMap), elems(CL(catMan)[category]), field(catpos(catMan.filesCategoryMap))
  ensures ok: CatOK(catMan)
  witness catpos(catMan.filesCategoryMap) = store(old(CP(catMan)), file.Filename, ite(old(in(category, CL(catMan))), old(len(CL(catMan)[category])), 0))
  ensures put: Tracked(catMan, file.Filename) && FC(catMan)[file.Filename] == category && RecOf(catMan, file.Filename) == file && catMan.fileSupportDataSizeMap[file] == file.Size
  ensures others: OtherFiles(catMan, file.Filename)

func cache.(*CategoryManager).AddOrUpdateCategoryFile(catMan, category, file)
  requires ref(catMan) > 0 && ref(file) > 0 && CatOK(catMan)
  requires imp(Tracked(catMan, file.Filename), RecOf(catMan, file.Filename) == file)
  modifies map(catMan.filesCategoryMap), map(catMan.categorySizesMap), map(catMan.categoryFileListMap), map(catMan.categoryFileFeatureIdx), map(catMan.fileSupportDataSizeMap), elems(CL(catMan)[category]), elems(CL(catMan)[FC(catMan)[file.Filename]]), field(catpos(catMan.filesCategoryMap))
  let stays: Tracked(catMan, file.Filename) && FC(catMan)[file.Filename] == category
  ensures ok: CatOK(catMan)
  ensures put: Tracked(catMan, file.Filename) && FC(catMan)[file.Filename] == category && RecOf(catMan, file.Filename) == file
  ensures size: catMan.fileSupportDataSizeMap[file] == ite(stays, old(catMan.fileSupportDataSizeMap[file]), file.Size)
  ensures others: OtherFiles(catMan, file.Filename)

func cache.CategoryManager.GetNumCategories(catMan) -> (res)
  pure

func cache.CategoryManager.GetFileCategory(catMan, file) -> (res)
  requires ref(file) > 0 && CatOK(catMan)
  maytrap
  requires alls(i, int, imp(0 <= i && i < len(catMan.features), CatFeature(catMan.features[i])), pat(catMan.features[i].Name), pat(catMan.features[i].Buckets))
  modifies map(catMan.categorySizesMap), map(catMan.categoryFileListMap), map(catMan.categoryFileFeatureIdx), any
  ensures ok: CatOK(catMan)
  ensures kept: all(n, int, Tracked(catMan, n) == old(Tracked(catMan, n)) && FC(catMan)[n] == old(FC(catMan)[n]), pat(in(n, FC(catMan))))
  ensures has: in(res, CL(catMan))

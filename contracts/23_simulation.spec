area sim
// Filters, column mapping and the simulation loop.

// ---- record filters ----
def Mini(r) = r.FileType == 2 || r.FileType == 9
// what each filter accepts, by its kind
def Accepts(f, r) = ite(typeis(f, cache.SuccessJob), r.JobSuccess && r.JobExecExitCode == 0,
   ite(typeis(f, cache.UsDataMcTypes), r.DataType == 0 || r.DataType == 3,
   ite(typeis(f, cache.ItDataMcTypes), r.DataType == 0 || r.DataType == 1,
   ite(typeis(f, cache.UsMINIAODNOT1andT3), Mini(r) && r.SiteName < 9,
   ite(typeis(f, cache.UsMINIAODNOFNALLPCNOT1FNALLFilter), Mini(r) && r.SiteName != 9 && r.SiteName != 16,
   ite(typeis(f, cache.UsMINIAODandNOFNALLPCFilter), Mini(r) && r.SiteName != 16, false))))))

iface cache.Filter.Check(filter, record) -> (ok)
  pure
  ensures accept: ok == Accepts(filter, record)

func cache.SuccessJob.Check(filter, record) -> (ok)
  pure
  implements cache.Filter.Check
  ensures accept: ok == (record.JobSuccess && record.JobExecExitCode == 0)

func cache.UsDataMcTypes.Check(filter, record) -> (ok)
  pure
  implements cache.Filter.Check
  ensures accept: ok == (record.DataType == 0 || record.DataType == 3)

func cache.ItDataMcTypes.Check(filter, record) -> (ok)
  pure
  implements cache.Filter.Check
  ensures accept: ok == (record.DataType == 0 || record.DataType == 1)

func cache.UsMINIAODNOT1andT3.Check(filter, record) -> (ok)
  pure
  implements cache.Filter.Check
  ensures accept: ok == (Mini(record) && record.SiteName < 9)

func cache.UsMINIAODNOFNALLPCNOT1FNALLFilter.Check(filter, record) -> (ok)
  pure
  implements cache.Filter.Check
  ensures accept: ok == (Mini(record) && record.SiteName != 9 && record.SiteName != 16)

func cache.UsMINIAODandNOFNALLPCFilter.Check(filter, record) -> (ok)
  pure
  implements cache.Filter.Check
  ensures accept: ok == (Mini(record) && record.SiteName != 16)

// ---- columns ----
// the standard columns, in order
def COLS() = store(store(store(store(store(store(store(store(store(store(store(store(store(store(store(store(store(store(store(store(store(store(store(store(store(constarr("int->int", 0), 0, "Filename"), 1, "SiteName"), 2, "UserID"), 3, "TaskID"), 4, "TaskMonitorID"), 5, "JobID"), 6, "Protocol"), 7, "JobExecExitCode"), 8, "JobStart"), 9, "JobEnd"), 10, "NumCPU"), 11, "WrapWC"), 12, "WrapCPU"), 13, "Size"), 14, "DataType"), 15, "FileType"), 16, "JobLengthH"), 17, "JobLengthM"), 18, "JobSuccess"), 19, "CPUTime"), 20, "IOTime"), 21, "reqDay"), 22, "Region"), 23, "Campaign"), 24, "Process")
// where a permuted header has each of them
uf hpos(int) int
// no column name appears twice: a name determines its place
uf hidx(int) int

def Perm(h) = forall(j, 0, 25, 0 <= hpos(j) && hpos(j) < len(h) && h[hpos(j)] == COLS()[j]) && forall(i, 0, len(h), hidx(h[i]) == i)

func cache.getHeaderIndexes(header) -> (indexes)
  let p: Perm(header)
  ensures found: imp(p, len(indexes) == 25 && forall(j, 0, 25, indexes[j] == hpos(j)))
  loop 1
  inv cap(indexes) == 0 || fresh(arr(indexes))
  inv imp(p, len(indexes) == K)
  inv imp(p, forall(j, 0, K, indexes[j] == hpos(j)))
  loop 2
  inv cap(indexes) == 0 || fresh(arr(indexes))
  inv imp(p, len(indexes) == Kout + ite(hpos(Kout) < K, 1, 0))
  inv imp(p, forall(j, 0, Kout, indexes[j] == hpos(j)))
  inv imp(p && hpos(Kout) < K, indexes[Kout] == hpos(Kout))

// The line joining the cells of a header that has every standard column is the
// standard one only when the cells are the standard columns in their order
// (lean/Join.lean proves it of lists of strings).
uf s_join(int->int, int, int, int) int
axiom joinStandard(r:int->int, o:int, n:int)
  requires forall(j, 0, 25, 0 <= hpos(j) && hpos(j) < n && r[o + hpos(j)] == COLS()[j])
  requires s_join(r, o, n, ",") == "Filename,SiteName,UserID,TaskID,TaskMonitorID,JobID,Protocol,JobExecExitCode,JobStart,JobEnd,NumCPU,WrapWC,WrapCPU,Size,DataType,FileType,JobLengthH,JobLengthM,JobSuccess,CPUTime,IOTime,reqDay,Region,Campaign,Process"
  ensures n == 25 && forall(j, 0, 25, r[o + j] == COLS()[j])
  auto s_join(r, o, n, ",")

// every reader is given the place of each standard column in the header of its file
def Placed(h, m) = len(m) == 25 && forall(j, 0, 25, 0 <= m[j] && m[j] < len(h) && h[m[j]] == COLS()[j])
def Standard() = len(cache.csvHeaderIndexes) == 25 && forall(j, 0, 25, cache.csvHeaderIndexes[j] == j)

func cache.OpenSimFile(filePath) -> (iterator)
  maytrap
  requires Standard()
  atcall cache.recordGenerator placed[S03]: imp(Perm(header), Placed(header, a2))

// ---- reading records ----
ghost sent int
tags READ = S01,S03
uf v_ParseInt(int, int, int) int
uf v_ParseFloat(int) real
uf v_ParseBool(int) bool
def Trunc(x) = ite(x >= 0, toint(x), 0 - toint(0 - x))
def Int(r, m, j) = v_ParseInt(r[m[j]], 10, 64)
def Flt(r, m, j) = v_ParseFloat(r[m[j]])

// one line of a file becomes one record, every field read from its own column
func cache.recordGenerator$go()
  maytrap
  requires len(headerMap) == 25
  atcall send ints[READ]: a0.Filename == Int(record, headerMap, 0) && a0.SiteName == Int(record, headerMap, 1) && a0.UserID == Int(record, headerMap, 2) && a0.TaskID == Int(record, headerMap, 3) && a0.TaskMonitorID == Int(record, headerMap, 4) && a0.JobID == Int(record, headerMap, 5) && a0.Protocol == Int(record, headerMap, 6) && a0.JobExecExitCode == Int(record, headerMap, 7) && a0.DataType == Int(record, headerMap, 14) && a0.FileType == Int(record, headerMap, 15) && a0.Region == Int(record, headerMap, 22) && a0.Campaign == Int(record, headerMap, 23) && a0.Process == Int(record, headerMap, 24)
  atcall send floats[READ]: a0.Size == Flt(record, headerMap, 13) && a0.JobLengthH == Flt(record, headerMap, 16) && a0.JobLengthM == Flt(record, headerMap, 17) && a0.CPUTime == Flt(record, headerMap, 19) && a0.IOTime == Flt(record, headerMap, 20)
  atcall send others[READ]: a0.JobSuccess == v_ParseBool(record[headerMap[18]]) && a0.Day == Trunc(Flt(record, headerMap, 21)) && a0.SizeM == a0.Size / 1048576
  tally send sent 1
  modifies all(sent)
  loop 1
  step one[READ]: sent(0) == prev(sent(0)) + 1
  modifies all(sent)

// the table of a standard file, as the package is initialised
func cache.init()
  modifies any
  ensures standard[S03]: Standard()

// ---- the simulation loop ----
// calls of the cache, calls that were redirected, records received
ghost served int
ghost redirected int
ghost redirectedSize real
ghost received int
// rows of the daily report, statistics cleared, rows written at each clearing,
// end of the records
ghost rows int
ghost cleared int
ghost rowsAtClear int
ghost closed int

def Unix(d) = d * 1000000000 + 62135596800000000000
// a day passes when a record is 23 hours or more after the first of the day
def First(t, r) = ite(t == zerotime(), Unix(r.Day), t)
def NewDay(t, r) = Unix(r.Day) - First(t, r) >= 23 * 3600000000000
def Steps(n, t, r) = n + ite(NewDay(t, r), 1, 0)

def Eff(r) = r.CPUTime / (r.CPUTime + r.IOTime) * 100
def Valid(r) = r.CPUTime + r.IOTime != 0 && 0 <= Eff(r) && Eff(r) <= 100
def Passes(p, r) = r.JobSuccess && r.JobExecExitCode == 0 && imp(p.DataTypeFilter != nil, Accepts(p.DataTypeFilter, r)) && imp(p.RecordFilter != nil, Accepts(p.RecordFilter, r))
func cache.Simulate(cacheType, cacheInstance, param)
  values
  keeps cache.CSVRecord, cache.SimulationStats
  opaque cache.OpenSimFile, cache.OpenSimFolder, cache.Load, cache.Loads, cache.Dump, cache.GetSimulationRunNum
  atcall cache.GetFile accepted[S01]: Passes(param, record)
  atcall cache.GetFile efficiency[S01]: Valid(record)
  atcall cache.GetFile window[S01]: windowCounter >= param.WindowStart
  atcall cache.GetFile arguments[S01]: v0 == record.Filename && v1 == record.SizeM && v2 == record.Protocol && v3 == Eff(record) && v4 == record.Day && v5 == record.SiteName && v6 == record.UserID && v7 == record.FileType
  atcall encoding/json.Marshal total[S01]: a0.TotNumRecords == a0.TotJumpedRecords + a0.TotFilteredRecords + a0.TotInvalidRecords + served(0)
  atcall encoding/json.Marshal redirected[S01]: a0.TotRedirectedRecords == redirected(0)
  atcall encoding/json.Marshal size[S01]: a0.SizeRedirectedRecords == redirectedSize(0)
  atcall encoding/json.Marshal received[S01]: a0.TotNumRecords <= received(0) && received(0) <= a0.TotNumRecords + 1
  tally cache.GetFile served 1
  tally cache.GetFile redirected ite(r1, 1, 0)
  tally cache.GetFile redirectedSize ite(r1, v1, 0)
  tally recv received ite(r1, 1, 0)
  tally recv closed ite(r1, 0, 1)
  tally cache.OutputCSV.Write rows 1
  tally cache.ClearStats cleared 1
  tally cache.ClearStats rowsAtClear rows(0)
  atcall encoding/json.Marshal stop[S04]: ite(closed(0) == 1, received(0) == a0.TotNumRecords, imp(param.WindowStop > 0 || param.WindowStop == 0 && param.WindowSize > 0, windowCounter == param.WindowStop) && received(0) == a0.TotNumRecords + 1)
  requires served(0) == 0 && redirected(0) == 0 && received(0) == 0 && redirectedSize(0) == 0 && closed(0) == 0
  loop 1
  vars numInvalidRecords:I1, numJumpedRecords:I2, numFilteredRecords:I3, totNumRecords:I4, windowStepCounter:I7, windowCounter:I8, numRedirected:I9, redirectedData:F0, latestTime:T1, record:received
  inv totNumRecords == numJumpedRecords + numFilteredRecords + numInvalidRecords + served(0)
  inv numRedirected == redirected(0) && redirectedData == redirectedSize(0)
  inv received(0) == totNumRecords && closed(0) == 0
  inv before[S04]: imp(param.WindowStop > 0, windowCounter < param.WindowStop)
  inv first[S04]: imp(param.WindowStop == 0 && param.WindowSize > 0, windowCounter == 0 && windowStepCounter == 0 && latestTime == zerotime())
  step newday[S04]: imp(NewDay(prior(latestTime), record), latestTime == Unix(record.Day))
  step sameday[S04]: imp(!NewDay(prior(latestTime), record) && prior(latestTime) != zerotime(), latestTime == prior(latestTime))
  step firstday[S04]: imp(!NewDay(prior(latestTime), record) && prior(latestTime) == zerotime(), latestTime == Unix(record.Day))
  step days[S04]: windowStepCounter == ite(Steps(prior(windowStepCounter), prior(latestTime), record) == param.WindowSize, 0, Steps(prior(windowStepCounter), prior(latestTime), record))
  step window[S04]: windowCounter == prior(windowCounter) + ite(Steps(prior(windowStepCounter), prior(latestTime), record) == param.WindowSize, 1, 0)
  step open[S04]: windowCounter != param.WindowStop
  step report[S04]: rows(0) == prev(rows(0)) + ite(NewDay(prior(latestTime), record) && prior(windowCounter) >= param.WindowStart, 1, 0)
  step clear[S04]: cleared(0) == prev(cleared(0)) + ite(NewDay(prior(latestTime), record), 1, 0)
  step reportFirst[S04]: rowsAtClear(0) == prev(rowsAtClear(0)) + ite(NewDay(prior(latestTime), record), rows(0), 0)
  step jumped[S01]: numJumpedRecords == prior(numJumpedRecords) + ite(windowCounter < param.WindowStart, 1, 0)
  step filtered[S01]: numFilteredRecords == prior(numFilteredRecords) + ite(windowCounter >= param.WindowStart && !Passes(param, record), 1, 0)
  step invalid[S01]: numInvalidRecords == prior(numInvalidRecords) + ite(windowCounter >= param.WindowStart && Passes(param, record) && !Valid(record), 1, 0)
  step served[S01]: served(0) == prev(served(0)) + ite(windowCounter >= param.WindowStart && Passes(param, record) && Valid(record), 1, 0)
  modifies all(served), all(redirected), all(received), all(redirectedSize), all(rows), all(cleared), all(rowsAtClear), all(closed)
  exit
  modifies all(served), all(redirected), all(received), all(redirectedSize), all(rows), all(cleared), all(rowsAtClear), all(closed)

// ---- folders ----
uf s_Ext(int) int
uf strlt(int, int) bool
ghost opened int

def IsData(name) = s_Ext(name) == ".csv" || s_Ext(name) == ".gz"

// the order given to sort.Slice
func cache.OpenSimFolder$Slice(i, j) -> (less)
  optional
  requires 0 <= i && i < len(fileList) && 0 <= j && j < len(fileList)
  ensures byname[S05]: less == (strlt(fileList[i], fileList[j]))

func cache.OpenSimFolder$go()
  maytrap
  opaque cache.OpenSimFile
  requires Standard()
  requires closed(0) == 0 && opened(0) == 0 && received(0) == 0 && sent(0) == 0
  atcall cache.OpenSimFile inorder[S05]: a0 == name && IsData(name)
  atcall send forwarded[S05]: a0 == record
  tally cache.OpenSimFile opened 1
  tally recv received ite(r1, 1, 0)
  tally recv closed ite(r1, 0, 1)
  tally send sent 1
  modifies all(opened), all(received), all(closed), all(sent)
  loop 1
  inv closed(0) == opened(0) && received(0) == sent(0)
  step inorder[S05]: name == fileList[K - 1]
  step opens[S05]: opened(0) == prev(opened(0)) + ite(IsData(fileList[K-1]), 1, 0)
  modifies all(opened), all(received), all(closed), all(sent)
  loop 2
  inv closed(0) == opened(0) - 1 && received(0) == sent(0)
  modifies all(opened), all(received), all(closed), all(sent)

ghost sorted int
func cache.OpenSimFolder(dirPath) -> (channel)
  values
  keeps []string
  requires sorted(0) == 0
  atcall sort.Slice every[S05]: len(a0) == len(fileStats)
  atcall sort.Strings every[S05]: len(a0) == len(fileStats)
  tally sort.Slice sorted 1
  tally sort.Strings sorted 1
  modifies all(sorted)
  ensures sorts[S05]: sorted(0) == 1
  loop 1
  vars fileList:S0
  inv len(fileList) == K
  alternative
  loop 1
  vars fileList:C0
  inv len(fileList) == K

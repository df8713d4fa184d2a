package cache

import (
	"compress/gzip"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"simulator/v2/cache/files"
	"simulator/v2/cache/queue"
)

// Random record files on the real reader, filters and simulation loop, against
// direct definitions of what they should do.

type found struct{ msg string }

func bad(f string, a ...interface{}) { panic(found{fmt.Sprintf(f, a...)}) }

var r *rand.Rand

var stdColumns = []string{"Filename", "SiteName", "UserID", "TaskID", "TaskMonitorID", "JobID", "Protocol", "JobExecExitCode", "JobStart", "JobEnd", "NumCPU", "WrapWC", "WrapCPU", "Size", "DataType", "FileType", "JobLengthH", "JobLengthM", "JobSuccess", "CPUTime", "IOTime", "reqDay", "Region", "Campaign", "Process"}

func randRecord() CSVRecord {
	c := CSVRecord{
		Filename: int64(r.Intn(12)), SiteName: []int64{0, 7, 8, 9, 10, 15, 16, 17, 30}[r.Intn(9)], UserID: int64(r.Intn(5)), TaskID: int64(r.Intn(50)),
		TaskMonitorID: int64(r.Intn(50)), JobID: int64(r.Intn(50)), Protocol: int64(r.Intn(3)),
		Size: float64(1+r.Intn(9)) * 1024 * 1024, DataType: int64(r.Intn(5)), FileType: []int64{0, 1, 2, 3, 8, 9, 10}[r.Intn(7)],
		JobLengthH: float64(r.Intn(9)), JobLengthM: float64(r.Intn(60)), JobSuccess: r.Intn(5) > 0,
		CPUTime: float64(r.Intn(50)), IOTime: float64(r.Intn(50)), Day: 1500000000, Region: int64(r.Intn(4)), Campaign: int64(r.Intn(9)), Process: int64(r.Intn(9)),
	}
	if r.Intn(4) == 0 {
		c.JobExecExitCode = int64(r.Intn(3))
	}
	switch r.Intn(8) {
	case 0:
		c.IOTime = -c.IOTime
	case 1:
		c.CPUTime, c.IOTime = 0, 0
	case 2:
		c.IOTime = -c.CPUTime
	case 3:
		c.CPUTime = -c.CPUTime
	}
	c.SizeM = c.Size / 1024 / 1024
	return c
}

func num(x int64) string   { return strconv.FormatInt(x, 10) }
func flt(x float64) string { return strconv.FormatFloat(x, 'f', -1, 64) }

func cells(c CSVRecord) map[string]string {
	return map[string]string{"Filename": num(c.Filename), "SiteName": num(c.SiteName), "UserID": num(c.UserID), "TaskID": num(c.TaskID), "TaskMonitorID": num(c.TaskMonitorID),
		"JobID": num(c.JobID), "Protocol": num(c.Protocol), "JobExecExitCode": num(c.JobExecExitCode), "JobStart": "111", "JobEnd": "222", "NumCPU": "3", "WrapWC": "4.5", "WrapCPU": "5.5",
		"Size": flt(c.Size), "DataType": num(c.DataType), "FileType": num(c.FileType), "JobLengthH": flt(c.JobLengthH), "JobLengthM": flt(c.JobLengthM),
		"JobSuccess": strconv.FormatBool(c.JobSuccess), "CPUTime": flt(c.CPUTime), "IOTime": flt(c.IOTime), "reqDay": flt(float64(c.Day)) + []string{"", ".0"}[r.Intn(2)], "Region": num(c.Region),
		"Campaign": num(c.Campaign), "Process": num(c.Process)}
}

func writeFile(name string, cols []string, rs []CSVRecord) {
	f, err := os.Create(name)
	if err != nil {
		panic(err)
	}
	w := csv.NewWriter(f)
	w.Write(cols)
	for _, x := range rs {
		m := cells(x)
		var row []string
		for _, c := range cols {
			row = append(row, m[c])
		}
		w.Write(row)
	}
	w.Flush()
	f.Close()
}

func columns() []string {
	cols := append([]string{}, stdColumns...)
	if r.Intn(3) > 0 {
		r.Shuffle(len(cols), func(i, j int) { cols[i], cols[j] = cols[j], cols[i] })
	}
	if r.Intn(3) == 0 {
		cols[0], cols[len(cols)-1] = cols[len(cols)-1], cols[0]
	}
	return cols
}

// what each filter should accept
func mini(c CSVRecord) bool { return c.FileType == 2 || c.FileType == 9 }

var filters = []struct {
	f    Filter
	want func(CSVRecord) bool
}{
	{SuccessJob{}, func(c CSVRecord) bool { return c.JobSuccess && c.JobExecExitCode == 0 }},
	{UsDataMcTypes{}, func(c CSVRecord) bool { return c.DataType == 0 || c.DataType == 3 }},
	{ItDataMcTypes{}, func(c CSVRecord) bool { return c.DataType == 0 || c.DataType == 1 }},
	{UsMINIAODNOT1andT3{}, func(c CSVRecord) bool { return mini(c) && c.SiteName < 9 }},
	{UsMINIAODNOFNALLPCNOT1FNALLFilter{}, func(c CSVRecord) bool { return mini(c) && c.SiteName != 9 && c.SiteName != 16 }},
	{UsMINIAODandNOFNALLPCFilter{}, func(c CSVRecord) bool { return mini(c) && c.SiteName != 16 }},
}

func tryS02(dir string) {
	for i := 0; i < 200; i++ {
		c := randRecord()
		if r.Intn(2) == 0 {
			c.SiteName, c.FileType, c.DataType = int64(r.Intn(40)-2), int64(r.Intn(14)-1), int64(r.Intn(8)-1)
			c.JobExecExitCode = int64(r.Intn(5) - 2)
		}
		for _, x := range filters {
			if got, want := x.f.Check(c), x.want(c); got != want {
				bad("%T accepts %+v: %v, should be %v", x.f, c, got, want)
			}
		}
	}
}

func tryS03(dir string) {
	cols := columns()
	pos := getHeaderIndexes(cols)
	if len(pos) != len(stdColumns) {
		bad("header %v: %d positions", cols, len(pos))
	}
	for j, p := range pos {
		if p < 0 || p >= len(cols) || cols[p] != stdColumns[j] {
			bad("header %v: column %s is looked for at %d", cols, stdColumns[j], p)
		}
	}
	var rs []CSVRecord
	for i := r.Intn(6); i >= 0; i-- {
		rs = append(rs, randRecord())
	}
	name := filepath.Join(dir, "in.csv")
	writeFile(name, cols, rs)
	i := 0
	for got := range OpenSimFile(name) {
		if i >= len(rs) {
			bad("header %v: more records than lines", cols)
		}
		if got != rs[i] {
			bad("header %v: line %d is read as %+v, should be %+v", cols, i+1, got, rs[i])
		}
		i++
	}
	if i != len(rs) {
		bad("header %v: %d of %d lines read", cols, i, len(rs))
	}
}

// spy is a cache that records what reaches it.
type spy struct {
	*SimpleCache
	reqs     []Request
	redir    map[int]bool
	n        int
	redirN   int64
	redirSum float64
	clears   int
	reqDay   int64
}

func (s *spy) ClearStats()        { s.clears++; s.reqDay = 0 }
func (s *spy) NumRequests() int64 { return s.reqDay }

func (s *spy) Check(f int64) bool { s.n++; return false }
func (s *spy) CheckRedirect(f int64, size float64) bool {
	if s.redir[s.n] {
		s.redirN++
		s.redirSum += size
		s.reqDay++
		s.reqs = append(s.reqs, Request{Filename: f, Size: size})
		return true
	}
	return false
}
func (s *spy) CheckWatermark() bool { return true }
func (s *spy) BeforeRequest(q *Request, hit bool) (*files.Stats, bool) {
	s.reqs = append(s.reqs, *q)
	s.reqDay++
	return nil, hit
}
func (s *spy) UpdatePolicy(q *Request, f *files.Stats, hit bool) bool          { return true }
func (s *spy) AfterRequest(q *Request, f *files.Stats, hit bool, added bool) {}

func tryS01(dir string) {
	var rs []CSVRecord
	day := int64(1500000000)
	for i := 5 + r.Intn(60); i >= 0; i-- {
		c := randRecord()
		if r.Intn(6) == 0 {
			day += 86400
		}
		c.Day = day
		rs = append(rs, c)
	}
	name := filepath.Join(dir, "in.csv")
	writeFile(name, columns(), rs)
	p := SimulationParams{DataPath: name, OutFile: filepath.Join(dir, "out.csv"), BaseName: "x", ResultRunStatsName: filepath.Join(dir, "stats.json"),
		WindowSize: 1 + r.Intn(4), WindowStart: r.Intn(3), OutputUpdateDelay: 1e9}
	p.WindowStop = p.WindowStart + 1 + r.Intn(4)
	any := func(CSVRecord) bool { return true }
	dt, rf := any, any
	if k := r.Intn(3); k > 0 {
		p.DataTypeFilter, dt = filters[k].f, filters[k].want
	}
	if k := r.Intn(4); k > 0 {
		p.RecordFilter, rf = filters[2+k].f, filters[2+k].want
	}
	c := &spy{SimpleCache: &SimpleCache{MaxSize: 1000}, redir: map[int]bool{}}
	c.SimpleCache.Init(InitParameters{QueueType: queue.LRUQueue})
	for i := 0; i < 100; i++ {
		c.redir[i] = r.Intn(4) == 0
	}
	// what should happen
	var tot, jumped, filtered, invalid, redirected int64
	var want []CSVRecord
	step, win, latest := 0, 0, int64(0)
	days, inDay := 0, 0
	var rows []int
	for _, x := range rs {
		if latest == 0 {
			latest = x.Day
		}
		if x.Day-latest >= 23*3600 {
			latest = x.Day
			step++
			days++
			if win >= p.WindowStart {
				rows = append(rows, inDay)
			}
			inDay = 0
		}
		if step == p.WindowSize {
			win++
			step = 0
		}
		if win == p.WindowStop {
			break
		}
		tot++
		eff := x.CPUTime / (x.CPUTime + x.IOTime) * 100
		switch {
		case win < p.WindowStart:
			jumped++
		case !(x.JobSuccess && x.JobExecExitCode == 0) || !dt(x) || !rf(x):
			filtered++
		case math.IsNaN(eff) || math.IsInf(eff, 0) || eff < 0 || eff > 100:
			invalid++
		default:
			want = append(want, x)
			inDay++
			if c.redir[len(want)] {
				redirected++
			}
		}
	}
	old := os.Stdout
	null, _ := os.Open(os.DevNull)
	os.Stdout = null
	Simulate("lru", c, p)
	os.Stdout = old
	null.Close()
	var b strings.Builder
	fmt.Fprintf(&b, "%d records, window %d days, from %d to %d, filters %T %T", len(rs), p.WindowSize, p.WindowStart, p.WindowStop, p.DataTypeFilter, p.RecordFilter)
	desc := b.String()
	if len(c.reqs) != len(want) {
		bad("%s: %d records reach the cache, should be %d (records %+v)", desc, len(c.reqs), len(want), rs)
	}
	for i, q := range c.reqs {
		x := want[i]
		if q.Filename != x.Filename || q.Size != x.SizeM {
			bad("%s: request %d is %+v, from record %+v", desc, i, q, x)
		}
		if c.redir[i+1] {
			continue
		}
		eff := x.CPUTime / (x.CPUTime + x.IOTime) * 100
		if q.Protocol != x.Protocol || q.CPUEff != eff || q.Day != x.Day || q.SiteName != x.SiteName || q.UserID != x.UserID || q.FileType != x.FileType {
			bad("%s: request %d is %+v, from record %+v", desc, i, q, x)
		}
	}
	js, err := ioutil.ReadFile(p.ResultRunStatsName)
	if err != nil {
		bad("no run statistics: %v", err)
	}
	var s SimulationStats
	if err := json.Unmarshal(js, &s); err != nil {
		bad("run statistics %s: %v", js, err)
	}
	if c.clears != days {
		bad("%s: %d days ended, the statistics were cleared %d times", desc, days, c.clears)
	}
	of, err := os.Open(p.OutFile)
	if err != nil {
		bad("no report: %v", err)
	}
	got, err := csv.NewReader(of).ReadAll()
	of.Close()
	if err != nil || len(got) != 1+len(rows) {
		bad("%s: %d rows reported (%v), should be %d", desc, len(got)-1, err, len(rows))
	}
	for i, n := range rows {
		if got[i+1][1] != strconv.Itoa(n) {
			bad("%s: row %d reports %s requests, should be %d", desc, i, got[i+1][1], n)
		}
	}
	served := int64(len(want))
	if s.TotNumRecords != tot || s.TotJumpedRecords != jumped || s.TotFilteredRecords != filtered || s.TotInvalidRecords != invalid || s.TotRedirectedRecords != redirected || s.SizeRedirectedRecords != c.redirSum ||
		s.TotNumRecords != s.TotJumpedRecords+s.TotFilteredRecords+s.TotInvalidRecords+served {
		bad("%s: statistics %s, should be total %d jumped %d filtered %d invalid %d redirected %d (%v), %d reached the cache", desc, js, tot, jumped, filtered, invalid, redirected, c.redirSum, served)
	}
}

func tryS05(dir string) {
	sub, err := ioutil.TempDir(dir, "d")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(sub)
	var names []string
	content := map[string][]CSVRecord{}
	for i := r.Intn(6); i >= 0; i-- {
		n := fmt.Sprintf("%c%d", "abzAZ_9"[r.Intn(7)], r.Intn(20)) + []string{".csv", ".csv", ".csv.gz", ".gz", ".txt", ".csv.old"}[r.Intn(6)]
		if _, ok := content[n]; ok {
			continue
		}
		var rs []CSVRecord
		for j := r.Intn(4); j > 0; j-- {
			rs = append(rs, randRecord())
		}
		content[n] = rs
		names = append(names, n)
		full := filepath.Join(sub, n)
		writeFile(full, columns(), rs)
		if strings.HasSuffix(n, ".gz") {
			b, _ := ioutil.ReadFile(full)
			f, _ := os.Create(full)
			z := gzip.NewWriter(f)
			z.Write(b)
			z.Close()
			f.Close()
		}
	}
	sort.Strings(names)
	var want []CSVRecord
	for _, n := range names {
		if strings.HasSuffix(n, ".csv") || strings.HasSuffix(n, ".gz") {
			want = append(want, content[n]...)
		}
	}
	d, _ := os.Open(sub)
	defer d.Close()
	i := 0
	for got := range OpenSimFolder(d) {
		if i >= len(want) {
			bad("folder %v: more than %d records", names, len(want))
		}
		if got != want[i] {
			bad("folder %v: record %d is %+v, should be %+v", names, i, got, want[i])
		}
		i++
	}
	if i != len(want) {
		bad("folder %v: %d of %d records", names, i, len(want))
	}
}

func TestVerifReplay(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VP_SEED"), 10, 64)
	secs, _ := strconv.Atoi(os.Getenv("VP_SECS"))
	dir := os.Getenv("VP_DIR")
	try := map[string]func(string){"S01": tryS01, "S02": tryS02, "S03": tryS03, "S04": tryS01, "S05": tryS05}[os.Getenv("VP_PROP")]
	if try == nil {
		fmt.Println("no failing input: no search for this property")
		return
	}
	end := time.Now().Add(time.Duration(secs) * time.Second)
	for i := int64(0); i < 3000 && time.Now().Before(end); i++ {
		r = rand.New(rand.NewSource(seed*1000003 + i))
		stop := false
		func() {
			defer func() {
				if e := recover(); e != nil {
					stop = true
					if f, ok := e.(found); ok {
						fmt.Printf("REPLAY-FOUND seed %d round %d: %s\n", seed, i, f.msg)
					} else {
						fmt.Printf("REPLAY-FOUND seed %d round %d: the code panics: %v\n", seed, i, e)
					}
				}
			}()
			try(dir)
		}()
		if stop {
			return
		}
	}
	fmt.Println("no failing input found")
}

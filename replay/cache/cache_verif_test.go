package cache

import (
	"compress/gzip"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"simulator/v2/cache/ai/qlearn"
	"simulator/v2/cache/files"
	"simulator/v2/cache/queue"
)

// Reference cache: an ordered list of held files plus counters. Random
// histories run on the real caches; every difference belongs to a property.

type cHist struct {
	freq, hits, miss int64
	size             float64
	first, last      time.Time
	times            []time.Time
	recency, delta   int64
	weight           float64
}

type cRef struct {
	kind  string // cache type name
	order []int64
	key   map[int64]float64 // key at the last placement
	sizes map[int64]float64
	hist  map[int64]*cHist

	max, used                                  float64
	hit, miss, req, added, deleted, redirected int64
	read, readHit, readMiss, written, del      float64
	redirSize                                  float64
	free                                       []float64
	tick                                       int64
	evicted                                    map[int64]bool
	evMiss                                     int
	first, last                                time.Time
	wsum                                       float64
	par                                        InitParameters
	bandwidth                                  float64
	data                                       map[int64]bool
	blur                                       bool // whether a clean-up began is not observable
}

type cFail struct{ prop, msg string }

var cProp = os.Getenv("VP_PROP")

func cRaise(prop, f string, a ...interface{}) {
	if cProp == "" || cProp == prop || cProp == "ANY" {
		panic(cFail{prop, fmt.Sprintf(f, a...)})
	}
}

func cClose(a, b float64) bool {
	if a == b || math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	return math.Abs(a-b) <= 1e-7*(1+math.Max(math.Abs(a), math.Abs(b)))
}

func (r *cRef) policy() string {
	switch r.kind {
	case "lru", "random_lru", "lruDatasetVerifier", "weightFunLRU", "aiRL":
		return "lru"
	case "lfu", "sizeBig", "sizeSmall":
		return r.kind
	}
	return "none"
}

func (r *cRef) keyOf(n int64) float64 {
	switch r.policy() {
	case "lfu":
		return float64(r.hist[n].freq)
	case "sizeBig":
		return -r.sizes[n]
	case "sizeSmall":
		return r.sizes[n]
	}
	return 0
}

func (r *cRef) find(n int64) int {
	for i, x := range r.order {
		if x == n {
			return i
		}
	}
	return -1
}

func (r *cRef) place(n int64) {
	k := r.keyOf(n)
	i := len(r.order)
	if p := r.policy(); p != "lru" && p != "none" {
		i = sort.Search(len(r.order), func(j int) bool { return r.key[r.order[j]] > k })
	}
	r.key[n] = k
	r.order = append(r.order, 0)
	copy(r.order[i+1:], r.order[i:])
	r.order[i] = n
}

func (r *cRef) drop(n int64) {
	i := r.find(n)
	r.order = append(r.order[:i:i], r.order[i+1:]...)
}

func (r *cRef) touch(n int64) {
	if r.policy() == "none" {
		return
	}
	r.drop(n)
	r.place(n)
}

// number of files of the shortest worst-first run worth at least want
func (r *cRef) run(want float64) int {
	if want <= 0 {
		return 0
	}
	s := 0.
	for i, n := range r.order {
		s += r.sizes[n]
		if s >= want {
			return i + 1
		}
	}
	return len(r.order)
}

func (r *cRef) evict(c Cache, k int) {
	r.evicted = map[int64]bool{}
	if r.policy() == "none" { // any choice will do: follow the cache
		var gone, stay []int64
		for _, n := range r.order {
			if cSimple(c).files.Check(n) {
				stay = append(stay, n)
			} else {
				gone = append(gone, n)
			}
		}
		r.order, k = append(gone, stay...), len(gone)
	}
	for _, n := range r.order[:k] {
		r.used -= r.sizes[n]
		r.del += r.sizes[n]
		r.deleted++
		r.evicted[n] = true
	}
	r.order = append([]int64{}, r.order[k:]...)
}

func cStores(c Cache) int {
	if a, ok := c.(*AIRL); ok {
		return a.actionCounters[qlearn.ActionStore]
	}
	return 0
}

func cFeatures(t *testing.T, rnd *rand.Rand) string {
	all := []string{
		`"size":{"buckets":[1,4,20],"openRight":true,"type":"float","fileFeature":true}`,
		`"numReq":{"buckets":[1,2,6],"openRight":true,"type":"int","fileFeature":true}`,
		`"deltaLastRequest":{"buckets":[2,10],"openRight":true,"type":"int","fileFeature":true}`,
		`"percOcc":{"buckets":[50.0,90.0],"openRight":true,"type":"float"}`,
		`"hitRate":{"buckets":[5.0,50.0],"openRight":true,"type":"float"}`}
	rnd.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	p := filepath.Join(t.TempDir(), "features.json")
	_ = os.WriteFile(p, []byte("{"+strings.Join(all[:1+rnd.Intn(3)], ",")+"}"), 0600)
	return p
}

func cSimple(c Cache) *SimpleCache {
	switch x := c.(type) {
	case *SimpleCache:
		return x
	case *RandomCache:
		return &x.SimpleCache
	case *WeightFun:
		return &x.SimpleCache
	case *LRUDatasetVerifier:
		return &x.SimpleCache
	case *InfiniteCache:
		return &x.SimpleCache
	case *AIRL:
		return &x.SimpleCache
	}
	panic("unexpected cache")
}

func cNames(c Cache) []int64 {
	var o []int64
	for _, f := range queue.GetFromWorst(cSimple(c).files) {
		o = append(o, f.Filename)
	}
	return o
}

func cEq(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func cSorted(a []int64) []int64 {
	b := append([]int64{}, a...)
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	return b
}

// the eviction that the cache just made must be one of the shortest runs for
// the two bounds (rounding of a percentage); the reference follows it
func (r *cRef) follow(c Cache, prop string, lo, hi float64, what string) {
	ka, kb := r.run(lo), r.run(hi)
	got := cSimple(c).numDeleted - r.deleted
	if r.policy() != "none" && (got < int64(ka) || got > int64(kb)) {
		cRaise(prop, "%s evicted %d files, want %d (order %v)", what, got, ka, r.order)
		cRaise("C04", "%s evicted %d files, want %d (order %v)", what, got, ka, r.order)
		if got < 0 || got > int64(len(r.order)) {
			got = int64(ka)
		}
	}
	r.evict(c, int(got))
}

func (r *cRef) check(c Cache, universe []int64, after string) {
	s := cSimple(c)
	names := cNames(c)
	heldProp := "C04"
	switch r.kind {
	case "infinite":
		heldProp = "C11"
	case "weightFunLRU":
		heldProp = "C12"
	case "lruDatasetVerifier", "random", "random_lru":
		heldProp = "C13"
	case "aiRL":
		heldProp = "R06"
	}
	if !cEq(cSorted(names), cSorted(r.order)) {
		cRaise(heldProp, "%s: holds %v, want %v", after, cSorted(names), cSorted(r.order))
		cRaise("C04", "%s: holds %v, want %v", after, cSorted(names), cSorted(r.order))
		cRaise("C03", "%s: holds %v, want %v", after, cSorted(names), cSorted(r.order))
	}
	if r.policy() != "none" && !cEq(names, r.order) {
		if r.policy() == "lru" {
			cRaise("Q02", "%s: eviction order %v, want %v", after, names, r.order)
		} else {
			cRaise("Q03", "%s: eviction order %v, want %v", after, names, r.order)
		}
		cRaise("C14", "%s: eviction order %v, want %v", after, names, r.order)
		cRaise("C04", "%s: eviction order %v, want %v", after, names, r.order)
	}
	sum := 0.
	for _, n := range names {
		sum += r.sizes[n]
	}
	if !cClose(Size(c), sum) {
		cRaise("C01", "%s: used space %v, held files %v total %v", after, Size(c), names, sum)
	}
	if r.kind == "aiRL" && (!cClose(Size(c), sum) || Size(c) > GetMaxSize(c) || Size(c) < 0 || GetMaxSize(c) != r.max) {
		cRaise("R06", "%s: used space %v of %v, held files %v total %v", after, Size(c), GetMaxSize(c), names, sum)
	}
	if r.kind == "infinite" && (!cClose(Size(c), r.used) || !cClose(GetMaxSize(c), r.max)) {
		cRaise("C11", "%s: used %v capacity %v, want %v %v", after, Size(c), GetMaxSize(c), r.used, r.max)
	}
	if r.kind != "infinite" && (Size(c) > GetMaxSize(c) || Size(c) < 0) {
		cRaise("C02", "%s: used space %v of %v", after, Size(c), GetMaxSize(c))
	}
	if !cClose(DataDeleted(c), r.del) || NumDeleted(c) != r.deleted {
		cRaise("C04", "%s: deleted %d files %v, want %d %v", after, NumDeleted(c), DataDeleted(c), r.deleted, r.del)
	}
	type pair struct {
		name      string
		got, want float64
	}
	for _, p := range []pair{{"hits", float64(NumHits(c)), float64(r.hit)}, {"requests", float64(NumRequests(c)), float64(r.req)}, {"misses", s.miss, float64(r.miss)}, {"read", DataRead(c), r.read}, {"read on hit", DataReadOnHit(c), r.readHit}, {"read on miss", DataReadOnMiss(c), r.readMiss}, {"written", DataWritten(c), r.written}, {"added", float64(NumAdded(c)), float64(r.added)}} {
		if !cClose(p.got, p.want) {
			cRaise("C05", "%s: %s %v, want %v", after, p.name, p.got, p.want)
		}
	}
	hr := 0.
	if r.hit+r.miss > 0 {
		hr = float64(r.hit) / float64(r.hit+r.miss) * 100
	}
	if !cClose(HitRate(c), hr) {
		cRaise("C06", "%s: hit rate %v, want %v", after, HitRate(c), hr)
	}
	if len(r.free) > 0 {
		m := 0.
		for _, x := range r.free {
			m += x
		}
		if m /= float64(len(r.free)); !cClose(AvgFreeSpace(c), m) {
			cRaise("C06", "%s: average free space %v, want %v", after, AvgFreeSpace(c), m)
		}
	}
	if NumRedirected(c) != r.redirected || !cClose(RedirectedSize(c), r.redirSize) {
		cRaise("C08", "%s: redirected %d %v, want %d %v", after, NumRedirected(c), RedirectedSize(c), r.redirected, r.redirSize)
	}
	for _, n := range universe {
		h, ok := r.hist[n]
		g, has := s.stats.Data[n]
		if ok != has {
			cRaise("C10", "%s: statistics of file %d present=%v, want %v", after, n, has, ok)
		}
		if !ok || !has {
			continue
		}
		if r.find(n) >= 0 && s.files.Check(n) {
			rec := false
			for _, f := range queue.GetFromWorst(s.files) {
				rec = rec || f == g
			}
			if !rec {
				cRaise("C10", "%s: held file %d has another statistics record", after, n)
			}
		}
		if g.Filename != n || !cClose(g.Size, h.size) || !g.StatInsertTime.Equal(h.first) || g.Recency != h.recency || g.DeltaLastRequest != h.delta {
			cRaise("C15", "%s: file %d record name %d size %v first %v recency %d gap %d, want %v %v %d %d", after, n, g.Filename, g.Size, g.StatInsertTime.Unix(), g.Recency, g.DeltaLastRequest, h.size, h.first.Unix(), h.recency, h.delta)
		}
		if r.kind == "infinite" {
			continue
		}
		if g.Frequency != h.freq || g.NHits != h.hits || g.NMiss != h.miss || !g.StatLastUpdateTime.Equal(h.last) {
			cRaise("C15", "%s: file %d counts %d=%d+%d last %v, want %d=%d+%d %v", after, n, g.Frequency, g.NHits, g.NMiss, g.StatLastUpdateTime.Unix(), h.freq, h.hits, h.miss, h.last.Unix())
		}
		if !cSameTimes(g.RequestedTimes, h.times) {
			cRaise("C15", "%s: file %d has %d request times %v, want the last %d: %v", after, n, len(g.RequestedTimes), cUnix(g.RequestedTimes), len(h.times), cUnix(h.times))
		}
		if r.kind == "weightFunLRU" && !cClose(g.Weight, h.weight) {
			cRaise("C12", "%s: file %d weight %v, want %v", after, n, g.Weight, h.weight)
		}
	}
	if r.kind == "weightFunLRU" && len(s.stats.Data) > 0 {
		t := 0.
		for _, g := range s.stats.Data {
			t += g.Weight
		}
		if got := s.stats.GetWeightMedian() * float64(len(s.stats.Data)); math.Abs(got-t) > 1e-6*(1+math.Abs(r.wsum)) {
			cRaise("C12", "%s: weight total %v, sum of weights %v", after, got, t)
		}
	}
}

func cUnix(l []time.Time) (o []int64) {
	for _, x := range l {
		o = append(o, x.Unix())
	}
	return
}

// the kept times are the same multiset
func cSameTimes(a, b []time.Time) bool {
	x, y := cSorted(cUnix(a)), cSorted(cUnix(b))
	return cEq(x, y)
}

func (r *cRef) weightOf(h *cHist) float64 {
	var d time.Duration
	for _, t := range h.times {
		if !t.IsZero() {
			d += h.last.Sub(t)
		}
	}
	mean := 0.
	if d != 0 {
		mean = d.Minutes() / 32
	}
	a, b, g := r.par.WfParams.Alpha, r.par.WfParams.Beta, r.par.WfParams.Gamma
	switch r.par.FunctionTypeString {
	case "FuncAdditive":
		return a*float64(h.freq) + b*h.size + g*mean
	case "FuncAdditiveExp":
		return math.Pow(float64(h.freq), a) + math.Pow(h.size, b) + math.Pow(mean, g)
	}
	return math.Pow(float64(h.freq), a) * math.Pow(h.size, b) * math.Pow(mean, g)
}

func (r *cRef) request(c Cache, rnd *rand.Rand, n int64, day int64) {
	sz := r.sizes[n]
	was := r.find(n) >= 0
	over := r.par.RedirectReq && r.bandwidth > 0 && r.readMiss >= r.bandwidth*DailyBandwidth1Gbit*0.95
	s := cSimple(c)
	if !was && r.evicted[n] {
		r.evMiss++
	}
	delBefore := s.numDeleted
	stores := cStores(c)
	added, redirect := GetFile(c, n, sz, int64(rnd.Intn(4)), float64(rnd.Intn(3))*40, day, int64(3), int64(4), int64(2))
	if redirect != (!was && over) {
		cRaise("C08", "request of file %d (held=%v, read on miss %v, bandwidth %v): redirected=%v", n, was, r.readMiss, s.bandwidth, redirect)
	}
	if redirect && added {
		cRaise("C08", "redirected request of file %d reported as added", n)
	}
	if !was && over {
		r.redirected++
		r.redirSize += sz
		return
	}
	t := time.Unix(day, 0)
	h, ok := r.hist[n]
	if r.first.IsZero() {
		r.first = t
	}
	r.last = t
	if !ok {
		h = &cHist{first: t, delta: math.MaxInt64}
		r.hist[n] = h
	} else {
		h.delta = r.tick - h.recency
	}
	h.recency = r.tick
	h.size = sz
	if r.kind != "infinite" {
		h.freq++
		if was {
			h.hits++
		} else {
			h.miss++
		}
		h.last = t
		if h.times = append(h.times, t); len(h.times) > 32 {
			h.times = h.times[1:]
		}
	}
	mean := math.Inf(1)
	if r.kind == "weightFunLRU" {
		r.wsum -= h.weight
		h.weight = r.weightOf(h)
		r.wsum += h.weight
		mean = 0
		for _, x := range r.hist {
			mean += x.weight
		}
		mean /= float64(len(r.hist))
	}
	want := false
	if was {
		r.touch(n)
	} else {
		fits := sz <= r.max
		try := true
		switch r.kind {
		case "infinite":
			fits = true
		case "weightFunLRU":
			try = h.weight <= mean
			if math.Abs(h.weight-mean) < 1e-9*(1+math.Abs(mean)) {
				try = added || s.numDeleted != delBefore // rounding
				r.blur = r.blur || !try
			}
		case "lruDatasetVerifier":
			try = r.data[n]
		case "aiRL": // the agent's choice
			if c.(*AIRL).additionAgentOK {
				try = cStores(c) != stores
				r.blur = r.blur || !try && r.used+sz > r.max
			}
		case "random", "random_lru":
			try = added || s.numDeleted != delBefore
			r.blur = r.blur || !try && r.used+sz > r.max
		}
		want = fits && try
		if try && r.kind != "infinite" && r.used+sz > r.max {
			r.evict(c, r.run(sz))
		}
		if want {
			r.place(n)
			r.used += sz
			if r.kind == "infinite" {
				r.max += sz
			}
			r.added++
			r.written += sz
		}
	}
	if added != want {
		p := map[string]string{"infinite": "C11", "weightFunLRU": "C12", "lruDatasetVerifier": "C13", "random": "C13", "random_lru": "C13", "aiRL": "R06"}[r.kind]
		if p == "" {
			p = "C03"
		}
		cRaise(p, "request of file %d size %v (held=%v, used %v of %v): added=%v, want %v", n, sz, was, s.size, r.max, added, want)
	}
	r.req++
	r.tick++
	r.read += sz
	if was {
		r.hit++
		r.readHit += sz
	} else {
		r.miss++
		r.readMiss += sz
	}
	r.free = append(r.free, r.max-r.used)
	// cleaning of the statistics
	if r.last.Sub(r.first).Hours()/24 >= r.par.DeltaDaysStep {
		for x, g := range r.hist {
			if r.find(x) < 0 && r.last.Sub(g.last).Hours()/24 >= r.par.MaxNumDayDiff {
				r.wsum -= g.weight
				delete(r.hist, x)
			}
		}
		r.first = r.last
	}
	r.watermark(c, "request")
}

func (r *cRef) watermark(c Cache, what string) {
	if !r.par.Watermarks {
		return
	}
	if r.used/r.max*100 >= r.par.HighWatermark {
		w := r.used - r.par.LowWatermark*r.max/100
		r.follow(c, "C09", w-1e-6, w+1e-6, what+" at the high watermark")
		if s := Size(c); s > r.par.LowWatermark*r.max/100+1e-6 {
			cRaise("C09", "%s: used space %v after draining, low watermark %v%% of %v", what, s, r.par.LowWatermark, r.max)
		}
	} else if d := cSimple(c).numDeleted - r.deleted; d != 0 {
		cRaise("C09", "%s below the high watermark evicted %d files", what, d)
	}
}

func (r *cRef) clearStats() {
	r.hit, r.miss, r.req, r.added, r.deleted, r.redirected = 0, 0, 0, 0, 0, 0
	r.read, r.readHit, r.readMiss, r.written, r.del, r.redirSize = 0, 0, 0, 0, 0, 0
	r.free = nil
}

func cZero(c Cache) {
	s := cSimple(c)
	for _, x := range []float64{s.hit, s.miss, s.dataWritten, s.dataRead, s.dataReadOnHit, s.dataReadOnMiss, s.dataDeleted, float64(len(s.dailyfreeSpace)), s.sumDailyFreeSpace, s.hitCPUEff, s.missCPUEff, s.upperCPUEff, s.lowerCPUEff, float64(s.numDailyHit), float64(s.numDailyMiss), float64(s.numReq), float64(s.numAdded), float64(s.numDeleted), float64(s.numRedirected), float64(s.numLocal), float64(s.numRemote), s.redirectSize} {
		if x != 0 {
			cRaise("C07", "a statistic is not zero after the reset: %v", x)
		}
	}
}

var cKinds = []string{"lru", "lfu", "sizeBig", "sizeSmall", "random", "random_lru", "infinite", "weightFunLRU", "lruDatasetVerifier", "aiRL"}

func cDataset(t *testing.T, data map[int64]bool) string {
	var d DatasetFiles
	for n := range data {
		d.SelectedFiles = append(d.SelectedFiles, n)
	}
	p := filepath.Join(t.TempDir(), "data.json.gz")
	f, _ := os.Create(p)
	g := gzip.NewWriter(f)
	_ = json.NewEncoder(g).Encode(d)
	g.Close()
	f.Close()
	return p
}

var cUnits = map[string]float64{"M": 1, "m": 1, "G": 1024, "g": 1024, "T": 1 << 20, "t": 1 << 20, "P": 1 << 30, "p": 1 << 30}

func cFactory(t *testing.T) {
	for u, f := range cUnits {
		for _, v := range []float64{0, 1, 0.5, 3.25, 100} {
			if g := GetCacheSize(v, u); !cClose(g, v*f) {
				cRaise("C14", "GetCacheSize(%v, %s) = %v, want %v", v, u, g, v*f)
			}
		}
	}
}

func cRun(t *testing.T, seed int64, kind string) (fail *cFail, trace []string) {
	rnd := rand.New(rand.NewSource(seed))
	max := []float64{16, 32, 64, 128, 1024}[rnd.Intn(5)]
	par := InitParameters{
		RedirectReq: rnd.Intn(3) == 0, Watermarks: rnd.Intn(3) == 0,
		HighWatermark: []float64{50, 75, 87.5, 100}[rnd.Intn(4)], LowWatermark: []float64{0, 25, 37.5, 50}[rnd.Intn(4)],
		MaxNumDayDiff: float64(1 + rnd.Intn(5)), DeltaDaysStep: float64(1 + rnd.Intn(4)),
		FunctionTypeString: []string{"FuncAdditive", "FuncAdditiveExp", "FuncMultiplicative"}[rnd.Intn(3)],
		WfParams:           WeightFunctionParameters{float64(1 + rnd.Intn(3)), float64(rnd.Intn(2)), float64(rnd.Intn(3)) / 2},
		RandSeed:           seed,
	}
	if par.FunctionTypeString == "FuncAdditive" && rnd.Intn(2) == 0 {
		par.WfParams.Beta = -1
	}
	if rnd.Intn(4) == 0 {
		par.MaxNumDayDiff, par.DeltaDaysStep = 1000, 1000
	}
	r := &cRef{kind: kind, key: map[int64]float64{}, sizes: map[int64]float64{}, hist: map[int64]*cHist{}, max: max, evicted: map[int64]bool{}, par: par, data: map[int64]bool{}}
	var universe []int64
	nf := 2 + rnd.Intn(10)
	style := rnd.Intn(3)
	for i := 0; i < nf; i++ {
		n := int64(rnd.Intn(1000)*100 + i)
		universe = append(universe, n)
		switch x := rnd.Intn(12); {
		case x == 0:
			r.sizes[n] = max + float64(rnd.Intn(int(max)))
		case x == 1:
			r.sizes[n] = max
		case x == 2:
			r.sizes[n] = 0
		case style == 0:
			r.sizes[n] = float64(1 + rnd.Intn(4))
		case style == 1:
			r.sizes[n] = max / 4
		default:
			r.sizes[n] = math.Floor(rnd.Float64()*max/2) / 1
		}
		if rnd.Intn(3) > 0 {
			r.data[n] = true
		}
	}
	if kind == "lruDatasetVerifier" {
		par.Dataset2TestPath = cDataset(t, r.data)
	}
	if kind == "aiRL" {
		par.AIRLType, par.EvictionAgentType = []string{"scdl", "SCDL2", "scdl2"}[rnd.Intn(3)], "none"
		if par.AIRLType == "scdl" || rnd.Intn(4) > 0 {
			par.AIRLAdditionFeatureMap = cFeatures(t, rnd)
			par.AIRLAdditionEpsilonStart, par.AIRLAdditionEpsilonDecay = rnd.Float64(), []float64{0.001, 0.1}[rnd.Intn(2)]
			par.AIRLAdditionEpsilonUnleash = rnd.Intn(2) == 0
		}
	}
	if rnd.Intn(2) == 0 {
		par.QueueType = queue.LFUQueue // the type name decides, not this
	}
	if kind == "infinite" || kind == "random" {
		par.Watermarks = false
		r.par.Watermarks = false
	}
	defer func() {
		if x := recover(); x != nil {
			if f, ok := x.(cFail); ok {
				fail = &f
				return
			}
			fail = &cFail{"", fmt.Sprintf("panic: %v", x)}
		}
	}()
	c := Create(kind, max, "M", par.FunctionTypeString, par.WfParams)
	InitInstance(kind, c, par)
	s := cSimple(c)
	if s.MaxSize != max {
		cRaise("C14", "cache of size %v has capacity %v", max, s.MaxSize)
	}
	if par.RedirectReq {
		r.bandwidth = float64(20+rnd.Intn(400)) / DailyBandwidth1Gbit
		SetBandwidth(c, r.bandwidth)
	}
	day := int64(1500000000)
	steps := 20 + rnd.Intn(200)
	last := rnd.Intn(nf)
	for i := 0; i < steps; i++ {
		day += []int64{0, 0, 3600, 86400, 86400 / 2, 3 * 86400}[rnd.Intn(6)]
		var what string
		switch x := rnd.Intn(40); {
		case x < 33:
			if rnd.Intn(3) > 0 {
				last = rnd.Intn(nf)
			}
			n := universe[last]
			what = fmt.Sprintf("request(file=%d,size=%v,time=%d)", n, r.sizes[n], day)
			trace = append(trace, what)
			r.request(c, rnd, n, day)
		case x == 33:
			a := float64(rnd.Intn(int(max)))
			what = fmt.Sprintf("Free(%v,false)", a)
			trace = append(trace, what)
			before := Size(c)
			freed := c.Free(a, false)
			if !cClose(freed, before-Size(c)) {
				cRaise("C04", "%s reported %v, used space fell by %v", what, freed, before-Size(c))
			}
			r.follow(c, "C04", a, a, what)
			if a <= 0 {
				r.evicted = map[int64]bool{}
			}
		case x == 34:
			a := float64(rnd.Intn(100))
			what = fmt.Sprintf("Free(%v,true)", a)
			trace = append(trace, what)
			m := GetMaxSize(c)
			c.Free(a, true)
			r.follow(c, "C04", a*m/100-1e-6, a*m/100+1e-6, what)
		case x == 35:
			what = "CheckWatermark()"
			trace = append(trace, what)
			high := r.par.Watermarks && r.used/r.max*100 >= r.par.HighWatermark
			if ok := CheckWatermark(c); ok == high {
				cRaise("C09", "watermark check said %v with used space %v of %v", ok, r.used, r.max)
			}
			r.watermark(c, what)
		case x == 36:
			what = "GetTotDeletedFileMiss()"
			trace = append(trace, what)
			if g := GetTotDeletedFileMiss(c); !r.blur && g != r.evMiss {
				cRaise("C16", "reported %d misses on evicted files, want %d", g, r.evMiss)
			}
			r.evMiss = 0
		case x == 37:
			what = "ClearStats()"
			trace = append(trace, what)
			u, m, h := Size(c), GetMaxSize(c), cNames(c)
			ClearStats(c)
			r.clearStats()
			cZero(c)
			if u != Size(c) || m != GetMaxSize(c) || !cEq(cSorted(h), cSorted(cNames(c))) {
				cRaise("C07", "the reset changed the files: used %v of %v, was %v of %v", Size(c), GetMaxSize(c), u, m)
			}
		case x == 38 && rnd.Intn(3) == 0:
			what = "ClearFiles()"
			trace = append(trace, what)
			ClearFiles(c)
			r.order, r.used = nil, 0
			for _, h := range r.hist {
				h.recency = 0
			}
			if Size(c) != 0 || len(cNames(c)) != 0 {
				cRaise("C07", "holds %v, used space %v after the clear", cNames(c), Size(c))
			}
		case x == 39 && rnd.Intn(8) == 0:
			what = "Clear()"
			trace = append(trace, what)
			Clear(c)
			cZero(c)
			r.clearStats()
			r.order, r.used, r.tick, r.wsum = nil, 0, 0, 0
			r.hist = map[int64]*cHist{}
			r.evicted = map[int64]bool{}
			if Size(c) != 0 || len(cNames(c)) != 0 || len(s.stats.Data) != 0 {
				cRaise("C07", "holds %v, used space %v after the full clear", cNames(c), Size(c))
			}
			r.evMiss = GetTotDeletedFileMiss(c)
			r.evMiss = 0
		default:
			continue
		}
		r.check(c, universe, what)
	}
	if g := GetTotDeletedFileMiss(c); !r.blur && g != r.evMiss {
		cRaise("C16", "reported %d misses on evicted files, want %d", g, r.evMiss)
	}
	if g := GetTotDeletedFileMiss(c); g != 0 {
		cRaise("C16", "second report gives %d, want 0", g)
	}
	return nil, trace
}

var _ = files.Stats{}

func TestVerifReplay(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VP_SEED"), 10, 64)
	secs, _ := strconv.ParseFloat(os.Getenv("VP_SECS"), 64)
	if secs == 0 {
		secs = 20
	}
	if f := func() (f *cFail) {
		defer func() {
			if x := recover(); x != nil {
				if g, ok := x.(cFail); ok {
					f = &g
				} else {
					f = &cFail{"C14", fmt.Sprint(x)}
				}
			}
		}()
		cFactory(t)
		return nil
	}(); f != nil {
		fmt.Printf("REPLAY-FOUND property=%s %s\n", f.prop, f.msg)
		return
	}
	kinds := cKinds
	switch cProp {
	case "C11":
		kinds = []string{"infinite"}
	case "R06":
		kinds = []string{"aiRL"}
	case "C12":
		kinds = []string{"weightFunLRU"}
	case "C13":
		kinds = []string{"lruDatasetVerifier", "random", "random_lru"}
	case "C02", "C03", "C09", "C15":
		kinds = []string{"lru", "lfu", "sizeBig", "sizeSmall", "random", "random_lru", "weightFunLRU", "lruDatasetVerifier", "aiRL"}
	}
	debug.SetGCPercent(800)
	start := time.Now()
	var (
		mu   sync.Mutex
		n    int
		done bool
		wg   sync.WaitGroup
	)
	for w := 0; w < 6; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if done || time.Since(start).Seconds() > secs {
					mu.Unlock()
					return
				}
				i := n
				n++
				mu.Unlock()
				k := kinds[i%len(kinds)]
				f, tr := cRun(t, seed*1000003+int64(i), k)
				if f == nil {
					continue
				}
				mu.Lock()
				if !done {
					done = true
					p := f.prop
					if p == "" {
						p = cProp
					}
					fmt.Printf("REPLAY-FOUND property=%s cache=%s seed=%d\n  %s\n  history (%d operations):\n", p, k, seed*1000003+int64(i), f.msg, len(tr))
					if len(tr) > 60 {
						fmt.Printf("    ... %d operations before\n", len(tr)-60)
						tr = tr[len(tr)-60:]
					}
					for _, x := range tr {
						fmt.Println("   ", x)
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if !done {
		fmt.Printf("%d histories, no failing input\n", n)
	}
}

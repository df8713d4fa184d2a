package queue

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"testing"
	"time"

	"simulator/v2/cache/files"
)

// Reference: an ordered list of (name, key, record); histories are run on the
// real queues and every difference is attributed to a property.

type vEnt struct {
	name int64
	key  float64
	rec  *files.Stats
}

type vRef struct {
	kind string
	l    []vEnt // eviction order
}

func (r *vRef) key(f *files.Stats) float64 {
	switch r.kind {
	case "lfu":
		return float64(f.Frequency)
	case "sizesmall":
		return f.Size
	case "sizebig":
		return -f.Size
	case "weighted":
		return f.Weight
	}
	return 0
}

func (r *vRef) find(n int64) int {
	for i, e := range r.l {
		if e.name == n {
			return i
		}
	}
	return -1
}

func (r *vRef) place(f *files.Stats) {
	e := vEnt{f.Filename, r.key(f), f}
	i := len(r.l)
	if r.kind != "lru" && r.kind != "none" {
		i = sort.Search(len(r.l), func(j int) bool { return r.l[j].key > e.key })
	}
	r.l = append(r.l, vEnt{})
	copy(r.l[i+1:], r.l[i:])
	r.l[i] = e
}

func (r *vRef) drop(n int64) {
	i := r.find(n)
	r.l = append(r.l[:i:i], r.l[i+1:]...)
}

func vNew(kind string) Queue {
	var q Queue
	switch kind {
	case "lru":
		q = &LRU{}
	case "lfu":
		q = &LFU{}
	case "sizebig":
		q = &SizeBig{}
	case "sizesmall":
		q = &SizeSmall{}
	case "weighted":
		q = &Weighted{}
	case "none":
		q = &QueueNone{}
	}
	Init(q)
	return q
}

type vFail struct{ prop, msg string }

var vProp = os.Getenv("VP_PROP")

func vRaise(prop, f string, a ...interface{}) {
	if vProp == "" || vProp == prop || vProp == "ANY" {
		panic(vFail{prop, fmt.Sprintf(f, a...)})
	}
}

func vOrderProp(kind string) string {
	if kind == "lru" {
		return "Q02"
	}
	return "Q03"
}

func vNames(l []*files.Stats) []int64 {
	var o []int64
	for _, x := range l {
		if x == nil {
			o = append(o, -1)
		} else {
			o = append(o, x.Filename)
		}
	}
	return o
}

func vCheckState(q Queue, r *vRef, universe []int64, after string) {
	// membership
	if q.len() != len(r.l) {
		vRaise("Q01", "%s: count %d, want %d", after, q.len(), len(r.l))
	}
	for _, n := range universe {
		i := r.find(n)
		if q.Check(n) != (i >= 0) {
			vRaise("Q01", "%s: file %d reported present=%v, want %v", after, n, q.Check(n), i >= 0)
		}
		if i >= 0 && q.Check(n) && q.getFileStats(n) != r.l[i].rec {
			vRaise("Q01", "%s: file %d has another record", after, n)
		}
	}
	w := append([]*files.Stats{}, q.getFromWorst()...)
	seen := map[*files.Stats]int{}
	for _, x := range w {
		seen[x]++
	}
	if len(w) != len(r.l) {
		vRaise("Q01", "%s: listing has %d records, want %d", after, len(w), len(r.l))
	}
	for _, e := range r.l {
		if seen[e.rec] != 1 {
			vRaise("Q01", "%s: file %d listed %d times", after, e.name, seen[e.rec])
		}
	}
	if r.kind != "none" {
		for i, e := range r.l {
			if i < len(w) && w[i] != e.rec {
				vRaise(vOrderProp(r.kind), "%s: eviction order %v, want file %d at %d", after, vNames(w), e.name, i)
			}
		}
		b := func() (b []*files.Stats) {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(vFail); ok {
						panic(x)
					}
					vRaise("Q06", "%s: best-first listing failed: %v", after, x)
				}
			}()
			return append(b, q.getQueue()...)
		}()
		if len(b) != len(w) {
			vRaise("Q06", "%s: best-first has %d records, worst-first %d", after, len(b), len(w))
		}
		for i := range b {
			if i < len(w) && b[i] != w[len(w)-1-i] {
				vRaise("Q06", "%s: best-first %v is not the reverse of %v", after, vNames(b), vNames(w))
			}
		}
		w2 := append([]*files.Stats{}, q.getFromWorst()...)
		for i := range w2 {
			if i >= len(w) || w2[i] != w[i] {
				vRaise("Q06", "%s: listing changed the order: %v then %v", after, vNames(w), vNames(w2))
			}
		}
	}
}

func vSelect(q Queue, r *vRef, tot float64, after string) []*files.Stats {
	before := append([]*files.Stats{}, q.getFromWorst()...)
	s := append([]*files.Stats{}, q.getWorstFilesUp2Size(tot)...)
	sum := 0.0
	seen := map[*files.Stats]bool{}
	for i, x := range s {
		if sum >= tot {
			vRaise("Q04", "%s: select %v goes on after the target: %v", after, tot, vNames(s))
		}
		if x == nil || seen[x] || r.find(x.Filename) < 0 || r.l[r.find(x.Filename)].rec != x {
			vRaise("Q04", "%s: select %v returned a wrong or repeated record: %v", after, tot, vNames(s))
			return s
		}
		seen[x] = true
		if r.kind != "none" && (i >= len(before) || x != before[i]) {
			vRaise("Q04", "%s: select %v returned %v of %v", after, tot, vNames(s), vNames(before))
		}
		sum += x.Size
	}
	if sum < tot && len(s) < len(r.l) {
		vRaise("Q04", "%s: select %v stopped early at %v: %v", after, tot, sum, vNames(s))
	}
	if r.kind != "none" {
		now := append([]*files.Stats{}, q.getFromWorst()...)
		if fmt.Sprint(vNames(now)) != fmt.Sprint(vNames(before)) {
			vRaise("Q04", "%s: select %v changed the queue: %v then %v", after, tot, vNames(before), vNames(now))
		}
	}
	return s
}

func vHistory(kind string, rng *rand.Rand, nFiles int, ops int) (log []string, bad *vFail) {
	defer func() {
		if x := recover(); x != nil {
			if f, ok := x.(vFail); ok {
				bad = &f
				return
			}
			bad = &vFail{"panic", fmt.Sprint(x)}
		}
	}()
	q := vNew(kind)
	r := &vRef{kind: kind}
	var universe []int64
	recs := map[int64]*files.Stats{}
	for i := 0; i < nFiles; i++ {
		n := int64(i)
		universe = append(universe, n)
		recs[n] = &files.Stats{Filename: n}
	}
	scramble := func(f *files.Stats) {
		f.Frequency = int64(rng.Intn(4))
		f.Size = float64(rng.Intn(4))
		f.Weight = float64(rng.Intn(4))
	}
	for step := 0; step < ops; step++ {
		n := universe[rng.Intn(len(universe))]
		f := recs[n]
		i := r.find(n)
		op := rng.Intn(12)
		pick := func(k int) []int64 {
			var ns []int64
			for _, j := range rng.Perm(len(r.l)) {
				if len(ns) < k {
					ns = append(ns, r.l[j].name)
				}
			}
			return ns
		}
		var name string
		switch {
		case op < 4 && i < 0:
			scramble(f)
			name = fmt.Sprintf("insert(%d freq=%d size=%v weight=%v)", n, f.Frequency, f.Size, f.Weight)
			log = append(log, name)
			if err := q.insert(f); err != nil {
				vRaise("Q01", "%s refused: %v", name, err)
			} else {
				r.place(f)
			}
		case op < 5:
			name = fmt.Sprintf("insert present %d", n)
			if i < 0 {
				continue
			}
			log = append(log, name)
			g := &files.Stats{Filename: n, Size: 1, Frequency: 2, Weight: 1}
			if rng.Intn(2) == 0 {
				g = f
			}
			if err := q.insert(g); err == nil {
				vRaise("Q05", "%s accepted", name)
			}
			if vProp == "Q05" {
				vState5(q, r, universe, name)
			}
		case op < 8:
			if i < 0 {
				name = fmt.Sprintf("update absent %d", n)
				log = append(log, name)
				if err := q.update(f); err == nil {
					vRaise("Q05", "%s accepted", name)
				}
				if vProp == "Q05" {
					vState5(q, r, universe, name)
				}
				break
			}
			if rng.Intn(5) == 0 {
				name = fmt.Sprintf("update %d with another record", n)
				log = append(log, name)
				if err := q.update(&files.Stats{Filename: n, Size: 2, Frequency: 1}); err == nil {
					vRaise("Q05", "%s accepted", name)
				}
				if vProp == "Q05" {
					vState5(q, r, universe, name)
				}
				break
			}
			scramble(f)
			name = fmt.Sprintf("update(%d freq=%d size=%v weight=%v)", n, f.Frequency, f.Size, f.Weight)
			log = append(log, name)
			if err := q.update(f); err != nil {
				vRaise(vOrderProp(kind), "%s refused: %v", name, err)
			} else if kind != "none" {
				r.drop(n)
				r.place(f)
			}
		case op < 9:
			ns := pick(1 + rng.Intn(3))
			if len(ns) == 0 {
				continue
			}
			name = fmt.Sprintf("remove%v", ns)
			log = append(log, name)
			if err := q.remove(append([]int64{}, ns...)); err != nil {
				vRaise("Q01", "%s refused: %v", name, err)
				return
			}
			for _, x := range ns {
				r.drop(x)
			}
		case op < 11:
			if len(r.l) == 0 {
				continue
			}
			tot := float64(1 + rng.Intn(8))
			name = fmt.Sprintf("evict worst up to %v", tot)
			log = append(log, name)
			s := vSelect(q, r, tot, name)
			var ns []int64
			for _, x := range s {
				ns = append(ns, x.Filename)
			}
			if err := q.removeWorst(append([]int64{}, ns...)); err != nil {
				vRaise("Q01", "%s: removing the worst %v refused: %v", name, ns, err)
				vRaise(vOrderProp(kind), "%s: removing the worst %v refused: %v", name, ns, err)
				return
			}
			for _, x := range ns {
				if r.find(x) >= 0 {
					r.drop(x)
				}
			}
		default:
			if vProp != "Q05" && vProp != "ANY" || kind == "none" || rng.Intn(12) > 0 {
				continue
			}
			// refused removals end the history: they may leave a part removed
			if i < 0 {
				ns := append(pick(rng.Intn(3)), n)
				name = fmt.Sprintf("remove absent %v", ns)
				log = append(log, name)
				if err := q.remove(ns); err == nil {
					vRaise("Q05", "%s accepted", name)
				}
				return
			}
			if len(r.l) > 1 && i > 0 {
				k := rng.Intn(i + 1)
				var ns []int64
				for j := 0; j < k; j++ {
					ns = append(ns, r.l[j].name)
				}
				if i == k {
					continue
				}
				ns = append(ns, n)
				name = fmt.Sprintf("remove worst %v", ns)
				log = append(log, name)
				if err := q.removeWorst(ns); err == nil {
					vRaise("Q05", "%s accepted, worst was %d", name, r.l[k].name)
				}
				return
			}
			continue
		}
		vCheckState(q, r, universe, name)
		if len(r.l) > 0 {
			vSelect(q, r, float64(1+rng.Intn(6)), name)
		}
	}
	return
}

func vState5(q Queue, r *vRef, universe []int64, name string) {
	for _, n := range universe {
		if i := r.find(n); q.Check(n) != (i >= 0) || i >= 0 && q.getFileStats(n) != r.l[i].rec {
			vRaise("Q05", "%s changed the contents at %d", name, n)
		}
	}
	w := q.getFromWorst()
	if len(w) != len(r.l) || q.len() != len(r.l) {
		vRaise("Q05", "%s changed the count", name)
	}
	if r.kind != "none" {
		for i, e := range r.l {
			if w[i] != e.rec {
				vRaise("Q05", "%s changed the order to %v", name, vNames(w))
			}
		}
	}
}

func TestVerifReplay(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VP_SEED"))
	rng := rand.New(rand.NewSource(int64(seed)))
	secs, _ := strconv.Atoi(os.Getenv("VP_SECS"))
	if secs == 0 {
		secs = 20
	}
	kinds := []string{"lru", "lfu", "sizebig", "sizesmall", "weighted", "none"}
	switch vProp {
	case "Q02":
		kinds = kinds[:1]
	case "Q03":
		kinds = kinds[1:5]
	}
	end := time.Now().Add(time.Duration(secs) * time.Second)
	n := 0
	panics := 0
	for time.Now().Before(end) {
		for _, k := range kinds {
			sz := 2 + rng.Intn(7)
			log, bad := vHistory(k, rng, sz, 20+rng.Intn(600))
			n++
			if bad != nil {
				if bad.prop == "panic" {
					panics++
					if panics < 3 {
						fmt.Printf("%s: panic %s after %v\n", k, bad.msg, log)
					}
					if os.Getenv("VP_PANIC") == "" {
						// a crash inside an operation every property speaks about
						fmt.Printf("REPLAY-FOUND queue=%s property=%s panic: %s\nhistory: %v\n", k, vProp, bad.msg, log)
						t.FailNow()
					}
					continue
				}
				fmt.Printf("REPLAY-FOUND queue=%s property=%s %s\nhistory: %v\n", k, bad.prop, bad.msg, log)
				t.FailNow()
			}
		}
	}
	fmt.Printf("%d histories, no failing input\n", n)
}

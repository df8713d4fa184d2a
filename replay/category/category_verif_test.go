package cache

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	"simulator/v2/cache/ai/featuremap"
	"simulator/v2/cache/files"
)

// Random histories of category assignments and removals on the real manager
// against a model that keeps, per file, the category it was last assigned to.

type foundCat struct{ msg string }

func badCat(f string, a ...interface{}) { panic(foundCat{fmt.Sprintf(f, a...)}) }

type catModel struct {
	cat  map[int64]int
	size map[int64]float64
	rec  map[int64]*files.Stats
	open map[int]bool
}

func (m *catModel) check(cm *CategoryManager) {
	if len(cm.filesCategoryMap) != len(m.cat) {
		badCat("%d files tracked, %d expected", len(cm.filesCategoryMap), len(m.cat))
	}
	for n, c := range m.cat {
		if got, ok := cm.filesCategoryMap[n]; !ok || got != c {
			badCat("file %d is recorded in category %d (tracked=%v), not %d", n, got, ok, c)
		}
	}
	seen := map[int64]int{}
	sum := map[int]float64{}
	for c, list := range cm.categoryFileListMap {
		if len(list) == 0 && !m.open[c] {
			badCat("category %d is empty and still there", c)
		}
		for _, f := range list {
			seen[f.Filename]++
			if m.cat[f.Filename] != c || m.rec[f.Filename] != f {
				badCat("category %d lists file %d, which belongs to category %d", c, f.Filename, m.cat[f.Filename])
			}
			sum[c] += m.size[f.Filename]
		}
	}
	for n := range m.cat {
		if seen[n] != 1 {
			badCat("file %d is listed %d times", n, seen[n])
		}
	}
	if len(cm.categorySizesMap) != len(cm.categoryFileListMap) {
		badCat("%d categories have a size, %d a list", len(cm.categorySizesMap), len(cm.categoryFileListMap))
	}
	for c := range cm.categoryFileListMap {
		if cm.categorySizesMap[c] != sum[c] {
			badCat("the size of category %d is %v, its files sum up to %v", c, cm.categorySizesMap[c], sum[c])
		}
	}
	if cm.GetNumCategories() != len(cm.categorySizesMap) {
		badCat("%d categories counted, %d there", cm.GetNumCategories(), len(cm.categorySizesMap))
	}
}

func feat(name string, kind string) featuremap.Obj {
	o := featuremap.Obj{Name: name, Buckets: true}
	if kind == "float" {
		o.ReflectType = 14
		o.Float64Values = []float64{5, 20, 50, 1e12}
	} else {
		o.ReflectType = 6
		o.Int64Values = []int64{1, 3, 9, 1 << 60}
	}
	return o
}

func catHistory(r *rand.Rand) (log []string) {
	defer func() {
		if e := recover(); e != nil {
			f, ok := e.(foundCat)
			if !ok {
				f = foundCat{fmt.Sprint("crash: ", e)}
			}
			fmt.Printf("REPLAY-FOUND property=R05 %s\n", f.msg)
			for i, l := range log {
				if i < 200 {
					fmt.Println(l)
				}
			}
			os.Exit(1)
		}
	}()
	cm := &CategoryManager{}
	fs := []featuremap.Obj{feat("catSize", "float"), feat("catNumReq", "int"), feat("catDeltaLastRequest", "int")}
	cm.Init(fs, []int{16, 4, 1}, fs, []int{16, 4, 1}, map[string]int{"catSize": 0, "catNumReq": 1, "catDeltaLastRequest": 2})
	m := &catModel{map[int64]int{}, map[int64]float64{}, map[int64]*files.Stats{}, map[int]bool{}}
	nf := 1 + r.Intn(8)
	all := make([]*files.Stats, nf)
	for i := range all {
		all[i] = &files.Stats{Filename: int64(i + 1), Size: float64(1 + r.Intn(60)), Frequency: int64(r.Intn(12)), Recency: int64(r.Intn(12))}
	}
	m.check(cm)
	for k := 0; k < 1+r.Intn(60); k++ {
		f := all[r.Intn(nf)]
		n := f.Filename
		switch c, tracked := m.cat[n]; {
		case tracked && r.Intn(4) == 0:
			log = append(log, fmt.Sprintf("remove file %d from category %d", n, c))
			cm.deleteFileFromCategory(c, f)
			delete(m.cat, n)
		default:
			if r.Intn(3) == 0 {
				f.Size = float64(1 + r.Intn(60))
				f.Frequency = int64(r.Intn(12))
				f.Recency = int64(r.Intn(12))
			}
			c2 := r.Intn(4)
			if r.Intn(3) > 0 {
				c2 = cm.GetFileCategory(f)
				m.open[c2] = true
			}
			log = append(log, fmt.Sprintf("assign file %d of size %v to category %d", n, f.Size, c2))
			cm.AddOrUpdateCategoryFile(c2, f)
			if !tracked || c != c2 {
				m.size[n] = f.Size
			}
			m.cat[n], m.rec[n] = c2, f
			delete(m.open, c2)
		}
		m.check(cm)
	}
	return
}

func TestVerifReplay(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VP_SEED"), 10, 64)
	secs, _ := strconv.Atoi(os.Getenv("VP_SECS"))
	r := rand.New(rand.NewSource(seed))
	n := 0
	for end := time.Now().Add(time.Duration(secs) * time.Second); time.Now().Before(end); n++ {
		catHistory(r)
	}
	fmt.Printf("no failing input in %d histories\n", n)
}

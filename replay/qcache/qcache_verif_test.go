package cache

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"
)

// Random histories on the real cache, with sizes that add up exactly.

type found struct{ msg string }

func bad(f string, a ...interface{}) { panic(found{fmt.Sprintf(f, a...)}) }

func report(msg string, log []string) {
	fmt.Printf("REPLAY-FOUND property=O01 %s\n", msg)
	for i, l := range log {
		if i < 200 {
			fmt.Println(l)
		}
	}
	os.Exit(1)
}

func history(r *rand.Rand, log *[]string) {
	c := &SimCache{MaxSize: float64(1 + r.Intn(40))}
	c.Init()
	nf := 1 + r.Intn(8)
	sizes := make([]float64, nf)
	for i := range sizes {
		sizes[i] = float64(r.Intn(24)) / 2
		if r.Intn(10) == 0 {
			sizes[i] = c.MaxSize + float64(r.Intn(3))
		}
	}
	if r.Intn(4) == 0 {
		sizes[0] = c.MaxSize
	}
	*log = append(*log, fmt.Sprintf("capacity %v", c.MaxSize))
	requests := make([]float64, nf)
	for k := 0; k < 1+r.Intn(50); k++ {
		i := r.Intn(nf)
		f, sz := "f"+strconv.Itoa(i), sizes[i]
		held := map[string]bool{}
		used := 0.0
		for n := range c.files {
			held[n] = true
			used += c.stats[n].Size
		}
		switch {
		case r.Intn(8) == 0:
			*log = append(*log, "remove "+f)
			c.Remove(f)
			if _, in := c.files[f]; in {
				bad("%s is still held after its removal", f)
			}
			for n := range held {
				if _, in := c.files[n]; n != f && !in {
					bad("%s is gone after the removal of %s", n, f)
				}
			}
			if len(held) == 0 && len(c.files) != 0 {
				bad("files appeared")
			}
		default:
			*log = append(*log, fmt.Sprintf("insert %s of size %v", f, sz))
			s, n, v := c.UpdateStats(f, sz)
			requests[i]++
			if s != sz || n != requests[i] || v != s*n {
				bad("statistics of %s: size %v, requests %v, value %v", f, s, n, v)
			}
			done := make(chan interface{})
			go func() {
				defer func() { done <- recover() }()
				c.Insert(f, sz)
			}()
			select {
			case e := <-done:
				if e != nil {
					bad("crash: %v", e)
				}
			case <-time.After(3 * time.Second):
				report("the insertion never ends", *log)
			}
			_, in := c.files[f]
			if in != (sz <= c.MaxSize || held[f]) {
				bad("%s of size %v held: %v", f, sz, in)
			}
			worst := -1.0
			for n := range held {
				if _, in := c.files[n]; !in {
					if used+sz <= c.MaxSize {
						bad("%s evicted although the new file fits", n)
					}
					if sz > c.MaxSize {
						bad("%s evicted for a file that cannot fit", n)
					}
					if c.stats[n].Value > worst {
						worst = c.stats[n].Value
					}
				}
			}
			for n := range c.files {
				if n != f && !held[n] {
					bad("%s appeared", n)
				}
				if n != f && c.stats[n].Value < worst {
					bad("%s stays with value %v while a file of value %v was evicted", n, c.stats[n].Value, worst)
				}
			}
		}
		sum := 0.0
		for n, s := range c.files {
			if s != c.stats[n].Size {
				bad("recorded size of %s is %v, not %v", n, s, c.stats[n].Size)
			}
			sum += s
		}
		if got := c.GetSize(); got != sum {
			bad("used space is %v, held files sum up to %v", got, sum)
		}
		if sum > c.MaxSize {
			bad("used space %v exceeds the capacity %v", sum, c.MaxSize)
		}
		if got := c.GetCapacity(); got != (sum/c.MaxSize)*100 {
			bad("occupancy %v, not %v", got, sum/c.MaxSize*100)
		}
		if len(c.files) > 0 {
			n, v := c.GetMinValue()
			if _, in := c.files[n]; !in || c.stats[n].Value != v {
				bad("lowest value %v of %s", v, n)
			}
			for m := range c.files {
				if c.stats[m].Value < v {
					bad("%s has a lower value than %s", m, n)
				}
			}
		}
	}
}

func one(r *rand.Rand) {
	var log []string
	defer func() {
		if e := recover(); e != nil {
			f, ok := e.(found)
			if !ok {
				f = found{fmt.Sprint("crash: ", e)}
			}
			report(f.msg, log)
		}
	}()
	history(r, &log)
}

func TestVerifReplay(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VP_SEED"), 10, 64)
	secs, _ := strconv.Atoi(os.Getenv("VP_SECS"))
	r := rand.New(rand.NewSource(seed))
	n := 0
	for end := time.Now().Add(time.Duration(secs) * time.Second); time.Now().Before(end); n++ {
		one(r)
	}
	fmt.Printf("no failing input in %d histories\n", n)
}

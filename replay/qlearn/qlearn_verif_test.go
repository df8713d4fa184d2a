package qlearn

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"testing"
	"time"

	"simulator/v2/cache/ai/featuremap"
)

// Random feature maps, tables and histories on the real code against direct
// definitions of what they should do.

type found struct{ msg string }

func bad(f string, a ...interface{}) { panic(found{fmt.Sprintf(f, a...)}) }

var r *rand.Rand

// a feature map file and what it describes
func randMap(dir string, numericOnly bool) (*featuremap.FeatureManager, string) {
	n := 1 + r.Intn(4)
	m := map[string]interface{}{}
	for i := 0; i < n; i++ {
		f := map[string]interface{}{}
		k := 1 + r.Intn(5)
		ty := []string{"int", "float", "string", "bool"}[r.Intn(4)]
		if numericOnly {
			ty = []string{"int", "float"}[r.Intn(2)]
		}
		var vals []interface{}
		cur := float64(r.Intn(20) - 10)
		for j := 0; j < k; j++ {
			switch ty {
			case "int":
				vals = append(vals, cur)
				cur += float64(1 + r.Intn(5))
			case "float":
				vals = append(vals, cur)
				cur += 0.5 + float64(r.Intn(6))/2
			case "string":
				vals = append(vals, "s"+strconv.Itoa(j))
			case "bool":
				if j < 2 {
					vals = append(vals, j == 0)
				}
			}
		}
		f["type"] = ty
		f["buckets"] = vals
		if r.Intn(2) == 0 && (ty == "int" || ty == "float") {
			f["openRight"] = true
		}
		m["f"+strconv.Itoa(i)] = f
	}
	b, _ := json.Marshal(m)
	p := filepath.Join(dir, "map.json")
	if err := os.WriteFile(p, b, 0o644); err != nil {
		panic(err)
	}
	fm := featuremap.Parse(p)
	return &fm, string(b)
}

func refSize(o featuremap.Obj) int {
	switch o.ReflectType {
	case reflect.String:
		return len(o.StringValues)
	case reflect.Bool:
		return len(o.BoolValues)
	case reflect.Int64:
		return len(o.Int64Values)
	}
	return len(o.Float64Values)
}

func refIndex(o featuremap.Obj, v interface{}) int {
	switch o.ReflectType {
	case reflect.String:
		for i, x := range o.StringValues {
			if x == v.(string) {
				return i
			}
		}
	case reflect.Bool:
		for i, x := range o.BoolValues {
			if x == v.(bool) {
				return i
			}
		}
	case reflect.Int64:
		for i, x := range o.Int64Values {
			if v.(int64) <= x {
				return i
			}
		}
	case reflect.Float64:
		for i, x := range o.Float64Values {
			if v.(float64) <= x {
				return i
			}
		}
	}
	return -1
}

func randVal(o featuremap.Obj) interface{} {
	switch o.ReflectType {
	case reflect.String:
		return "s" + strconv.Itoa(r.Intn(7))
	case reflect.Bool:
		return r.Intn(2) == 0
	case reflect.Int64:
		if len(o.Int64Values) > 0 && r.Intn(2) == 0 {
			return o.Int64Values[r.Intn(len(o.Int64Values))] + int64(r.Intn(2))
		}
		return int64(r.Intn(60) - 20)
	}
	if len(o.Float64Values) > 0 && r.Intn(2) == 0 {
		return o.Float64Values[r.Intn(len(o.Float64Values))]
	}
	return float64(r.Intn(120))/2 - 20
}

func tryF01(dir string) {
	fm, src := randMap(dir, false)
	for i, o := range fm.Features {
		if o.Size() != refSize(o) {
			bad("feature map %s: Size() of %s is %d, it has %d buckets", src, o.Name, o.Size(), refSize(o))
		}
		if fm.FeatureIdxMap[o.Name] != i {
			bad("feature map %s: feature %s is at %d, recorded at %d", src, o.Name, i, fm.FeatureIdxMap[o.Name])
		}
		for j := 0; j < o.Size(); j++ {
			var want interface{}
			switch o.ReflectType {
			case reflect.String:
				want = o.StringValues[j]
			case reflect.Bool:
				want = o.BoolValues[j]
			case reflect.Int64:
				want = o.Int64Values[j]
			default:
				want = o.Float64Values[j]
			}
			if o.Value(j) != want {
				bad("feature map %s: Value(%d) of %s is %v, the bucket is %v", src, j, o.Name, o.Value(j), want)
			}
		}
		for t := 0; t < 20; t++ {
			v := randVal(o)
			if got, want := o.Index(v), refIndex(o, v); got != want {
				bad("feature map %s: Index(%v) of %s is %d, the first fitting bucket is %d", src, v, o.Name, got, want)
			}
		}
	}
	fm, src = randMap(dir, true)
	q := QTable{FeatureManager: fm}
	var vs []interface{}
	for _, o := range fm.Features {
		vs = append(vs, randVal(o))
	}
	got := q.Features2Idxs(vs...)
	for i, o := range fm.Features {
		if len(got) != len(vs) || got[i] != refIndex(o, vs[i]) {
			bad("feature map %s: Features2Idxs(%v) = %v, the index of %v in %s is %d", src, vs, got, vs[i], o.Name, refIndex(o, vs[i]))
		}
	}
}

func newAgent(dir string) (*Agent, string) {
	fm, src := randMap(dir, r.Intn(2) == 0)
	a := &Agent{}
	role := []AgentRole{AdditionAgent, EvictionAgent}[r.Intn(2)]
	a.Init(fm, role, 1.0, float64(r.Intn(30))/100, r.Intn(2) == 0, r.Int63())
	want := []ActionType{ActionNotStore, ActionStore}
	if role == EvictionAgent {
		want = []ActionType{ActionNotDelete, ActionDeleteOne, ActionDeleteQuarter, ActionDeleteHalf, ActionDeleteAll}
	}
	if !reflect.DeepEqual(a.QTable.ActionTypes, want) {
		bad("agent of role %d has actions %v", role, a.QTable.ActionTypes)
	}
	if a.NumStates != len(a.QTable.States) || a.NumVars != a.NumStates*len(want) {
		bad("agent with %d states and %d actions records %d states and %d values", len(a.QTable.States), len(want), a.NumStates, a.NumVars)
	}
	return a, src
}

func tryF02(dir string) {
	a, src := newAgent(dir)
	q := a.QTable
	n := 1
	for _, o := range q.FeatureManager.Features {
		n *= refSize(o)
	}
	if len(q.States) != n || len(q.Actions) != n {
		bad("feature map %s: %d combinations, table of %d states and %d action rows", src, n, len(q.States), len(q.Actions))
	}
	for k := 0; k < n; k++ {
		// the combination numbered k, last feature fastest
		c := make([]int, len(q.FeatureManager.Features))
		x := k
		for i := len(c) - 1; i >= 0; i-- {
			s := refSize(q.FeatureManager.Features[i])
			c[i] = x % s
			x /= s
		}
		if got := q.FeatureIdxs2StateIdx(c...); got != k {
			bad("feature map %s: combination %v is numbered %d, its mixed-radix value is %d", src, c, got, k)
		}
		if len(q.States[k]) != len(c) || (len(c) > 0 && !reflect.DeepEqual(q.States[k], c)) {
			bad("feature map %s: row %d holds combination %v, not %v", src, k, q.States[k], c)
		}
		if len(q.Actions[k]) != len(q.ActionTypes) {
			bad("feature map %s: row %d has %d action values for %d actions", src, k, len(q.Actions[k]), len(q.ActionTypes))
		}
	}
}

func fill(a *Agent) {
	for i := range a.QTable.Actions {
		for j := range a.QTable.Actions[i] {
			a.QTable.Actions[i][j] = float64(r.Intn(5) - 2)
		}
	}
}

func snap(a *Agent) [][]float64 {
	var s [][]float64
	for _, x := range a.QTable.Actions {
		s = append(s, append([]float64{}, x...))
	}
	return s
}

func top(x []float64) float64 {
	m := math.Inf(-1)
	for _, v := range x {
		m = math.Max(m, v)
	}
	return m
}

func tryR01(dir string) {
	a, src := newAgent(dir)
	if r.Intn(3) > 0 {
		fill(a)
	}
	for t := 0; t < 10; t++ {
		before, q0 := snap(a), a.QValue
		s, s2 := r.Intn(a.NumStates), r.Intn(a.NumStates)
		if r.Intn(4) == 0 {
			s2 = s
		}
		act := ActionType(-r.Intn(8))
		rew := float64(r.Intn(9) - 4)
		ai := -1
		for i, x := range a.QTable.ActionTypes {
			if x == act {
				ai = i
			}
		}
		refused := false
		func() {
			defer func() {
				if e := recover(); e != nil {
					refused = true
				}
			}()
			a.UpdateTable(s, s2, act, rew)
		}()
		if refused != (ai < 0) {
			bad("feature map %s: actions %v, UpdateTable with action %d refused: %v", src, a.QTable.ActionTypes, act, refused)
		}
		if ai < 0 {
			continue
		}
		want := before[s][ai] + a.LearningRate*(rew+a.DiscountFactor*top(before[s2])-before[s][ai])
		if math.Abs(a.QTable.Actions[s][ai]-want) > 1e-9 {
			bad("values %v, UpdateTable(%d, %d, action %d, reward %v) sets %v, the rule gives %v", before, s, s2, act, rew, a.QTable.Actions[s][ai], want)
		}
		if math.Abs(a.QValue-q0-rew) > 1e-9 {
			bad("accumulated value %v becomes %v after a reward of %v", q0, a.QValue, rew)
		}
		for i := range before {
			for j := range before[i] {
				if (i != s || j != ai) && before[i][j] != a.QTable.Actions[i][j] {
					bad("values %v, UpdateTable(%d, %d, action %d, reward %v) also changes entry %d,%d to %v", before, s, s2, act, rew, i, j, a.QTable.Actions[i][j])
				}
			}
		}
	}
}

func tryR02(dir string) {
	a, _ := newAgent(dir)
	fill(a)
	before := snap(a)
	for t := 0; t < 10; t++ {
		s := r.Intn(a.NumStates)
		b := a.GetBestAction(s)
		i, ok := a.QTable.ActionTypeIdxs[b]
		if !ok || a.QTable.ActionTypes[i] != b || before[s][i] != top(before[s]) {
			bad("values %v of actions %v: best action %d", before[s], a.QTable.ActionTypes, b)
		}
		if v := a.GetBestActionValue(s); v != top(before[s]) {
			bad("values %v: best value %v", before[s], v)
		}
		for j, x := range a.QTable.ActionTypes {
			if v := a.GetActionValue(s, x); v != before[s][j] {
				bad("values %v of actions %v: value of action %d is %v", before[s], a.QTable.ActionTypes, x, v)
			}
		}
		if !reflect.DeepEqual(before, snap(a)) {
			bad("asking changes the values %v to %v", before, snap(a))
		}
	}
}

func tryR03(dir string) {
	a, _ := newAgent(dir)
	a.DecayRateEpsilon = []float64{0, 0.001, 0.05, 0.3, 2}[r.Intn(5)]
	if r.Intn(3) == 0 {
		a.MaxEpsilon, a.MinEpsilon = 0.7, 0.2
	}
	a.Epsilon = []float64{a.MaxEpsilon, a.MinEpsilon, a.MinEpsilon / 2, 0.5}[r.Intn(4)]
	for t := 0; t < 40; t++ {
		e, n := a.Epsilon, a.StepNum
		a.UpdateEpsilon()
		if e <= a.MinEpsilon {
			if a.Epsilon != e || a.StepNum != n {
				bad("rate %v at its minimum %v becomes %v, step %d becomes %d", e, a.MinEpsilon, a.Epsilon, n, a.StepNum)
			}
			break
		}
		if a.StepNum != n+1 || a.Epsilon < a.MinEpsilon || a.Epsilon > a.MaxEpsilon {
			bad("rate %v in [%v, %v], step %d: a decay step gives rate %v, step %d", e, a.MinEpsilon, a.MaxEpsilon, n, a.Epsilon, a.StepNum)
		}
		if t > 0 && a.Epsilon > e {
			bad("decay %v: a step raises the rate from %v to %v", a.DecayRateEpsilon, e, a.Epsilon)
		}
		if want := a.MinEpsilon + (a.MaxEpsilon-a.MinEpsilon)*math.Exp(-a.DecayRateEpsilon*float64(n+1)); math.Abs(want-a.Epsilon) > 1e-9 {
			bad("decay %v, step %d: rate %v, the decay formula gives %v", a.DecayRateEpsilon, n+1, a.Epsilon, want)
		}
	}
	if r.Intn(2) == 0 {
		e, n := a.Epsilon, a.StepNum
		a.UnleashEpsilon(nil)
		if a.allowEpsilonUnleash && (a.Epsilon != 1 || a.StepNum != 0) || !a.allowEpsilonUnleash && (a.Epsilon != e || a.StepNum != n) {
			bad("unleash (allowed: %v) of rate %v, step %d gives %v, step %d", a.allowEpsilonUnleash, e, n, a.Epsilon, a.StepNum)
		}
	}
	if r.Intn(2) == 0 {
		fill(a)
	}
	x, y := a.GetCoverage()
	if !(x >= 0 && x <= 100 && y >= 0 && y <= 100) {
		bad("values %v: coverage %v, %v", a.QTable.Actions, x, y)
	}
}

func tryR04(dir string) {
	a, _ := newAgent(dir)
	ref := map[interface{}][]Choice{}
	keys := []interface{}{int64(1), int64(2), "1", int64(3), 1}
	desc := ""
	check := func() {
		for _, k := range keys {
			got, ok := a.Memory[k]
			want, ok2 := ref[k]
			if ok != ok2 || len(got) != len(want) || (len(want) > 0 && !reflect.DeepEqual(got, want)) {
				bad("history%s: key %v (%T) remembers %v, should remember %v", desc, k, k, got, want)
			}
		}
	}
	bounded := r.Intn(2) == 0
	steps := 10 + r.Intn(120)
	for t := 0; t < steps; t++ {
		k := keys[r.Intn(len(keys))]
		if r.Intn(3) > 0 {
			k = keys[0]
		}
		switch x := r.Intn(40); {
		case x < 36:
			c := Choice{State: t, Action: ActionType(-r.Intn(8)), Tick: int64(t), Hit: r.Intn(2) == 0, Size: float64(t)}
			h := append(append([]Choice{}, ref[k]...), c)
			if bounded {
				a.SaveMemory(k, c)
				if len(h) > maxStored {
					h = h[len(h)-maxStored:]
				}
			} else {
				a.SaveMemoryWithNoLimits(k, c)
			}
			ref[k] = h
			desc += fmt.Sprintf(" save(%v)", k)
		case x < 38:
			got, ok := a.Remember(k)
			want, ok2 := ref[k]
			if ok != ok2 || len(got) != len(want) || (len(want) > 0 && !reflect.DeepEqual(got, want)) {
				bad("history%s: Remember(%v) gives %v %v, should give %v %v", desc, k, got, ok, want, ok2)
			}
			delete(ref, k)
			desc += fmt.Sprintf(" remember(%v)", k)
		case x < 39:
			a.DeleteMemory(k)
			delete(ref, k)
			desc += fmt.Sprintf(" delete(%v)", k)
		default:
			if r.Intn(4) == 0 {
				a.ResetMemories()
				ref = map[interface{}][]Choice{}
				desc += " reset"
			}
		}
		check()
	}
}

const maxStored = 32

func TestVerifReplay(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VP_SEED"), 10, 64)
	secs, _ := strconv.Atoi(os.Getenv("VP_SECS"))
	dir := os.Getenv("VP_DIR")
	try := map[string]func(string){"F01": tryF01, "F02": tryF02, "R01": tryR01, "R02": tryR02, "R03": tryR03, "R04": tryR04}[os.Getenv("VP_PROP")]
	if try == nil {
		fmt.Println("no failing input: no search for this property")
		return
	}
	end := time.Now().Add(time.Duration(secs) * time.Second)
	for i := int64(0); i < 4000 && time.Now().Before(end); i++ {
		r = rand.New(rand.NewSource(seed*1000003 + i))
		stop := false
		func() {
			defer func() {
				if e := recover(); e != nil {
					stop = true
					if f, ok := e.(found); ok {
						fmt.Printf("REPLAY-FOUND seed %d round %d: %s\n", seed, i, f.msg)
					} else {
						fmt.Printf("REPLAY-FOUND seed %d round %d: the code panics: %v\n", seed, i, e)
					}
				}
			}()
			try(dir)
		}()
		if stop {
			return
		}
	}
	fmt.Println("no failing input found")
}

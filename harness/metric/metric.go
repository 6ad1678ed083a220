package verifdrv

import (
	"math"
	"math/rand"
	"testing"
	"testing/synctest"
	"time"

	"github.com/BTBurke/monny/pkg/metric"
)

func init() {
	runners["series"] = runSeries
	runners["sampled"] = runSampled
	runners["windowed"] = runWindowed
	runners["names"] = runNames
	runners["lin"] = runMetricLin
}

const odd = 999999999 // stands for a value that is not a small integer

// values that TLC has no numbers for
var special = map[int]float64{
	900000001: math.NaN(), 900000002: math.Inf(1), 900000003: math.Inf(-1), 900000004: math.MaxFloat64, 900000005: -math.MaxFloat64,
	900000006: math.SmallestNonzeroFloat64, 900000007: 0.1, 900000008: 1e-300, 900000009: 1 << 53,
}

func fv(n int) float64 {
	if f, ok := special[n]; ok {
		return f
	}
	return float64(n)
}

func iv(f float64) int {
	for n, x := range special {
		if x == f || math.IsNaN(x) && math.IsNaN(f) {
			return n
		}
	}
	if f != math.Trunc(f) || math.Abs(f) > 9e8 {
		return odd
	}
	return int(f)
}

func ivs(fs []float64) []int {
	out := []int{}
	for _, f := range fs {
		out = append(out, iv(f))
	}
	return out
}

func floats(v interface{}) []float64 {
	var out []float64
	for _, x := range list(v) {
		out = append(out, float64(num(x)))
	}
	return out
}

func seriesOpts(s Script) []metric.SeriesOption {
	var opts []metric.SeriesOption
	init := floats(s.Cfg["init"])
	if len(init) > 0 {
		opts = append(opts, metric.WithValues(init))
	}
	if boolean(s.Cfg["named"]) {
		opts = append(opts, metric.WithName(str(s.Cfg["name"]), nil))
	}
	return opts
}

func seriesOp(op J, x metric.SeriesRecorder, kept *[][]float64) J {
	e := J{"op": op["op"]}
	switch str(op["op"]) {
	case "record":
		e["v"] = num(op["v"])
		x.Record(fv(num(op["v"])))
	case "many":
		e["v"], e["k"] = num(op["v"]), num(op["k"])
		for i := 0; i < num(op["k"]); i++ {
			x.Record(fv(num(op["v"])))
		}
	case "reset":
		x.Reset()
	case "values":
		v := x.Values()
		*kept = append(*kept, v)
		e["res"] = ivs(v)
	case "count":
		e["res"] = x.Count()
	case "cap":
		e["res"] = x.Capacity()
	case "name":
		e["res"] = x.Name()
	case "agg":
		q := floats(op["q"])
		e["tr"], e["q"] = op["tr"], ivs(q)
		e["res"] = iv(math.Round(1000 * transformOf(str(op["tr"]))(q)))
		e["after"] = ivs(q)
	case "look":
		if len(*kept) == 0 {
			return nil
		}
		i := num(op["i"]) % len(*kept)
		e["i"], e["res"] = i+1, ivs((*kept)[i])
	default:
		return nil
	}
	return e
}

func runSeries(t *testing.T, s Script, r *Rec) {
	x, err := metric.NewSeries(num(s.Cfg["cap"]), seriesOpts(s)...)
	if err != nil {
		r.Add(J{"op": "new", "res": "error"})
		return
	}
	r.Add(J{"op": "new", "res": "ok"})
	var kept [][]float64
	for _, op := range s.Ops {
		if e := seriesOp(op, x, &kept); e != nil {
			r.Add(e)
		}
	}
}

func transformOf(name string) func([]float64) float64 {
	switch name {
	case "sum":
		return metric.SampleSum
	case "avg":
		return metric.SampleAverage
	case "min":
		return metric.SampleMin
	case "max":
		return metric.SampleMax
	}
	return func(obs []float64) float64 {
		a := 7
		for _, o := range obs {
			a = (a*31 + iv(o) + 500) % 1000003
		}
		return float64(a)
	}
}

func runSampled(t *testing.T, s Script, r *Rec) {
	bubble(t, r, func() {
		unit := unitOf(s)
		x, done, err := metric.NewSampledSeries(num(s.Cfg["cap"]), time.Duration(num(s.Cfg["win"]))*unit, transformOf(str(s.Cfg["tr"])), seriesOpts(s)...)
		if err != nil {
			r.Add(J{"op": "new", "res": "error"})
			return
		}
		r.Add(J{"op": "new", "res": "ok"})
		synctest.Wait()
		isDone := false
		var kept [][]float64
		for _, op := range s.Ops {
			switch str(op["op"]) {
			case "pass":
				n := num(op["n"])
				time.Sleep(time.Duration(n) * unit)
				r.Add(J{"op": "pass", "n": n})
				if boolean(op["settle"]) {
					synctest.Wait()
					r.Add(J{"op": "settle"})
				}
			case "done":
				if !isDone {
					isDone = true
					done()
					r.Add(J{"op": "done"})
				}
			default:
				if e := seriesOp(op, x, &kept); e != nil {
					r.Add(e)
				}
			}
		}
		if !isDone {
			done()
		}
	})
}

type windowed interface {
	Value() int
	Add(i uint)
	Reset()
	History() []metric.Counter
	HistoryInclusive() []metric.Counter
}

func histOf(h []metric.Counter, t0 time.Time, unit time.Duration, vu int) [][]int {
	out := [][]int{}
	for _, c := range h {
		at, dur := c.Start().Sub(t0), c.Duration()
		e := []int{odd, odd, perUnit(c.Value(), vu)}
		if at%unit == 0 {
			e[0] = int(at / unit)
		}
		if dur%unit == 0 {
			e[1] = int(dur / unit)
		}
		out = append(out, e)
	}
	return out
}

// vunit is what counters count in: they are added to in multiples of it
func vunit(s Script) int {
	if u := num(s.Cfg["vu"]); u > 0 {
		return u
	}
	return 1
}

func perUnit(v, vu int) int {
	if v%vu != 0 || v/vu > 1<<30 || v/vu < -1<<30 {
		return odd
	}
	return v / vu
}

func runWindowed(t *testing.T, s Script, r *Rec) {
	bubble(t, r, func() {
		unit, vu := unitOf(s), vunit(s)
		t0 := time.Now()
		var x windowed
		var w *metric.WindowedCounter
		win := time.Duration(num(s.Cfg["win"])) * unit
		switch {
		case boolean(s.Cfg["unset"]):
			w = &metric.WindowedCounter{}
			x = w
		case boolean(s.Cfg["concurrent"]):
			x = metric.NewConcurrentWindowedCounter(win)
		default:
			w = metric.NewWindowedCounter(win)
			x = w
		}
		var kept [][]metric.Counter
		for _, op := range s.Ops {
			e := J{"op": op["op"]}
			switch str(op["op"]) {
			case "add":
				e["v"] = num(op["v"])
				x.Add(uint(num(op["v"]) * vu))
			case "value":
				e["res"] = perUnit(x.Value(), vu)
			case "reset":
				x.Reset()
			case "pass":
				e["n"] = num(op["n"])
				time.Sleep(time.Duration(num(op["n"])) * unit)
			case "hist":
				h := x.History()
				kept = append(kept, h)
				e["res"] = histOf(h, t0, unit, vu)
			case "histi":
				h := x.HistoryInclusive()
				kept = append(kept, h)
				e["res"] = histOf(h, t0, unit, vu)
			case "max":
				if w == nil {
					continue
				}
				e["v"] = num(op["v"])
				w.MaxHistory = num(op["v"])
			case "maxd":
				if w == nil {
					continue
				}
				e["v"] = num(op["v"])
				w.MaxHistoryDuration = time.Duration(num(op["v"])) * unit
			case "look":
				if len(kept) == 0 {
					continue
				}
				i := num(op["i"]) % len(kept)
				e["i"], e["res"] = i+1, histOf(kept[i], t0, unit, vu)
			default:
				continue
			}
			r.Add(e)
		}
	})
}

func pairs(v interface{}) [][2]string {
	out := [][2]string{}
	for _, p := range list(v) {
		out = append(out, [2]string{str(list(p)[0]), str(list(p)[1])})
	}
	return out
}

func runNames(t *testing.T, s Script, r *Rec) {
	rnd := rand.New(rand.NewSource(int64(num(s.Cfg["seed"]))))
	var names []metric.Name
	all := func() {
		for i, n := range names {
			r.Add(J{"op": "string", "i": i + 1, "res": n.String()})
		}
	}
	for _, op := range s.Ops {
		switch str(op["op"]) {
		case "new":
			var md map[string]string
			ps := pairs(op["md"])
			if len(ps) > 0 || rnd.Intn(2) == 0 {
				md = map[string]string{}
				for _, p := range ps {
					md[p[0]] = p[1]
				}
			}
			names = append(names, metric.NewName(str(op["name"]), md))
			r.Add(J{"op": "new", "name": str(op["name"]), "md": op["md"]})
		case "from":
			if len(names) == 0 {
				continue
			}
			i := num(op["i"]) % len(names)
			names = append(names, metric.NewNameFrom(names[i]))
			r.Add(J{"op": "from", "i": i + 1})
		case "md":
			if len(names) == 0 {
				continue
			}
			i := num(op["i"]) % len(names)
			ps := pairs(op["md"])
			annot := true
			md := map[string]string{}
			var keys []string
			for _, p := range ps {
				md[p[0]] = p[1]
				keys = append(keys, p[0])
				annot = annot && p[1] == ""
			}
			res := "ok"
			p := r.Catch(func() {
				if annot && rnd.Intn(3) > 0 {
					names[i].AddAnnotation(keys...)
				} else {
					names[i].AddMetadata(md)
				}
			})
			if p != "" {
				res = "panic"
			}
			r.Add(J{"op": "md", "i": i + 1, "md": op["md"], "res": res})
		}
		if boolean(op["show"]) || rnd.Intn(3) == 0 {
			all()
		}
	}
	all()
}

func flat(h [][]int) []int {
	out := []int{}
	for _, x := range h {
		out = append(out, x...)
	}
	return out
}

func runMetricLin(t *testing.T, s Script, r *Rec) {
	none, vu := []int{}, vunit(s)
	switch str(s.Cfg["obj"]) {
	case "counter":
		c := metric.NewConcurrentCounter()
		runLin(s, r, func(f string, v int) []int {
			switch f {
			case "add":
				c.Add(uint(v * vu))
			case "reset":
				c.Reset()
			case "value":
				return []int{perUnit(c.Value(), vu)}
			}
			return none
		}, func(op J) bool { return false })
	case "windowed":
		bubble(t, r, func() {
			unit, t0 := unitOf(s), time.Now()
			c := metric.NewConcurrentWindowedCounter(time.Duration(num(s.Cfg["win"])) * unit)
			runLin(s, r, func(f string, v int) []int {
				switch f {
				case "add":
					c.Add(uint(v * vu))
				case "reset":
					c.Reset()
				case "value":
					return []int{perUnit(c.Value(), vu)}
				case "hist":
					return flat(histOf(c.History(), t0, unit, vu))
				case "histi":
					return flat(histOf(c.HistoryInclusive(), t0, unit, vu))
				}
				return none
			}, func(op J) bool {
				time.Sleep(time.Duration(num(op["n"])) * unit)
				return true
			})
		})
	case "sampled":
		bubble(t, r, func() {
			unit := unitOf(s)
			x, done, err := metric.NewSampledSeries(num(s.Cfg["cap"]), time.Duration(num(s.Cfg["win"]))*unit, transformOf(str(s.Cfg["tr"])))
			if err != nil {
				r.Add(J{"op": "panic", "res": err.Error()})
				return
			}
			runLin(s, r, func(f string, v int) []int {
				switch f {
				case "add":
					x.Record(float64(v))
				case "reset":
					x.Reset()
				case "count":
					return []int{x.Count()}
				case "hist":
					return ivs(x.Values())
				}
				return none
			}, func(op J) bool {
				time.Sleep(time.Duration(num(op["n"])) * unit)
				return true
			})
			done()
		})
	}
}

package verifdrv

import (
	"errors"
	"math"
	"sort"
	"testing"
	"testing/synctest"
	"time"

	"github.com/BTBurke/monny/pkg/fsm"
	"github.com/BTBurke/monny/pkg/metric"
	"github.com/BTBurke/monny/pkg/stat"
)

func init() { runners["stat"] = runStat }

func milli(f float64) int {
	switch {
	case math.IsNaN(f):
		return -1999999999
	case f > 1e6:
		return 1999999998
	case f < -1e6:
		return -1999999998
	}
	return int(math.Round(f * 1000))
}

// expOf returns a number whose logarithm is exactly v
func expOf(v int) float64 {
	o := math.Exp(float64(v))
	for _, dir := range []float64{math.Inf(1), math.Inf(-1)} {
		x := o
		for i := 0; i < 50; i++ {
			if math.Log(x) == float64(v) {
				return x
			}
			x = math.Nextafter(x, dir)
		}
	}
	panic("no number with this logarithm")
}

func runStat(t *testing.T, s Script, r *Rec) {
	bubble(t, r, func() { runStatIn(s, r) })
}

func kOf(c J) stat.K {
	if num(c["k"]) == 0 {
		k := stat.KErrorRate(0.05)
		v, err := k.CalculateLN()
		if str(c["kind"]) == "p" {
			v, err = k.CalculateP()
		}
		if err != nil {
			panic(err)
		}
		c["k"] = milli(v)
		return k
	}
	return stat.KFixed(float64(num(c["k"])) / 1000)
}

func runStatIn(s Script, r *Rec) {
	var ss []*stat.TestStatistic
	var test *stat.Test
	var err error
	res := "ok"
	refused := func(res string) {
		r.Add(J{"op": "new", "res": res, "states": []string{}, "values": []int{}, "limits": []int{}, "alarmed": false})
		for _, st := range ss {
			st.Done()
		}
	}
	unit := unitOf(s)
	// scale of the logarithms of the observations
	ls := 1.0
	if x, ok := s.Cfg["ls"].(float64); ok {
		ls = x
	}
	def := str(s.Cfg["default"])
	for _, x := range list(s.Cfg["stats"]) {
		c := x.(J)
		k := kOf(c)
		if def != "" {
			continue
		}
		var pdf stat.PDF
		if str(c["kind"]) == "p" {
			pdf = stat.NewPoisson(num(c["cap"]), time.Duration(num(c["win"]))*unit, metric.SampleSum, k)
		} else {
			pdf = stat.NewLogNormal(num(c["cap"]), k)
		}
		st, err := stat.NewEWMAStatistic(str(c["name"]), float64(num(c["ln"]))/float64(num(c["ld"])), pdf)
		switch {
		case err != nil && st == nil:
			res = "refused"
		case err != nil:
			res = "a statistic and " + err.Error()
		}
		if res != "ok" {
			refused(res)
			return
		}
		ss = append(ss, st)
	}
	md := map[string]string{}
	for _, p := range list(s.Cfg["md"]) {
		md[str(list(p)[0])] = str(list(p)[1])
	}
	level := str(s.Cfg["level"])
	if level == "test" {
		var opts []stat.TestOption
		for _, st := range ss {
			opts = append(opts, stat.WithStatistic(st))
		}
		// an option of the caller's own that refuses
		if at, ok := s.Cfg["refuse"]; ok {
			i := num(at) % (len(opts) + 1)
			opts = append(append(append([]stat.TestOption{}, opts[:i]...), func(*stat.Test) error { return errors.New("no") }), opts[i:]...)
		}
		name := metric.NewName(str(s.Cfg["name"]), md)
		if str(s.Cfg["make"]) == "p" {
			test, err = stat.NewPoissonTest(name, opts...)
		} else {
			test, err = stat.NewLogNormalTest(name, opts...)
		}
		if err != nil {
			res = "refused"
			if test != nil {
				res = "a test and " + err.Error()
			}
			refused(res)
			return
		}
	}
	show := func(e J) J {
		states, values, limits, alarmed := []string{}, []int{}, []int{}, false
		if test != nil {
			for _, st := range test.State() {
				states = append(states, string(st))
			}
			alarmed = test.HasAlarmed()
		}
		if def != "" {
			// the statistics of a default test are only visible through its metric
			m := test.Metric()
			for _, x := range list(s.Cfg["stats"]) {
				n := metric.NewName(str(s.Cfg["name"]), nil)
				n.AddMetadata(md)
				n.AddMetadata(map[string]string{"strategy": str(x.(J)["name"]), "type": "estimator", "value": "current"})
				v, ok := m[n.String()]
				if !ok {
					v = math.NaN()
				}
				values = append(values, milli(v))
				n.AddMetadata(map[string]string{"value": "limit"})
				if v, ok = m[n.String()]; !ok {
					v = math.NaN()
				}
				limits = append(limits, milli(v))
			}
		}
		for _, st := range ss {
			if test == nil {
				states = append(states, string(st.State()))
				alarmed = st.HasAlarmed()
			}
			values = append(values, milli(st.Value()/ls))
			limits = append(limits, milli(st.Limit()/ls))
		}
		e["states"], e["values"], e["limits"], e["alarmed"] = states, values, limits, alarmed
		return e
	}
	r.Add(show(J{"op": "new", "res": res}))
	if res != "ok" {
		return
	}
	mode := str(s.Cfg["mode"])
	for _, op := range s.Ops {
		switch str(op["op"]) {
		case "rec":
			v, bad := num(op["v"]), str(op["bad"])
			var raw float64
			switch bad {
			case "":
				raw = float64(v)
				if mode == "ln" {
					raw = expOf(v)
					if ls != 1 {
						raw = math.Exp(float64(v) * ls)
					}
				}
			case "zero":
				raw = 0
			case "neg":
				raw = -math.Abs(float64(v)) - 1
			case "nan":
				raw = math.NaN()
			case "inf":
				raw = math.Inf(1)
			case "ninf":
				raw = math.Inf(-1)
			}
			var err error
			if test != nil {
				err = test.Record(raw)
			} else {
				err = ss[0].Record(raw)
			}
			r.Add(show(J{"op": "rec", "x": milli(raw), "lx": v * 1000, "bad": bad, "err": err != nil}))
		case "tr":
			var err error
			to, reset := fsm.State(str(op["to"])), boolean(op["reset"])
			if test != nil {
				err = test.Transition(to, reset)
			} else {
				err = ss[0].Transition(to, reset)
			}
			r.Add(show(J{"op": "tr", "to": string(to), "reset": reset, "err": err != nil}))
		case "pass":
			time.Sleep(time.Duration(num(op["n"])) * unit)
			synctest.Wait()
			r.Add(show(J{"op": "pass", "n": num(op["n"])}))
		case "metric":
			if test == nil {
				continue
			}
			out := [][]interface{}{}
			for k, v := range test.Metric() {
				out = append(out, []interface{}{k, milli(v / ls)})
			}
			sort.Slice(out, func(i, j int) bool { return out[i][0].(string) < out[j][0].(string) })
			r.Add(J{"op": "metric", "metric": out})
		case "name":
			if test == nil {
				continue
			}
			r.Add(J{"op": "name", "res": test.Name()})
		}
	}
	if test != nil {
		test.Done()
	} else {
		ss[0].Done()
	}
}

func stateOf(s string) fsm.State { return fsm.State(s) }

package verifdrv

import (
	"math"
	"testing"

	"github.com/BTBurke/monny/pkg/stat"
)

func init() { runners["rate"] = runRate }

func rateOf(r J) float64 {
	switch str(r["kind"]) {
	case "zero":
		return 0
	case "negzero":
		return math.Copysign(0, -1)
	case "neg":
		return -float64(num(r["a"])) * math.Pow(10, float64(num(r["e"])))
	case "nan":
		return math.NaN()
	case "inf":
		return math.Inf(1)
	case "ninf":
		return math.Inf(-1)
	}
	e := num(r["e"])
	x := float64(num(r["a"])) / float64(num(r["b"]))
	if e < -300 {
		return x * 1e-300 * math.Pow(10, float64(e+300))
	}
	return x * math.Pow(10, float64(e))
}

func runRate(t *testing.T, s Script, r *Rec) {
	for _, op := range s.Ops {
		rr, _ := op["r"].(J)
		dist := str(op["dist"])
		var k stat.K
		if str(rr["kind"]) == "fixed" {
			k = stat.KFixed(float64(num(rr["k"])) / 1000)
		} else {
			k = stat.KErrorRate(rateOf(rr))
		}
		switch str(op["op"]) {
		case "k":
			v, err := k.CalculateLN()
			if dist == "p" {
				v, err = k.CalculateP()
			}
			res := "ok"
			if err != nil {
				res = "error"
				v = 0
			}
			if str(rr["kind"]) == "fixed" {
				r.Add(J{"op": "fixed", "dist": dist, "given": num(rr["k"]), "res": res, "k": milli(v)})
			} else {
				r.Add(J{"op": "k", "dist": dist, "r": rr, "res": res, "k": milli(v)})
			}
		case "limit":
			// a baseline with variance 1 and lambda 1: the limit is k away from the mean
			var pdf stat.PDF
			var obs []float64
			mean, scale := 0.0, 1.0
			if dist == "p" {
				pdf = stat.NewPoisson(3, 0, nil, k)
				mean, scale = 10000, 100
				obs = []float64{9000, 11000, 10000}
			} else {
				pdf = stat.NewLogNormal(3, k)
				obs = []float64{math.Exp(-1), 1, math.Exp(1)}
			}
			st, err := stat.NewEWMAStatistic("s", 1, pdf)
			if err != nil {
				r.Add(J{"op": "limit", "dist": dist, "r": rr, "k": -1999999999, "note": err.Error()})
				continue
			}
			for _, o := range obs {
				if err := st.Record(o); err != nil {
					r.Note("record: %v", err)
				}
			}
			up := (st.Limit() - mean) / scale
			// an alarm in one direction, then the limit of the other
			lim := up
			if boolean(op["low"]) {
				for _, to := range []string{"ucl_trip", "lcl_initial"} {
					if err := st.Transition(stateOf(to), true); err != nil {
						r.Note("transition: %v", err)
					}
				}
				for _, o := range obs {
					st.Record(o)
				}
				lim = (mean - st.Limit()) / scale
			}
			r.Add(J{"op": "limit", "dist": dist, "r": rr, "k": milli(lim)})
			st.Done()
		}
	}
}

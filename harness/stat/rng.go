package verifdrv

import (
	"math"
	"testing"

	"github.com/BTBurke/monny/pkg/rng"
)

func init() { runners["rng"] = runRng }

// runRng draws from several generators in turn
func runRng(t *testing.T, s Script, r *Rec) {
	var gens []rng.RNG
	for _, x := range list(s.Cfg["gens"]) {
		g := x.(J)
		if str(g["kind"]) == "p" {
			gens = append(gens, rng.NewPoissonRNG(float64(num(g["lam"]))/float64(num(g["den"]))))
		} else {
			gens = append(gens, rng.NewLogNormalRNG(float64(num(g["m"]))/100, float64(num(g["s"]))/100))
		}
	}
	for _, op := range s.Ops {
		if str(op["op"]) != "draw" {
			r.Add(J{"op": "end"})
			continue
		}
		i := num(op["g"])
		g := list(s.Cfg["gens"])[i-1].(J)
		v := gens[i-1].Rand()
		e := J{"op": "draw", "g": i, "v": 0, "kind": "number"}
		if str(g["kind"]) != "p" {
			if !(v > 0) || math.IsInf(v, 1) {
				e["kind"] = "not positive"
			}
			v = math.Round(100 * math.Log(v))
		}
		if v != math.Trunc(v) || math.Abs(v) > 1e6 {
			e["kind"] = "not whole"
		} else {
			e["v"] = int(v)
		}
		r.Add(e)
	}
}

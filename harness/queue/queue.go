package verifdrv

import (
	"strconv"
	"testing"

	"github.com/BTBurke/monny/pkg/monny/proc"
)

func init() {
	runners["queue"] = runQueue
	runners["lin"] = runQueueLin
}

func lines(q []string) []int {
	out := []int{}
	for _, l := range q {
		i, err := strconv.Atoi(l)
		if err != nil {
			i = 999999999
		}
		out = append(out, i)
	}
	return out
}

func runQueue(t *testing.T, s Script, r *Rec) {
	q := proc.NewQueue(num(s.Cfg["cap"]))
	var kept [][]string
	for _, op := range s.Ops {
		e := J{"op": op["op"]}
		switch str(op["op"]) {
		case "add":
			e["v"] = num(op["v"])
			q.Add(strconv.Itoa(num(op["v"])))
		case "clear":
			q.Clear()
		case "copy":
			c := q.Copy()
			kept = append(kept, c)
			e["res"] = lines(c)
		case "look":
			if len(kept) == 0 {
				continue
			}
			i := num(op["i"]) % len(kept)
			e["i"], e["res"] = i+1, lines(kept[i])
		}
		r.Add(e)
	}
}

func runQueueLin(t *testing.T, s Script, r *Rec) {
	q := proc.NewQueue(num(s.Cfg["cap"]))
	runLin(s, r, func(f string, v int) []int {
		switch f {
		case "add":
			q.Add(strconv.Itoa(v))
		case "clear":
			q.Clear()
		case "copy":
			return lines(q.Copy())
		}
		return []int{}
	}, func(op J) bool { return false })
}

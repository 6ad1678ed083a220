package verifdrv

import (
	"errors"
	"testing"

	"github.com/BTBurke/monny/pkg/fsm"
)

func init() { runners["fsm"] = runFsm }

func fsmErr(err error) string {
	var na fsm.TransitionNotAllowed
	var st fsm.StopError
	var no fsm.NonceError
	switch {
	case err == nil:
		return "ok"
	case errors.As(err, &na):
		return "notallowed"
	case errors.As(err, &st):
		return "stop"
	case errors.As(err, &no):
		return "nonce"
	default:
		return "other: " + err.Error()
	}
}

func runFsm(t *testing.T, s Script, r *Rec) {
	var opts []fsm.MachineOption
	decl := str(s.Cfg["decl"])
	stop := fsm.WithStoppable()
	if boolean(s.Cfg["stoppable"]) && boolean(s.Cfg["stopfirst"]) {
		opts = append(opts, stop)
	}
	edges := list(s.Cfg["edges"])
	switch decl {
	case "single": // one option per edge
		for _, e := range edges {
			opts = append(opts, fsm.WithTransition(fsm.Transition{From: fsm.State(str(list(e)[0])), To: fsm.State(str(list(e)[1]))}))
		}
	case "grouped": // T(from, to...) for runs of the same source, all in one option
		var groups [][]fsm.Transition
		for i := 0; i < len(edges); {
			from := str(list(edges[i])[0])
			var tos []fsm.State
			for i < len(edges) && str(list(edges[i])[0]) == from {
				tos = append(tos, fsm.State(str(list(edges[i])[1])))
				i++
			}
			groups = append(groups, fsm.T(fsm.State(from), tos...))
		}
		opts = append(opts, fsm.WithTransitions(groups...))
	default: // mixed: alternate between the two forms
		for i, e := range edges {
			from, to := fsm.State(str(list(e)[0])), fsm.State(str(list(e)[1]))
			if i%2 == 0 {
				opts = append(opts, fsm.WithTransitions(fsm.T(from, to)))
			} else {
				opts = append(opts, fsm.WithTransition(fsm.Transition{From: from, To: to}))
			}
		}
	}
	if boolean(s.Cfg["stoppable"]) && !boolean(s.Cfg["stopfirst"]) {
		opts = append(opts, stop)
	}
	initial := fsm.State(str(s.Cfg["initial"]))
	// an option of the caller's own that refuses, in front of, between or behind the others
	refused := errors.New("refused")
	if at, ok := s.Cfg["refuse"]; ok {
		i := num(at) % (len(opts) + 1)
		opts = append(append(append([]fsm.MachineOption{}, opts[:i]...), func(*fsm.Machine) error { return refused }), opts[i:]...)
	}
	made := func(isnil bool, err error) bool {
		if err == nil {
			return true
		}
		e := J{"op": "new", "res": err.Error(), "state": "", "n": 0}
		if errors.Is(err, refused) {
			e["res"] = "refused"
		}
		if !isnil {
			e["res"] = "a machine and " + err.Error()
		}
		r.Add(e)
		return false
	}

	if !boolean(s.Cfg["nonce"]) {
		m, err := fsm.NewMachine(initial, opts...)
		if !made(m == nil, err) {
			return
		}
		r.Add(J{"op": "new", "res": "ok", "state": string(m.State()), "n": 0})
		for _, op := range s.Ops {
			e := J{"op": str(op["op"]), "n": 0}
			switch str(op["op"]) {
			case "tr":
				e["to"], e["given"] = op["to"], 0
				e["res"] = fsmErr(m.Transition(fsm.State(str(op["to"]))))
			case "reset":
				m.Reset()
				e["res"] = "ok"
			case "allow":
				e["from"], e["to"], e["res"] = op["from"], op["to"], "no"
				if m.Allowable(fsm.State(str(op["from"])), fsm.State(str(op["to"]))) {
					e["res"] = "yes"
				}
			}
			e["state"] = string(m.State())
			r.Add(e)
		}
		return
	}

	m, err := fsm.NewMachineNonce(initial, opts...)
	if !made(m == nil, err) {
		return
	}
	// nonces are numbered in the order in which they are first seen
	var seen [][]byte
	id := func() int {
		n := append([]byte{}, m.Nonce()...)
		for i, o := range seen {
			if string(o) == string(n) {
				return i + 1
			}
		}
		seen = append(seen, n)
		return len(seen)
	}
	r.Add(J{"op": "new", "res": "ok", "state": string(m.State()), "n": id()})
	for _, op := range s.Ops {
		e := J{"op": str(op["op"])}
		switch str(op["op"]) {
		case "tr":
			var nonce []byte
			given := 0
			cur := append([]byte{}, m.Nonce()...)
			switch back := num(op["back"]); {
			case num(op["given"]) == 1: // the current one
				nonce, given = cur, id()
			case num(op["given"]) == 2 && back > 0 && len(seen)-back >= 1: // an older one
				given = len(seen) - back
				nonce = append([]byte{}, seen[given-1]...)
			default: // foreign nonces
				switch back % 5 {
				case 0:
					nonce = nil
				case 1:
					nonce = []byte{}
				case 2: // prefix
					nonce = cur[:len(cur)-1]
				case 3: // extended
					nonce = append(append([]byte{}, cur...), 0)
				case 4: // one bit differs
					nonce = append([]byte{}, cur...)
					nonce[len(nonce)-1] ^= 1
				}
			}
			e["to"], e["given"] = op["to"], given
			e["res"] = fsmErr(m.Transition(fsm.State(str(op["to"])), nonce))
		case "reset":
			e["res"] = "ok"
			if err := m.Reset(); err != nil {
				e["res"] = err.Error()
			}
		case "allow":
			e["from"], e["to"], e["res"] = op["from"], op["to"], "no"
			if m.Allowable(fsm.State(str(op["from"])), fsm.State(str(op["to"]))) {
				e["res"] = "yes"
			}
		}
		e["state"], e["n"] = string(m.State()), id()
		r.Add(e)
	}
}

package verifdrv

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/BTBurke/monny/pkg/eventbus"
)

func init() { runners["event"] = runEvent }

type evNamed string

type evInner struct {
	X int
	Y []byte
}

type evRecord struct {
	A int
	B string
	C []string
	D map[string]int
	E *evInner
	F float64
	G [3]evInner
	H time.Duration
}

type evWide struct {
	First  evRecord
	Second []evRecord
	Third  map[string]evInner
}

const evValues = 11

var evTexts = []string{"", "a", "ü世界", "\xff\xfe\x00", strings.Repeat("x", 20000), "line\nline", "0", "nil", " \t padded \r\n", strings.Repeat("0123456789abcdef", 3<<16), strings.Repeat("0123456789abcdef", 3<<19)}

// evMake returns value number v of a type
func evMake(ty string, v int) interface{} {
	v = v % evValues
	text := evTexts[v]
	ints := []int{0, 1, -1, 127, math.MaxInt64, math.MinInt64, 42, 1 << 40, -1 << 33, 65536, 1<<31 - 1}
	switch ty {
	case "int":
		return ints[v]
	case "int8":
		return int8(v * 11)
	case "duration":
		return time.Duration(ints[v])
	case "string":
		return text
	case "named":
		return evNamed(text)
	case "bool":
		return v%2 == 1
	case "float":
		return []float64{0, 1.5, -2.25, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), 1e-7, 1 << 53, -1e300, 0.1}[v]
	case "bytes":
		return append([]byte("b"), text...)
	case "strs":
		return append([]string{text}, []string{"", "x", text}[:v%4]...)
	case "ints":
		return append([]int{v}, ints[:v]...)
	case "map":
		m := map[string]int{"v": v}
		for i := 0; i < v; i++ {
			m[strings.Repeat("k", i)] = i
		}
		return m
	case "time":
		return time.Unix(int64(v)*1e9, int64(v)).UTC()
	case "inner":
		return evInner{X: v, Y: append([]byte("y"), text...)}
	case "record":
		r := evRecord{A: ints[v], B: text, F: float64(v) / 4, H: time.Duration(v)}
		if v%3 != 0 {
			r.C = append([]string{"c"}, text)
			r.D = map[string]int{"d": v, text: v}
		}
		if v%4 != 0 {
			r.E = &evInner{X: v, Y: []byte{byte(v), 0}}
		}
		r.G[v%3] = evInner{X: v + 1}
		return r
	case "tree": // values of any kind, also maps of the same type
		leaf := map[string]interface{}{"n": ints[v], "s": text, "b": v%2 == 1, "f": float64(v) / 8}
		m := map[string]interface{}{"leaf": leaf, "v": v}
		for i := 0; i < v%4; i++ {
			m = map[string]interface{}{"in": m, "i": i, "t": []string{text, "x"}[1]}
		}
		return m
	case "rows":
		q := []map[string]string{{"v": text}}
		for i := 0; i < v; i++ {
			q = append(q, map[string]string{"i": strings.Repeat("r", i), "": text})
		}
		return q
	case "wide":
		w := evWide{First: evMake("record", v).(evRecord)}
		for i := 1; i < v; i++ {
			w.Second = append(w.Second, evMake("record", i).(evRecord))
		}
		if v > 3 {
			w.Third = map[string]evInner{"a": {X: v}, "b": {}}
		}
		return w
	}
	panic("no type " + ty)
}

// evErrors are errors of several kinds with the text of value v
func evErr(v int) error {
	text := evMake("string", v).(string)
	switch v % 4 {
	case 0:
		return errors.New(text)
	case 1:
		return fmt.Errorf("%s", text)
	case 2:
		return evCustom{Text: text}
	}
	return &evWrapped{inner: errors.New(text)}
}

type evCustom struct{ Text string }

func (e evCustom) Error() string { return e.Text }

type evWrapped struct{ inner error }

func (e *evWrapped) Error() string { return e.inner.Error() }
func (e *evWrapped) Unwrap() error { return e.inner }

var evKnowns sync.Map

// evKnown is a value to compare with, which nobody changes
func evKnown(ty string, v int) interface{} {
	k := fmt.Sprint(ty, v)
	if x, ok := evKnowns.Load(k); ok {
		return x
	}
	x, _ := evKnowns.LoadOrStore(k, evMake(ty, v))
	return x
}

// evNumber finds the lowest number of a value, -1 if it is none
func evNumber(ty string, got interface{}) int {
	for v := 0; v < evValues; v++ {
		if reflect.DeepEqual(evKnown(ty, v), got) {
			return v
		}
	}
	return -1
}

func evCanon(ty string, v int) int {
	if ty == "error" {
		ty = "string"
	}
	return evNumber(ty, evKnown(ty, v%evValues))
}

// evBad is data that can not be encoded
func evBad(v int) interface{} {
	switch v % 6 {
	case 0:
		return func() {}
	case 1:
		return make(chan int)
	case 2:
		return struct{ a int }{1}
	case 3:
		return (*evRecord)(nil)
	case 4:
		return map[string]interface{}{"x": struct{ Z func() }{}}
	}
	return (*int)(nil)
}

// scribble overwrites everything that can be reached through v
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		scribble(v.Elem())
	case reflect.Ptr:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			scribble(v.MapIndex(k))
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
		}
		if v.Type().Key().Kind() == reflect.String && !v.IsNil() {
			v.SetMapIndex(reflect.ValueOf("scribble").Convert(v.Type().Key()), reflect.Zero(v.Type().Elem()))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); f.CanSet() {
				scribble(f)
			}
		}
		return
	}
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int64:
		v.SetInt(99)
	case reflect.Uint8:
		v.SetUint(99)
	case reflect.String:
		v.SetString("scribble")
	case reflect.Float64:
		v.SetFloat(99)
	case reflect.Bool:
		v.SetBool(!v.Bool())
	}
}

func runEvent(t *testing.T, s Script, r *Rec) {
	objs := map[string]reflect.Value{}
	evs := map[string]eventbus.Event{}
	var mu sync.Mutex
	get := func(id string) eventbus.Event {
		mu.Lock()
		defer mu.Unlock()
		return evs[id]
	}
	put := func(id string, e eventbus.Event) {
		mu.Lock()
		defer mu.Unlock()
		evs[id] = e
	}
	var do func(op J, later *[]reflect.Value)
	do = func(op J, later *[]reflect.Value) {
		id := str(op["e"])
		switch str(op["op"]) {
		case "make", "change":
			o, ty, v := str(op["o"]), str(op["ty"]), num(op["v"])
			p, ok := objs[o]
			if ok {
				scribble(p)
			} else {
				p = reflect.New(reflect.TypeOf(evMake(ty, v)))
				objs[o] = p
			}
			p.Elem().Set(reflect.ValueOf(evMake(ty, v)))
			r.Add(J{"op": str(op["op"]), "o": o, "ty": ty, "v": evCanon(ty, v)})
		case "new":
			tt := str(op["t"])
			out := J{"op": "new", "e": id, "how": str(op["how"]), "t": tt, "o": str(op["o"]), "v": 0}
			var evt eventbus.Event
			var err error
			p := r.Catch(func() {
				switch str(op["how"]) {
				case "nil":
					evt, err = eventbus.NewEvent(eventbus.EventType(tt), nil)
				case "bad":
					evt, err = eventbus.NewEvent(eventbus.EventType(tt), evBad(num(op["v"])))
				case "error":
					out["v"] = evCanon("error", num(op["v"]))
					evt, err = eventbus.NewErrorEvent(eventbus.EventType(tt), evErr(num(op["v"])))
				case "nilerror":
					out["how"] = "nil"
					evt, err = eventbus.NewErrorEvent(eventbus.EventType(tt), nil)
				default:
					o := objs[str(op["o"])]
					switch str(op["how"]) {
					case "ptr":
						evt, err = eventbus.NewEvent(eventbus.EventType(tt), o.Interface())
					case "ptrptr":
						pp := reflect.New(o.Type())
						pp.Elem().Set(o)
						evt, err = eventbus.NewEvent(eventbus.EventType(tt), pp.Interface())
					default:
						evt, err = eventbus.NewEvent(eventbus.EventType(tt), o.Elem().Interface())
					}
				}
			})
			out["res"] = "ok"
			if err != nil {
				out["res"] = "error"
				r.Note("new: %v", err)
			}
			if p != "" {
				out["res"] = "panic"
			} else {
				put(id, evt)
			}
			r.Add(out)
		case "copy":
			put(id, get(str(op["f"])))
			r.Add(J{"op": "copy", "e": id, "f": str(op["f"])})
		case "type":
			e := get(id)
			r.Add(J{"op": "type", "e": id, "res": string(e.Type()), "str": e.String()})
		case "dec":
			ty := str(op["ty"])
			var rec reflect.Value
			if ty == "error" {
				rec = reflect.ValueOf(new(error))
			} else {
				rec = reflect.New(reflect.TypeOf(evMake(ty, 0)))
			}
			e := get(id)
			var err error
			p := r.Catch(func() { err = e.Decode(rec.Interface()) })
			out := J{"op": "dec", "e": id, "ty": ty, "res": "ok", "v": -1}
			switch {
			case p != "":
				out["res"] = "panic"
			case err != nil:
				out["res"] = "error"
			case ty == "error":
				if x := rec.Elem().Interface(); x != nil {
					out["v"] = evNumber("string", x.(error).Error())
				}
			default:
				out["v"] = evNumber(ty, rec.Elem().Interface())
			}
			if later != nil {
				*later = append(*later, rec)
			} else {
				scribble(rec)
			}
			r.Add(out)
		case "par":
			var wg sync.WaitGroup
			go1 := make(chan struct{})
			used := make([][]reflect.Value, len(list(op["threads"])))
			for i, th := range list(op["threads"]) {
				i, th := i, th
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-go1
					for _, o := range list(th) {
						do(o.(J), &used[i])
					}
				}()
			}
			close(go1)
			wg.Wait()
			for _, recs := range used {
				for _, rec := range recs {
					scribble(rec)
				}
			}
		}
	}
	for _, op := range s.Ops {
		do(op, nil)
	}
}

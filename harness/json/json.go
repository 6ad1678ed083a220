package verifdrv

import (
	"bytes"
	"encoding/base64"
	"os"
	"path/filepath"
	"testing"

	"github.com/BTBurke/monny/pkg/monny"
)

func init() { runners["json"] = runJSON }

// runJSON monitors a command that prints the lines of the script, with its JSON rules
func runJSON(t *testing.T, s Script, r *Rec) {
	dir := t.TempDir()
	var lines []string
	var all bytes.Buffer
	for _, l := range list(s.Meta["lines"]) {
		b, err := base64.StdEncoding.DecodeString(str(l))
		if err != nil {
			t.Fatal(err)
		}
		lines = append(lines, string(b))
		all.Write(b)
		all.WriteByte('\n')
	}
	in := filepath.Join(dir, "in")
	if err := os.WriteFile(in, all.Bytes(), 0644); err != nil {
		t.Fatal(err)
	}
	create := func(name string) *os.File {
		f, err := os.Create(filepath.Join(dir, name))
		if err != nil {
			t.Fatal(err)
		}
		return f
	}
	out, errf := create("out"), create("err")
	oldout, olderr := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = out, errf
	back := func() { os.Stdout, os.Stderr = oldout, olderr }
	defer back()

	opts := []monny.ConfigOption{monny.ID("x"), monny.NoNotifyOnSuccess(), monny.NoNotifyOnFailure(), monny.NoErrorReports(), monny.Host("127.0.0.1:9"), monny.Insecure(),
		monny.RuleQuantity("1000000000"), monny.RulePeriod("1ns")}
	for _, o := range list(s.Meta["rules"]) {
		x := o.(map[string]interface{})
		opts = append(opts, monny.JSONRule(str(x["field"]), str(x["regex"])))
	}
	cmd := []string{"cat", in}
	stream := "out"
	if boolean(s.Meta["stderr"]) {
		cmd = []string{"/bin/sh", "-c", "cat '" + in + "' >&2"}
		stream = "err"
	}
	res := "ok"
	c, errs := monny.New(cmd, opts...)
	if len(errs) > 0 {
		back()
		for i := range lines {
			r.Add(J{"op": "line", "i": i + 1, "n": 0})
		}
		r.Add(J{"op": "end", "res": errs[0].Error(), "forwarded": false, "ordered": false})
		return
	}
	if err := c.Exec(); err != nil {
		res = err.Error()
	} else if !c.Success || !c.ExitCodeValid {
		res = "failed"
	}
	back()

	index := map[string]int{}
	for i, l := range lines {
		index[l] = i
	}
	count := make([]int, len(lines))
	ordered, last := true, 0
	for _, m := range c.RuleMatches {
		i, ok := index[m.Line]
		if !ok || i < last {
			ordered = false
			continue
		}
		last = i
		count[i]++
	}
	for i := range lines {
		r.Add(J{"op": "line", "i": i + 1, "n": count[i]})
	}
	got, err := os.ReadFile(filepath.Join(dir, stream))
	if err != nil {
		t.Fatal(err)
	}
	r.Add(J{"op": "end", "res": res, "forwarded": bytes.Equal(got, all.Bytes()), "ordered": ordered})
}

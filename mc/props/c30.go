package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"verif/mc/engine"
	"verif/mc/gen"
)

type c30Sheet struct{ Name, Err, Text string }

type c30Dump struct {
	Err    string
	Sheets []c30Sheet
}

type c30Answer struct {
	Base, Fault, Again c30Dump
	Ops                []string
	Open               int
	Panic              string
}

var (
	c30Once  sync.Once
	c30Files []c30File
	c30Ops   = map[string][]string{}
)

type c30File struct {
	name    string
	data    []byte
	openers []string
}

func c30Setup() {
	hOnce.Do(hSetup)
	for _, f := range hFiles {
		if f.fails {
			continue
		}
		ext := filepath.Ext(f.name)[1:]
		o := []string{"grate", ext}
		if ext == "csv" {
			o = []string{"csv", "grate"}
		}
		c30Files = append(c30Files, c30File{f.name, f.data, o})
	}
	// deflated parts, many parts and strings
	x := &gen.XLSX{Deflate: true}
	for i := 0; i < 3; i++ {
		var rows strings.Builder
		for r := 0; r < 300; r++ {
			rows.WriteString(gen.RowX(r, gen.C(r, 0, "s", -1, gen.V(fmt.Sprint(r))), gen.C(r, 1, "", -1, gen.V(fmt.Sprint(r*7919%1000)))))
		}
		x.Sheets = append(x.Sheets, gen.XSheet{Name: fmt.Sprintf("S%d", i), Rows: rows.String()})
	}
	for r := 0; r < 300; r++ {
		x.SST = append(x.SST, gen.T(fmt.Sprintf("string %d", r*104729%997)))
	}
	c30Files = append(c30Files, c30File{"large.xlsx", x.File(), []string{"grate", "xlsx"}})
	// long texts
	var t, v strings.Builder
	for i := 0; i < 3000; i++ {
		fmt.Fprintf(&t, "row %d\tcolumn two\t%d\n", i, i*i)
		fmt.Fprintf(&v, "row %d,\"column, two\",%d\n", i, i*i)
	}
	c30Files = append(c30Files, c30File{"long.tsv", []byte(t.String()), []string{"grate", "tsv"}}, c30File{"long.csv", []byte(v.String()), []string{"csv"}})
	// an irregular text, which the second text opener takes over
	c30Files = append(c30Files, c30File{"mixed.csv", []byte(strings.Repeat("a\tb\n", 30) + strings.Repeat("a\tb\tc,d\n", 30)), []string{"grate"}})
	w := &gen.XLS{Pre: xlsPre(), Sheets: []gen.Sheet{{Name: "L"}}}
	w.Sheets[0].Recs = append(w.Sheets[0].Recs, gen.Dimensions(0, 1500, 0, 2))
	for r := 0; r < 1500; r++ {
		w.Sheets[0].Recs = append(w.Sheets[0].Recs, gen.Number(r, 0, 0, float64(r)/4), gen.RK(r, 1, 0, rkInt(int32(r), false)))
	}
	c30Files = append(c30Files, c30File{"large.xls", w.File(), []string{"grate", "xls"}})
}

func c30Call(c *engine.Ctx, f *c30File, opener, fault string) *c30Answer {
	if os.Getenv("VERIF_DEGRADED") != "" {
		c.Outcome("not built")
		return nil
	}
	path := filepath.Join(c.Scratch(), "in-"+f.name)
	if b, err := os.ReadFile(path); err != nil || !bytes.Equal(b, f.data) {
		if err := os.WriteFile(path, f.data, 0644); err != nil {
			c.Environment(err)
		}
	}
	spec := ""
	if fault != "" {
		spec = path + "|" + fault
	}
	var out, errs bytes.Buffer
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_ROOT"), "reader"), opener, path, spec)
	cmd.Stdout, cmd.Stderr = &out, &errs
	err := cmd.Run()
	var a c30Answer
	if err != nil || json.Unmarshal(out.Bytes(), &a) != nil {
		if strings.Contains(errs.String(), "goroutine ") {
			c.Failf("the reader crashes: %.500s", errs.String())
		}
		c.Environment(fmt.Errorf("reader: %v %s", err, errs.String()))
	}
	return &a
}

func (d c30Dump) String() string {
	if d.Err != "" {
		return "error " + d.Err
	}
	var l []string
	for _, s := range d.Sheets {
		t := s.Text
		if len(t) > 200 {
			t = fmt.Sprintf("%s... (%d bytes)", t[:200], len(t))
		}
		l = append(l, fmt.Sprintf("sheet %q: %s %s", s.Name, t, s.Err))
	}
	return strings.Join(l, "\n")
}

// same compares complete dumps.
func (d c30Dump) same(e c30Dump) bool {
	return fmt.Sprint(d.Err, d.Sheets) == fmt.Sprint(e.Err, e.Sheets)
}

// c30Fault: one operation fails, or it and all later ones of its class
func c30Fault(c *engine.Ctx) {
	c30Once.Do(c30Setup)
	f := &c30Files[c.Pick("file", len(c30Files))]
	opener := f.openers[c.Pick("opener", len(f.openers))]
	key := f.name + " " + opener
	ops := c30Ops[key]
	if ops == nil {
		a := c30Call(c, f, opener, "||0")
		if a == nil {
			return
		}
		if a.Base.Err != "" || len(a.Base.Sheets) == 0 || !a.Base.same(a.Fault) || len(a.Ops) == 0 {
			c.Outcome("unreadable without faults")
			return
		}
		ops = a.Ops
		c30Ops[key] = ops
	}
	k := c.Pick("operation", len(ops))
	kinds := faultKinds[ops[k]]
	kind := kinds[c.Pick("kind", len(kinds))]
	sticky := c.Pick("sticky", 2)
	c.State(key, k, kind, sticky)
	a := c30Call(c, f, opener, fmt.Sprintf("%d|%s|%d", k, kind, sticky))
	if a == nil {
		return
	}
	c.Steps(len(a.Ops))
	what := fmt.Sprintf("%s of operation %d (%s)", kind, k, ops[k])
	if a.Panic != "" {
		c.Failf("%s: panic: %s", what, a.Panic)
	}
	if a.Base.Err != "" {
		c.Environment(fmt.Errorf("the intact file: %s", a.Base.Err))
	}
	res := "data"
	if a.Fault.Err != "" {
		res = "no source"
	} else {
		if len(a.Fault.Sheets) != len(a.Base.Sheets) {
			c.Failf("%s: other sheets are read than from the file:\n%s\ninstead of\n%s", what, a.Fault, a.Base)
		}
		for i, s := range a.Fault.Sheets {
			b := a.Base.Sheets[i]
			if s.Name != b.Name {
				c.Failf("%s: sheet %q instead of %q", what, s.Name, b.Name)
			}
			if s.Err != "" {
				if b.Err == "" {
					res = "no sheet"
				}
			} else if b.Err != "" {
				c.Failf("%s: sheet %q is read, which has the error %s without the fault", what, s.Name, b.Err)
			} else if s.Text != b.Text {
				c.Failf("%s: other data are read than the file holds, without an error:\n%s\ninstead of\n%s", what, a.Fault, a.Base)
			}
		}
	}
	if (kind == "one" || kind == "half" && ops[k] == "read") && res != "data" {
		c.Failf("a read which returns fewer bytes than wanted (operation %d) is an error: %s", k, a.Fault)
	}
	if a.Open != 0 {
		c.Failf("%s: %d files stay open", what, a.Open)
	}
	if !a.Again.same(a.Base) {
		c.Failf("%s: read again without faults, the file holds\n%s\ninstead of\n%s", what, a.Again, a.Base)
	}
	c.Outcome(ops[k] + " " + res)
}

func init() {
	engine.Register(&engine.Property{
		ID: "C30", Level: "model_checking",
		Rule:    "fault: every readable file of C21, and large ones (xls plain, encrypted and large; xlsx stored and deflated; tsv and csv short and long) through grate.Open and its own opener x every operation on it that the code asks of the system (open, stat, seek, read, read at, close) x every way it can fail (I/O error, no descriptors, no permission, part of the bytes; a read may also return one byte or half of what is wanted, which is no failure) x that operation alone or all later ones of its kind too. Oracle: the data of the undisturbed file, or an error; nothing stays open; a later undisturbed read gives the data",
		Prepare: faultBuild(true),
		Assumptions: []string{
			"faults are injected into package os of the standard library (by an overlay), below all code of grate; a file that changes or ends early while it is read is C21's business",
		},
		Harnesses: []engine.Harness{
			{Name: "fault", Run: c30Fault},
		},
	})
}

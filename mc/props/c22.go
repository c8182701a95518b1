package props

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/simple"
	"github.com/pbnjay/grate/xls"
	"github.com/pbnjay/grate/xls/cfb"
	"github.com/pbnjay/grate/xlsx"

	"verif/mc/engine"
	"verif/mc/gen"
)

var c22Openers = []struct {
	name string
	open func(string) (grate.Source, error)
}{{"grate.Open", grate.Open}, {"xls.Open", xls.Open}, {"xlsx.Open", xlsx.Open}, {"simple.OpenTSV", simple.OpenTSV}, {"simple.OpenCSV", simple.OpenCSV}}

// c22Path opens, reads and closes one file and counts the descriptors on the way.
func c22Path(c *engine.Ctx, opener int, path string) {
	// a collection would close files which were forgotten
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	o := c22Openers[opener]
	before := numFDs()
	var src grate.Source
	var err error
	c.Guard("Open", func() { src, err = o.open(path) })
	c.Steps(1)
	if err != nil {
		if n := numFDs(); n != before {
			c.Failf("%s fails (%v) and leaves %d descriptors open", o.name, err, n-before)
		}
		c.Outcome(o.name + " fails")
		return
	}
	how := c.Pick("use", 4)
	if how > 0 {
		c.Guard("read", func() {
			names, _ := src.List()
			for _, n := range append(names, "no such sheet") {
				col, err := src.Get(n)
				if err != nil {
					continue
				}
				for how > 1 && col.Next() {
					col.Strings()
					if how == 2 {
						break
					}
				}
			}
		})
	}
	c.Guard("Close", func() { err = src.Close() })
	c.Steps(2)
	if err != nil {
		c.Failf("%s: Close: %v", o.name, err)
	}
	if n := numFDs(); n != before {
		c.Failf("%s: %d descriptors are left open after Close", o.name, n-before)
	}
	c.Guard("second Close", func() { src.Close() })
	if n := numFDs(); n != before {
		c.Failf("%s: a second Close changes the open descriptors by %d", o.name, n-before)
	}
	c.Outcome(o.name + " opens")
}

func c22File(c *engine.Ctx, opener int, f []byte) {
	c.State(opener, f)
	c22Path(c, opener, c.File("f", f))
}

func c22Opener(c *engine.Ctx, own int) int {
	if c.Pick("opener", 2) == 0 {
		return own
	}
	return 0
}

func c22XlsCut(c *engine.Ctx) {
	b := c20Book(c.Pick("book", 3))
	n := c.Pick("length", len(b.file)+1)
	c22File(c, c22Opener(c, 1), b.file[:n])
}

func c22XlsRecords(c *engine.Ctx) {
	b := c20Book(c.Pick("book", 2))
	recs := append([]gen.Rec(nil), b.recs...)
	i := c.Pick("record", len(recs))
	switch c.Pick("change", 3) {
	case 0:
		recs = append(recs[:i:i], recs[i+1:]...)
	case 1:
		recs[i].D = recs[i].D[:len(recs[i].D)/2]
	case 2:
		recs[i].D = make([]byte, len(recs[i].D))
		for j := range recs[i].D {
			recs[i].D[j] = 0xFF
		}
	}
	c22File(c, c22Opener(c, 1), gen.XLSFile(gen.RecBytes(recs)))
}

func c22Cfb(c *engine.Ctx) {
	c20CfbOnce.Do(c20CfbSetup)
	e := &c20Cfbs[c.Pick("file", 3)]
	f := append([]byte(nil), e.file...)
	c20Link(c, e, f, "field", 0)
	path := c.File("f", f)
	before := numFDs()
	c.Guard("cfb.Open", func() { cfb.Open(path) })
	if n := numFDs(); n != before {
		c.Failf("cfb.Open leaves %d descriptors open", n-before)
	}
	c22File(c, 1, f)
}

func c22XlsxCut(c *engine.Ctx) {
	c20XOnce.Do(c20XSetup)
	z := c20XZips[c.Pick("method", 2)]
	n := c.Pick("length", len(z)+1)
	c22File(c, c22Opener(c, 2), z[:n])
}

func c22XlsxParts(c *engine.Ctx) {
	c20XOnce.Do(c20XSetup)
	parts := append([]gen.XPart(nil), c20XParts...)
	i := c.Pick("part", len(parts))
	switch k := c.Pick("change", 4); k {
	case 0:
		parts = append(parts[:i], parts[i+1:]...)
	case 1:
		parts[i].Data = "not a part"
	case 2: // cut after any tag
		sp := c20Spans(c20Tag, parts[i].Data)
		parts[i].Data = parts[i].Data[:sp[c.Pick("tag", len(sp))][1]]
	case 3: // any value replaced
		s := parts[i].Data
		sp := append(c20Spans(c20Attr, s), c20Spans(c20Text, s)...)
		if len(sp) == 0 {
			return
		}
		m := sp[c.Pick("value", len(sp))]
		parts[i].Data = s[:m[0]] + []string{"", "-1", "x", "99999999999999999999", "/"}[c.Pick("with", 5)] + s[m[1]:]
	}
	c22File(c, c22Opener(c, 2), gen.Zip(parts, c.Pick("deflate", 2) == 1))
}

// every byte of the archive's own structure
func c22XlsxArchive(c *engine.Ctx) {
	c20XOnce.Do(c20XSetup)
	f := append([]byte(nil), c20XZips[1]...)
	p := c.Pick("position", len(f))
	f[p] ^= []byte{1, 0xFF}[c.Pick("flip", 2)]
	c22File(c, 2, f)
}

func c22Other(c *engine.Ctx) {
	hOnce.Do(hSetup)
	dir := filepath.Join(c.Scratch(), "c22")
	os.MkdirAll(dir, 0755)
	op := c.Pick("opener", len(c22Openers))
	k := c.Pick("file", len(hFiles)+6)
	switch {
	case k < len(hFiles):
		c22Path(c, op, c.File(hFiles[k].name, hFiles[k].data))
	case k == len(hFiles):
		c22Path(c, op, filepath.Join(dir, "missing"))
	case k == len(hFiles)+1:
		c22Path(c, op, dir)
	case k == len(hFiles)+2:
		c22Path(c, op, c.File("empty", nil))
	case k == len(hFiles)+3:
		c22Path(c, op, c.File("quote.csv", []byte("a,\"b\nc")))
	case k == len(hFiles)+4: // irregular
		var b []byte
		for i := 0; i < 60; i++ {
			b = append(b, []string{"a\tb\"c\n", "a\tb\tc,d\n", "\"\n"}[i%3]...)
		}
		c22Path(c, op, c.File("irregular", b))
	case k == len(hFiles)+5:
		c22Path(c, op, filepath.Join(dir, "missing", "dir", "f.xls"))
	}
	c.State(op, k)
}

func c22History(c *engine.Ctx) {
	d := 5
	if c.Thorough {
		d = 6
	}
	hOnce.Do(hSetup)
	files := [][]int{{0, 2}, {2, 3}, {2, 8}, {9, 7}, {5, 6}, {4, 2}}
	history(c, files[c.Pick("files", len(files))], d, 2, true)
}

// many opens and closes: the number of descriptors does not grow
func c22Many(c *engine.Ctx) {
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	hOnce.Do(hSetup)
	f := &hFiles[c.Pick("file", len(hFiles))]
	op := c.Pick("opener", 2)
	path := c.File(f.name, f.data)
	before := numFDs()
	for i := 0; i < 100; i++ {
		open := f.open
		if op == 1 {
			open = grate.Open
		}
		src, err := open(path)
		if err == nil {
			src.List()
			src.Close()
		}
	}
	if n := numFDs(); n != before {
		c.Failf("opening %s 100 times leaves %d descriptors open", f.name, n-before)
	}
	c.State(f.name, op)
	c.Outcome(fmt.Sprint("100 times ", f.name))
}

func init() {
	engine.Register(&engine.Property{
		ID:    "C22",
		Level: "model-checked",
		Rule:  "the descriptors of the process, counted around every open, read and close of every outcome, with the finalizers switched off",
		Assumptions: []string{
			"descriptors are counted in /proc/self/fd; other resources (goroutines, memory) are not",
			"the damaged files are the cuts and single damages of the files of C20",
		},
		Harnesses: []engine.Harness{
			{Name: "files", Run: c22Other},
			{Name: "xls-cut", Run: c22XlsCut},
			{Name: "xls-records", Run: c22XlsRecords},
			{Name: "cfb-links", Run: c22Cfb},
			{Name: "xlsx-cut", Run: c22XlsxCut},
			{Name: "xlsx-parts", Run: c22XlsxParts},
			{Name: "xlsx-archive", Run: c22XlsxArchive},
			{Name: "many", Run: c22Many},
			{Name: "history", Run: c22History},
		},
	})
}

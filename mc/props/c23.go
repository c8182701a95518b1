package props

import (
	"fmt"
	"io"
	"log"
	"os"
	"runtime/debug"
	"strings"
	"sync"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/simple"
	"github.com/pbnjay/grate/xls"
	"github.com/pbnjay/grate/xlsx"

	"verif/mc/engine"
	"verif/mc/gen"
)

// hFile is an input file with the contents it must show, written down by hand.
type hFile struct {
	name   string
	open   func(string) (grate.Source, error)
	data   []byte
	sheets []hSheet
	fails  bool // opening it is an error
}

type hSheet struct {
	name string
	rows []row
	bad  bool // getting it is an error
}

func hRow(cells ...[3]string) row {
	var r row
	for _, c := range cells {
		r.S, r.T, r.F = append(r.S, c[0]), append(r.T, c[1]), append(r.F, c[2])
	}
	return r
}

func hText(ss ...string) row {
	var r row
	for _, s := range ss {
		t := "string"
		if s == "" {
			t = "blank"
		}
		r.S, r.T, r.F = append(r.S, s), append(r.T, t), append(r.F, "General")
	}
	return r
}

var (
	hOnce  sync.Once
	hFiles []hFile
)

// The files use the same custom format ids, string indexes and record kinds for
// different contents, so that anything kept from one file shows in another.
func hSetup() {
	g := "General"
	mk := func(code, t0, t1, t2, extra string, d1904 bool, key *gen.RC4) []byte {
		x := &gen.XLS{
			Pre:  []gen.Rec{gen.Date1904(d1904), gen.Format(164, code, false), gen.XF(0), gen.XF(164), gen.XF(14)},
			Post: gen.SST([]string{t0, t1}),
			Sheets: []gen.Sheet{
				{Name: "P" + t0, Recs: []gen.Rec{gen.Dimensions(0, 3, 0, 3), gen.LabelSst(0, 0, 0, 0), gen.Number(0, 1, 1, 2.5), gen.Number(0, 2, 2, 36000),
					gen.LabelSst(1, 0, 0, 1), gen.Formula(1, 1, 0, gen.FStr()), gen.Str(t2, false), gen.Bool(1, 2, 0, true), gen.RK(2, 0, 0, 7<<2|2), gen.Merge([4]int{2, 2, 1, 2})}},
				{Name: "Q" + t0, Recs: []gen.Rec{gen.Dimensions(0, 1, 0, 2), gen.LabelSst(0, 0, 0, 1), gen.MulRK(0, 1, []int{0}, []uint32{9<<2 | 2}), gen.Blank(0, 3, 0)}},
			}}
		x.Sheets[1].Recs[2] = gen.Number(0, 1, 1, 4)
		x.Sheets[1].Recs = append(x.Sheets[1].Recs[:3], gen.Rec{T: gen.TContinue, D: []byte(extra)})
		if key != nil {
			return gen.XLSFile(x.EncryptedStream(key))
		}
		return x.File()
	}
	sheets := func(t0, t1, t2, n25, n4, date string) []hSheet {
		return []hSheet{
			{name: "P" + t0, rows: []row{
				hRow([3]string{t0, "string", g}, [3]string{n25, "float", "164"}, [3]string{date, "date", "mm-dd-yy"}),
				hRow([3]string{t1, "string", g}, [3]string{t2, "string", g}, [3]string{"TRUE", "boolean", g}),
				hRow([3]string{"7", "integer", g}, [3]string{"", "blank", g}, [3]string{"⇥", "static", g})}},
			{name: "Q" + t0, rows: []row{hRow([3]string{t1, "string", g}, [3]string{n4, "float", "164"})}},
		}
	}
	hFiles = append(hFiles,
		hFile{name: "a.xls", open: xls.Open, data: mk(`0.0" a"`, "alpha", "beta", "gamma", "", false, nil), sheets: sheets("alpha", "beta", "gamma", "2.5 a", "4.0 a", "07-24-98")},
		hFile{name: "b.xls", open: xls.Open, data: mk(`0.00" bb"`, "one", "twö", "thrée", "xx", true, nil), sheets: sheets("one", "twö", "thrée", "2.50 bb", "4.00 bb", "07-25-02")},
	)
	x := func(code, t0, t1, d1904 string) []byte {
		w := &gen.XLSX{Date1904: d1904, NumFmts: [][2]string{{"164", code}}, XFs: []string{gen.XFX(0), gen.XFX(164), gen.XFX(14)}, SST: []string{gen.T(t0), gen.T(t1)},
			Sheets: []gen.XSheet{
				{Name: "P" + t0, Dim: "A1:C2", Rows: gen.RowX(0, gen.C(0, 0, "s", 0, gen.V("0")), gen.C(0, 1, "", 1, gen.V("2.5")), gen.C(0, 2, "", 2, gen.V("36000"))) +
					gen.RowX(1, gen.C(1, 0, "s", 0, gen.V("1")), gen.C(1, 1, "", 0, gen.V("1.25"))),
					Tail: `<hyperlinks><hyperlink ref="C2" r:id="rId1"/></hyperlinks>`, Rels: []gen.XRel{{ID: "rId1", Type: gen.RelLink, Target: "http://" + t0 + "/", External: true}}},
				{Name: "Q" + t0, Dim: "A1:B1", Rows: gen.RowX(0, gen.C(0, 0, "s", 0, gen.V("1")), gen.C(0, 1, "", 1, gen.V("4")))},
			}}
		return w.File()
	}
	xs := func(t0, t1, n25, n4, date string) []hSheet {
		return []hSheet{
			{name: "P" + t0, rows: []row{
				hRow([3]string{t0, "string", g}, [3]string{n25, "float", "164"}, [3]string{date, "date", "mm-dd-yy"}),
				hRow([3]string{t1, "string", g}, [3]string{"1.25", "float", g}, [3]string{"http://" + t0 + "/", "hyperlink", g})}},
			{name: "Q" + t0, rows: []row{hRow([3]string{t1, "string", g}, [3]string{n4, "float", "164"})}},
		}
	}
	hFiles = append(hFiles,
		hFile{name: "a.xlsx", open: xlsx.Open, data: x(`0.0" A"`, "uno", "due", ""), sheets: xs("uno", "due", "2.5 A", "4.0 A", "07-24-98")},
		hFile{name: "b.xlsx", open: xlsx.Open, data: x(`0.000" xb"`, "eins", "zwei", "1"), sheets: xs("eins", "zwei", "2.500 xb", "4.000 xb", "07-25-02")},
		hFile{name: "e.xls", open: xls.Open, data: mk(`0.0" enc"`, "sec", "ret", "text", "", false, c09Key(3)), sheets: sheets("sec", "ret", "text", "2.5 enc", "4.0 enc", "07-24-98")},
		hFile{name: "a.tsv", open: simple.OpenTSV, data: []byte("x\ty\n1\t\n"), sheets: []hSheet{{name: "a.tsv", rows: []row{hText("x", "y"), hText("1", "")}}}},
		hFile{name: "b.csv", open: simple.OpenCSV, data: []byte("p,\"q,r\"\n3,4\n"), sheets: []hSheet{{name: "b.csv", rows: []row{hText("p", "q,r"), hText("3", "4")}}}},
	)
	// (the codes of a.xls and a.xlsx differ in the case of a literal only)

	// broken: a record in the middle, a sheet
	broken := mk("0", "bro", "ken", "x", "", false, nil)
	hFiles = append(hFiles, hFile{name: "bad.xls", open: xls.Open, data: broken[:len(broken)-1024], fails: true})
	bx := x("0", "nil", "null", "")
	bp := (&gen.XLSX{SST: []string{gen.T("nil")}, Sheets: []gen.XSheet{{Name: "ok", Rows: gen.RowX(0, gen.C(0, 0, "s", -1, gen.V("0")))}, {Name: "bad", Rows: gen.RowX(0, gen.C(0, 0, "s", -1, gen.V("5")))}}}).File()
	hFiles = append(hFiles,
		hFile{name: "bad.xlsx", open: xlsx.Open, data: bx[:len(bx)-30], fails: true},
		hFile{name: "half.xlsx", open: xlsx.Open, data: bp, sheets: []hSheet{{name: "ok", rows: []row{hText("nil")}}, {name: "bad", bad: true}}})
}

// hCol is a collection in use.
type hCol struct {
	col   grate.Collection
	sheet *hSheet
	at    int // rows delivered
	what  string
}

type hSrc struct {
	file   *hFile
	src    grate.Source
	closed int
	n      int
}

// hWorld is a process which reads files.
type hWorld struct {
	c    *engine.Ctx
	srcs []*hSrc
	cols []*hCol
	log  []string
	fds  bool // descriptors are checked
	base int
}

func (w *hWorld) fail(format string, a ...interface{}) {
	w.c.Failf("%s (after %s)", fmt.Sprintf(format, a...), strings.Join(w.log, ", "))
}

func numFDs() int {
	d, err := os.Open("/proc/self/fd")
	if err != nil {
		return -1
	}
	defer d.Close()
	n, _ := d.Readdirnames(-1)
	return len(n)
}

func (w *hWorld) open(f *hFile) {
	w.log = append(w.log, "open "+f.name)
	path := w.c.File(f.name, f.data)
	var src grate.Source
	var err error
	before := numFDs()
	w.c.Guard("Open", func() { src, err = f.open(path) })
	w.c.Steps(1)
	if f.fails {
		if err == nil {
			w.fail("%s opens", f.name)
		}
		if w.fds && numFDs() != before {
			w.fail("the failed open leaves %d descriptors open", numFDs()-before)
		}
		return
	}
	if err != nil {
		w.fail("%s does not open: %v", f.name, err)
	}
	var names []string
	w.c.Guard("List", func() { names, err = src.List() })
	var want []string
	for _, s := range f.sheets {
		want = append(want, s.name)
	}
	if err != nil || fmt.Sprint(names) != fmt.Sprint(want) {
		w.fail("%s lists %q, %v; want %q", f.name, names, err, want)
	}
	w.srcs = append(w.srcs, &hSrc{file: f, src: src, n: len(w.srcs)})
}

func (w *hWorld) get(s *hSrc, k int) *hCol {
	sh := &s.file.sheets[k]
	w.log = append(w.log, fmt.Sprintf("get %q of %s#%d", sh.name, s.file.name, s.n))
	var col grate.Collection
	var err error
	w.c.Guard("Get", func() { col, err = s.src.Get(sh.name) })
	w.c.Steps(1)
	if s.closed > 0 {
		return nil // anything but a panic
	}
	if sh.bad {
		if err == nil {
			w.fail("no error")
		}
		return nil
	}
	if err != nil {
		w.fail("error %v", err)
	}
	h := &hCol{col: col, sheet: sh, what: fmt.Sprintf("%q of %s#%d", sh.name, s.file.name, s.n)}
	w.cols = append(w.cols, h)
	return h
}

func (w *hWorld) same(h *hCol) {
	r := &h.sheet.rows[h.at-1]
	w.c.Guard("row", func() {
		s, t, f := h.col.Strings(), h.col.Types(), h.col.Formats()
		if fmt.Sprintf("%q%q%q", s, t, f) != fmt.Sprintf("%q%q%q", r.S, r.T, r.F) {
			w.fail("row %d of %s is %q %q %q, want %q %q %q", h.at, h.what, s, t, f, r.S, r.T, r.F)
		}
	})
}

func (w *hWorld) next(h *hCol) {
	w.log = append(w.log, "next of "+h.what)
	var ok bool
	w.c.Guard("Next", func() { ok = h.col.Next() })
	w.c.Steps(1)
	if want := h.at < len(h.sheet.rows); ok != want {
		w.fail("Next is %v", ok)
	}
	if ok {
		h.at++
		w.same(h)
	} else {
		h.at = len(h.sheet.rows) + 1
	}
}

func (w *hWorld) close(s *hSrc) {
	w.log = append(w.log, fmt.Sprintf("close %s#%d", s.file.name, s.n))
	w.c.Guard("Close", func() {
		err := s.src.Close()
		if err != nil && s.closed == 0 {
			w.fail("Close: %v", err)
		}
	})
	w.c.Steps(1)
	s.closed++
}

func (w *hWorld) debug() {
	grate.Debug = !grate.Debug
	w.log = append(w.log, fmt.Sprintf("debug %v", grate.Debug))
}

// drain reads the rest of every collection and everything of every open source.
func (w *hWorld) drain() {
	for _, h := range w.cols {
		if h.at > 0 && h.at <= len(h.sheet.rows) {
			w.same(h)
		}
		for h.at <= len(h.sheet.rows) {
			w.next(h)
		}
		w.next(h)
	}
	for _, s := range w.srcs {
		if s.closed > 0 {
			continue
		}
		for k := range s.file.sheets {
			h := w.get(s, k)
			for h != nil && h.at <= len(h.sheet.rows) {
				w.next(h)
			}
		}
	}
}

func (w *hWorld) end() {
	w.drain()
	for _, s := range w.srcs {
		if s.closed == 0 {
			w.close(s)
		}
	}
	if w.fds {
		if n := numFDs(); n != w.base {
			w.fail("%d descriptors are open, %d were at first", n, w.base)
		}
	}
}

func newWorld(c *engine.Ctx, fds bool) *hWorld {
	hOnce.Do(hSetup)
	w := &hWorld{c: c, fds: fds}
	if fds {
		w.base = numFDs()
	}
	return w
}

// history explores every sequence of operations.
func history(c *engine.Ctx, files []int, depth, maxOpen int, fds bool) {
	w := newWorld(c, fds)
	defer func(d bool, gc int) {
		grate.Debug = d
		debug.SetGCPercent(gc)
		for _, s := range w.srcs {
			func() {
				defer func() { recover() }()
				if s.closed == 0 {
					s.src.Close()
				}
			}()
		}
	}(grate.Debug, debug.SetGCPercent(-1)) // finalizers must not hide a leak
	log.SetOutput(io.Discard)
	toggled := false
	for i := 0; i < depth; i++ {
		var ops []func()
		open := 0
		for _, s := range w.srcs {
			s := s
			if s.closed == 0 {
				open++
				for k := range s.file.sheets {
					k := k
					ops = append(ops, func() { w.get(s, k) })
				}
			} else if s.closed == 1 && s.file.open != nil && i < depth-1 {
				ops = append(ops, func() { w.get(s, 0) })
			}
			if s.closed < 2 {
				ops = append(ops, func() { w.close(s) })
			}
		}
		for k, h := range w.cols {
			h := h
			if k >= len(w.cols)-2 && h.at <= len(h.sheet.rows) {
				ops = append(ops, func() { w.next(h) })
			}
		}
		if open < maxOpen {
			for _, f := range files {
				f := f
				ops = append(ops, func() { w.open(&hFiles[f]) })
			}
		}
		if !toggled && i < depth-1 {
			ops = append(ops, func() { toggled = true; w.debug() })
		}
		k := c.Pick("op", len(ops)+1)
		if k == len(ops) {
			break
		}
		ops[k]()
	}
	c.State(strings.Join(w.log, ";"))
	w.end()
}

func c23Pairs(c *engine.Ctx) {
	// any two files of all, and a short history
	n := 10
	i := c.Pick("first", n)
	j := c.Pick("second", n)
	hOnce.Do(hSetup)
	d := 4
	if c.Thorough {
		d = 5
	}
	history(c, []int{i, j}, d, 2, false)
}

func c23Deep(c *engine.Ctx) {
	d := 6
	if c.Thorough {
		d = 7
	}
	history(c, [][]int{{0, 1}, {2, 3}, {0, 2}}[c.Pick("files", 3)], d, 2, false)
}

// reading in full again and again, between others, gives the same
func c23Again(c *engine.Ctx) {
	w := newWorld(c, false)
	defer func(d bool) { grate.Debug = d }(grate.Debug)
	n := 3
	if c.Thorough {
		n = 4
	}
	for i := 0; i < n; i++ {
		f := &hFiles[c.Pick("file", len(hFiles))]
		if c.Bool("debug") {
			w.debug()
		}
		w.open(f)
		if f.fails {
			continue
		}
		s := w.srcs[len(w.srcs)-1]
		switch c.Pick("then", 4) {
		case 0:
			w.drain()
			w.close(s)
		case 1:
			w.close(s)
			w.close(s)
		case 2: // left open
		case 3:
			w.get(s, len(f.sheets)-1)
			w.get(s, 0)
		}
	}
	c.State(strings.Join(w.log, ";"))
	w.end()
}

func init() {
	engine.Register(&engine.Property{
		ID:    "C23",
		Level: "model-checked",
		Rule:  "every history of open, get, next, close and debug calls over several files: each row equals the contents written down for the file",
		Assumptions: []string{
			"ten files of all formats, two of them not openable; at most two sources open at a time and two collections in use in the histories",
			"what a source returns after its own Close is not specified, except that it does not panic",
		},
		Harnesses: []engine.Harness{
			{Name: "pairs", Run: c23Pairs},
			{Name: "deep", Run: c23Deep},
			{Name: "again", Run: c23Again},
		},
	})
}

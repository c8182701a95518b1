package props

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/simple"

	"verif/mc/engine"
	"verif/mc/gen"
)

// tCell is a cell as both formats store it.
type tCell struct {
	kind  int // 0 none, 1 number, 2 text, 3 boolean, 4 error, 5 formula number, 6 formula text, 7 formula boolean, 8 formula error, 9 styled blank, 10 formula empty text, 11 RK
	num   float64
	text  string
	style int
}

var tErrors = map[string]byte{"#NULL!": 0, "#DIV/0!": 7, "#VALUE!": 15, "#REF!": 23, "#NAME?": 29, "#NUM!": 36, "#N/A": 42}

type tSheet struct {
	name  string
	grid  [][]tCell
	dim   bool
	merge []rect
}

type tBook struct {
	sheets []tSheet
	fmts   [][2]string // custom formats
	xfs    []int
	d1904  bool
}

func (t *tBook) xls() *gen.XLS {
	x := &gen.XLS{}
	if t.d1904 {
		x.Pre = append(x.Pre, gen.Date1904(true))
	}
	for _, f := range t.fmts {
		var id int
		fmt.Sscan(f[0], &id)
		x.Pre = append(x.Pre, gen.Format(id, f[1], false))
	}
	for _, f := range t.xfs {
		x.Pre = append(x.Pre, gen.XF(f))
	}
	var sst []string
	for _, s := range t.sheets {
		var rs []gen.Rec
		if s.dim {
			rs = append(rs, gen.Dimensions(0, len(s.grid), 0, len(s.grid[0])))
		}
		for r, row := range s.grid {
			for k, c := range row {
				switch c.kind {
				case 1:
					rs = append(rs, gen.Number(r, k, c.style, c.num))
				case 2:
					rs = append(rs, gen.LabelSst(r, k, c.style, len(sst)))
					sst = append(sst, c.text)
				case 3:
					rs = append(rs, gen.Bool(r, k, c.style, c.num != 0))
				case 4:
					rs = append(rs, gen.Err(r, k, c.style, tErrors[c.text]))
				case 5:
					rs = append(rs, gen.Formula(r, k, c.style, gen.FNum(c.num)))
				case 6:
					rs = append(rs, gen.Formula(r, k, c.style, gen.FStr()), gen.Str(c.text, false))
				case 7:
					rs = append(rs, gen.Formula(r, k, c.style, gen.FBool(c.num != 0)))
				case 8:
					rs = append(rs, gen.Formula(r, k, c.style, gen.FErr(tErrors[c.text])))
				case 9:
					rs = append(rs, gen.Blank(r, k, c.style))
				case 10:
					rs = append(rs, gen.Formula(r, k, c.style, gen.FBlank()))
				case 11:
					rs = append(rs, gen.RK(r, k, c.style, uint32(int32(c.num))<<2|2))
				}
			}
		}
		for _, m := range s.merge {
			rs = append(rs, gen.Merge([4]int{m.r1, m.r2, m.c1, m.c2}))
		}
		x.Sheets = append(x.Sheets, gen.Sheet{Name: s.name, Recs: rs, Wide: !gen.Latin(s.name)})
	}
	x.Post = gen.SST(sst)
	return x
}

func (t *tBook) xlsx() *gen.XLSX {
	x := &gen.XLSX{NumFmts: t.fmts}
	if t.d1904 {
		x.Date1904 = "1"
	}
	for _, f := range t.xfs {
		x.XFs = append(x.XFs, gen.XFX(f))
	}
	for _, s := range t.sheets {
		xs := gen.XSheet{Name: s.name}
		if s.dim {
			xs.Dim = "A1:" + gen.Ref(len(s.grid)-1, len(s.grid[0])-1)
			if len(s.grid) == 1 && len(s.grid[0]) == 1 {
				xs.Dim = "A1"
			}
		}
		for r, row := range s.grid {
			var cells []string
			for k, c := range row {
				n := fmt.Sprint(c.num)
				switch c.kind {
				case 1, 11:
					cells = append(cells, gen.C(r, k, "", c.style, gen.V(n)))
				case 2:
					cells = append(cells, gen.C(r, k, "s", c.style, gen.V(fmt.Sprint(len(x.SST)))))
					x.SST = append(x.SST, gen.T(c.text))
				case 3:
					cells = append(cells, gen.C(r, k, "b", c.style, gen.V(n)))
				case 4:
					cells = append(cells, gen.C(r, k, "e", c.style, gen.V(c.text)))
				case 5:
					cells = append(cells, gen.C(r, k, "", c.style, "<f>A1+1</f>"+gen.V(n)))
				case 6:
					cells = append(cells, gen.C(r, k, "str", c.style, "<f>A1</f>"+gen.V(c.text)))
				case 7:
					cells = append(cells, gen.C(r, k, "b", c.style, "<f>A1</f>"+gen.V(n)))
				case 8:
					cells = append(cells, gen.C(r, k, "e", c.style, "<f>A1</f>"+gen.V(c.text)))
				case 9:
					cells = append(cells, gen.C(r, k, "", c.style, ""))
				case 10:
					cells = append(cells, gen.C(r, k, "str", c.style, "<f>A1</f><v></v>"))
				}
			}
			if len(cells) > 0 {
				xs.Rows += gen.RowX(r, cells...)
			}
		}
		if len(s.merge) > 0 {
			for _, m := range s.merge {
				xs.Tail += fmt.Sprintf(`<mergeCell ref="%s:%s"/>`, gen.Ref(m.r1, m.c1), gen.Ref(m.r2, m.c2))
			}
			xs.Tail = fmt.Sprintf(`<mergeCells count="%d">%s</mergeCells>`, len(s.merge), xs.Tail)
		}
		x.Sheets = append(x.Sheets, xs)
	}
	return x
}

// c27Texts is what a source shows: the names, and the text of every sheet.
func c27Texts(c *engine.Ctx, src grate.Source) ([]string, [][][]string, []bool) {
	var names []string
	var err error
	c.Guard("List", func() { names, err = src.List() })
	if err != nil {
		c.Failf("List: %v", err)
	}
	var out [][][]string
	var empty []bool
	for _, n := range names {
		c.Guard("sheet", func() {
			col, err := src.Get(n)
			if err != nil {
				c.Failf("Get(%q): %v", n, err)
			}
			empty = append(empty, col.IsEmpty())
			var rows [][]string
			for col.Next() {
				rows = append(rows, append([]string(nil), col.Strings()...))
			}
			if col.Err() != nil {
				c.Failf("%q: %v", n, col.Err())
			}
			out = append(out, rows)
		})
		c.Steps(1)
	}
	return names, out, empty
}

// c27Same renders the table in every format and compares what is read.
func c27Same(c *engine.Ctx, t *tBook) {
	a := xlsOpen(c, t.xls())
	b := xlsxOpen(c, t.xlsx())
	defer b.Close()
	defer a.Close()
	an, at, ae := c27Texts(c, a)
	bn, bt, be := c27Texts(c, b)
	var want []string
	for _, s := range t.sheets {
		want = append(want, s.name)
	}
	if fmt.Sprintf("%q", an) != fmt.Sprintf("%q", want) || fmt.Sprintf("%q", bn) != fmt.Sprintf("%q", want) {
		c.Failf("the xls file lists %q, the xlsx file %q, stored are %q", an, bn, want)
	}
	for i, s := range t.sheets {
		if fmt.Sprintf("%q", at[i]) != fmt.Sprintf("%q", bt[i]) {
			c.Failf("sheet %q reads as\n%q from xls and\n%q from xlsx", s.name, at[i], bt[i])
		}
		if ae[i] != be[i] {
			c.Failf("sheet %q is empty %v from xls, %v from xlsx", s.name, ae[i], be[i])
		}
		if s.dim && len(s.grid) > 0 && (len(at[i]) != len(s.grid) || len(at[i][0]) != len(s.grid[0])) {
			c.Failf("sheet %q of %dx%d cells reads as %dx%d", s.name, len(s.grid), len(s.grid[0]), len(at[i]), len(at[i][0]))
		}
		// the text itself is correct where it is known
		for r, row := range s.grid {
			for k, cl := range row {
				if s.dim && s.merge == nil && cl.style != len(c27XFs)-1 && (cl.kind == 2 || cl.kind == 4 || cl.kind == 6 || cl.kind == 8) && at[i][r][k] != cl.text {
					c.Failf("sheet %q: %q is stored and %q shown at %d,%d", s.name, cl.text, at[i][r][k], r, k)
				}
			}
		}
		var b strings.Builder
		plain := true
		for _, row := range at[i] {
			for _, v := range row {
				plain = plain && !strings.ContainsAny(v, "\t\r\n")
			}
			b.WriteString(strings.Join(row, "\t") + "\n")
		}
		if !plain || len(at[i]) == 0 {
			continue
		}
		p := c.File("t.tsv", []byte(b.String()))
		var src grate.Source
		var err error
		c.Guard("OpenTSV", func() { src, err = simple.OpenTSV(p) })
		if err != nil {
			c.Failf("the same table as tab-separated text: %v", err)
		}
		_, tt, _ := c27Texts(c, src)
		if fmt.Sprintf("%q", tt[0]) != fmt.Sprintf("%q", at[i]) {
			c.Failf("sheet %q reads as\n%q from xls and\n%q from tab-separated text", s.name, at[i], tt[0])
		}
		src.Close()
	}
}

var c27Fmts = [][2]string{{"164", `0.0" u"`}, {"165", `yyyy\-mm\-dd hh:mm`}, {"166", `#,##0.00;[Red]\-#,##0.00`}, {"167", `"n/a"`}, {"168", `000`}, {"169", "General"}, {"170", `0.000E+00`}, {"171", `@"!"`}}
var c27XFs = []int{0, 1, 2, 3, 4, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 37, 38, 39, 40, 45, 46, 47, 48, 49, 164, 165, 166, 167, 168, 169, 170, 171}

var c27Cells = []tCell{
	{kind: 1, num: 0}, {kind: 1, num: 1}, {kind: 1, num: -1}, {kind: 1, num: 0.5}, {kind: 1, num: -2.675}, {kind: 1, num: 1234567.891}, {kind: 1, num: 41000.75}, {kind: 1, num: 1e21}, {kind: 1, num: -1e-7}, {kind: 1, num: 123456789012},
	{kind: 2, text: "text"}, {kind: 2, text: "12"}, {kind: 2, text: "-1.5"}, {kind: 2, text: "ünïcode ☃ 𝄞"}, {kind: 2, text: " spaced  "}, {kind: 2, text: `a<b>&"c'`},
	{kind: 3, num: 1}, {kind: 3, num: 0}, {kind: 4, text: "#N/A"}, {kind: 4, text: "#DIV/0!"},
	{kind: 5, num: 3.25}, {kind: 5, num: 7}, {kind: 6, text: "formula text"}, {kind: 6, text: "99"}, {kind: 7, num: 1}, {kind: 8, text: "#REF!"}, {kind: 9}, {kind: 10}, {kind: 11, num: 42}, {kind: 11, num: -3}, {kind: 0},
}

// every kind of cell under every format, beside another
func c27Values(c *engine.Ctx) {
	a := c27Cells[c.Pick("cell", len(c27Cells))]
	a.style = c.Pick("format", len(c27XFs))
	b := c27Cells[c.Dev("next", len(c27Cells))]
	b.style = c.Dev("next format", len(c27XFs))
	for _, x := range []tCell{a, b} {
		if x.style == len(c27XFs)-1 && (x.kind == 4 || x.kind == 8) {
			return // whether a text section applies to an error is not specified
		}
	}
	t := &tBook{fmts: c27Fmts, xfs: c27XFs, d1904: c.Bool("1904")}
	t.sheets = []tSheet{{name: "S", dim: true, grid: [][]tCell{{a, b}}}}
	c27Same(c, t)
}

// the shape of the table: every pattern of cells, with and without a declared extent
func c27Shapes(c *engine.Ctx) {
	rows, cols := 1+c.Pick("rows", 3), 1+c.Pick("cols", 3)
	if rows*cols > 6 {
		rows = 2
	}
	s := tSheet{name: "S"}
	kinds := 3
	if c.Thorough {
		kinds = 4
	}
	for r := 0; r < rows; r++ {
		var row []tCell
		for k := 0; k < cols; k++ {
			row = append(row, []tCell{{}, {kind: 2, text: fmt.Sprint("t", r, k)}, {kind: 1, num: float64(10*r + k)}, {kind: 9}}[c.Pick("cell", kinds)])
		}
		s.grid = append(s.grid, row)
	}
	s.dim = c.Pick("dimension", 2) == 0
	if c.Bool("shift") {
		// the table does not begin at the first cell
		for r := range s.grid {
			s.grid[r] = append([]tCell{{}}, s.grid[r]...)
		}
		s.grid = append([][]tCell{make([]tCell, cols+1)}, s.grid...)
	}
	if s.dim {
		if m := c.Dev("merge", 5); m > 0 {
			h, w := len(s.grid), len(s.grid[0])
			s.merge = [][]rect{{{0, h - 1, 0, w - 1}}, {{0, 0, 0, w - 1}}, {{0, h - 1, 0, 0}}, {{h - 1, h - 1, 0, w - 1}}}[m-1]
			if s.merge[0].r1 == s.merge[0].r2 && s.merge[0].c1 == s.merge[0].c2 {
				s.merge = nil
			}
		}
	}
	c27Same(c, &tBook{xfs: []int{0}, sheets: []tSheet{s}})
}

var c27Names = []string{"S", "Sheet 1", "Ünï ☃", "a&b<c>", "with 'quote'", "0", "a very long sheet name of 31 ch."}

func c27Books(c *engine.Ctx) {
	n := 1 + c.Pick("sheets", 3)
	t := &tBook{xfs: []int{0, 14, 2}, d1904: c.Pick("1904", 2) == 1}
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		k := c.Pick("name", len(c27Names))
		if used[k] {
			return
		}
		used[k] = true
		g := [][][]tCell{
			{{{kind: 2, text: fmt.Sprint("x", i)}, {kind: 1, num: 41000, style: 1}}},
			{{{kind: 1, num: float64(i)}}, {{kind: 2, text: "same"}}, {{kind: 2, text: "same"}}},
			{{{}, {}}, {{}, {kind: 3, num: 1}}},
		}[c.Pick("contents", 3)]
		t.sheets = append(t.sheets, tSheet{name: c27Names[k], dim: true, grid: g})
	}
	c27Same(c, t)
}

// ---- the command

func c27Build(root string) error { return buildTool(root, "grater") }

// buildTool compiles a command of the repository below root.
func buildTool(root, name string) error {
	cmd := exec.Command("go", "build", "-o", filepath.Join(root, name), "github.com/pbnjay/grate/cmd/"+name)
	cmd.Dir = filepath.Join(engine.VerifDir, "mc")
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("%v: %s", err, out)
	}
	return nil
}

func c27Grater(c *engine.Ctx) {
	hOnce.Do(hSetup)
	type arg struct {
		path string
		rows []string
		errs int
	}
	var pool []func() arg
	for i := range hFiles {
		f := &hFiles[i]
		if strings.HasSuffix(f.name, ".csv") {
			continue // taken for tab-separated text with one column
		}
		pool = append(pool, func() arg {
			a := arg{path: c.File(f.name, f.data)}
			if f.fails {
				a.errs = 1
			}
			for _, s := range f.sheets {
				if s.bad {
					a.errs++
				}
				for _, r := range s.rows {
					a.rows = append(a.rows, strings.Join(r.S, "\t"))
				}
			}
			return a
		})
	}
	pool = append(pool,
		func() arg {
			bad := gen.RowX(0, gen.C(0, 0, "s", -1, gen.V("5")))
			return arg{path: c.File("mid.xlsx", (&gen.XLSX{SST: []string{gen.T("nil")}, Sheets: []gen.XSheet{{Name: "bad", Rows: bad}, {Name: "ok", Rows: gen.RowX(0, gen.C(0, 0, "s", -1, gen.V("0")))}, {Name: "worse", Rows: bad}, {Name: "fine", Rows: gen.RowX(0, gen.C(0, 0, "", -1, gen.V("3")))}}}).File()), rows: []string{"nil", "3"}, errs: 2}
		},
		func() arg {
			return arg{path: c.File("spaces.tsv", []byte(" lead\t\ttrail \n\"q\"\t \t  \nx\t%d\t\n\t\t\n")), rows: []string{" lead\t\ttrail ", "\"q\"\t \t  ", "x\t%d\t", "\t\t"}}
		},
		func() arg { return arg{path: filepath.Join(c.Scratch(), "missing.xls"), errs: 1} },
		func() arg { return arg{path: c.Scratch(), errs: 1} },
		func() arg {
			return arg{path: c.File("blank.xlsx", (&gen.XLSX{Sheets: []gen.XSheet{{Name: "empty", Dim: "A1"}, {Name: "gap", Dim: "A1:B2", Rows: gen.RowX(1, gen.C(1, 1, "", -1, gen.V("5")))}}}).File()), rows: []string{"", "\t", "\t5"}}
		},
	)
	n := 1 + c.Pick("files", 3)
	if c.Thorough {
		n = 1 + c.Pick("more files", 4)
	}
	var args, want []string
	errs := 0
	for i := 0; i < n; i++ {
		a := pool[c.Pick("file", len(pool))]()
		args = append(args, a.path)
		want = append(want, a.rows...)
		errs += a.errs
	}
	c.State(strings.Join(args, " "))
	verbose := c.Pick("verbose", 2) == 1
	if verbose {
		args = append([]string{"-v"}, args...)
	}
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_ROOT"), "grater"), args...)
	var out, eout bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &eout
	err := cmd.Run()
	c.Steps(1)
	if err != nil {
		c.Failf("grater %q: %v\n%s", args, err, eout.String())
	}
	if verbose {
		// the types of its columns are shown before every row
		got := strings.Split(strings.TrimSuffix(out.String(), "\n"), "\n")
		if len(want) == 0 {
			got = got[:0]
		}
		if len(got) != 2*len(want) {
			c.Failf("grater %q prints %d lines for %d rows:\n%s", args, len(got), len(want), out.String())
		}
		for i, w := range want {
			if got[2*i+1] != w {
				c.Failf("grater %q prints row %d as %q and not %q", args, i, got[2*i+1], w)
			}
			t := strings.Split(got[2*i], "\t")
			if len(t) != strings.Count(w, "\t")+1 {
				c.Failf("grater %q prints %d types for row %d %q: %q", args, len(t), i, w, t)
			}
			for k, v := range strings.Split(w, "\t") {
				if t[k] == "" && v != "" || strings.ContainsAny(t[k], " %<>*") {
					c.Failf("grater %q prints the type %q for the value %q", args, t[k], v)
				}
			}
		}
		if errs > 0 && eout.Len() == 0 {
			c.Failf("grater %q reports nothing, %d errors are expected", args, errs)
		}
		c.Outcome("verbose")
		return
	}
	exp := strings.Join(want, "\n")
	if len(want) > 0 {
		exp += "\n"
	}
	if out.String() != exp {
		c.Failf("grater %q prints\n%s\nand not\n%s", args, out.String(), exp)
	}
	if (eout.Len() > 0) != (errs > 0) {
		c.Failf("grater %q reports %q, %d errors are expected", args, eout.String(), errs)
	}
	c.Outcome(fmt.Sprint("errors: ", errs))
}

func init() {
	engine.Register(&engine.Property{
		ID:      "C27",
		Level:   "model-checked",
		Rule:    "every table of the bounded space is stored as xls, xlsx and tab-separated text by independent writers and must read the same; the grater command, built from the tree, prints the rows of every list of files",
		Prepare: c27Build,
		Assumptions: []string{
			"tables of up to nine cells (text, numbers, booleans, errors, formulas, blanks) in 36 formats; the stored texts are compared with the model, number texts only between the formats (C13 to C17 decide them)",
			"text without tabs and line ends for the tab-separated form",
		},
		Harnesses: []engine.Harness{
			{Name: "values", Run: c27Values, Quick: 1, Thorough: 2},
			{Name: "shapes", Run: c27Shapes, Quick: 1, Thorough: 2},
			{Name: "books", Run: c27Books},
			{Name: "grater", Run: c27Grater},
		},
	})
}

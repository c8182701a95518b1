package props

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/commonxl"
	"github.com/pbnjay/grate/simple"

	"verif/mc/engine"
	"verif/mc/gen"
)

// c18Cell is the model of one cell.
type c18Cell struct {
	put    bool // the cell was written
	typ    string
	text   string
	fmt    string
	static bool
	any    bool // not specified (it lay outside the sheet for a while)
}

type c18Model struct {
	cells      map[[2]int]c18Cell
	rows, cols int
	cur        int // current row, -1 if not specified
}

func (m *c18Model) resize(r, k int) {
	if r <= 0 {
		r = 1
	}
	if k <= 0 {
		k = 1
	}
	if r < m.rows || k < m.cols {
		for p, x := range m.cells {
			if p[0] >= r || p[1] >= k {
				x.any = true
				m.cells[p] = x
			}
		}
	}
	m.rows, m.cols, m.cur = r, k, 0
}

func (m *c18Model) row(r int) (S, T, F []string, any []bool) {
	for k := 0; k < m.cols; k++ {
		x, ok := m.cells[[2]int{r, k}]
		if !ok {
			x = c18Cell{typ: "blank", fmt: "General"}
		}
		S, T, F, any = append(S, x.text), append(T, x.typ), append(F, x.fmt), append(any, x.any)
	}
	return
}

func c18Row(c *engine.Ctx, s *commonxl.Sheet, m *c18Model, r int, hist string) {
	S, T, F, any := m.row(r)
	var s1, t1, f1 []string
	var raw []commonxl.Cell
	c.Guard(hist, func() { s1, t1, f1, raw = s.Strings(), s.Types(), s.Formats(), s.Raw() })
	// what the accessors return belongs to the caller
	for k := range raw {
		if len(raw[k]) >= 2 {
			if k&1 == 0 {
				raw[k].SetURL("http://changed/")
			}
			raw[k][0], raw[k][1] = "changed", commonxl.StringCell
		}
		raw[k] = nil
	}
	for k := range s1 {
		s1[k] = "changed"
	}
	for k := range t1 {
		t1[k] = "changed"
	}
	for k := range f1 {
		f1[k] = "changed"
	}
	c.Guard(hist, func() { s1, t1, f1, raw = s.Strings(), s.Types(), s.Formats(), s.Raw() })
	if len(s1) != m.cols || len(t1) != m.cols || len(f1) != m.cols || len(raw) != m.cols {
		c.Failf("%s: row %d has %d/%d/%d/%d columns, want %d", hist, r, len(s1), len(t1), len(f1), len(raw), m.cols)
	}
	for k := range S {
		if any[k] {
			continue
		}
		if s1[k] != S[k] || t1[k] != T[k] || f1[k] != F[k] || raw[k].Type().String() != T[k] {
			c.Failf("%s: cell %d,%d is %q/%s/%q (raw %v), want %q/%s/%q", hist, r, k, s1[k], t1[k], f1[k], raw[k], S[k], T[k], F[k])
		}
	}
}

var c18Values = []struct {
	v   interface{}
	fn  uint16
	out c18Cell
}{
	{int64(7), 0, c18Cell{put: true, typ: "integer", text: "7", fmt: "General"}},
	{"text", 49, c18Cell{put: true, typ: "string", text: "text", fmt: "@"}},
	{2.5, 2, c18Cell{put: true, typ: "float", text: "2.50", fmt: "0.00"}},
	{"", 2, c18Cell{put: true, typ: "blank", text: "", fmt: "0.00"}},
	{grate.ContinueColumnMerged, 0, c18Cell{put: true, typ: "static", text: grate.ContinueColumnMerged, fmt: "General", static: true}},
}

// every history of resizing, writing, linking and reading a small grid
func c18Grid(c *engine.Ctx) {
	depth := 3
	if c.Thorough {
		depth = 4
	}
	c18Ops(c, depth, 3)
}

// longer histories of a 2x2 grid
func c18Small(c *engine.Ctx) {
	depth := 4
	if c.Thorough {
		depth = 5
	}
	c18Ops(c, depth, 2)
}

func c18Ops(c *engine.Ctx, depth, size int) {
	sizes := [][2]int{{0, 0}, {1, 1}, {2, 2}, {3, 3}, {1, 3}, {3, 1}, {4, 4}}
	s := &commonxl.Sheet{Formatter: &commonxl.Formatter{}}
	m := &c18Model{cells: map[[2]int]c18Cell{}}
	hist := ""
	nv := len(c18Values)
	nops := len(sizes) + size*size*(nv+2) + 2
	for d := 0; d < depth; d++ {
		op := c.Pick("op", nops)
		switch {
		case op < len(sizes):
			z := sizes[op]
			hist += fmt.Sprintf(" Resize%v", z)
			c.Guard(hist, func() { s.Resize(z[0], z[1]) })
			m.resize(z[0], z[1])
		case op == nops-2:
			hist += " Next"
			var ok bool
			c.Guard(hist, func() { ok = s.Next() })
			if m.cur >= 0 {
				if ok != (m.cur < m.rows) {
					c.Failf("%s = %v at row %d of %d", hist, ok, m.cur, m.rows)
				}
				if ok {
					m.cur++
					c18Row(c, s, m, m.cur-1, hist)
				}
			}
		case op == nops-1:
			hist += " read"
			c.Guard(hist, func() {
				s.Strings()
				s.Types()
				s.Formats()
				s.Raw()
				s.IsEmpty()
				s.Err()
				s.Scan()
			})
			if m.cur > 0 {
				c18Row(c, s, m, m.cur-1, hist)
			}
		default:
			op -= len(sizes)
			kind, p := op/(size*size), op%(size*size)
			r, k := p/size, p%size
			at := [2]int{r, k}
			x := m.cells[at]
			in := r < m.rows && k < m.cols
			switch {
			case kind < nv:
				v := c18Values[kind]
				hist += fmt.Sprintf(" Put(%d,%d,%v)", r, k, v.v)
				c.Guard(hist, func() { s.Put(r, k, v.v, v.fn) })
				if !in {
					rows, cols := m.rows, m.cols
					if r >= rows {
						rows = r + 1
					}
					if k >= cols {
						cols = k + 1
					}
					m.resize(rows, cols)
					m.cur = -1
				}
				m.cells[at] = v.out
			case kind == nv:
				hist += fmt.Sprintf(" Set(%d,%d)", r, k)
				c.Guard(hist, func() { s.Set(r, k, "set") })
				if in && x.put {
					x.typ, x.text, x.static = "string", "set", false
					m.cells[at] = x
				}
			default:
				hist += fmt.Sprintf(" SetURL(%d,%d)", r, k)
				c.Guard(hist, func() { s.SetURL(r, k, "http://x/") })
				if in && x.put {
					x.typ, x.static = "hyperlink", false
					m.cells[at] = x
				}
			}
		}
		c.Steps(1)
		c.State(fmt.Sprint(m.cells), m.rows, m.cols, m.cur)
	}
	// what is there, is there: rewind and read the sheet
	data, unsure := false, false
	for _, x := range m.cells {
		if x.any || x.static {
			unsure = true
		} else if x.typ != "blank" {
			data = true
		}
	}
	var empty bool
	c.Guard(hist+" IsEmpty", func() { empty = s.IsEmpty() })
	if (data && empty) || (!data && !unsure && !empty) {
		c.Failf("%s IsEmpty = %v", hist, empty)
	}
	if m.rows == 0 {
		if s.Next() {
			c.Failf("%s: a sheet without rows has a row", hist)
		}
		return
	}
	hist += " rewind"
	c.Guard(hist, func() { s.Resize(m.rows, m.cols) })
	for r := 0; r < m.rows; r++ {
		if !s.Next() {
			c.Failf("%s: the sheet ends after %d rows of %d", hist, r, m.rows)
		}
		c18Row(c, s, m, r, hist)
	}
	for i := 0; i < 3; i++ {
		if s.Next() {
			c.Failf("%s: Next is true after the last row", hist)
		}
	}
}

// cells far out: shape and neighbours
func c18Far(c *engine.Ctx) {
	R := []int{0, 1, 1023, 65535, 300000}
	K := []int{0, 1, 255, 16383}
	s := &commonxl.Sheet{Formatter: &commonxl.Formatter{}}
	m := &c18Model{cells: map[[2]int]c18Cell{}}
	hist := ""
	switch c.Pick("first", 4) {
	case 1:
		s.Resize(2, 2)
		m.resize(2, 2)
	case 2:
		s.Resize(2000, 2100) // more than is allocated in advance
		m.resize(2000, 2100)
	case 3:
		s.Resize(65536, 2)
		m.resize(65536, 2)
	}
	var at [][2]int
	for i := 0; i < 2; i++ {
		p := [2]int{R[c.Pick("row", len(R))], K[c.Pick("col", len(K))]}
		hist += fmt.Sprintf(" Put%v", p)
		v := c18Values[i]
		c.Guard(hist, func() { s.Put(p[0], p[1], v.v, v.fn) })
		rows, cols := m.rows, m.cols
		if p[0] >= rows {
			rows = p[0] + 1
		}
		if p[1] >= cols {
			cols = p[1] + 1
		}
		m.rows, m.cols = rows, cols
		m.cells[p] = v.out
		at = append(at, p)
		c.Steps(1)
	}
	c.Guard(hist, func() { s.Resize(m.rows, m.cols) })
	look := map[int]bool{0: true, m.rows - 1: true, m.rows / 2: true}
	for _, p := range at {
		look[p[0]], look[p[0]-1], look[p[0]+1] = true, true, true
	}
	n := 0
	for s.Next() {
		if n >= m.rows {
			c.Failf("%s: more than %d rows", hist, m.rows)
		}
		if look[n] {
			c18Row(c, s, m, n, hist)
		}
		n++
	}
	if n != m.rows {
		c.Failf("%s: %d rows, want %d", hist, n, m.rows)
	}
}

// every accessor history on a sheet from each reader
func c18Readers(c *engine.Ctx) {
	depth := 6
	if c.Thorough {
		depth = 7
	}
	kind := c.Pick("reader", 4)
	var src grate.Source
	var err error
	S := [][]string{{"1", "a"}, {"", "b"}, {"3", ""}}
	T := [][]string{{"integer", "string"}, {"blank", "string"}, {"integer", "blank"}}
	name := "S"
	switch kind {
	case 0:
		src = xlsOpen(c, &gen.XLS{Pre: xlsPre(), Sheets: []gen.Sheet{{Name: "S", Recs: []gen.Rec{gen.Dimensions(0, 3, 0, 2),
			gen.RK(0, 0, 0, rkInt(1, false)), gen.LabelSst(0, 1, 0, 0), gen.LabelSst(1, 1, 0, 1), gen.RK(2, 0, 0, rkInt(3, false))}}}, Post: gen.SST([]string{"a", "b"})})
	case 1:
		T = [][]string{{"float", "string"}, {"blank", "string"}, {"float", "blank"}}
		src = xlsxOpen(c, &gen.XLSX{XFs: xlsxXFs(), NumFmts: xlsxNumFmts, Sheets: []gen.XSheet{{Name: "S", Rows: strings.Join([]string{
			gen.RowX(0, gen.C(0, 0, "", 0, gen.V("1")), gen.C(0, 1, "inlineStr", 0, "<is>"+gen.T("a")+"</is>")),
			gen.RowX(1, gen.C(1, 1, "inlineStr", 0, "<is>"+gen.T("b")+"</is>")),
			gen.RowX(2, gen.C(2, 0, "", 0, gen.V("3")), gen.C(2, 1, "", 0, "")),
		}, "")}}})
	case 2:
		T = [][]string{{"string", "string"}, {"blank", "string"}, {"string", "blank"}}
		src, err = simple.OpenTSV(c.File("r.tsv", []byte("1\ta\n\tb\n3\t\n")))
		name = "r.tsv"
	case 3:
		T = [][]string{{"string", "string"}, {"blank", "string"}, {"string", "blank"}}
		src, err = simple.OpenCSV(c.File("r.csv", []byte("1,a\n,b\n3,\n")))
		name = "r.csv"
	}
	if err != nil {
		c.Failf("Open: %v", err)
	}
	defer src.Close()
	col, err := src.Get(name)
	if err != nil {
		c.Failf("Get: %v", err)
	}
	cur := 0 // rows passed
	over := false
	hist := ""
	for d := 0; d < depth; d++ {
		op := c.Pick("op", 6)
		hist += []string{" Next", " Strings", " Types", " Formats", " Scan", " IsEmpty"}[op]
		c.Steps(1)
		if op == 0 {
			var ok bool
			c.Guard(hist, func() { ok = col.Next() })
			if ok != (cur < len(S)) {
				c.Failf("%s = %v after %d rows", hist, ok, cur)
			}
			if ok {
				cur++
			} else {
				over = true
			}
			continue
		}
		var got []string
		var a, b string
		var empty bool
		c.Guard(hist, func() {
			switch op {
			case 1:
				got = col.Strings()
			case 2:
				got = col.Types()
			case 3:
				got = col.Formats()
			case 4:
				var n int64
				var x float64
				if cur == 1 && kind == 0 {
					err = col.Scan(&n, &b)
					a = strconv.FormatInt(n, 10)
				} else if cur == 1 && kind == 1 {
					err = col.Scan(&x, &b)
					a = fmt.Sprint(x)
				} else if cur == 1 {
					err = col.Scan(&a, &b)
				} else {
					col.Scan(&a, &b)
				}
			case 5:
				empty = col.IsEmpty()
			}
			if col.Err() != nil {
				err = col.Err()
			}
		})
		if err != nil {
			c.Failf("%s: %v", hist, err)
		}
		if op == 5 && empty {
			c.Failf("%s = true", hist)
		}
		if cur == 0 || over {
			continue // there is no current row
		}
		switch op {
		case 1:
			if len(got) != 2 || join(got) != join(S[cur-1]) {
				c.Failf("%s = %q at row %d", hist, got, cur-1)
			}
		case 2:
			if len(got) != 2 || join(got) != join(T[cur-1]) {
				c.Failf("%s = %q at row %d", hist, got, cur-1)
			}
		case 3:
			if len(got) != 2 || join(got) != "General|General" {
				c.Failf("%s = %q at row %d", hist, got, cur-1)
			}
		case 4:
			if cur == 1 && (a != "1" || b != "a") {
				c.Failf("%s = %q %q", hist, a, b)
			}
		}
		c.State(kind, cur, op)
	}
}

func init() {
	engine.Register(&engine.Property{
		ID: "C18", Level: "model_checking",
		Rule: "grid: every history of 3 (thorough 4) operations out of Resize to 7 sizes, Put of 5 values / Set / SetURL at each cell of a 3x3 grid, Next and reading, then the whole sheet; small: the same with one more operation on a 2x2 grid; far: two cells at every pair of extreme places; readers: every accessor history of length 6 (thorough 7) on a sheet of each of the four readers. Oracle: a map of cells and a cursor",
		Assumptions: []string{
			"what a cell shows after it lay outside a shrunk sheet, and where the cursor stands after a write has grown the sheet, is not specified",
			"whether a sheet of merge marks alone is empty is not specified",
		},
		Harnesses: []engine.Harness{
			{Name: "grid", Run: c18Grid},
			{Name: "small", Run: c18Small},
			{Name: "far", Run: c18Far},
			{Name: "readers", Run: c18Readers},
		},
	})
}

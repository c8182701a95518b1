package props

import (
	"fmt"
	"strings"

	"github.com/pbnjay/grate"

	"verif/mc/engine"
	"verif/mc/gen"
)

type rect struct{ r1, r2, c1, c2 int }

func (a rect) meets(b rect) bool {
	return a.r1 <= b.r2 && b.r1 <= a.r2 && a.c1 <= b.c2 && b.c1 <= a.c2
}

func (a rect) ref() string { return gen.Ref(a.r1, a.c1) + ":" + gen.Ref(a.r2, a.c2) }

// rects of an n x m grid, of at least two cells
func rects(rows, cols int) []rect {
	var l []rect
	for r1 := 0; r1 < rows; r1++ {
		for r2 := r1; r2 < rows; r2++ {
			for c1 := 0; c1 < cols; c1++ {
				for c2 := c1; c2 < cols; c2++ {
					if r1 != r2 || c1 != c2 {
						l = append(l, rect{r1, r2, c1, c2})
					}
				}
			}
		}
	}
	return l
}

// mark is the reference for a cell of a merged range
func (a rect) mark(r, k int) (string, bool) {
	switch {
	case r < a.r1 || r > a.r2 || k < a.c1 || k > a.c2:
		return "", false
	case r == a.r1 && k == a.c1:
		return "", false
	case k == a.c1 && r == a.r2:
		return grate.EndRowMerged, true
	case k == a.c1:
		return grate.ContinueRowMerged, true
	case k == a.c2:
		return grate.EndColumnMerged, true
	}
	return grate.ContinueColumnMerged, true
}

// c11Run stores a grid with merged ranges in both formats; open tells which ends of the stored ranges are open.
func c11Run(c *engine.Ctx, rows, cols, fill, dims, split int, rs []rect, open int) {
	if dims == 1 && fill != 1 {
		return // the extent of the sheet is not stored anywhere
	}
	g := blankGrid(rows, cols)
	var xc []gen.Rec
	var xr []string
	covered := func(r, k int) bool {
		for _, a := range rs {
			if _, in := a.mark(r, k); in {
				return true
			}
		}
		return false
	}
	for r := 0; r < rows; r++ {
		var cells []string
		for k := 0; k < cols; k++ {
			n := 100 + 10*r + k
			if fill == 0 && covered(r, k) || fill == 2 && (r+k)%2 == 1 && !(r == rows-1 && k == cols-1) {
				// producers write no or a blank cell below a merge
				xc = append(xc, gen.Blank(r, k, 1))
				cells = append(cells, gen.C(r, k, "", 1, ""))
			} else if n%3 == 0 {
				xc = append(xc, gen.LabelSst(r, k, 0, n%5))
				cells = append(cells, gen.C(r, k, "s", 0, gen.V(fmt.Sprint(n%5))))
				s := fmt.Sprint("s", n%5)
				g[r][k] = want{typ: "string", val: s, str: s}
			} else {
				xc = append(xc, gen.Number(r, k, 2, float64(n)))
				cells = append(cells, gen.C(r, k, "", 2, gen.V(fmt.Sprint(n))))
				g[r][k] = want{typ: "float", val: float64(n), str: fmt.Sprintf("%d.00", n)}
			}
		}
		xr = append(xr, gen.RowX(r, cells...))
	}
	for r := range g {
		for k := range g[r] {
			for _, a := range rs {
				if m, in := a.mark(r, k); in {
					g[r][k] = want{str: m}
				}
			}
		}
	}
	// an open end is the last row or column of the format, or just beyond those there are
	end := func(last, beyond int) int {
		if open&4 != 0 {
			return beyond
		}
		return last
	}
	// xls
	var l [][4]int
	for _, a := range rs {
		b := a
		if open&1 != 0 && b.r2 == rows-1 {
			b.r2 = end(0xFFFF, rows)
		}
		if open&2 != 0 && b.c2 == cols-1 {
			b.c2 = end(0xFF, cols+1)
		}
		l = append(l, [4]int{b.r1, b.r2, b.c1, b.c2})
	}
	var recs []gen.Rec
	if dims == 0 {
		recs = append(recs, gen.Dimensions(0, rows, 0, cols))
	}
	recs = append(recs, xc...)
	if split == 1 {
		for _, m := range l {
			recs = append(recs, gen.Merge(m))
		}
	} else if len(l) > 0 {
		recs = append(recs, gen.Merge(l...))
	}
	sst := []string{"s0", "s1", "s2", "s3", "s4"}
	checkGrid(c, xlsOneSheet(c, recs, sst), g)
	// xlsx
	s := gen.XSheet{Name: "S"}
	if dims == 0 {
		s.Dim = "A1:" + gen.Ref(rows-1, cols-1)
	}
	s.Rows = strings.Join(xr, "")
	t := ""
	for _, a := range rs {
		b := a
		if open&1 != 0 && b.r2 == rows-1 {
			b.r2 = end(1048575, rows)
		}
		if open&2 != 0 && b.c2 == cols-1 {
			b.c2 = end(16383, cols+1)
		}
		t += `<mergeCell ref="` + b.ref() + `"/>`
	}
	if t != "" {
		s.Tail = fmt.Sprintf(`<mergeCells count="%d">%s</mergeCells><phoneticPr fontId="1"/>`, len(rs), t)
	}
	x := &gen.XLSX{Sheets: []gen.XSheet{s}, XFs: xlsxXFs(), NumFmts: xlsxNumFmts}
	for _, v := range sst {
		x.SST = append(x.SST, gen.T(v))
	}
	xlsxCheck(c, x, g)
}

func c11One(c *engine.Ctx) {
	n := 4
	if c.Thorough {
		n = 6
	}
	rows, cols := 1+c.Pick("rows", n), 1+c.Pick("cols", n)
	l := rects(rows, cols)
	if len(l) == 0 {
		return
	}
	a := l[c.Pick("rect", len(l))]
	open := []int{0, 1, 2, 3, 5, 6, 7}[c.Pick("open", 7)]
	if open&1 != 0 && a.r2 != rows-1 || open&2 != 0 && a.c2 != cols-1 {
		return
	}
	c11Run(c, rows, cols, c.Pick("fill", 3), c.Pick("dims", 2), 0, []rect{a}, open)
	c.Outcome(fmt.Sprintf("%dx%d", a.r2-a.r1+1, a.c2-a.c1+1))
}

func c11Two(c *engine.Ctx) {
	rows, cols := 4, 4
	if c.Thorough {
		rows, cols = 5, 5
	}
	l := rects(rows, cols)
	a := l[c.Pick("a", len(l))]
	b := l[c.Pick("b", len(l))]
	if a.meets(b) {
		return
	}
	split := c.Pick("split", 2)
	c11Run(c, rows, cols, c.Dev("fill", 3), c.Dev("dims", 2), split, []rect{a, b}, []int{0, 1, 2, 3, 7}[c.Dev("open", 5)])
}

// c11Many tiles a larger grid with equal ranges
func c11Many(c *engine.Ctx) {
	h, w := 1+c.Pick("h", 3), 1+c.Pick("w", 4)
	if h*w == 1 {
		return
	}
	ny, nx := []int{1, 3, 20, 38}[c.Pick("ny", 4)], []int{1, 2, 15, 27}[c.Pick("nx", 4)] // 1026 ranges fit a record
	var rs []rect
	for y := 0; y < ny; y++ {
		for x := 0; x < nx; x++ {
			rs = append(rs, rect{y * h, y*h + h - 1, x * w, x*w + w - 1})
		}
	}
	switch c.Pick("order", 2) {
	case 1:
		for i, j := 0, len(rs)-1; i < j; i, j = i+1, j-1 {
			rs[i], rs[j] = rs[j], rs[i]
		}
	}
	c11Run(c, ny*h+1, nx*w+1, c.Pick("fill", 3), c.Pick("dims", 2), c.Pick("split", 2), rs, 0)
}

// c11Large: ranges of many rows, many columns or both
func c11Large(c *engine.Ctx) {
	s := [][2]int{{1, 250}, {250, 1}, {256, 255}, {257, 255}, {300, 250}, {65534, 1}, {32000, 2}, {1000, 200}, {3000, 255}}[c.Pick("size", 9)]
	at := c.Pick("at", 2)
	a := rect{at, at + s[0] - 1, at, at + s[1] - 1}
	c11Run(c, a.r2+2-at, a.c2+2-at, 0, 0, 0, []rect{a}, 0)
}

// c11Far: small ranges anywhere in long or wide sheets which hold little else
func c11Far(c *engine.Ctx) {
	xl := c.Pick("xlsx", 2) == 1
	wide := c.Pick("wide", 2) == 1
	at := []int{25, 26, 254, 255, 256, 511, 701, 702, 1022, 1023, 1024, 4095, 16382, 32766, 65533, 65534, 65535, 99999}[c.Pick("at", 18)]
	a := rect{at, at + []int{1, 0, 2}[c.Pick("h", 3)], 0, c.Pick("w", 2)}
	if a.r1 == a.r2 && a.c1 == a.c2 {
		return
	}
	if wide {
		a = rect{a.c1, a.c2, a.r1, a.r2}
	}
	if a.r2 > 65535 && !xl || a.c2 > 16383 || a.c2 > 255 && !xl {
		return
	}
	extra := c.Pick("beyond", 2)
	rows, cols := a.r2+1+extra, a.c2+1+extra
	if rows > 65536 && !xl || cols > 16384 || cols > 256 && !xl {
		return
	}
	g := blankGrid(rows, cols)
	for r := a.r1; r <= a.r2; r++ {
		for k := a.c1; k <= a.c2; k++ {
			m, _ := a.mark(r, k)
			g[r][k] = want{str: m}
		}
	}
	g[a.r1][a.c1] = numWant(7, !xl, 0)
	if extra == 1 {
		g[rows-1][cols-1] = numWant(8, !xl, 0)
	}
	if !xl {
		recs := []gen.Rec{gen.Dimensions(0, rows, 0, cols), gen.RK(a.r1, a.c1, 0, rkInt(7, false))}
		if extra == 1 {
			recs = append(recs, gen.RK(rows-1, cols-1, 0, rkInt(8, false)))
		}
		checkGrid(c, xlsOneSheet(c, append(recs, gen.Merge([4]int{a.r1, a.r2, a.c1, a.c2})), nil), g)
		return
	}
	s := gen.XSheet{Name: "S", Dim: "A1:" + gen.Ref(rows-1, cols-1), Rows: gen.RowX(a.r1, gen.C(a.r1, a.c1, "", 0, gen.V("7")))}
	if extra == 1 {
		s.Rows += gen.RowX(rows-1, gen.C(rows-1, cols-1, "", 0, gen.V("8")))
	}
	s.Tail = `<mergeCells count="1"><mergeCell ref="` + a.ref() + `"/></mergeCells>`
	xlsxCheck(c, &gen.XLSX{Sheets: []gen.XSheet{s}, XFs: xlsxXFs(), NumFmts: xlsxNumFmts}, g)
}

func init() {
	engine.Register(&engine.Property{
		ID: "C11", Level: "model_checking",
		Rule:        "one: every range of every grid up to 4x4 (thorough 6x6) x what the covered cells store x declared or missing dimensions x open ends; two: every ordered pair of disjoint ranges of a 4x4 (5x5) grid; many: tilings of up to 1026 ranges; large: ranges of up to 765000 cells; far: small ranges at 18 places up to row 100002 and column 16384. Each in both formats against the same reference grid",
		Assumptions: []string{"ranges do not overlap and begin inside the sheet; the sheet's extent is stored (dimensions or cells); the type reported for a mark is not specified"},
		Harnesses: []engine.Harness{
			{Name: "one", Run: c11One},
			{Name: "two", Run: c11Two, Quick: 1, Thorough: 2},
			{Name: "many", Run: c11Many},
			{Name: "large", Run: c11Large},
			{Name: "far", Run: c11Far},
		},
	})
}

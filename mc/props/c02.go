package props

import (
	"fmt"
	"math"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/xls"

	"verif/mc/engine"
	"verif/mc/gen"
)

// the cell formats of the test workbook: xf index -> format id
var xlsXFs = []int{0, 1, 2, 14, 49, 10, 3, 164, 165}
var xlsFmtCode = map[int]string{0: "General", 1: "0", 2: "0.00", 14: "mm-dd-yy", 49: "@", 10: "0.00%", 3: "#,##0", 164: "164", 165: "165"}

func xlsPre() []gen.Rec {
	pre := []gen.Rec{gen.Format(164, "General", false), gen.Format(165, `0.0" u"`, false)}
	for _, f := range xlsXFs {
		pre = append(pre, gen.XF(f))
	}
	return pre
}

// xlsOneSheet opens a workbook with one worksheet.
func xlsOneSheet(c *engine.Ctx, recs []gen.Rec, sst []string) grate.Collection {
	x := &gen.XLS{Pre: xlsPre(), Sheets: []gen.Sheet{{Name: "S", Recs: recs}}}
	if sst != nil {
		x.Post = gen.SST(sst)
	}
	return xlsSheet(c, x, "S")
}

func xlsOpen(c *engine.Ctx, x *gen.XLS) grate.Source {
	data := x.File()
	c.State(data)
	path := c.File("t.xls", data)
	var src grate.Source
	var err error
	c.Guard("xls.Open", func() { src, err = xls.Open(path) })
	if err != nil {
		c.Failf("xls.Open: %v", err)
	}
	return src
}

func xlsSheet(c *engine.Ctx, x *gen.XLS, name string) grate.Collection {
	src := xlsOpen(c, x)
	var col grate.Collection
	var err error
	c.Guard("Get", func() { col, err = src.Get(name) })
	if err != nil {
		c.Failf("Get(%q): %v", name, err)
	}
	return col
}

// numWant is the reference for a number under a cell format; isInt tells that the record stores an integer.
func numWant(v float64, isInt bool, fid int) want {
	w := want{num: true, val: v, typ: "float", fmts: xlsFmtCode[fid]}
	whole := v == math.Trunc(v) && math.Abs(v) < 1<<53
	switch fid {
	case 0, 164:
		if isInt {
			w.typ, w.val = "integer", int64(v)
		}
	case 1, 3:
		if whole {
			w.typ, w.val = "integer", int64(v)
			w.str = fmt.Sprint(int64(v))
			w.num = fid == 1
			if fid == 3 {
				w.str = group(int64(v))
			}
		} else {
			// how a fraction is rounded is the business of C13
			w.noText = true
		}
	case 2:
		w.num, w.str = false, fmt.Sprintf("%.2f", v)
		if math.Abs(v*100) != math.Trunc(math.Abs(v*100)) {
			w.noText = true
		}
	case 14:
		if v < 61 || v > 2958465 {
			w.any = true
			break
		}
		t := serialDate(v, false)
		w.typ, w.val, w.num = "date", t, false
		w.str = t.Format("01-02-06")
		if v != math.Trunc(v) {
			w.val = nil
		}
	case 49:
		w.typ, w.val, w.rd = "string", nil, v
	case 10, 165:
		w.noText = true
	default:
		w.any = true
	}
	return w
}

func group(n int64) string {
	s := fmt.Sprint(n)
	neg := ""
	if n < 0 {
		neg, s = "-", s[1:]
	}
	for i := len(s) - 3; i > 0; i -= 3 {
		s = s[:i] + "," + s[i:]
	}
	return neg + s
}

var c02Floats = []float64{0, 1, -1, 0.5, 1.5, -2.25, 0.1, 100, 123, 61, 367, 43831, 43831.5, 2958465, 99999, -99999, 1234567, 123456789, 12345678901, -1234567890,
	0.25, 1e-5, 123456.789, 3.14159265358979, 1e15, 123456789012345, 1e22, 1e300, 5e-324, math.MaxFloat64, -1e-300, 1.0 / 3, 2147483648, 4294967296, 9007199254740991}

// rk encodings: the value and the encoding
func rkInt(n int32, div bool) uint32 {
	r := uint32(n)<<2 | 2
	if div {
		r |= 1
	}
	return r
}
func rkFloat(v float64, div bool) uint32 {
	r := uint32(math.Float64bits(v)>>32) &^ 3
	if div {
		r |= 1
	}
	return r
}
func rkValue(r uint32) (v float64, isInt bool) {
	if r&2 != 0 {
		v = float64(int32(r) >> 2)
		isInt = r&1 == 0
	} else {
		v = math.Float64frombits(uint64(r&^3) << 32)
	}
	if r&1 != 0 {
		v /= 100
	}
	return
}

var c02RKs = func() []uint32 {
	var l []uint32
	for _, n := range []int32{0, 1, -1, 2, 7, 61, 99, 100, 101, 150, -100, -101, -150, 12345, 43831, 4383100, 1000000, -1000000, 1<<29 - 1, -1 << 29} {
		l = append(l, rkInt(n, false), rkInt(n, true))
	}
	for _, v := range []float64{0, 1, -1, 0.5, 1.5, -2.25, 100, 12345.5, 1e10, -1e10, 1e100, 1e-100, 150, 43831, 4383100, 0.1} {
		l = append(l, rkFloat(v, false), rkFloat(v, true))
	}
	return l
}()

var c02Errs = []byte{0x00, 0x07, 0x0F, 0x17, 0x1D, 0x24, 0x2A, 0x2B}
var c02ErrText = []string{"#NULL!", "#DIV/0!", "#VALUE!", "#REF!", "#NAME?", "#NUM!", "#N/A", "#GETTING_DATA"}
var c02Text = []string{"text", "x", "Ünïcödé", "日本語", "a b  c", " lead", "trail ", "line\nbreak", "tab\there", "𝄞 clef", "'quoted\"", "=SUM(A1)"}

// c02Cell picks any record form and value for a cell and returns its records and reference.
func c02Cell(c *engine.Ctx, tag string, r, k int, nx int) ([]gen.Rec, want) {
	xf := 0
	if nx > 1 {
		xf = c.Pick(tag+"xf", nx)
	}
	fid := 0
	if xf < len(xlsXFs) {
		fid = xlsXFs[xf]
	}
	switch c.Pick(tag+"form", 9) {
	case 0:
		v := c02Floats[c.Pick(tag+"num", len(c02Floats))]
		return []gen.Rec{gen.Number(r, k, xf, v)}, numWant(v, false, fid)
	case 1:
		rk := c02RKs[c.Pick(tag+"rk", len(c02RKs))]
		v, isInt := rkValue(rk)
		return []gen.Rec{gen.RK(r, k, xf, rk)}, numWant(v, isInt, fid)
	case 2:
		v := c02Floats[c.Pick(tag+"fnum", len(c02Floats))]
		return []gen.Rec{gen.Formula(r, k, xf, gen.FNum(v))}, numWant(v, false, fid)
	case 3:
		b := c.Pick(tag+"bool", 2) == 1
		rec := gen.Bool(r, k, xf, b)
		if c.Pick(tag+"fbool", 2) == 1 {
			rec = gen.Formula(r, k, xf, gen.FBool(b))
		}
		w := want{typ: "boolean", val: b, str: "FALSE", fmts: xlsFmtCode[fid]}
		if b {
			w.str = "TRUE"
		}
		if fid == 49 {
			w.typ, w.val = "string", w.str
		} else if fid != 0 && fid != 164 {
			w.any = true // what a boolean is under a number format is left open
		}
		return []gen.Rec{rec}, w
	case 4:
		i := c.Pick(tag+"err", len(c02Errs))
		return []gen.Rec{gen.Err(r, k, xf, c02Errs[i])}, want{typ: "string", val: c02ErrText[i], str: c02ErrText[i]}
	case 5:
		i := c.Pick(tag+"ferr", len(c02Errs))
		return []gen.Rec{gen.Formula(r, k, xf, gen.FErr(c02Errs[i]))}, want{typ: "string", val: c02ErrText[i], str: c02ErrText[i]}
	case 6:
		i := c.Pick(tag+"sst", len(c02Text))
		return []gen.Rec{gen.LabelSst(r, k, xf, i)}, want{typ: "string", val: c02Text[i], str: c02Text[i], fmts: xlsFmtCode[fid]}
	case 7:
		i := c.Pick(tag+"fstr", len(c02Text))
		rs := []gen.Rec{gen.Formula(r, k, xf, gen.FStr())}
		if c.Pick(tag+"between", 2) == 1 {
			rs = append(rs, gen.Rec{T: gen.TShrFmla, D: make([]byte, 12)})
		}
		return append(rs, gen.Str(c02Text[i], false)), want{typ: "string", val: c02Text[i], str: c02Text[i], fmts: xlsFmtCode[fid]}
	}
	switch c.Pick(tag+"blank", 3) {
	case 0:
		return []gen.Rec{gen.Blank(r, k, xf)}, wBlank
	case 1:
		return []gen.Rec{gen.Formula(r, k, xf, gen.FBlank())}, wBlank
	}
	return []gen.Rec{gen.MulBlank(r, k, []int{xf})}, wBlank
}

func c02Single(c *engine.Ctx) {
	nx := len(xlsXFs) + 1 // one index beyond the table: no format
	r, k := [][2]int{{0, 0}, {1, 2}, {2, 1}}[c.Pick("pos", 3)][0], 0
	if r > 0 {
		k = 3 - r
	}
	recs, w := c02Cell(c, "", r, k, nx)
	g := blankGrid(3, 3)
	g[r][k] = w
	checkGrid(c, xlsOneSheet(c, append([]gen.Rec{gen.Dimensions(0, 3, 0, 3)}, recs...), c02Text), g)
	c.Outcome(w.typ)
}

// MulRk: every width, first column and mixture of neighbouring values
func c02MulRK(c *engine.Ctx) {
	n := 1 + c.Pick("n", 4)
	k := c.Pick("col", 3)
	r := c.Pick("row", 2)
	vals := []uint32{rkInt(7, false), rkInt(150, true), rkFloat(1.5, false), rkFloat(250, true), rkInt(-3, false)}
	var rks []uint32
	var xfs []int
	cols := 7
	g := blankGrid(2, cols)
	for i := 0; i < n; i++ {
		rk := vals[c.Pick("v", len(vals))]
		xf := c.Pick("xf", 3)
		rks = append(rks, rk)
		xfs = append(xfs, xf)
		v, isInt := rkValue(rk)
		g[r][k+i] = numWant(v, isInt, xlsXFs[xf])
	}
	g[1-r][1] = want{typ: "string", val: c02Text[0], str: c02Text[0]}
	recs := []gen.Rec{gen.Dimensions(0, 2, 0, cols), gen.LabelSst(1-r, 1, 0, 0), gen.MulRK(r, k, xfs, rks)}
	checkGrid(c, xlsOneSheet(c, recs, c02Text), g)
	c.Outcome(fmt.Sprint(n))
}

// c02RKRange: long multiple-RK records with every RK in ranges of consecutive values
func c02RKRange(c *engine.Ctx) {
	n := []int{256, 1, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255}[c.Pick("columns", 14)]
	enc := c.Pick("encoding", 4)
	rows := 16
	starts := []int64{0, -4096, 4096, 8192, 12288, 40000, 100000, 438310, 1e6, 1234567, 1e7, 1e8, 1<<29 - 4096, -1 << 29, -100000, -1e7}
	blocks := 3
	if n == 256 {
		blocks = len(starts)
	}
	start := starts[c.Pick("block", blocks)]
	mixed := c.Pick("mixed formats", 2) == 1
	if c.Thorough {
		start += 4096 * int64(c.Pick("further", 8))
	}
	g := blankGrid(rows, n)
	recs := []gen.Rec{gen.Dimensions(0, rows, 0, n)}
	for r := 0; r < rows; r++ {
		var rks []uint32
		xfs := make([]int, n)
		for k := 0; k < n; k++ {
			v := start + int64(r*n+k)
			if v >= 1<<29 {
				v -= 1 << 30
			}
			var rk uint32
			if enc < 2 {
				rk = rkInt(int32(v), enc == 1)
			} else {
				// the value itself, or what is left of it in the 30 bits
				rk = rkFloat(float64(v)/8, enc == 3)
			}
			rks = append(rks, rk)
			if mixed {
				xfs[k] = (k*k/5 + k/7 + r) % 3
			}
			f, isInt := rkValue(rk)
			g[r][k] = numWant(f, isInt, xlsXFs[xfs[k]])
		}
		recs = append(recs, gen.MulRK(r, 0, xfs, rks))
	}
	checkGrid(c, xlsOneSheet(c, recs, nil), g)
}

// c02Bits: numbers and numeric formula results with every pattern of sign,
// exponent and leading digits, 4096 to a sheet
func c02Bits(c *engine.Ctx) {
	block := c.Pick("block", 16)
	form := c.Pick("form", 2)
	low := []uint64{0, 1, 0xFFFF, 0x123456789ABC, 0xFFFFFFFFFFFF, 0xFF0000000001, 0x0000FF000000}[c.Pick("low", 7)]
	g := blankGrid(64, 64)
	recs := []gen.Rec{gen.Dimensions(0, 64, 0, 64)}
	for r := range g {
		for k := range g[r] {
			v := math.Float64frombits(uint64(block<<12+r<<6+k)<<48 | low)
			if math.IsNaN(v) || math.IsInf(v, 0) {
				continue
			}
			if form == 0 {
				recs = append(recs, gen.Number(r, k, 0, v))
			} else {
				recs = append(recs, gen.Formula(r, k, 0, gen.FNum(v)))
			}
			g[r][k] = numWant(v, false, 0)
		}
	}
	checkGrid(c, xlsOneSheet(c, recs, nil), g)
}

// c02RKAll: every integer an RK can hold, 65536 to a sheet
func c02RKAll(c *engine.Ctx) {
	block := c.Pick("block", 1<<14)
	div := c.Pick("divided", 2) == 1
	g := blankGrid(256, 256)
	recs := []gen.Rec{gen.Dimensions(0, 256, 0, 256)}
	xfs := make([]int, 256)
	for r := range g {
		rks := make([]uint32, 256)
		for k := range rks {
			rks[k] = uint32(block<<16+r<<8+k)<<2 | 2 | uint32(b2(div))
			f, isInt := rkValue(rks[k])
			g[r][k] = numWant(f, isInt, 0)
		}
		recs = append(recs, gen.MulRK(r, 0, xfs, rks))
	}
	checkGrid(c, xlsOneSheet(c, recs, nil), g)
}

// c02XFs: many cell formats and many format codes, used by cells of every form
func c02XFs(c *engine.Ctx) {
	n := []int{20, 255, 256, 257, 300, 1000, 4050}[c.Pick("formats", 7)]
	at := []int{0, 15, 16, 127, 128, 254, 255, 256, 257, 299, 511, 512, 999, 1023, 1024, 4048}[c.Pick("index", 16)]
	if at >= n {
		return
	}
	// only the format under test shows decimals
	fid, base := 2, 200
	switch c.Pick("custom", 4) {
	case 1:
		fid = base + at
	case 2:
		base = 32768 - at // the format under test is the 32768th
		fid = base + at
	case 3:
		base = 65536 - n // the last ones
		fid = base + at
	}
	x := &gen.XLS{}
	for i := 0; i < n && fid != 2; i++ {
		code := "0"
		if i == at {
			code = "0.00"
		}
		x.Pre = append(x.Pre, gen.Format(base+i, code, false))
	}
	for i := 0; i < n; i++ {
		f := 1
		if fid != 2 {
			f = base + i
		}
		if i == at {
			f = fid
		}
		x.Pre = append(x.Pre, gen.XF(f))
	}
	var rec gen.Rec
	switch c.Pick("form", 4) {
	case 0:
		rec = gen.Number(0, 0, at, 7)
	case 1:
		rec = gen.RK(0, 0, at, rkInt(700, true))
	case 2:
		rec = gen.MulRK(0, 0, []int{at}, []uint32{rkFloat(7, false)})
	case 3:
		rec = gen.Formula(0, 0, at, gen.FNum(7))
	}
	other := (at + n/2) % n
	x.Sheets = []gen.Sheet{{Name: "S", Recs: []gen.Rec{gen.Dimensions(0, 1, 0, 2), rec, gen.Number(0, 1, other, 7)}}}
	code, ocode := "0.00", "0"
	if fid != 2 {
		code, ocode = fmt.Sprint(fid), fmt.Sprint(base+other)
	}
	checkGrid(c, xlsSheet(c, x, "S"), [][]want{{{typ: "float", val: 7.0, str: "7.00", fmts: code}, {typ: "integer", val: int64(7), str: "7", fmts: ocode}}})
}

// c02Form is a short menu of cells for sequences
func c02Form(c *engine.Ctx, tag string, r, k, n int) ([]gen.Rec, want) {
	switch c.Pick(tag, n) {
	case 1:
		return []gen.Rec{gen.Number(r, k, 2, 2.5)}, numWant(2.5, false, 2)
	case 2:
		return []gen.Rec{gen.RK(r, k, 1, rkInt(42, false))}, numWant(42, true, 1)
	case 3:
		return []gen.Rec{gen.LabelSst(r, k, 0, 3)}, want{typ: "string", val: c02Text[3], str: c02Text[3]}
	case 4:
		return []gen.Rec{gen.Formula(r, k, 0, gen.FStr()), gen.Str("res", false)}, want{typ: "string", val: "res", str: "res"}
	case 5:
		return []gen.Rec{gen.Bool(r, k, 0, true)}, want{typ: "boolean", val: true, str: "TRUE"}
	case 6:
		return []gen.Rec{gen.Err(r, k, 2, 0x2A)}, want{typ: "string", val: "#N/A", str: "#N/A"}
	case 7:
		return []gen.Rec{gen.Formula(r, k, 3, gen.FNum(43831))}, numWant(43831, false, 14)
	case 8:
		return []gen.Rec{gen.Formula(r, k, 0, gen.FBool(false))}, want{typ: "boolean", val: false, str: "FALSE"}
	case 9:
		return []gen.Rec{gen.Formula(r, k, 0, gen.FErr(7))}, want{typ: "string", val: "#DIV/0!", str: "#DIV/0!"}
	case 10:
		return []gen.Rec{gen.MulRK(r, k, []int{0}, []uint32{rkInt(25, true)})}, numWant(0.25, false, 0)
	case 11:
		return []gen.Rec{gen.Formula(r, k, 0, gen.FBlank())}, wBlank
	}
	return []gen.Rec{gen.Blank(r, k, 0)}, wBlank
}

// c02Seq: every sequence of three cells in three orders and with declared, too small or missing dimensions
func c02Seq(c *engine.Ctx) {
	pos := [][3][2]int{{{0, 0}, {0, 1}, {1, 0}}, {{1, 2}, {0, 0}, {1, 1}}, {{2, 0}, {1, 2}, {0, 1}}}[c.Pick("pos", 3)]
	rows, cols := 3, 3
	dims := c.Pick("dims", 4)
	g := blankGrid(rows, cols)
	var recs []gen.Rec
	mr, mc := 0, 0
	n := 12
	for i := 0; i < 3; i++ {
		rs, w := c02Form(c, "cell", pos[i][0], pos[i][1], n)
		if i == 1 && dims == 3 {
			recs = append(recs, gen.Row(pos[i][0], 0, 3), gen.Rec{T: gen.TDBCell, D: make([]byte, 8)})
		}
		recs = append(recs, rs...)
		g[pos[i][0]][pos[i][1]] = w
		if w.typ != "blank" {
			mr, mc = max(mr, pos[i][0]+1), max(mc, pos[i][1]+1)
		}
	}
	switch dims {
	case 0, 3:
		recs = append([]gen.Rec{gen.Dimensions(0, 3, 0, 3)}, recs...)
	case 1: // declared too small: the cells still count
		recs = append([]gen.Rec{gen.Dimensions(0, 1, 0, 1)}, recs...)
		rows, cols = max(mr, 1), max(mc, 1)
	case 2: // not declared at all
		rows, cols = mr, mc
	}
	g = g[:rows]
	for r := range g {
		g[r] = g[r][:cols]
	}
	checkGrid(c, xlsOneSheet(c, recs, c02Text), g)
}

// far positions, up to the limits of the format
func c02Far(c *engine.Ctx) {
	rs := []int{0, 255, 256, 257, 4095, 65535}
	ks := []int{0, 1, 127, 128, 254, 255}
	r, k := rs[c.Pick("row", len(rs))], ks[c.Pick("col", len(ks))]
	if !c.Thorough && r > 1000 && k > 1 {
		k = 2
	}
	rec, w := c02Form(c, "cell", r, k, 12)
	if w.typ == "blank" {
		return
	}
	var recs []gen.Rec
	if c.Pick("dims", 2) == 0 {
		recs = append(recs, gen.Dimensions(0, r+1, 0, k+1))
	}
	recs = append(recs, rec...)
	g := blankGrid(r+1, k+1)
	g[r][k] = w
	checkGrid(c, xlsOneSheet(c, recs, c02Text), g)
}

func init() {
	engine.Register(&engine.Property{
		ID: "C02", Level: "model_checking",
		Rule: "single: every record form x value x cell format x position; mulrk: every multiple-RK up to four columns over a value alphabet; rks: multiple-RKs of 1 to 256 columns with every RK value of 16 ranges of 4096 in all four encodings, under one or several formats; bits: numbers and formula results with every value of their upper 16 bits x 7 patterns of the others; rkall (thorough): every one of the 2^30 integers, divided or not; xfs: tables of up to 4050 cell formats and format codes, with ids up to 65535; seq: every ordered triple of cells from 12 forms x placement x dimension declaration; far: cells at the grid limits. Oracle: the model cells (exact value by Scan, text, type, format code, sheet shape)",
		Assumptions: []string{"how a fraction is rounded or a boolean shown under a number format is left to C13 and C15",
			"a sheet's declared dimensions are its shape unless cells lie outside of them"},
		Harnesses: []engine.Harness{
			{Name: "single", Run: c02Single},
			{Name: "mulrk", Run: c02MulRK},
			{Name: "rks", Run: c02RKRange},
			{Name: "bits", Run: c02Bits},
			{Name: "xfs", Run: c02XFs},
			{Name: "seq", Run: c02Seq},
			{Name: "rkall", Run: c02RKAll, Only: "thorough"},
			{Name: "far", Run: c02Far},
		},
	})
}

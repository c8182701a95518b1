package props

import (
	"fmt"
	"strings"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/xls"

	"verif/mc/engine"
	"verif/mc/gen"
)

// an embedded substream (a chart on the sheet) with cells of its own, which belong to its data cache
func c10Embedded(depth int) []gen.Rec {
	rs := []gen.Rec{gen.BOF(0x20), gen.Dimensions(0, 9, 0, 9), gen.Number(0, 0, 0, 777), gen.RK(1, 1, 0, rkInt(778, false)), gen.LabelSst(2, 2, 0, 0)}
	if depth > 1 {
		rs = append(rs, c10Embedded(depth-1)...)
		rs = append(rs, gen.Number(2, 0, 0, 779), gen.Dimensions(0, 8, 0, 8), gen.WsBool(true))
	}
	return append(rs, gen.EOF())
}

// c10Sheet is the content of sheet number i, recognisable by its values
func c10Sheet(c *engine.Ctx, i int, embed bool) ([]gen.Rec, [][]want) {
	text := fmt.Sprintf("sheet%d", i)
	parts := [][]gen.Rec{
		{gen.RK(0, 0, 0, rkInt(int32(100+i), false))},
		{gen.LabelSst(1, 1, 0, i)},
		{gen.Number(1, 0, 2, float64(i)+0.5)},
		{},
	}
	recs := []gen.Rec{gen.WsBool(false), gen.Dimensions(0, 2, 0, 2)}
	if c.Bool("sync") {
		recs[0] = gen.Rec{T: gen.TWsBool, D: []byte{0xC1, 0x34}} // synchronized scrolling
	}
	if c.Bool("flags") {
		recs[0] = gen.Rec{T: gen.TWsBool, D: []byte{0xEF, 0xFF}} // every flag but that of dialog sheets
	}
	if embed && c.Bool("embedFirst") {
		recs = append(c10Embedded(1), recs...)
	}
	for _, p := range parts {
		if embed {
			switch c.Dev("embed", 4) {
			case 1:
				recs = append(recs, c10Embedded(1)...)
			case 2:
				recs = append(recs, c10Embedded(2)...)
			case 3:
				recs = append(recs, c10Embedded(1)...)
				recs = append(recs, c10Embedded(3)...)
			}
		}
		recs = append(recs, p...)
	}
	return recs, [][]want{
		{{typ: "integer", val: int64(100 + i), str: fmt.Sprint(100 + i)}, wBlank},
		{{typ: "float", val: float64(i) + 0.5, str: fmt.Sprintf("%d.50", i)}, {typ: "string", val: text, str: text}},
	}
}

type c10Expect struct {
	name  string
	state byte
	grid  [][]want // nil: not checked
}

func c10Check(c *engine.Ctx, x *gen.XLS, exp []c10Expect) {
	src := xlsOpen(c, x)
	wb := src.(*xls.WorkBook)
	var vis, hid []string
	for _, e := range exp {
		if e.state&3 == 0 {
			vis = append(vis, e.name)
		} else {
			hid = append(hid, e.name)
		}
	}
	l, err := src.List()
	if err != nil || join(l) != join(vis) || len(l) != len(vis) {
		c.Failf("List = %q, %v; want %q", l, err, vis)
	}
	l, err = wb.ListHidden()
	if err != nil || join(l) != join(hid) || len(l) != len(hid) {
		c.Failf("ListHidden = %q, %v; want %q", l, err, hid)
	}
	for k := range exp {
		e := exp[len(exp)-1-k]
		var col grate.Collection
		c.Guard("Get "+e.name, func() { col, err = src.Get(e.name) })
		if err != nil {
			c.Failf("Get(%q): %v", e.name, err)
		}
		if e.grid == nil {
			c.Guard("read "+e.name, func() { readAll(col) })
			continue
		}
		checkGrid(c, col, e.grid)
	}
	for _, n := range []string{"", "no such sheet", exp[0].name + "x", exp[0].name[:len(exp[0].name)-1], strings.ToUpper(exp[0].name) + "Z",
		strings.ToUpper(exp[0].name), strings.ToLower(exp[0].name), " " + exp[0].name, exp[0].name + " ", strings.TrimSpace(exp[0].name), exp[0].name + "\x00"} {
		found := false
		for _, e := range exp {
			found = found || e.name == n
		}
		if found {
			continue
		}
		c.Guard("Get unknown", func() { _, err = src.Get(n) })
		if err == nil {
			c.Failf("Get(%q) of an unknown sheet succeeds", n)
		}
	}
	c.Guard("Close", func() { err = src.Close() })
	if err != nil {
		c.Failf("Close: %v", err)
	}
}

// every directory x visibility x stream order
func c10Dir(c *engine.Ctx) {
	max := 3
	if c.Thorough {
		max = 4
	}
	n := 1 + c.Pick("n", max)
	states := []byte{0, 1, 2}
	if n < 3 {
		states = []byte{0, 1, 2, 4, 0xFD, 0xFE} // the reserved bits are to be ignored
	}
	x := &gen.XLS{Pre: xlsPre(), Post: gen.SST([]string{"sheet0", "sheet1", "sheet2", "sheet3"})}
	x.SSTFirst = c.Pick("sstFirst", 2) == 1
	var exp []c10Expect
	for i := 0; i < n; i++ {
		st := states[c.Pick("state", len(states))]
		recs, g := c10Sheet(c, i, false)
		name := fmt.Sprintf("Sheet %d", i+1)
		x.Sheets = append(x.Sheets, gen.Sheet{Name: name, State: st, Recs: recs})
		exp = append(exp, c10Expect{name, st, g})
	}
	if n > 1 {
		x.Order = pickPerm(c, "order", n)
		x.DirOrder = pickPerm(c, "dir", n)
		e2 := make([]c10Expect, n)
		for i, k := range x.DirOrder {
			e2[i] = exp[k]
		}
		exp = e2
	}
	c10Check(c, x, exp)
	c.Outcome(fmt.Sprint(n))
}

// sheets of every kind, foreign substreams between them and charts inside
func c10Kinds(c *engine.Ctx) {
	x := &gen.XLS{Pre: xlsPre(), Post: gen.SST([]string{"sheet0", "sheet1", "sheet2"})}
	var exp []c10Expect
	for i := 0; i < 2; i++ {
		name := fmt.Sprintf("K%d", i)
		switch c.Dev("kind", 6) {
		case 0:
			recs, g := c10Sheet(c, i, true)
			x.Sheets = append(x.Sheets, gen.Sheet{Name: name, Recs: recs})
			exp = append(exp, c10Expect{name, 0, g})
		case 1: // a chart sheet; its cells are the chart's data cache
			x.Sheets = append(x.Sheets, gen.Sheet{Name: name, Type: 2, Doc: 0x20, Recs: []gen.Rec{gen.Dimensions(0, 1, 0, 1), gen.Number(0, 0, 0, 5)}})
			exp = append(exp, c10Expect{name, 0, nil})
		case 2: // a macro sheet is a grid like any other
			recs, g := c10Sheet(c, i, false)
			x.Sheets = append(x.Sheets, gen.Sheet{Name: name, Type: 1, Doc: 0x40, Recs: recs})
			exp = append(exp, c10Expect{name, 0, g})
		case 3: // a dialog sheet
			x.Sheets = append(x.Sheets, gen.Sheet{Name: name, Recs: []gen.Rec{gen.WsBool(true), gen.Dimensions(0, 0, 0, 0)}})
			exp = append(exp, c10Expect{name, 0, nil})
		case 4: // empty
			x.Sheets = append(x.Sheets, gen.Sheet{Name: name, Recs: nil})
			exp = append(exp, c10Expect{name, 0, nil})
		case 5: // records of unknown kinds around the cells
			recs, g := c10Sheet(c, i, false)
			recs = append([]gen.Rec{{T: 0x0867, D: make([]byte, 23)}, {T: 0x00EC, D: []byte{0x0A, 0, 0, 0}}, {T: gen.TContinue, D: []byte{1, 2, 3}}}, recs...)
			recs = append(recs, gen.Rec{T: 0x023E, D: make([]byte, 18)})
			x.Sheets = append(x.Sheets, gen.Sheet{Name: name, Recs: recs})
			exp = append(exp, c10Expect{name, 0, g})
		}
	}
	// a last plain sheet
	recs, g := c10Sheet(c, 2, false)
	x.Sheets = append(x.Sheets, gen.Sheet{Name: "last", Recs: recs})
	exp = append(exp, c10Expect{"last", 0, g})
	// foreign substreams between the sheets
	for k := 0; k < 4; k++ {
		if k > 0 {
			x.Order = append(x.Order, k-1)
		}
		switch c.Dev("foreign", 3) {
		case 1:
			x.Order = append(x.Order, 3+len(x.Extra))
			x.Extra = append(x.Extra, c10Embedded(1))
		case 2:
			x.Order = append(x.Order, 3+len(x.Extra))
			x.Extra = append(x.Extra, c10Embedded(2))
		}
	}
	c10Check(c, x, exp)
}

// large directories, and names of every length
func c10Names(c *engine.Ctx) {
	n := []int{1, 2, 40, 255}[c.Pick("n", 4)]
	base := []string{"s", "Ünï ", "日本", "a'b\"c", "x.y!z", "𝄞"}[c.Pick("base", 6)]
	hide := c.Pick("hide", 3)
	x := &gen.XLS{Pre: xlsPre(), Post: gen.SST([]string{"z"})}
	var exp []c10Expect
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("%s%d", base, i)
		var st byte
		if hide > 0 && i%hide == hide-1 {
			st = byte(1 + i%2)
		}
		v := int32(i * 3)
		x.Sheets = append(x.Sheets, gen.Sheet{Name: name, State: st, Recs: []gen.Rec{gen.Dimensions(0, 1, 0, 1), gen.RK(0, 0, 0, rkInt(v, false))}})
		exp = append(exp, c10Expect{name, st, [][]want{{{typ: "integer", val: int64(v), str: fmt.Sprint(v)}}}})
	}
	if c.Pick("reverse", 2) == 1 {
		x.Order = reversePerm(make([]string, n))
	}
	c10Check(c, x, exp)
}

// sheets far into the stream: large sheets and other substreams in front of them
func c10Far(c *engine.Ctx) {
	size := []int{1 << 16, 1 << 20, 5 << 20, 17 << 20, 40 << 20}[c.Pick("size", 5)]
	at := c.Pick("at", 3)
	in := c.Pick("in", 3)
	if !c.Thorough && size > 6<<20 && (at != 1 || in == 2) {
		return
	}
	filler := gen.Rec{T: 0x00EC, D: make([]byte, 8000)} // drawings, which hold no cells
	x := &gen.XLS{Pre: xlsPre(), Post: gen.SST([]string{"sheet0", "sheet1", "sheet2"})}
	var exp []c10Expect
	for i := 0; i < 3; i++ {
		recs, g := c10Sheet(c, i, false)
		if i == at && in < 2 {
			var front []gen.Rec
			for n := 0; n < size; n += len(filler.D) + 4 {
				if in == 0 { // behind the cells, or in front of them
					recs = append(recs, filler)
				} else {
					front = append(front, filler)
				}
			}
			recs = append(recs[:2:2], append(front, recs[2:]...)...)
		}
		name := fmt.Sprintf("F%d", i)
		x.Sheets = append(x.Sheets, gen.Sheet{Name: name, Recs: recs})
		exp = append(exp, c10Expect{name, 0, g})
	}
	if in == 2 {
		e := []gen.Rec{gen.BOF(0x20)}
		for n := 0; n < size; n += len(filler.D) + 4 {
			e = append(e, filler)
		}
		x.Extra = [][]gen.Rec{append(e, gen.EOF())}
		for i := 0; i < 3; i++ {
			if i == at {
				x.Order = append(x.Order, 3)
			}
			x.Order = append(x.Order, i)
		}
	}
	c10Check(c, x, exp)
}

// a workbook with embedded workbooks, in storages before or behind its own stream
func c10Documents(c *engine.Ctx) {
	n := 1 + c.Pick("sheets", 2)
	x := &gen.XLS{Pre: xlsPre(), Post: gen.SST([]string{"sheet0", "sheet1"})}
	var exp []c10Expect
	for i := 0; i < n; i++ {
		recs, g := c10Sheet(c, i, true)
		name := fmt.Sprintf("Own %d", i)
		x.Sheets = append(x.Sheets, gen.Sheet{Name: name, Recs: recs})
		exp = append(exp, c10Expect{name, 0, g})
	}
	if c.Pick("large", 2) == 1 {
		x.Post = append(x.Post, gen.Rec{T: 0xE9, D: make([]byte, 5000)})
	}
	y := &gen.XLS{Pre: xlsPre(), Post: gen.SST([]string{"embedded"})}
	y.Sheets = []gen.Sheet{{Name: "Embedded", Recs: []gen.Rec{gen.Dimensions(0, 1, 0, 1), gen.LabelSst(0, 0, 0, 0)}}}
	if c.Pick("large embedded", 2) == 1 {
		y.Post = append(y.Post, gen.Rec{T: 0xE9, D: make([]byte, 5000)})
	}
	k := c.Pick("kind", c07EmbeddedKinds)
	version := 3 + c.Pick("version", 2)
	x.Wrap = func(s []byte) []byte {
		f := &gen.CFB{Version: version, Streams: c07Embedded(k, s, y.Stream())}
		f.DirOrder = pickPerm(c, "slot", len(f.Streams))
		return f.Bytes()
	}
	c10Check(c, x, exp)
	c.Outcome(fmt.Sprintf("kind %d", k))
}

func init() {
	engine.Register(&engine.Property{
		ID: "C10", Level: "model_checking",
		Rule:        "dir: every directory of 1-3 (thorough 4) sheets x visibility state of each x order of substreams x order of directory entries x string table before/after; kinds: every sheet kind, embedded (nested) chart substream position and foreign substream position up to 3 (thorough 5) departures; names: directories up to 255 sheets; far: 64 KB to 40 MB of other records in front of, within or between sheets; documents: workbooks with embedded workbooks in storages x every order of the directory. Oracle: the model workbook",
		Assumptions: []string{"sheet names are unique; what a chart sheet shows is not specified"},
		Harnesses: []engine.Harness{
			{Name: "dir", Run: c10Dir, Quick: 1, Thorough: 1},
			{Name: "kinds", Run: c10Kinds, Quick: 4, Thorough: 5},
			{Name: "names", Run: c10Names},
			{Name: "far", Run: c10Far},
			{Name: "documents", Run: c10Documents},
		},
	})
}

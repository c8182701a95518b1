package props

import (
	"fmt"
	"strings"

	"verif/mc/engine"
	"verif/mc/gen"
)

var stdLink = []byte{0xD0, 0xC9, 0xEA, 0x79, 0xF9, 0xBA, 0xCE, 0x11, 0x8C, 0x82, 0x00, 0xAA, 0x00, 0x4B, 0xA9, 0x0B}
var urlMoniker = []byte{0xE0, 0xC9, 0xEA, 0x79, 0xF9, 0xBA, 0xCE, 0x11, 0x8C, 0x82, 0x00, 0xAA, 0x00, 0x4B, 0xA9, 0x0B}
var fileMoniker = []byte{0x03, 0x03, 0, 0, 0, 0, 0, 0, 0xC0, 0, 0, 0, 0, 0, 0, 0x46}
var otherMoniker = []byte{0x09, 0x03, 0, 0, 0, 0, 0, 0, 0xC0, 0, 0, 0, 0, 0, 0, 0x46}

func hlString(w *gen.W, s string) {
	u := append(gen.U16s(strings.TrimSuffix(s, "\x00")), 0) // "\x00" is an empty text
	w.U32(uint32(len(u))).Raw(gen.Chars(u, true))
}

// hlLink is a hyperlink object and the target it shows; ok is false if the kind of target is not known.
type hlLink struct {
	display, frame, loc, target string
	moniker                     int // 0 none, 1 url, 2 url with serial data, 3 file (ansi), 4 file (unicode), 5 string, 6 unknown
	guid, time                  bool
	up                          int // directories above the file
}

func (h *hlLink) bytes() []byte {
	w := &gen.W{}
	w.Raw(stdLink).U32(2)
	var fl uint32
	if h.moniker > 0 {
		fl |= 1 | 2
		if h.up > 0 {
			fl &^= 2 // a relative path
		}
	}
	if h.loc != "" {
		fl |= 8
	}
	if h.display != "" {
		fl |= 0x14
	}
	if h.guid {
		fl |= 0x20
	}
	if h.time {
		fl |= 0x40
	}
	if h.frame != "" {
		fl |= 0x80
	}
	if h.moniker == 5 {
		fl |= 0x100
	}
	w.U32(fl)
	if h.display != "" {
		hlString(w, h.display)
	}
	if h.frame != "" {
		hlString(w, h.frame)
	}
	u := append(gen.U16s(h.target), 0)
	switch h.moniker {
	case 1:
		w.Raw(urlMoniker).U32(uint32(2 * len(u))).Raw(gen.Chars(u, true))
	case 2:
		w.Raw(urlMoniker).U32(uint32(2*len(u) + 24)).Raw(gen.Chars(u, true))
		w.Raw([]byte{0xF4, 0x81, 0x58, 0x79, 0x3B, 0x1D, 0x7F, 0x48, 0xAF, 0x2C, 0x82, 0x5D, 0xC4, 0x85, 0x27, 0x63}).U32(0, 0xAB)
	case 3, 4:
		ansi := append([]byte(h.target), 0)
		if h.moniker == 4 {
			ansi = append([]byte("SHORT~1.XLS"), 0)
		}
		w.Raw(fileMoniker).U16(h.up).U32(uint32(len(ansi))).Raw(ansi)
		w.U16(0xFFFF, 0xDEAD).Raw(make([]byte, 20))
		if h.moniker == 3 {
			w.U32(0)
		} else {
			p := gen.Chars(gen.U16s(h.target), true)
			w.U32(uint32(6+len(p)), uint32(len(p))).U16(3).Raw(p)
		}
	case 5:
		hlString(w, h.target)
	case 6:
		w.Raw(otherMoniker).U32(1, 2, 3, 4)
	}
	if h.loc != "" {
		hlString(w, h.loc)
	}
	if h.guid {
		w.Raw(make([]byte, 16))
	}
	if h.time {
		w.U32(1, 2)
	}
	return w.Bytes()
}

func (h *hlLink) text() string {
	t := strings.Repeat("..\\", h.up) + h.target
	switch {
	case h.moniker == 0:
		return h.loc
	case h.loc != "":
		return t + "#" + h.loc
	}
	return t
}

func hlRec(a rect, h *hlLink) gen.Rec {
	w := &gen.W{}
	w.U16(a.r1, a.r2, a.c1, a.c2).Raw(h.bytes())
	return gen.Rec{T: gen.THLink, D: w.Bytes()}
}

// c12Base is a grid with a value of its own in every other cell
func c12Base(rows, cols, fill int) ([]gen.Rec, [][]want) {
	g := blankGrid(rows, cols)
	var recs []gen.Rec
	for r := 0; r < rows; r++ {
		for k := 0; k < cols; k++ {
			n := 10*r + k
			switch (n + fill) % 3 {
			case 0:
				recs = append(recs, gen.Number(r, k, 2, float64(n)+0.25))
				g[r][k] = want{typ: "float", val: float64(n) + 0.25, str: fmt.Sprintf("%.2f", float64(n)+0.25)}
			case 1:
				recs = append(recs, gen.LabelSst(r, k, 0, 0))
				g[r][k] = want{typ: "string", val: "cell text", str: "cell text"}
			}
		}
	}
	return recs, g
}

func c12Apply(g [][]want, a rect, h *hlLink) {
	for r := range g {
		for k := range g[r] {
			if m, in := a.mark(r, k); in {
				g[r][k] = want{str: m}
			}
		}
	}
	d := h.display
	if d == "" {
		d = g[a.r1][a.c1].str
	}
	g[a.r1][a.c1] = want{str: d + " <" + h.text() + ">"}
}

var c12Targets = []string{"http://a.b/", "https://example.com/path?q=1&r=%20two#x", "f.xls", "mailto:someone@example.com?subject=hello", "a-target-of-13", "日本"}

func c12Object(c *engine.Ctx) *hlLink {
	h := &hlLink{moniker: c.Pick("moniker", 7)}
	h.display = []string{"Shown", "", "Ünï 日本 𝄞", "x"}[c.Pick("display", 4)]
	if c.Pick("loc", 2) == 1 || h.moniker == 0 {
		h.loc = []string{"Sheet2!A1:B2", "section"}[c.Pick("locText", 2)]
	}
	if h.moniker > 0 {
		n := len(c12Targets)
		if h.moniker == 3 {
			n-- // a file moniker's ANSI path holds ANSI text only
		}
		h.target = c12Targets[c.Pick("target", n)]
	}
	if h.moniker == 3 || h.moniker == 4 {
		h.up = []int{0, 1, 2, 17}[c.Pick("up", 4)]
	}
	h.frame = []string{"", "_blank", "a", "日本", "\x00"}[c.Pick("frame", 5)]
	h.guid, h.time = c.Pick("guid", 2) == 1, c.Pick("time", 2) == 1
	return h
}

func c12XLSObject(c *engine.Ctx) {
	h := c12Object(c)
	recs, g := c12Base(2, 3, c.Pick("fill", 3))
	a := rect{1, 1, 1, 1}
	switch c.Dev("range", 3) {
	case 1:
		a = rect{0, 1, 0, 2}
	case 2:
		a = rect{0, 0, 1, 2}
	}
	recs = append(recs, hlRec(a, h))
	if h.moniker != 6 { // nothing is known about the target of an unknown moniker
		c12Apply(g, a, h)
	}
	checkGrid(c, xlsOneSheet(c, append([]gen.Rec{gen.Dimensions(0, 2, 0, 3)}, recs...), []string{"cell text"}), g)
	c.Outcome(fmt.Sprint(h.moniker))
}

// every range, alone or with a second link elsewhere
func c12XLSRange(c *engine.Ctx) {
	rows, cols := 3, 3
	if c.Thorough {
		rows, cols = 4, 4
	}
	l := append(rects(rows, cols), rect{0, 0, 0, 0}, rect{1, 1, 1, 1}, rect{2, 2, 2, 2}, rect{0, 0, 2, 2})
	a := l[c.Pick("a", len(l))]
	fill := c.Pick("fill", 3)
	dims, openR, openC := c.Pick("dims", 2), c.Pick("open row", 3), c.Pick("open column", 3)
	recs, g := c12Base(rows, cols, fill)
	if dims == 1 {
		// the extent of the sheet is then that of its cells
		recs = append(recs, gen.LabelSst(rows-1, cols-1, 0, 0))
		g[rows-1][cols-1] = want{typ: "string", val: "cell text", str: "cell text"}
	} else {
		recs = append([]gen.Rec{gen.Dimensions(0, rows, 0, cols)}, recs...)
	}
	h := &hlLink{display: "Link", moniker: 1, target: "http://a/"}
	st := a
	if openR != 0 {
		if a.r2 != rows-1 {
			return
		}
		st.r2 = []int{0xFFFF, rows + 1}[openR-1] // to the last row, whether it says so or is beyond
	}
	if openC != 0 {
		if a.c2 != cols-1 {
			return
		}
		st.c2 = []int{0xFF, cols}[openC-1]
	}
	recs = append(recs, hlRec(st, h))
	c12Apply(g, a, h)
	if k := c.Pick("second", len(l)+1); k > 0 {
		b := l[k-1]
		if a.meets(b) {
			return
		}
		h2 := &hlLink{moniker: 5, target: "second.xls", loc: "S!A1"}
		recs = append(recs, hlRec(b, h2))
		c12Apply(g, b, h2)
	}
	checkGrid(c, xlsOneSheet(c, recs, []string{"cell text"}), g)
}

// c12XLSX: links of a small sheet
func c12XLSX(c *engine.Ctx) {
	rows, cols := 3, 3
	dims := c.Pick("dims", 2)
	fill := c.Pick("fill", 3)
	g := blankGrid(rows, cols)
	s := gen.XSheet{Name: "S"}
	if dims == 0 {
		s.Dim = "A1:C3"
	}
	for r := 0; r < rows; r++ {
		var cells []string
		for k := 0; k < cols; k++ {
			n := 10*r + k
			switch {
			case (n+fill)%3 == 0 || dims == 1 && n == 22:
				cells = append(cells, gen.C(r, k, "", 2, gen.V(fmt.Sprint(n)+".25")))
				g[r][k] = want{typ: "float", val: float64(n) + 0.25, str: fmt.Sprintf("%.2f", float64(n)+0.25)}
			case (n+fill)%3 == 1:
				cells = append(cells, gen.C(r, k, "s", 0, gen.V("0")))
				g[r][k] = want{typ: "string", val: "cell text", str: "cell text"}
			}
		}
		s.Rows += gen.RowX(r, cells...)
	}
	nl := 1 + c.Pick("links", 2)
	if c.Thorough {
		nl = 1 + c.Pick("links3", 3)
	}
	links := ""
	pos := [][2]int{{0, 0}, {0, 2}, {1, 1}, {2, 0}, {2, 2}}
	used := map[int]bool{}
	rels := []gen.XRel{{ID: "rId9", Type: gen.RelDraw, Target: "../drawings/drawing1.xml"}, {ID: "rId8", Type: gen.RelDraw, Target: "http://wrong/", External: true}}
	for i := 0; i < nl; i++ {
		p := c.Pick("pos", len(pos))
		if used[p] {
			return
		}
		used[p] = true
		r, k := pos[p][0], pos[p][1]
		id := fmt.Sprintf("rId%d", []int{1, 3, 2}[i])
		target := c12Targets[c.Dev("target", len(c12Targets))]
		attrs := []string{"", ` display="not the text" tooltip="tip"`, ` xr:uid="{00000000-0004-0000-0000-000000000000}"`}[c.Dev("attrs", 3)]
		ref := gen.Ref(r, k)
		switch c.Dev("ref", 3) {
		case 1:
			ref = ref + ":" + ref
		case 2: // a range: the link is shown in its first cell
			if r == 2 || k == 2 {
				return
			}
			ref = ref + ":" + gen.Ref(r+1, k+1)
		}
		switch c.Pick("kind", 4) {
		case 3: // to a place in an external document
			if strings.Contains(target, "#") {
				return
			}
			loc := []string{"section", "'Sheet 2'!A1:B2"}[c.Dev("location", 2)]
			rels = append(rels, gen.XRel{ID: id, Type: gen.RelLink, Target: target, External: true})
			links += fmt.Sprintf(`<hyperlink ref="%s" r:id="%s" location="%s"%s/>`, ref, id, loc, attrs)
			g[r][k] = want{typ: "hyperlink", str: target + "#" + loc}
		case 0:
			rels = append(rels, gen.XRel{ID: id, Type: gen.RelLink, Target: target, External: true})
			links += fmt.Sprintf(`<hyperlink ref="%s" r:id="%s"%s/>`, ref, id, attrs)
			g[r][k] = want{typ: "hyperlink", str: target}
		case 1: // to a place in the workbook
			links += fmt.Sprintf(`<hyperlink ref="%s" location="S!A1"%s/>`, ref, attrs)
		case 2: // the same target as the first link
			if len(rels) < 3 {
				return
			}
			links += fmt.Sprintf(`<hyperlink%s r:id="%s" ref="%s"></hyperlink>`, attrs, rels[2].ID, ref)
			g[r][k] = want{typ: "hyperlink", str: rels[2].Target}
		}
	}
	if c.Bool("relOrder") {
		for i, j := 0, len(rels)-1; i < j; i, j = i+1, j-1 {
			rels[i], rels[j] = rels[j], rels[i]
		}
	}
	s.Rels = rels
	s.Tail = `<conditionalFormatting sqref="A1"><cfRule type="expression" priority="1"><formula>A1</formula></cfRule></conditionalFormatting><hyperlinks>` + links + `</hyperlinks><pageMargins left="1"/>`
	switch c.Dev("path", 3) {
	case 1:
		s.Path = "sheets/first/s.xml"
	case 2:
		s.Path = "s.xml"
	}
	// another sheet's links have the same ids
	s2 := gen.XSheet{Name: "other", Rows: gen.RowX(0, gen.C(0, 0, "", -1, gen.V("1"))), Tail: `<hyperlinks><hyperlink ref="A1" r:id="rId1"/></hyperlinks>`,
		Rels: []gen.XRel{{ID: "rId1", Type: gen.RelLink, Target: "http://other/", External: true}}}
	x := &gen.XLSX{Sheets: []gen.XSheet{s, s2}, XFs: xlsxXFs(), NumFmts: xlsxNumFmts, SST: []string{gen.T("cell text")}}
	if c.Bool("order") {
		x.DirOrder = []int{1, 0}
	}
	src, col := xlsxGet(c, x, "S")
	defer src.Close()
	checkGrid(c, col, g)
	col, err := src.Get("other")
	if err != nil {
		c.Failf("Get(other): %v", err)
	}
	checkGrid(c, col, [][]want{{{typ: "hyperlink", str: "http://other/"}}})
	if c.Bool("again") {
		col, err = src.Get("S")
		if err != nil {
			c.Failf("Get(S): %v", err)
		}
		checkGrid(c, col, g)
	}
}

func c12Text(n, kind int) string {
	s := []string{"http://a.b/", "日本é", "a ", " a", "?q=a&b#c%20\\;~+'\"<>{}|^`$!*(,)[]"}[kind]
	r := []rune(strings.Repeat(s, n/len([]rune(s))+1))
	if r[0] == ' ' {
		r[0] = 'b' // blanks within, not around
	}
	if r[n-1] == ' ' {
		r[n-1] = 'c'
	}
	return string(r[:n])
}

// c12Lengths: fields of every length
func c12Lengths(c *engine.Ctx) {
	lens := []int{1, 2, 11, 12, 13, 14, 15, 16, 31, 32, 127, 128, 254, 255, 256, 257, 1000, 2083}
	n := lens[c.Pick("len", len(lens))]
	t := c12Text(n, c.Pick("chars", 5))
	if c.Pick("format", 2) == 1 {
		name := "http://x/" + t
		x := &gen.XLSX{SST: []string{gen.T("cell text")}, Sheets: []gen.XSheet{{Name: "S", Rows: gen.RowX(0, gen.C(0, 0, "s", -1, gen.V("0"))),
			Tail: `<hyperlinks><hyperlink ref="A1" r:id="rId1"/></hyperlinks>`,
			Rels: []gen.XRel{{ID: "rId1", Type: gen.RelLink, Target: name, External: true}}}}}
		xlsxCheck(c, x, [][]want{{{typ: "hyperlink", str: name}}})
		return
	}
	h := &hlLink{display: "d", moniker: 1 + c.Pick("moniker", 5), target: "http://t/"}
	switch c.Pick("field", 4) {
	case 0:
		h.target = t
		if h.moniker == 3 && strings.Contains(t, "日") {
			return // an ANSI path
		}
	case 1:
		h.display = t
	case 2:
		h.loc = t
	case 3:
		h.frame = t
	}
	a := rect{0, 0, 0, 0}
	recs, g := c12Base(1, 2, 0)
	recs = append(recs, hlRec(a, h))
	c12Apply(g, a, h)
	checkGrid(c, xlsOneSheet(c, append([]gen.Rec{gen.Dimensions(0, 1, 0, 2)}, recs...), []string{"cell text"}), g)
}

// c12Many: sheets of many links
func c12Many(c *engine.Ctx) {
	n := []int{2, 10, 100, 255, 256, 257, 1000, 1025, 5000}[c.Pick("links", 9)]
	same := c.Pick("same target", 2) == 1
	target := func(i int) string {
		if same {
			i = 7
		}
		return fmt.Sprintf("http://host/%d", i)
	}
	var g [][]want
	if c.Pick("format", 2) == 0 {
		recs := []gen.Rec{gen.Dimensions(0, n, 0, 2)}
		for i := 0; i < n; i++ {
			recs = append(recs, gen.LabelSst(i, 0, 0, 0), gen.RK(i, 1, 0, rkInt(int32(i), false)))
			g = append(g, []want{{str: "shown <" + target(i) + ">"}, {typ: "integer", val: int64(i), str: fmt.Sprint(i)}})
		}
		for i := 0; i < n; i++ {
			recs = append(recs, hlRec(rect{i, i, 0, 0}, &hlLink{display: "shown", moniker: 1, target: target(i)}))
		}
		checkGrid(c, xlsOneSheet(c, recs, []string{"cell text"}), g)
		return
	}
	s := gen.XSheet{Name: "S"}
	ids := c.Pick("ids", 3)
	for i := 0; i < n; i++ {
		s.Rows += gen.RowX(i, gen.C(i, 0, "s", -1, gen.V("0")), gen.C(i, 1, "", -1, gen.V(fmt.Sprint(i))))
		id := fmt.Sprintf("rId%d", n-i)
		switch ids {
		case 1: // which differ in case only
			id = []string{"rId", "RID", "rid", "Rid"}[i%4] + fmt.Sprint(i/4)
		case 2: // as other programs write them
			id = fmt.Sprintf("R%08x-%04x.é_", i*2654435761&0xFFFFFFFF, i)
		}
		s.Tail += fmt.Sprintf(`<hyperlink ref="%s" r:id="%s"/>`, gen.Ref(i, 0), id)
		s.Rels = append(s.Rels, gen.XRel{ID: id, Type: gen.RelLink, Target: target(i), External: true})
		g = append(g, []want{{typ: "hyperlink", str: target(i)}, {typ: "float", val: float64(i), str: fmt.Sprint(i)}})
	}
	s.Tail = "<hyperlinks>" + s.Tail + "</hyperlinks>"
	xlsxCheck(c, &gen.XLSX{SST: []string{gen.T("cell text")}, Sheets: []gen.XSheet{s}}, g)
}

func init() {
	engine.Register(&engine.Property{
		ID: "C12", Level: "model_checking",
		Rule:        "xls-object: every combination of display name, frame, moniker kind, target, location, guid and time fields x cell content; xls-range: every range of a 3x3 (thorough 4x4) grid x open ends x declared or missing dimensions x a second link; xlsx: every placement of up to 2 (3) links of every kind x cell contents, with up to 2 departures in targets, attributes, relationship order and part names; lengths: every field with texts of up to 2083 characters; many: sheets of up to 5000 links. Oracle: the model grid",
		Assumptions: []string{"ranges of different links do not overlap and begin inside the sheet", "an unknown moniker leaves its cell as it is", "an xlsx link of a range is shown in its first cell"},
		Harnesses: []engine.Harness{
			{Name: "xls-object", Run: c12XLSObject, Quick: 1, Thorough: 1},
			{Name: "xls-range", Run: c12XLSRange},
			{Name: "xlsx", Run: c12XLSX, Quick: 2, Thorough: 2},
			{Name: "lengths", Run: c12Lengths},
			{Name: "many", Run: c12Many},
		},
	})
}

package props

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf16"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/xlsx"

	"verif/mc/engine"
	"verif/mc/gen"
)

func xlsxXFs() []string {
	var l []string
	for _, f := range xlsXFs {
		l = append(l, gen.XFX(f))
	}
	return l
}

var xlsxNumFmts = [][2]string{{"164", "General"}, {"165", `0.0" u"`}}

func xlsxOpen(c *engine.Ctx, x *gen.XLSX) grate.Source {
	data := x.File()
	c.State(data)
	path := c.File("t.xlsx", data)
	var src grate.Source
	var err error
	c.Guard("xlsx.Open", func() { src, err = xlsx.Open(path) })
	if err != nil {
		c.Failf("xlsx.Open: %v", err)
	}
	return src
}

func xlsxOneSheet(c *engine.Ctx, s gen.XSheet, sst []string) (grate.Source, grate.Collection) {
	s.Name = "S"
	x := &gen.XLSX{Sheets: []gen.XSheet{s}, SST: sst, XFs: xlsxXFs(), NumFmts: xlsxNumFmts}
	return xlsxGet(c, x, "S")
}

func xlsxGet(c *engine.Ctx, x *gen.XLSX, name string) (grate.Source, grate.Collection) {
	src := xlsxOpen(c, x)
	var col grate.Collection
	var err error
	c.Guard("Get", func() { col, err = src.Get(name) })
	if err != nil {
		src.Close()
		c.Failf("Get(%q): %v", name, err)
	}
	return src, col
}

// xlsxCheck reads the one sheet and closes the source whatever happens.
func xlsxCheck(c *engine.Ctx, x *gen.XLSX, g [][]want) {
	src, col := xlsxGet(c, x, x.Sheets[0].Name)
	defer src.Close()
	checkGrid(c, col, g)
}

var c04Text = append(append([]string(nil), c02Text...), "<a & \"b\">", "]]>", "&amp;", "12", "TRUE", "  ", "\n", "x_y", "-")

// shared strings: the plain ones, then the same as rich text, then with a phonetic guide
func c04SST() []string {
	var l []string
	for _, s := range c04Text {
		l = append(l, gen.T(s))
	}
	for _, s := range c04Text {
		l = append(l, c04Rich(s))
	}
	for _, s := range c04Text {
		l = append(l, c04Phonetic(s))
	}
	l = append(l, "<t/>", "", "\n  "+gen.T("pretty")+"\n  ")
	return l
}

func cut(s string) (string, string) {
	r := []rune(s)
	return string(r[:len(r)/2]), string(r[len(r)/2:])
}

func tKeep(s string) string { return `<t xml:space="preserve">` + gen.Esc(s) + `</t>` }

func c04Rich(s string) string {
	a, b := cut(s)
	return `<r>` + tKeep(a) + `</r><r><rPr><b/><sz val="11"/><rFont val="Calibri"/></rPr>` + tKeep(b) + `</r>`
}

func c04Phonetic(s string) string {
	return gen.T(s) + `<rPh sb="0" eb="1"><t>guide</t></rPh><phoneticPr fontId="1" type="noConversion"/>`
}

var c04F = []string{"", "<f>SUM(A1:B2)</f>", `<f t="shared" ref="A1:A3" si="0">A1*2</f>`, `<f t="shared" si="0"/>`, `<f t="array" ref="B2">"txt"&amp;1</f>`}

func numText(c *engine.Ctx, v float64) string {
	switch c.Pick("numtext", 3) {
	case 0:
		return strconv.FormatFloat(v, 'f', -1, 64)
	case 1:
		return strconv.FormatFloat(v, 'G', 17, 64)
	}
	return strconv.FormatFloat(v, 'E', -1, 64)
}

// c04Cell picks any form of cell.
func c04Cell(c *engine.Ctx, r, k int) (string, want) {
	xf := c.Pick("xf", len(xlsXFs)+2) - 1 // no style at all; one index beyond the table
	fid := 0
	if xf >= 0 && xf < len(xlsXFs) {
		fid = xlsXFs[xf]
	}
	fc := xlsFmtCode[fid]
	text := func(s string) want { return want{typ: "string", val: s, str: s, fmts: fc} }
	switch c.Pick("form", 7) {
	case 0:
		v := c02Floats[c.Pick("num", len(c02Floats))]
		t := []string{"", "n"}[c.Pick("t", 2)]
		return gen.C(r, k, t, xf, gen.V(numText(c, v))), numWant(v, false, fid)
	case 1:
		v := c02Floats[c.Pick("num", len(c02Floats))]
		f := c04F[c.Pick("f", len(c04F))]
		return gen.C(r, k, "", xf, f+gen.V(strconv.FormatFloat(v, 'G', 17, 64))), numWant(v, false, fid)
	case 2:
		b := c.Pick("bool", 2)
		w := want{typ: "boolean", val: b == 1, str: []string{"FALSE", "TRUE"}[b], fmts: fc}
		if fid == 49 {
			w.typ, w.val = "string", w.str
		} else if fid != 0 && fid != 164 {
			w.any = true
		}
		text := strconv.Itoa(b)
		if c.Pick("word", 2) == 1 {
			text = fmt.Sprint(b == 1)
		}
		return gen.C(r, k, "b", xf, c04F[c.Pick("f", len(c04F))]+gen.V(text)), w
	case 3:
		e := c02ErrText[c.Pick("err", len(c02ErrText))]
		return gen.C(r, k, "e", xf, c04F[c.Pick("f", len(c04F))]+gen.V(e)), want{typ: "string", val: e, str: e}
	case 4:
		i := c.Pick("sst", len(c04Text))
		return gen.C(r, k, "s", xf, gen.V(strconv.Itoa(i+len(c04Text)*c.Pick("kind", 3)))), text(c04Text[i])
	case 5:
		i := c.Pick("text", len(c04Text))
		s := c04Text[i]
		a, b := cut(s)
		switch c.Pick("kind", 6) {
		case 0:
			return gen.C(r, k, "inlineStr", xf, "<is>"+gen.T(s)+"</is>"), text(s)
		case 1:
			return gen.C(r, k, "inlineStr", xf, "<is>"+c04Rich(s)+"</is>"), text(s)
		case 2:
			return gen.C(r, k, "inlineStr", xf, "<is>"+c04Phonetic(s)+"</is>"), text(s)
		case 3:
			return gen.C(r, k, "str", xf, c04F[c.Pick("f", len(c04F))]+gen.V(s)), text(s)
		case 4: // text in pieces: a comment and a character data section
			if strings.Contains(s, "]]>") {
				a, b = "", s
			}
			return gen.C(r, k, "str", xf, "<f>A1</f><v>"+gen.Esc(a)+"<!-- no text --><![CDATA["+strings.ReplaceAll(b, "]]>", "]]]]><![CDATA[>")+"]]></v>"), text(s)
		}
		return gen.C(r, k, "inlineStr", xf, "<is>\n  <t xml:space=\"preserve\">"+gen.Esc(a)+"<?pi x?>"+gen.Esc(b)+"</t>\n  </is>"), text(s)
	}
	l := []string{"", "<v/>", "<v></v>", "<f>1+1</f>", "<f>1+1</f><v></v>", "\n    "}
	switch c.Pick("blank", 4) {
	case 0:
		return gen.C(r, k, "", xf, l[c.Pick("b", len(l))]), wBlank
	case 1:
		return gen.C(r, k, "str", xf, l[c.Pick("b", len(l))]), wBlank
	case 2:
		return gen.C(r, k, "s", xf, gen.V(strconv.Itoa(3*len(c04Text)+c.Pick("b", 2)))), wBlank
	}
	return gen.C(r, k, "inlineStr", xf, []string{"<is/>", "<is><t/></is>", "<is>\n</is>"}[c.Pick("b", 3)]), wBlank
}

func c04Single(c *engine.Ctx) {
	r, k := [][2]int{{0, 0}, {1, 2}, {2, 1}}[c.Pick("pos", 3)][0], 0
	if r > 0 {
		k = 3 - r
	}
	cell, w := c04Cell(c, r, k)
	g := blankGrid(3, 3)
	g[r][k] = w
	x := &gen.XLSX{Sheets: []gen.XSheet{{Name: "S", Dim: "A1:C3", Rows: gen.RowX(r, cell)}}, SST: c04SST(), XFs: xlsxXFs(), NumFmts: xlsxNumFmts}
	xlsxCheck(c, x, g)
	c.Outcome(w.typ)
}

// c04Form is a short menu of cells
func c04Form(c *engine.Ctx, label string, r, k int) (string, want) {
	switch c.Pick(label, 12) {
	case 11: // with a reading
		return gen.C(r, k, "inlineStr", -1, "<is>"+c04Phonetic("inside")+"</is>"), want{typ: "string", val: "inside", str: "inside"}
	case 10: // no style at all
		return gen.C(r, k, "", -1, gen.V("6")), numWant(6, false, 0)
	case 1:
		return gen.C(r, k, "", 2, gen.V("2.5")), numWant(2.5, false, 2)
	case 2:
		return gen.C(r, k, "n", 1, gen.V("42")), numWant(42, false, 1)
	case 3:
		return gen.C(r, k, "s", -1, gen.V("3")), want{typ: "string", val: c04Text[3], str: c04Text[3]}
	case 4:
		return gen.C(r, k, "str", -1, "<f>A1&amp;B1</f>"+gen.V("res")), want{typ: "string", val: "res", str: "res"}
	case 5:
		return gen.C(r, k, "b", -1, gen.V("1")), want{typ: "boolean", val: true, str: "TRUE"}
	case 6:
		return gen.C(r, k, "e", 2, gen.V("#N/A")), want{typ: "string", val: "#N/A", str: "#N/A"}
	case 7:
		return gen.C(r, k, "", 3, "<f>TODAY()</f>"+gen.V("43831")), numWant(43831, false, 14)
	case 8:
		return gen.C(r, k, "inlineStr", -1, "<is>"+c04Rich("inline")+"</is>"), want{typ: "string", val: "inline", str: "inline"}
	case 9:
		return gen.C(r, k, "", 0, "<f>1+1</f>"), wBlank
	}
	return gen.C(r, k, "", 0, ""), wBlank
}

// every three cells in three layouts, with the markup varied
func c04Seq(c *engine.Ctx) {
	pos := [][3][2]int{{{0, 0}, {0, 1}, {1, 0}}, {{1, 2}, {0, 0}, {1, 1}}, {{2, 0}, {0, 2}, {1, 1}}}[c.Pick("pos", 3)]
	rows, cols := 3, 3
	g := blankGrid(rows, cols)
	var list []string
	mr, mk := 0, 0
	for i := 0; i < 3; i++ {
		r, k := pos[i][0], pos[i][1]
		cell, w := c04Form(c, "cell", r, k)
		if c.Bool("spans") {
			cell = strings.Replace(cell, "<c ", `<c cm="1" ph="1" `, 1)
		}
		if c.Bool("pretty") {
			cell = strings.NewReplacer("<f>", "\n     <f>", "<v>", "\n     <v>", "</c>", "\n    </c>", "<is>", "\n     <is>\n     ", "</is>", "\n     </is>").Replace(cell)
		}
		list = append(list, cell)
		g[r][k] = w
		if w.typ != "blank" {
			mr, mk = max(mr, r+1), max(mk, k+1)
		}
	}
	s := gen.XSheet{Name: "S", Dim: "A1:C3"}
	switch c.Dev("dim", 8) {
	case 5: // a single cell
		s.Dim = "B3"
		rows, cols = 3, max(mk, 2)
	case 6:
		s.Dim = "C2"
		rows, cols = max(mr, 2), 3
	case 7:
		s.Dim = "C1:C1"
		rows, cols = max(mr, 1), 3
	case 1:
		s.Dim = ""
		rows, cols = mr, mk
	case 2:
		s.Dim = "A1"
		rows, cols = max(mr, 1), max(mk, 1)
	case 3:
		s.Dim = "B1:B2"
		rows, cols = max(mr, 2), max(mk, 2)
	case 4:
		s.Dim = "C3"
	}
	if rows < 3 || cols < 3 {
		g = g[:rows]
		for r := range g {
			g[r] = g[r][:cols]
		}
	}
	sep := ""
	switch c.Dev("ws", 3) {
	case 1:
		sep = "\n    "
	case 2:
		sep = "<!-- <c r=\"A1\"><v>9</v></c> -->\r\n"
	}
	switch c.Dev("rows", 3) {
	case 0:
		for i, cell := range list {
			s.Rows += sep + `<row r="` + strconv.Itoa(pos[i][0]+1) + `">` + sep + cell + sep + `</row>`
		}
	case 1: // row attributes
		for i, cell := range list {
			s.Rows += sep + `<row r="` + strconv.Itoa(pos[i][0]+1) + `" spans="1:3" ht="15" customHeight="1" x14ac:dyDescent="0.25">` + sep + cell + sep + `</row>`
		}
	case 2: // all cells in one row element: their references count
		s.Rows = "<row>" + strings.Join(list, sep) + "</row>"
	}
	switch c.Dev("around", 3) {
	case 1:
		s.Tail = `<sheetProtection sheet="1"/><autoFilter ref="A1:B2"><filterColumn colId="0"><filters><filter val="7"/></filters></filterColumn></autoFilter><conditionalFormatting sqref="A1"><cfRule type="cellIs" dxfId="0" priority="1" operator="equal"><formula>5</formula></cfRule></conditionalFormatting><dataValidations count="1"><dataValidation type="list" sqref="B2"><formula1>"a,b"</formula1></dataValidation></dataValidations>`
	case 2:
		s.Tail = `<pageMargins left="0.7" right="0.7" top="0.75" bottom="0.75" header="0.3" footer="0.3"/><headerFooter><oddHeader>&amp;Cheader</oddHeader></headerFooter><extLst><ext uri="{x}"><x14:t xmlns:x14="urn:x">no cell</x14:t></ext></extLst>`
	}
	x := &gen.XLSX{Sheets: []gen.XSheet{s}, SST: c04SST(), XFs: xlsxXFs(), NumFmts: xlsxNumFmts}
	if c.Bool("prefix") {
		x.Prefix = "x"
	}
	x.Deflate = c.Bool("deflate")
	xlsxCheck(c, x, g)
}

// cells and rows which do not name their place follow the one before
func c04Implied(c *engine.Ctx) {
	n := 3
	if c.Thorough {
		n = 4
	}
	if c.Pick("shape", 2) == 1 {
		// rows of many cells
		w := []int{26, 27, 52, 53, 702, 703, 704, 1000, 16384}[c.Pick("width", 9)]
		rows := c.Pick("rows", 2) + 1
		var b strings.Builder
		g := blankGrid(rows, w)
		for r := 0; r < rows; r++ {
			b.WriteString("<row>")
			for k := 0; k < w; k++ {
				v := k + 10*r
				b.WriteString(`<c s="1"><v>` + strconv.Itoa(v) + `</v></c>`)
				g[r][k] = numWant(float64(v), false, 1)
			}
			b.WriteString("</row>")
		}
		xlsxCheck(c, &gen.XLSX{Sheets: []gen.XSheet{{Name: "S", Rows: b.String()}}, SST: c04SST(), XFs: xlsxXFs(), NumFmts: xlsxNumFmts}, g)
		return
	}
	forms := []int{2, 3, 4, 10, 8}
	noRef := func(cell, ref string) string { return strings.Replace(cell, ` r="`+ref+`"`, "", 1) }
	var b strings.Builder
	type placed struct {
		r, k int
		w    want
	}
	var all []placed
	r, k := -1, -1
	open := false
	for i := 0; i < n; i++ {
		place := c.Pick("place", 7)
		if i == 0 && place < 3 {
			return // no row yet
		}
		named := place == 1 || place == 2 || place >= 5
		if place >= 3 {
			if open {
				b.WriteString("</row>")
			}
			open = true
			r, k = r+1, -1
			switch place {
			case 3, 5:
				b.WriteString("<row>")
			case 4:
				r++
				b.WriteString(`<row r="` + strconv.Itoa(r+1) + `">`)
			case 6: // the cell tells the row
				r++
				b.WriteString("<row>")
			}
		}
		k++
		if place == 2 {
			k += 2
		} else if place == 5 {
			k++
		}
		f := c.Pick("form", len(forms)+1)
		var cell string
		w := wBlank
		if f < len(forms) {
			switch forms[f] {
			case 2:
				cell, w = gen.C(r, k, "n", 1, gen.V("42")), numWant(42, false, 1)
			case 3:
				cell, w = gen.C(r, k, "s", -1, gen.V("3")), want{typ: "string", val: c04Text[3], str: c04Text[3]}
			case 4:
				cell, w = gen.C(r, k, "str", -1, "<f>A1&amp;B1</f>"+gen.V("res")), want{typ: "string", val: "res", str: "res"}
			case 10:
				cell, w = gen.C(r, k, "", -1, gen.V("6")), numWant(6, false, 0)
			case 8:
				cell, w = gen.C(r, k, "inlineStr", -1, "<is>"+c04Rich("inline")+"</is>"), want{typ: "string", val: "inline", str: "inline"}
			}
		} else {
			cell = gen.C(r, k, "", 0, "")
		}
		if !named {
			cell = noRef(cell, gen.Ref(r, k))
		}
		b.WriteString(cell)
		all = append(all, placed{r, k, w})
	}
	b.WriteString("</row>")
	s := gen.XSheet{Name: "S", Rows: b.String()}
	rows, cols := 0, 0
	if c.Pick("dim", 2) == 1 {
		rows, cols = r+1, 8
		s.Dim = "A1:" + gen.Ref(r, 7)
	}
	for _, p := range all {
		if p.w.typ != "blank" {
			rows, cols = max(rows, p.r+1), max(cols, p.k+1)
		}
	}
	g := blankGrid(rows, cols)
	for _, p := range all {
		if p.w.typ != "blank" {
			g[p.r][p.k] = p.w
		}
	}
	xlsxCheck(c, &gen.XLSX{Sheets: []gen.XSheet{s}, SST: c04SST(), XFs: xlsxXFs(), NumFmts: xlsxNumFmts}, g)
}

// far references
func c04Far(c *engine.Ctx) {
	rs := []int{0, 8, 9, 98, 99, 999, 65535}
	ks := []int{0, 1, 24, 25, 26, 27, 51, 52, 53, 675, 676, 701, 702, 703, 728, 1377, 16382, 16383}
	rs = append(rs, 99999, 1048575)
	r, k := rs[c.Pick("row", len(rs))], ks[c.Pick("col", len(ks))]
	if r*k > 2000000 || r > 70000 && !c.Thorough && k > 1 {
		return
	}
	cell, w := c04Form(c, "cell", r, k)
	if w.typ == "blank" {
		return
	}
	s := gen.XSheet{Name: "S", Rows: gen.RowX(r, cell)}
	if c.Pick("dim", 2) == 1 {
		s.Dim = "A1:" + gen.Ref(r, k)
	}
	g := blankGrid(r+1, k+1)
	g[r][k] = w
	if (r*k > 100000 || r > 70000) && !c.Thorough && w.typ != "string" {
		return
	}
	xlsxCheck(c, &gen.XLSX{Sheets: []gen.XSheet{s}, SST: c04SST(), XFs: xlsxXFs(), NumFmts: xlsxNumFmts}, g)
}

// shared string tables and single strings of every size class
func c04Tables(c *engine.Ctx) {
	switch c.Pick("kind", 2) {
	case 0:
		n := []int{1, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 70000}[c.Pick("count", 13)]
		form := c.Pick("form", 3)
		var sst []string
		for i := 0; i < n; i++ {
			t := fmt.Sprintf("%dé", i)
			switch {
			case form == 1 && i%3 == 0:
				t = c04Rich(t)
			case form == 2 && i%2 == 0:
				t = c04Phonetic(t)
			default:
				t = gen.T(t)
			}
			sst = append(sst, t)
		}
		var rows string
		var g [][]want
		for _, k := range []int{0, 1, n / 2, 126, 127, 128, 254, 255, 256, 257, 32766, 32767, 32768, 65534, 65535, 65536, n - 2, n - 1} {
			if k < 0 || k >= n {
				continue
			}
			s := fmt.Sprintf("%dé", k)
			rows += gen.RowX(len(g), gen.C(len(g), 0, "s", -1, gen.V(strconv.Itoa(k))))
			g = append(g, []want{{typ: "string", val: s, str: s}})
		}
		xlsxCheck(c, &gen.XLSX{Sheets: []gen.XSheet{{Name: "S", Rows: rows}}, SST: sst, Deflate: true}, g)
	case 1:
		n := []int{255, 256, 1000, 1024, 4095, 4096, 4097, 8192, 32767, 65536, 200000}[c.Pick("len", 11)]
		var b strings.Builder
		u := c.Pick("chars", 3)
		for i := 0; i < n; i++ {
			switch {
			case u == 1 && i%5 == 2:
				b.WriteRune(rune(0x4e00 + i%1000))
			case u == 2 && i%7 == 3:
				b.WriteByte("<&>\"' \n"[i%7])
			default:
				b.WriteByte(byte('a' + i%26))
			}
		}
		b.WriteString("end")
		s := b.String()
		w := want{typ: "string", val: s, str: s}
		var cell string
		sst := []string{gen.T("x")}
		switch c.Pick("form", 7) {
		case 0:
			sst = append(sst, gen.T(s))
		case 1:
			sst = append(sst, c04Rich(s))
		case 2:
			sst = append(sst, c04Phonetic(s))
		case 3:
			cell = gen.C(0, 0, "inlineStr", -1, "<is>"+gen.T(s)+"</is>")
		case 4:
			cell = gen.C(0, 0, "inlineStr", -1, "<is>"+c04Rich(s)+"</is>")
		case 5:
			cell = gen.C(0, 0, "str", -1, "<f>A1</f>"+gen.V(s))
		case 6:
			cell = gen.C(0, 0, "str", -1, "<f>A1</f><v><![CDATA["+s+"]]></v>")
		}
		if cell == "" {
			cell = gen.C(0, 0, "s", -1, gen.V("1"))
		}
		xlsxCheck(c, &gen.XLSX{Sheets: []gen.XSheet{{Name: "S", Rows: gen.RowX(0, cell, gen.C(0, 1, "s", -1, gen.V("0")))}}, SST: sst, Deflate: c.Pick("deflate", 2) == 1},
			[][]want{{w, {typ: "string", val: "x", str: "x"}}})
	}
}

// every column of the sheet holds its own number
func c04Columns(c *engine.Ctx) {
	lo := 1024 * c.Pick("block", 16)
	var cells []string
	row := make([]want, lo+1024)
	for k := range row {
		row[k] = wBlank
	}
	for k := lo; k < lo+1024; k++ {
		cells = append(cells, gen.C(0, k, "", -1, gen.V(fmt.Sprint(k))))
		row[k] = want{typ: "float", val: float64(k), str: fmt.Sprint(k)}
	}
	xlsxCheck(c, &gen.XLSX{Sheets: []gen.XSheet{{Name: "S", Rows: gen.RowX(0, cells...)}}}, [][]want{row})
}

// a cell which names no style has the first one, whatever it is: here the
// table of styles starts with each format in turn
func c04Default(c *engine.Ctx) {
	first := c.Pick("first", len(xlsXFs))
	fids := append(append([]int(nil), xlsXFs[first:]...), xlsXFs[:first]...)
	var xfs []string
	for _, f := range fids {
		xfs = append(xfs, gen.XFX(f))
	}
	n := 2
	if c.Thorough {
		n = 3
	}
	g := blankGrid(1, n)
	var cells []string
	for k := 0; k < n; k++ {
		xf := c.Pick("style", 4) - 1 // none, the first, the next two
		fid := fids[max(xf, 0)]
		fc := xlsFmtCode[fid]
		var cell string
		var w want
		switch c.Pick("cell", 7) {
		case 0:
			v := []float64{0, 1, 43831, 2.5, -7}[c.Pick("num", 5)]
			cell, w = gen.C(0, k, "", xf, gen.V(fmt.Sprint(v))), numWant(v, false, fid)
		case 1:
			cell, w = gen.C(0, k, "n", xf, "<f>A1</f>"+gen.V("43900")), numWant(43900, false, fid)
		case 2:
			cell, w = gen.C(0, k, "b", xf, gen.V("1")), want{typ: "boolean", val: true, str: "TRUE", fmts: fc}
			if fid == 49 {
				w.typ, w.val = "string", w.str
			} else if fid != 0 && fid != 164 {
				w.any = true
			}
		case 3:
			cell, w = gen.C(0, k, "s", xf, gen.V("3")), want{typ: "string", val: c04Text[3], str: c04Text[3], fmts: fc}
		case 4:
			cell, w = gen.C(0, k, "inlineStr", xf, "<is>"+gen.T("in")+"</is>"), want{typ: "string", val: "in", str: "in", fmts: fc}
		case 5:
			cell, w = gen.C(0, k, "e", xf, gen.V("#N/A")), want{typ: "string", val: "#N/A", str: "#N/A"}
		case 6:
			cell, w = gen.C(0, k, "", xf, ""), wBlank
		}
		cells = append(cells, cell)
		g[0][k] = w
	}
	s := gen.XSheet{Name: "S", Dim: []string{"A1:B1", "A1:C1"}[n-2], Rows: gen.RowX(0, cells...)}
	if c.Bool("rowstyle") { // the style of a row or column is for cells which are not there
		s.Rows = strings.Replace(s.Rows, "<row ", `<row s="2" customFormat="1" `, 1)
	}
	xlsxCheck(c, &gen.XLSX{Sheets: []gen.XSheet{s}, SST: c04SST(), XFs: xfs, NumFmts: xlsxNumFmts}, g)
}

var (
	c04Pieces = []string{"_x0041_", "_x005F_", "_x000D_", "a", "_", "x0041_", "_x", "_xD834__xDD1E_", "_x00e9_", "_x0001_", "_x00G1_", "_x041_", "_X0041_", "_x+041_", "& ", "日"}
	c04Esc    = regexp.MustCompile(`_x([0-9A-Fa-f]{4})_`)
)

// c04Decode is what an escaped text stands for.
func c04Decode(s string) string {
	var u []uint16
	for s != "" {
		m := c04Esc.FindStringSubmatchIndex(s)
		if m == nil {
			break
		}
		u = append(u, gen.U16s(s[:m[0]])...)
		n, _ := strconv.ParseUint(s[m[2]:m[3]], 16, 16)
		u = append(u, uint16(n))
		s = s[m[1]:]
	}
	return string(utf16.Decode(append(u, gen.U16s(s)...)))
}

// characters written as _xHHHH_
func c04Escapes(c *engine.Ctx) {
	n := 1 + c.Pick("pieces", 3)
	if c.Thorough {
		n++
	}
	a, b := "", ""
	for i := 0; i < n; i++ {
		p := c04Pieces[c.Pick("piece", len(c04Pieces))]
		if i < n/2 {
			a += p
		} else {
			b += p
		}
	}
	want1 := want{typ: "string", str: c04Decode(a + b), val: c04Decode(a + b)}
	form := c.Pick("form", 6)
	if (form == 1 || form == 3) && c04Decode(a)+c04Decode(b) != want1.str {
		return // an escape does not go from one run to the next
	}
	runs := "<r>" + tKeep(a) + "</r><r>" + tKeep(b) + "</r>"
	var cell string
	var sst []string
	switch form {
	case 0, 1, 5:
		sst = []string{gen.T("_x0042_"), []string{gen.T(a + b), runs, "", "", "", gen.T(a+b) + `<rPh sb="0" eb="1"><t>_x0042_</t></rPh>`}[form], gen.T("c")}
		cell = gen.C(0, 0, "s", -1, gen.V("1"))
	case 2:
		cell = gen.C(0, 0, "inlineStr", -1, "<is>"+tKeep(a+b)+"</is>")
	case 3:
		cell = gen.C(0, 0, "inlineStr", -1, "<is>"+runs+"</is>")
	case 4:
		cell = gen.C(0, 0, "str", -1, "<f>\"_x0042_\"</f>"+gen.V(a+b))
	}
	xlsxCheck(c, &gen.XLSX{Sheets: []gen.XSheet{{Name: "S", Rows: gen.RowX(0, cell)}}, SST: sst}, [][]want{{want1}})
}

func init() {
	engine.Register(&engine.Property{
		ID: "C04", Level: "model_checking",
		Rule: "single: every cell form x value x style x position; seq: every ordered triple of cells from 12 forms x placement, with up to 1 (thorough 3) departures in dimension element, whitespace, row markup, surrounding elements, namespace prefix, compression; far: cells up to the grid limits; implied: every sequence of 3 (thorough 4) cells from 6 forms x 7 ways to name or leave out the places of cell and row, rows of up to 16384 unnamed cells; default: every style table rotation (the first style is each of the formats) x every pair (thorough triple) of 7 cell forms x no style, the first, the next two; escapes: every text of up to 3 (thorough 4) pieces from 16 with and without _xHHHH_ characters in 6 forms; tables: string tables of up to 70000 strings, strings of up to 200000 characters in every form; columns: every column reference A..XFD. Oracle: the model cells (exact value by Scan, text, type, format code, sheet shape)",
		Assumptions: []string{"how a fraction is rounded or a boolean shown under a number format is left to C13 and C15",
			"a sheet's declared dimension is its shape unless cells lie outside of it"},
		Harnesses: []engine.Harness{
			{Name: "single", Run: c04Single},
			{Name: "seq", Run: c04Seq, Quick: 1, Thorough: 3},
			{Name: "far", Run: c04Far},
			{Name: "implied", Run: c04Implied},
			{Name: "default", Run: c04Default, Quick: 1, Thorough: 1},
			{Name: "escapes", Run: c04Escapes},
			{Name: "tables", Run: c04Tables},
			{Name: "columns", Run: c04Columns},
		},
	})
}

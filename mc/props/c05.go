package props

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/xlsx"

	"verif/mc/engine"
	"verif/mc/gen"
)

// c05Sheet is the content of sheet i: its own number, a shared string and a styled number
func c05Sheet(i int, styles []int) (string, [][]want) {
	sty := i % len(styles)
	text := fmt.Sprintf("text%d", i)
	rows := gen.RowX(0, gen.C(0, 0, "", -1, gen.V(fmt.Sprint(100+i))), gen.C(0, 1, "s", -1, gen.V(fmt.Sprint(i)))) +
		gen.RowX(1, gen.C(1, 0, "", sty, gen.V("43831")), gen.C(1, 1, "", sty+1, gen.V("43831")))
	return rows, [][]want{
		{numWant(float64(100+i), false, styles[0]), {typ: "string", val: text, str: text}},
		{numWant(43831, false, styles[sty]), numWant(43831, false, styles[(sty+1)%len(styles)])},
	}
}

var c05Names = [][]string{
	{"Sheet1", "Sheet2", "Sheet3", "Sheet4"},
	{"a & b", "<x> \"q\"", "日本 𝄞", "tail "},
	{"3", "1", "2", "0"},
	{"S", "s", "S ", "SS"},
}

type c05Expect struct {
	name string
	grid [][]want // nil: an error
}

func c05Check(c *engine.Ctx, data []byte, exp []c05Expect) {
	c.State(data)
	path := c.File("t.xlsx", data)
	var src grate.Source
	var err error
	c.Guard("xlsx.Open", func() { src, err = xlsx.Open(path) })
	if err != nil {
		c.Failf("xlsx.Open: %v", err)
	}
	defer src.Close()
	var names []string
	for _, e := range exp {
		names = append(names, e.name)
	}
	l, err := src.List()
	if err != nil || len(l) != len(names) || join(l) != join(names) {
		c.Failf("List = %q, %v; want %q", l, err, names)
	}
	for k := range exp {
		e := exp[len(exp)-1-k]
		var col grate.Collection
		c.Guard("Get "+e.name, func() { col, err = src.Get(e.name) })
		if e.grid == nil {
			if err == nil {
				c.Failf("Get(%q) succeeds although its part is missing", e.name)
			}
			continue
		}
		if err != nil {
			c.Failf("Get(%q): %v", e.name, err)
		}
		checkGrid(c, col, e.grid)
	}
	for _, n := range []string{"", "no such sheet", exp[0].name + "x", exp[0].name[:len(exp[0].name)-1], "rId1", "xl/worksheets/sheet1.xml", "sheet1"} {
		known := false
		for _, e := range exp {
			known = known || e.name == n
		}
		if known {
			continue
		}
		c.Guard("Get unknown", func() { _, err = src.Get(n) })
		if err == nil {
			c.Failf("Get(%q) of an unknown sheet succeeds", n)
		}
	}
}

func c05Perm(c *engine.Ctx, label string, n int) []int {
	// identity, reversal, rotation
	p := make([]int, n)
	k := c.Dev(label, 3)
	for i := range p {
		switch k {
		case 0:
			p[i] = i
		case 1:
			p[i] = n - 1 - i
		case 2:
			p[i] = (i + 1) % n
		}
	}
	return p
}

// every package of up to 3 (4) sheets x ids x order, with departures in the layout
func c05Layout(c *engine.Ctx) {
	max := 3
	if c.Thorough {
		max = 4
	}
	n := 1 + c.Pick("n", max)
	sty := [][]int{{0, 2, 14, 1}, {14, 1, 0, 2}, {2, 164, 165, 0}, {49, 0, 3, 10}}
	styles := sty[c.Dev("styles", len(sty))]
	x := &gen.XLSX{NumFmts: xlsxNumFmts}
	for _, f := range append(append([]int(nil), styles...), styles[0]) {
		x.XFs = append(x.XFs, gen.XFX(f))
	}
	ids := pickPerm(c, "ids", n)
	dir := pickPerm(c, "dir", n)
	files := c05Perm(c, "files", n)
	names := c05Names[c.Dev("names", len(c05Names))]
	idform := c.Dev("idform", 4)
	where := c.Dev("where", 4)
	lost := c.Dev("lost", n+1) - 1
	for i := 0; i < n; i++ {
		rows, _ := c05Sheet(i, styles)
		s := gen.XSheet{Name: names[i], Dim: "A1:B2", Rows: rows, Lost: i == lost}
		switch idform {
		case 0:
			s.ID = fmt.Sprintf("rId%d", ids[i]+1)
		case 1:
			s.ID = fmt.Sprintf("R%x-%d", 0xabc+ids[i], i)
		case 2: // ids which differ in case or length only
			s.ID = []string{"rid1", "rId1", "rId11", "RID1"}[ids[i]]
		case 3:
			s.ID = fmt.Sprintf("rId%d", 10-ids[i])
		}
		f := files[i] + 1
		switch where {
		case 0:
			s.Path = fmt.Sprintf("xl/worksheets/sheet%d.xml", f)
		case 1:
			s.Path = fmt.Sprintf("xl/s%d.xml", f)
		case 2:
			s.Path = fmt.Sprintf("data/d%d/sheet.xml", f)
		case 3:
			s.Path = fmt.Sprintf("xl/worksheets/deep/er/sheet%d.bin.xml", f)
		}
		x.Sheets = append(x.Sheets, s)
		x.SST = append(x.SST, gen.T(fmt.Sprintf("text%d", i)))
	}
	x.DirOrder = dir
	switch c.Dev("wb", 4) {
	case 1:
		x.WBPath = "xl/book.xml"
	case 2:
		x.WBPath = "workbook.xml"
	case 3:
		x.WBPath = "a/b/c/wb.xml"
	}
	x.AbsRoot = c.Bool("absRoot")
	x.AbsTargets = c.Bool("absTargets")
	x.StylesPath = []string{"", "xl/worksheets/styles.xml", "other/st.xml"}[c.Dev("stylesPath", 3)]
	x.SSTPath = []string{"", "sst.xml", "xl/strings/shared.xml"}[c.Dev("sstPath", 3)]
	switch c.Dev("extra", 3) {
	case 1:
		x.ExtraRels = []gen.XRel{{ID: "rIdT", Type: gen.RelTheme, Target: "theme/theme1.xml"},
			{ID: "rIdX", Type: gen.RelNS + "calcChain", Target: "calcChain.xml"}}
		x.Extra = []gen.XPart{{Name: "xl/calcChain.xml", Data: `<calcChain xmlns="x"><c r="A1" i="1"/></calcChain>`}}
	case 2: // ids only need to be unique; a foreign relationship and unreferenced parts
		x.ExtraRels = []gen.XRel{{ID: "rIdLink", Type: gen.RelNS + "externalLink", Target: "externalLinks/externalLink1.xml"},
			{ID: "rIdHttp", Type: gen.RelNS + "externalLinkPath", Target: "http://example.com/styles.xml", External: true}}
		x.Extra = []gen.XPart{{Name: "xl/worksheets/sheet9.xml", Data: "not a part"}, {Name: "xl/sharedStrings2.xml", Data: "<sst><si><t>no</t></si></sst>"},
			{Name: "old/xl/workbook.xml", Data: "<workbook/>"}}
	}
	switch base := c.Dev("base", 6); base {
	case 1:
		x.BaseXFs = []string{`<xf numFmtId="9" fontId="0" fillId="0" borderId="0"/>`, `<xf numFmtId="14" fontId="0" fillId="0" borderId="0" applyNumberFormat="0"/>`, `<xf numFmtId="44"/>`}
	case 2, 3, 4, 5: // attributes in another order, no applyNumberFormat, children
		if base > 2 { // base styles with another number format
			x.BaseXFs = []string{fmt.Sprintf(`<xf numFmtId="%d" fontId="0" fillId="0" borderId="0"%s/>`, []int{9, 14, 164}[base-3], []string{"", ` applyNumberFormat="1"`, ""}[base-3])}
		}
		for i, f := range append(append([]int(nil), styles...), styles[0]) {
			x.XFs[i] = fmt.Sprintf(`<xf xfId="0" borderId="0" fillId="0" fontId="0" numFmtId="%d" applyAlignment="1"><alignment horizontal="center"/><protection locked="0"/></xf>`, f)
		}
	}
	x.WBExtra = []string{"", `<definedNames><definedName name="sheet">Sheet1!$A$1</definedName></definedNames><calcPr calcId="1"/>`, `<externalReferences><externalReference r:id="rIdLink"/></externalReferences><customWorkbookViews/>`}[c.Dev("wbExtra", 3)]
	x.Deflate = c.Bool("deflate")
	if c.Bool("prefix") {
		x.Prefix = "x"
	}
	x.RelOrder = c05Perm(c, "relOrder", n+2+len(x.ExtraRels))
	parts := x.Parts()
	x.PartOrder = c05Perm(c, "partOrder", len(parts))
	var exp []c05Expect
	for _, i := range dir {
		_, g := c05Sheet(i, styles)
		if i == lost {
			g = nil
		}
		exp = append(exp, c05Expect{names[i], g})
	}
	c05Check(c, x.File(), exp)
	c.Outcome(fmt.Sprint(n))
}

// packages with a part missing or in an unexpected state
func c05Broken(c *engine.Ctx) {
	rows, g := c05Sheet(0, []int{0, 2})
	x := &gen.XLSX{Sheets: []gen.XSheet{{Name: "S", Dim: "A1:B2", Rows: rows}}, SST: []string{gen.T("text0")}, XFs: []string{gen.XFX(0), gen.XFX(2)}}
	parts := x.Parts()
	k := c.Pick("part", len(parts))
	name := parts[k].Name
	switch c.Pick("how", 3) {
	case 0: // gone
		parts = append(parts[:k:k], parts[k+1:]...)
	case 1: // under another name only
		parts[k].Name = "x" + name
	case 2:
		if !strings.HasSuffix(name, ".xml") || strings.HasPrefix(name, "[") {
			return
		}
		parts[k].Name = strings.ToUpper(name[:1]) + "_" + name[1:]
	}
	data := gen.Zip(parts, false)
	if name == "[Content_Types].xml" {
		// not needed to follow the relationships
		return
	}
	if strings.Contains(name, "sheet1") {
		c05Check(c, data, []c05Expect{{"S", nil}})
		return
	}
	_ = g
	c.State(data)
	path := c.File("t.xlsx", data)
	var err error
	var src grate.Source
	c.Guard("xlsx.Open", func() { src, err = xlsx.Open(path) })
	if err == nil {
		src.Close()
		c.Failf("a package without its part %s opens", name)
	}
}

// sheets which are no worksheets: they may be listed or not, but never take
// the place of a worksheet
func c05Charts(c *engine.Ctx) {
	n := 1 + c.Pick("n", 3)
	at := c.Pick("at", n+1)
	styles := []int{0, 2, 14, 1}
	x := &gen.XLSX{NumFmts: xlsxNumFmts}
	for _, f := range append(append([]int(nil), styles...), styles[0]) {
		x.XFs = append(x.XFs, gen.XFX(f))
	}
	chart := gen.XSheet{Name: "Chart", Type: gen.RelNS + []string{"chartsheet", "dialogsheet"}[c.Pick("kind", 2)], ID: []string{"rIdC", "", "rId1"}[c.Pick("id", 3)],
		Path: "xl/chartsheets/sheet1.xml", XML: `<chartsheet xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main"><sheetViews><sheetView workbookViewId="0"/></sheetViews></chartsheet>`}
	want := map[string][][]want{}
	var names []string
	for i := 0; i < n+1; i++ {
		if i == at {
			x.Sheets = append(x.Sheets, chart)
		}
		if i == n {
			break
		}
		rows, g := c05Sheet(i, styles)
		s := gen.XSheet{Name: fmt.Sprintf("S%d", i), Dim: "A1:B2", Rows: rows, Path: fmt.Sprintf("xl/worksheets/sheet%d.xml", i+1)}
		if chart.ID == "rId1" {
			s.ID = fmt.Sprintf("rId%d", i+2)
		}
		x.Sheets = append(x.Sheets, s)
		x.SST = append(x.SST, gen.T(fmt.Sprintf("text%d", i)))
		names, want[s.Name] = append(names, s.Name), g
	}
	src := xlsxOpen(c, x)
	defer src.Close()
	l, err := src.List()
	if err != nil {
		c.Failf("List: %v", err)
	}
	var l2 []string
	for _, s := range l {
		if s != "Chart" {
			l2 = append(l2, s)
		}
	}
	if join(l2) != join(names) {
		c.Failf("List = %q; want %q, with the chart or without it", l, names)
	}
	for _, s := range append([]string{"Chart"}, names...) {
		var col grate.Collection
		c.Guard("Get", func() { col, err = src.Get(s) })
		if s == "Chart" {
			if err == nil && !col.IsEmpty() {
				c.Failf("the chart has cells")
			}
			continue
		}
		if err != nil {
			c.Failf("Get(%q): %v", s, err)
		}
		checkGrid(c, col, want[s])
	}
}

// c05Formats: number format ids and cell formats up to the last there can be
func c05Formats(c *engine.Ctx) {
	n := []int{1, 255, 256, 257, 32767, 32768, 32769, 64000, 65430}[c.Pick("formats", 9)]
	at := []int{0, 1, 127, 128, 254, 255, 256, 4095, 4096, 16383, 16384, 32600, 32767 - 164, 32768 - 164, 32767, 32768, 63999, 65371}[c.Pick("index", 18)]
	last := c.Pick("from the last", 2) == 1
	if at >= n {
		return
	}
	// only the format under test shows decimals
	x := &gen.XLSX{Deflate: true}
	id := func(i int) int {
		if last {
			return 65535 - i
		}
		return 164 + i
	}
	if id(n-1) > 65535 || id(n-1) < 164 {
		return
	}
	for i := 0; i < n; i++ {
		code := "0"
		if i == at {
			code = "0.00"
		}
		x.NumFmts = append(x.NumFmts, [2]string{fmt.Sprint(id(i)), code})
		x.XFs = append(x.XFs, gen.XFX(id(i)))
	}
	other := (at + n/2) % n
	cells := gen.C(0, 0, "", at, gen.V("7")) + gen.C(0, 1, "", other, gen.V("7"))
	w := want{typ: "integer", val: int64(7), str: "7", fmts: fmt.Sprint(id(other))}
	a := want{typ: "float", val: 7.0, str: "7.00", fmts: fmt.Sprint(id(at))}
	if other == at {
		w = a
	}
	x.Sheets = []gen.XSheet{{Name: "S", Dim: "A1:B1", Rows: gen.RowX(0, cells)}}
	xlsxCheck(c, x, [][]want{{a, w}})
}

// many sheets and many styles
func c05Many(c *engine.Ctx) {
	n := []int{9, 10, 11, 12, 64, 300}[c.Pick("n", 6)]
	x := &gen.XLSX{NumFmts: xlsxNumFmts}
	nst := []int{5, 40, 300, 4100, 40000}[c.Pick("styles", 5)]
	kinds := []int{0, 1, 2, 14, 3, 164}
	for i := 0; i < nst; i++ {
		x.XFs = append(x.XFs, gen.XFX(kinds[i%len(kinds)]))
	}
	ids := c.Pick("ids", 3)
	var exp []c05Expect
	for i := 0; i < n; i++ {
		st := (i * 7) % nst
		fid := kinds[st%len(kinds)]
		if i%3 == 1 {
			st = nst - 1 - i
			if st < 0 {
				st = 0
			}
			fid = kinds[st%len(kinds)]
		}
		name := fmt.Sprintf("s%d", i)
		s := gen.XSheet{Name: name, Dim: "A1:A1", Rows: gen.RowX(0, gen.C(0, 0, "", st, gen.V(fmt.Sprint(43000+i))))}
		if ids > 0 {
			s.ID = fmt.Sprintf("rId%d", n-i)
			s.Path = fmt.Sprintf("xl/worksheets/sheet%d.xml", n-i)
		}
		if ids == 2 { // which differ in case only
			s.ID = []string{"rId", "RID", "rid", "Rid"}[i%4] + fmt.Sprint(i/4)
		}
		x.Sheets = append(x.Sheets, s)
		exp = append(exp, c05Expect{name, [][]want{{numWant(float64(43000+i), false, fid)}}})
	}
	c05Check(c, x.File(), exp)
}

var c05Target = regexp.MustCompile(`Target="([^"]*)"`)

// c05Targets: references to parts in other spellings of the same part name
func c05Targets(c *engine.Ctx) {
	styles := []int{0, 2, 14, 1}
	x := &gen.XLSX{NumFmts: xlsxNumFmts, AbsRoot: c.Pick("absRoot", 2) == 1, AbsTargets: c.Pick("absTargets", 2) == 1}
	for _, f := range append(append([]int(nil), styles...), styles[0]) {
		x.XFs = append(x.XFs, gen.XFX(f))
	}
	var exp []c05Expect
	for i := 0; i < 2; i++ {
		rows, g := c05Sheet(i, styles)
		g[0][0] = want{typ: "hyperlink", str: "http://example.com/x"}
		x.Sheets = append(x.Sheets, gen.XSheet{Name: fmt.Sprintf("S%d", i), Dim: "A1:B2", Rows: rows,
			Tail: `<hyperlinks><hyperlink ref="A1" r:id="h"/></hyperlinks>`, Rels: []gen.XRel{{ID: "h", Type: gen.RelNS + "hyperlink", Target: "http://example.com/x", External: true}}})
		x.SST = append(x.SST, gen.T(fmt.Sprintf("text%d", i)))
		exp = append(exp, c05Expect{fmt.Sprintf("S%d", i), g})
	}
	parts := x.Parts()
	// the relationships: 0 the workbook, 1.. those of the workbook; all of them
	which := c.Pick("which", 6)
	form := c.Pick("form", 7)
	k := 0
	for i, p := range parts {
		if p.Name != "_rels/.rels" && p.Name != "xl/_rels/workbook.xml.rels" {
			continue
		}
		base := strings.TrimPrefix(strings.TrimSuffix(p.Name, p.Name[strings.Index(p.Name, "_rels"):]), "/")
		parts[i].Data = c05Target.ReplaceAllStringFunc(p.Data, func(m string) string {
			n := k
			k++
			if which != 5 && which != n {
				return m
			}
			t := c05Target.FindStringSubmatch(m)[1]
			abs := strings.HasPrefix(t, "/")
			switch form {
			case 1:
				if abs {
					t = "/." + t
				} else {
					t = "./" + t
				}
			case 2:
				if abs {
					t = "/any/.." + t
				} else {
					t = "any/../" + t
				}
			case 3:
				if j := strings.LastIndex(t, "/"); j >= 0 {
					t = t[:j] + "/./more/.." + t[j:]
				}
			case 4:
				if !abs && base != "" {
					t = "../" + base + t
				}
			case 5:
				t = strings.ToUpper(t)
			case 6:
				t = strings.ToLower(t)
			}
			return `Target="` + t + `"`
		})
	}
	name := c.Pick("name", len(parts)+1)
	spell := c.Pick("spell", 3)
	for i := range parts {
		if name < len(parts) && name != i {
			continue
		}
		switch spell {
		case 1:
			parts[i].Name = strings.ToUpper(parts[i].Name)
		case 2:
			parts[i].Name = strings.ToLower(parts[i].Name)
		}
	}
	c05Check(c, gen.Zip(parts, false), exp)
	c.Outcome(fmt.Sprint(form, spell))
}

func init() {
	engine.Register(&engine.Property{
		ID: "C05", Level: "model_checking",
		Rule:        "layout: every workbook of 1-3 (thorough 4) sheets x permutation of relationship ids x permutation of the directory, with up to 2 (thorough 3) departures in part names and places, absolute targets, archive order, relationship order and forms, style tables, foreign relationships and parts, missing sheet parts; broken: every part of a package missing or misnamed; charts: chart and dialog sheets anywhere among 1-3 worksheets; many: up to 300 sheets and 40000 styles, with relationship ids in order, reversed or differing in case only; formats: up to 65372 number formats with the ids up to 65535, each with a cell format, x 18 places of the one used; targets: absolute and relative references with dot segments and part names in other letter case, one or all. Oracle: the model package",
		Assumptions: []string{"sheets are visible (whether hidden xlsx sheets are listed is not specified)", "targets are normalised and not percent-encoded", "cell formats carry a number format id"},
		Harnesses: []engine.Harness{
			{Name: "layout", Run: c05Layout, Quick: 2, Thorough: 3},
			{Name: "broken", Run: c05Broken},
			{Name: "charts", Run: c05Charts},
			{Name: "many", Run: c05Many},
			{Name: "targets", Run: c05Targets},
			{Name: "formats", Run: c05Formats},
		},
	})
}

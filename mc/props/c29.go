package props

import (
	"archive/zip"
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"html"
	"regexp"
	"strings"
	"sync"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/xls"
	"github.com/pbnjay/grate/xlsx"

	"verif/mc/engine"
	"verif/mc/gen"
)

// ---- XML rewriting

type xtok struct {
	s     string
	kind  byte // '?' declaration or instruction, '<' start, '/' end, 'e' empty element, 't' text
	texty bool // lies within an element whose character data counts
}

var c29Tok = regexp.MustCompile(`<[^<>]*>|[^<>]+`)

func c29Tokens(s string) []xtok {
	var l []xtok
	var stack []string
	texty := func() bool {
		if len(stack) == 0 {
			return false
		}
		switch n := stack[len(stack)-1]; n {
		case "v", "t", "f":
			return true
		}
		return false
	}
	for _, m := range c29Tok.FindAllString(s, -1) {
		t := xtok{s: m}
		switch {
		case strings.HasPrefix(m, "<?"):
			t.kind = '?'
		case strings.HasPrefix(m, "</"):
			t.kind = '/'
			t.texty = texty()
			stack = stack[:len(stack)-1]
		case m[0] == '<':
			t.texty = texty()
			t.kind = '<'
			if strings.HasSuffix(m, "/>") {
				t.kind = 'e'
			} else {
				n := strings.Trim(m, "<>")
				if i := strings.IndexByte(n, ' '); i >= 0 {
					n = n[:i]
				}
				stack = append(stack, n)
			}
		default:
			t.kind = 't'
			t.texty = texty()
		}
		l = append(l, t)
	}
	return l
}

var c29Digits = regexp.MustCompile(`^[0-9]+$`)

var c29Attr = regexp.MustCompile(` ([A-Za-z0-9:]+)="([^"]*)"`)

// c29Tag takes a tag apart.
func c29Tag(s string) (name string, attrs [][2]string, end string) {
	end = ">"
	if strings.HasSuffix(s, "/>") {
		end = "/>"
	}
	body := strings.TrimSuffix(s[1:], end)
	i := strings.IndexByte(body, ' ')
	if i < 0 {
		return body, nil, end
	}
	for _, m := range c29Attr.FindAllStringSubmatch(body[i:], -1) {
		attrs = append(attrs, [2]string{m[1], m[2]})
	}
	return body[:i], attrs, end
}

func c29Join(name string, attrs [][2]string, end, q string) string {
	s := "<" + name
	for _, a := range attrs {
		s += " " + a[0] + "=" + q + a[1] + q
	}
	return s + end
}

// c29Refs writes every character of text as a character reference.
func c29Refs(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		if s[i] == '&' {
			j := strings.IndexByte(s[i:], ';')
			b.WriteString(s[i : i+j+1])
			i += j + 1
			continue
		}
		r := []rune(s[i:])[0]
		if i%2 == 0 {
			fmt.Fprintf(&b, "&#x%X;", r)
		} else {
			fmt.Fprintf(&b, "&#%d;", r)
		}
		i += len(string(r))
	}
	return b.String()
}

func c29Plain(s string) string { return html.UnescapeString(s) }

func c29Foreign(n string) string {
	return `<zz:` + n + ` xmlns:zz="urn:zz" ref="A1" r="A1" s="1" t="s">7<zz:x id="rId1" name="no">8</zz:x></zz:` + n + `>`
}

// the ways to write one token differently; "" is none for this token
var c29Kinds = []string{"attribute order", "quotes", "references in values", "spelling of booleans", "spelling of numbers", "unused attributes left out", "unused attributes of other values", "space in the tag", "foreign attribute", "foreign attributes of the same names", "declarations", "empty element", "comment", "instruction", "whitespace", "foreign element", "references in text", "character data section", "split by a comment", "split by an instruction", "half a section"}

func c29Rewrite(l []xtok, i int, kind string) (string, bool) {
	t := l[i]
	before, s, skip := "", t.s, 0
	tag := t.kind == '<' || t.kind == 'e'
	switch kind {
	case "attribute order", "quotes", "references in values":
		if !tag {
			return "", false
		}
		n, a, end := c29Tag(s)
		if len(a) == 0 {
			return "", false
		}
		q := `"`
		switch kind {
		case "attribute order":
			if len(a) < 2 {
				return "", false
			}
			for x, y := 0, len(a)-1; x < y; x, y = x+1, y-1 {
				a[x], a[y] = a[y], a[x]
			}
		case "quotes":
			q = "'"
		default:
			for k := range a {
				if !strings.HasPrefix(a[k][0], "xmlns") {
					a[k][1] = c29Refs(a[k][1])
				}
			}
		}
		s = c29Join(n, a, end, q)
	case "spelling of booleans", "spelling of numbers":
		if !tag {
			return "", false
		}
		n, a, end := c29Tag(s)
		done := false
		for k := range a {
			switch name, v := a[k][0], a[k][1]; {
			case kind == "spelling of booleans" && (name == "date1904" || strings.HasPrefix(name, "apply") || strings.HasPrefix(name, "custom")) && (v == "0" || v == "1"):
				a[k][1] = map[string]string{"0": "false", "1": "true"}[v]
				done = true
			case kind == "spelling of numbers" && (name == "s" || strings.HasSuffix(name, "Id") && name != "Id" || n == "row" && name == "r" || strings.HasSuffix(name, "ount")) && c29Digits.MatchString(v):
				a[k][1] = "00" + v
				done = true
			}
		}
		if !done {
			return "", false
		}
		s = c29Join(n, a, end, `"`)
	case "unused attributes left out", "unused attributes of other values":
		if !tag {
			return "", false
		}
		n, a, end := c29Tag(s)
		var b [][2]string
		done := false
		for _, x := range a {
			switch x[0] {
			case "count", "uniqueCount", "spans", "sheetId", "fontId", "fillId", "borderId", "builtinId", "activeTab", "sb", "eb", "ht", "customHeight":
				done = true
				if kind == "unused attributes left out" {
					continue
				}
				x[1] = map[bool]string{true: "7:9", false: "17"}[x[0] == "spans"]
			}
			b = append(b, x)
		}
		if !done {
			return "", false
		}
		s = c29Join(n, b, end, `"`)
	case "space in the tag":
		switch {
		case t.kind == '/':
			s = s[:len(s)-1] + " \n>"
		case tag:
			n, a, end := c29Tag(s)
			s = "<" + n
			for _, x := range a {
				s += "\n\t " + x[0] + " = \"" + x[1] + `"`
			}
			s += " \r\n" + end
		default:
			return "", false
		}
	case "foreign attribute":
		if !tag {
			return "", false
		}
		n, a, end := c29Tag(s)
		s = c29Join(n, append([][2]string{{"xmlns:zz", "urn:zz"}, {"zz:dyDescent", "0.25"}, {"zz:uid", "{0}"}}, a...), end, `"`)
	case "foreign attributes of the same names":
		if !tag {
			return "", false
		}
		n, a, end := c29Tag(s)
		// before the first and behind the last, those which are there and those which are not
		first, last := [][2]string{{"xmlns:zz", "urn:zz"}}, [][2]string{}
		used := map[string]bool{}
		for k, x := range a {
			x[0] = x[0][strings.IndexByte(x[0], ':')+1:]
			if strings.HasPrefix(a[k][0], "xmlns") || used[x[0]] {
				continue
			}
			used[x[0]] = true
			if v := [2]string{"zz:" + x[0], "2"}; k%2 == 0 {
				last = append(last, v)
			} else {
				first = append(first, v)
			}
		}
		for _, x := range []string{"t", "s", "r", "location", "TargetMode", "applyNumberFormat", "xfId", "date1904", "state"} {
			if !used[x] {
				last = append(last, [2]string{"zz:" + x, map[bool]string{true: "b", false: "1"}[x == "t"]})
			}
		}
		s = c29Join(n, append(append(first, a...), last...), end, `"`)
	case "declarations":
		if !tag || strings.Contains(s, "xmlns:r=") {
			return "", false
		}
		n, a, end := c29Tag(s)
		for _, x := range []string{"s", "t", "ref", "id", "name", "location", "count", "numFmtId"} {
			a = append(a, [2]string{"xmlns:" + x, "urn:" + x})
		}
		a = append(a, [2]string{"xmlns:r", strings.TrimSuffix(gen.RelNS, "/")})
		s = c29Join(n, a, end, `"`)
	case "empty element":
		switch {
		case t.kind == 'e':
			n, _, _ := c29Tag(s)
			s = strings.TrimSuffix(s, "/>") + "></" + n + ">"
		case t.kind == '<' && i+1 < len(l) && l[i+1].kind == '/':
			s = strings.TrimSuffix(s, ">") + "/>"
			skip = 1
		default:
			return "", false
		}
	case "comment":
		before = `<!-- <c r="A1"><v>9</v></c> <xf numFmtId="14"/> -->`
	case "instruction":
		before = `<?pi <v>9</v> ?>`
	case "whitespace", "foreign element":
		if t.kind == 't' || t.kind == '?' || t.texty || i == 0 || l[i-1].kind == '?' || l[i-1].kind == 't' && l[i-1].texty {
			return "", false
		}
		before = "\r\n \t"
		if kind == "foreign element" {
			if t.kind == '<' && i > 0 && len(l) > 0 && strings.Contains(t.s, "xmlns=") {
				return "", false // the root
			}
			before = c29Foreign("ext")
		}
	default: // of text
		if t.kind != 't' || !t.texty {
			return "", false
		}
		p := c29Plain(s)
		if strings.Contains(p, "]]>") || strings.Contains(p, "\r") {
			return "", false
		}
		r := []rune(p)
		a, b := string(r[:len(r)/2]), string(r[len(r)/2:])
		switch kind {
		case "references in text":
			s = c29Refs(s)
		case "character data section":
			s = "<![CDATA[" + p + "]]>"
		case "split by a comment":
			s = gen.Esc(a) + "<!-- 9 -->" + gen.Esc(b)
		case "split by an instruction":
			s = gen.Esc(a) + "<?v 9?>" + gen.Esc(b)
		case "half a section":
			s = gen.Esc(a) + "<![CDATA[" + b + "]]>"
		}
	}
	if (kind == "comment" || kind == "instruction") && (t.kind == '?' || i == 0) {
		return "", false
	}
	var o strings.Builder
	for k, x := range l {
		if k == i {
			o.WriteString(before + s)
			continue
		}
		if k > i && k <= i+skip {
			continue
		}
		o.WriteString(x.s)
	}
	return o.String(), true
}

// ---- the workbook

func c29Book() *gen.XLSX {
	x := c20XBook()
	x.Date1904 = "0"
	x.Sheets[0].Rows += gen.RowX(4, gen.C(4, 0, "str", 1, "<f>1</f>"+gen.V(" é<&> 9 ")), gen.C(4, 1, "", -1, "<v></v>"), gen.C(4, 2, "inlineStr", -1, "<is><r>"+gen.T("ri ")+"</r><r>"+gen.T("ch")+"</r></is>"))
	x.Sheets[0].Dim = "A1:D6"
	x.XFs = append(x.XFs, strings.Replace(gen.XFX(14), `applyNumberFormat="1"`, `applyNumberFormat="0"`, 1))
	x.Sheets[0].Rows += gen.RowX(5, gen.C(5, 0, "", len(x.XFs)-1, gen.V("41000")))
	x.Sheets[0].Rows = strings.Replace(x.Sheets[0].Rows, `<row r="1"`, `<row r="1" spans="1:4" ht="15" customHeight="1"`, 1)
	x.SST = append(x.SST, "<t></t>", gen.T(" a\n\tb "))
	x.Sheets[1].Rows = gen.RowX(0, gen.C(0, 0, "s", -1, gen.V("1")), gen.C(0, 1, "s", -1, gen.V("3")), gen.C(0, 2, "s", -1, gen.V("2")))
	x.Sheets[1].Dim = "A1:C1"
	x.Sheets = append(x.Sheets, gen.XSheet{Name: `T&"3'`, Dim: "A1"})
	return x
}

var (
	c29Once  sync.Once
	c29Parts []gen.XPart
	c29Toks  [][]xtok
	c29Want  string

	c29Once04 sync.Once
	c29Want04 string
)

func c29Dump(c *engine.Ctx, open func(string) (grate.Source, error), path, what string) string {
	var s string
	c.Guard(what, func() {
		src, err := open(path)
		if err != nil {
			s = "error " + err.Error()
			return
		}
		defer src.Close()
		s, err = dump(src)
		if err != nil {
			s += "error " + err.Error()
		}
		if h, ok := src.(hiddenLister); ok {
			n, err := h.ListHidden()
			s += fmt.Sprintf("hidden %q %v\n", n, err)
		}
	})
	c.Steps(1)
	return s
}

func c29Setup(c *engine.Ctx) {
	c29Parts = c29Book().Parts()
	for _, p := range c29Parts {
		l := c29Tokens(p.Data)
		s := ""
		for _, t := range l {
			s += t.s
		}
		if s != p.Data {
			panic("tokens of " + p.Name)
		}
		c29Toks = append(c29Toks, l)
	}
	c29Want = c29Dump(c, xlsx.Open, c.File("base.xlsx", gen.Zip(c29Parts, false)), "base")
	for _, s := range []string{`"One" "Two" "T&\"3'"`, `"1.5" "shared" "TRUE" "#N/A"`, `"in" "fs"`, `" é<&> 9 "`, `"ri ch"`, `"http://a.b/?c&d"`, "hyperlink", `" a\n\tb "`} {
		if !strings.Contains(c29Want, s) {
			panic("the base workbook does not show " + s + "\n" + c29Want)
		}
	}
}

func c29Check(c *engine.Ctx, what string, f []byte) {
	c.State(f)
	if got := c29Dump(c, xlsx.Open, c.File("f.xlsx", f), what); got != c29Want {
		c.Failf("%s: the workbook reads as\n%s\nbut as\n%s\nwhen written plainly", what, got, c29Want)
	}
	c.Outcome("same")
}

func c29Init(c *engine.Ctx) { c29Once.Do(func() { c29Setup(c) }) }

// every token of every part, written in every other way
func c29Place(c *engine.Ctx) {
	c29Init(c)
	i := 1 + c.Pick("part", len(c29Parts)-1)
	k := c29Kinds[c.Pick("kind", len(c29Kinds))]
	j := c.Pick("place", len(c29Toks[i]))
	s, ok := c29Rewrite(c29Toks[i], j, k)
	if !ok {
		c.Outcome("not applicable")
		return
	}
	if c.Thorough {
		// and a second place of the same part
		if k2 := c.Pick("second kind", len(c29Kinds)+1); k2 > 0 {
			l := c29Tokens2(s)
			if l == nil {
				return
			}
			s2, ok := c29Rewrite(l, c.Pick("second place", len(l)), c29Kinds[k2-1])
			if !ok {
				return
			}
			s = s2
		}
	}
	parts := append([]gen.XPart(nil), c29Parts...)
	parts[i].Data = s
	c29Check(c, fmt.Sprintf("%s, %s at token %d %q", parts[i].Name, k, j, c29Toks[i][j].s), gen.Zip(parts, false))
}

// c29Tokens2 takes rewritten parts apart, if they are still simple enough.
func c29Tokens2(s string) []xtok {
	if strings.Contains(s, "<!") || strings.Contains(s, "<?pi") || strings.Contains(s, "<?v") || strings.Contains(s, "'") || strings.Contains(s, " = ") || strings.Contains(s, "\n>") || strings.Contains(s, "\n/>") || strings.Contains(s, "zz:") {
		return nil
	}
	return c29Tokens(s)
}

// whole parts written in every combination of other ways
func c29Whole(c *engine.Ctx) {
	c29Init(c)
	only := c.Pick("part", len(c29Parts)) // 0: all of them
	flags := 0
	names := []string{"mark", "no declaration", "attribute order", "quotes", "empty elements", "layout", "prefix", "relationship prefix", "comments around", "references"}
	var what []string
	for b, n := range names {
		if c.Bool(n) {
			flags |= 1 << b
			what = append(what, n)
		}
	}
	parts := append([]gen.XPart(nil), c29Parts...)
	for i := 1; i < len(parts); i++ {
		if only != 0 && only != i {
			continue
		}
		parts[i].Data = c29WholePart(c29Toks[i], flags, strings.HasSuffix(parts[i].Name, ".rels"))
	}
	c29Check(c, fmt.Sprint(what, " part ", only), gen.Zip(parts, false))
}

func c29WholePart(l []xtok, flags int, rels bool) string {
	has := func(b int) bool { return flags&(1<<b) != 0 }
	var o strings.Builder
	if has(0) {
		o.WriteString("\xEF\xBB\xBF")
	}
	depth := 0
	for i, t := range l {
		s := t.s
		switch t.kind {
		case '?':
			if has(1) {
				continue
			}
			if has(3) {
				s = "<?xml version='1.0' encoding='utf-8'?>"
			}
		case 't':
			if t.texty && has(9) {
				s = c29Refs(s)
			}
			if !t.texty && strings.TrimSpace(s) == "" && has(1) {
				continue
			}
		case '/':
			depth--
			n := s[2 : len(s)-1]
			if has(6) {
				n = "pq:" + n
			}
			s = "</" + n + ">"
			if has(5) && !t.texty && l[i-1].kind != 't' {
				s = "\r\n" + strings.Repeat("\t", depth) + s
			}
		default:
			n, a, end := c29Tag(s)
			root := strings.Contains(s, `xmlns="`)
			for k := range a {
				if has(6) && a[k][0] == "xmlns" {
					a[k][0] = "xmlns:pq"
				}
				if has(7) {
					a[k][0] = strings.Replace(a[k][0], "xmlns:r", "xmlns:rel", 1)
					a[k][0] = strings.Replace(a[k][0], "r:id", "rel:id", 1)
				}
				if has(9) && !strings.HasPrefix(a[k][0], "xmlns") {
					a[k][1] = c29Refs(a[k][1])
				}
			}
			if has(2) {
				for x, y := 0, len(a)-1; x < y; x, y = x+1, y-1 {
					a[x], a[y] = a[y], a[x]
				}
			}
			q := `"`
			if has(3) {
				q = "'"
			}
			if has(6) {
				n = "pq:" + n
			}
			if has(4) && end == "/>" {
				end = "></" + n + ">"
			}
			s = c29Join(n, a, end, q)
			if has(8) && root {
				s = "<!-- <sheet/> -->\n<?pi?>" + s + "<!-- first -->"
			}
			if has(5) && !t.texty && depth > 0 {
				s = "\r\n" + strings.Repeat("\t", depth) + s
			}
			if t.kind == '<' {
				depth++
			}
		}
		o.WriteString(s)
	}
	if has(8) {
		o.WriteString("\n<!-- last -->\n")
	}
	return o.String()
}

// the archive packed differently
func c29Archive(c *engine.Ctx) {
	c29Init(c)
	n := len(c29Parts)
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	switch c.Pick("order", 3) {
	case 1: // rotated
		k := c.Pick("by", n)
		for i := range order {
			order[i] = (i + k) % n
		}
		if c.Pick("reversed", 2) == 1 {
			for x, y := 0, n-1; x < y; x, y = x+1, y-1 {
				order[x], order[y] = order[y], order[x]
			}
		}
	case 2: // two parts exchanged
		a := c.Pick("first", n-1)
		b := a + 1 + c.Pick("second", n-1-a)
		order[a], order[b] = order[b], order[a]
	}
	method := c.Pick("method", 3) // stored, deflated, mixed
	dirs := c.Pick("directories", 3)
	comment := c.Bool("comment")
	extra := c.Bool("extra field")
	raw := c.Bool("sizes in the header")
	var buf bytes.Buffer
	w := zip.NewWriter(&buf)
	if comment {
		w.SetComment("a comment of the archive")
	}
	put := func(name, data string, m uint16) {
		h := &zip.FileHeader{Name: name, Method: m}
		if extra {
			h.Extra = []byte{0xFE, 0xCA, 4, 0, 'P', 'K', 1, 2}
			h.Comment = "part"
		}
		if raw && m == zip.Store {
			h.CRC32 = c29Crc([]byte(data))
			h.CompressedSize64, h.UncompressedSize64 = uint64(len(data)), uint64(len(data))
			f, err := w.CreateRaw(h)
			if err != nil {
				panic(err)
			}
			f.Write([]byte(data))
			return
		}
		f, err := w.CreateHeader(h)
		if err != nil {
			panic(err)
		}
		f.Write([]byte(data))
	}
	names := []string{"_rels/", "xl/", "xl/_rels/", "xl/worksheets/", "xl/worksheets/_rels/"}
	if dirs == 1 {
		for _, d := range names {
			put(d, "", zip.Store)
		}
	}
	for k, i := range order {
		m := zip.Store
		if method == 1 || method == 2 && k%2 == 0 {
			m = zip.Deflate
		}
		put(c29Parts[i].Name, c29Parts[i].Data, m)
	}
	if dirs == 2 {
		for _, d := range names {
			put(d, "", zip.Store)
		}
	}
	w.Close()
	c29Check(c, fmt.Sprintf("order %v method %d directories %d comment %v extra %v sizes %v", order, method, dirs, comment, extra, raw), buf.Bytes())
}

// ---- elements of a package which hold no cell, text, format, sheet or link

const c29NS = ` xmlns:mc="http://schemas.openxmlformats.org/markup-compatibility/2006" xmlns:x14="http://schemas.microsoft.com/office/spreadsheetml/2009/9/main" xmlns:x15="http://schemas.microsoft.com/office/spreadsheetml/2010/11/main" xmlns:xm="http://schemas.microsoft.com/office/excel/2006/main" xmlns:xdr="http://schemas.openxmlformats.org/drawingml/2006/spreadsheetDrawing"`

type c29Ext struct{ part, before, xml string } // before: the text of the part before which it stands

var c29Exts = []c29Ext{
	{"xl/workbook.xml", "<bookViews>", `<mc:AlternateContent><mc:Choice Requires="x15"><x15ac:absPath url="C:\x\" xmlns:x15ac="http://schemas.microsoft.com/office/spreadsheetml/2010/11/ac"/></mc:Choice></mc:AlternateContent>`},
	{"xl/workbook.xml", "<sheets>", `<xr:revisionPtr revIDLastSave="0" documentId="8_{0}" xmlns:xr="urn:xr"/><workbookProtection lockStructure="1"/>`},
	{"xl/workbook.xml", "</workbook>", `<functionGroups builtInGroupCount="18"/><definedNames><definedName name="id" localSheetId="0">One!$A$1</definedName></definedNames><calcPr calcId="191029"/>`},
	{"xl/workbook.xml", "</workbook>", `<customWorkbookViews><customWorkbookView name="Two" guid="{0}" id="rId1"/></customWorkbookViews><pivotCaches><pivotCache cacheId="1" r:id="rId1"/></pivotCaches>`},
	{"xl/workbook.xml", "</workbook>", `<extLst><ext uri="{140A7094-0E35-4892-8432-C4D2E57EDEB5}"><x15:workbookPr chartTrackingRefBase="1"/></ext></extLst>`},
	{"xl/workbook.xml", "</workbook>", `<extLst><ext uri="{79F54976-1DA5-4618-B147-4CDE4B953A38}"><x14:workbookPr defaultImageDpi="32767"/></ext></extLst>`},
	{"xl/worksheets/sheet1.xml", "<dimension", `<sheetPr codeName="S"><tabColor rgb="FF00FF00"/><outlinePr summaryBelow="0"/></sheetPr>`},
	{"xl/worksheets/sheet1.xml", "<sheetData>", `<sheetViews><sheetView workbookViewId="0" topLeftCell="B2"><pane ySplit="1" topLeftCell="A2"/><selection activeCell="C3" sqref="C3"/></sheetView></sheetViews><sheetFormatPr defaultRowHeight="15"/><cols><col min="1" max="2" style="1" hidden="1"/></cols>`},
	{"xl/worksheets/sheet1.xml", "</row>", `<extLst><ext uri="{0}"><x14:w/></ext></extLst>`},
	{"xl/worksheets/sheet1.xml", "</c>", `<extLst><ext uri="{0}"><x14:w ref="A1" r="B2">5</x14:w></ext></extLst>`},
	{"xl/worksheets/sheet1.xml", "<mergeCells", `<sheetCalcPr/><sheetProtection sheet="1"/><protectedRanges><protectedRange name="p" sqref="A1:B2"/></protectedRanges><scenarios><scenario name="s"><inputCells r="A1" val="7"/></scenario></scenarios><autoFilter ref="A1:B3"><filterColumn colId="0"><filters><filter val="x"/></filters></filterColumn></autoFilter><sortState ref="A2:B3"><sortCondition ref="A2"/></sortState><customSheetViews><customSheetView guid="{0}"><selection sqref="A1"/></customSheetView></customSheetViews>`},
	{"xl/worksheets/sheet1.xml", "<hyperlinks>", `<phoneticPr fontId="1"/><conditionalFormatting sqref="A1"><cfRule type="cellIs" dxfId="0" priority="1"><formula>9</formula></cfRule></conditionalFormatting><dataValidations count="1"><dataValidation sqref="A1"><formula1>"a,b"</formula1></dataValidation></dataValidations>`},
	{"xl/worksheets/sheet1.xml", "</worksheet>", `<printOptions/><pageMargins left="0.7"/><pageSetup r:id="rId9"/><headerFooter><oddHeader>head</oddHeader></headerFooter><rowBreaks count="1"><brk id="2" max="9"/></rowBreaks><colBreaks count="1"><brk id="1"/></colBreaks><cellWatches><cellWatch r="A1"/></cellWatches><ignoredErrors><ignoredError sqref="A1"/></ignoredErrors><drawing r:id="rId9"/><legacyDrawing r:id="rId8"/>`},
	{"xl/worksheets/sheet1.xml", "</worksheet>", `<mc:AlternateContent><mc:Choice Requires="x14"><controls><mc:AlternateContent><mc:Choice Requires="x14"><control shapeId="1" r:id="rId7" name="b"><controlPr><anchor><from><xdr:col>1</xdr:col><xdr:colOff>0</xdr:colOff><xdr:row>3</xdr:row><xdr:rowOff>0</xdr:rowOff></from><to><xdr:col>2</xdr:col><xdr:row>4</xdr:row></to></anchor></controlPr></control></mc:Choice></mc:AlternateContent></controls></mc:Choice></mc:AlternateContent><tableParts count="1"><tablePart r:id="rId6"/></tableParts>`},
	{"xl/worksheets/sheet1.xml", "</worksheet>", `<extLst><ext uri="{78C0D931-6437-407d-A8EE-F0AAD7539E65}"><x14:conditionalFormattings><x14:conditionalFormatting><x14:cfRule type="expression"><xm:f>A1</xm:f></x14:cfRule><xm:sqref>A1:B2</xm:sqref></x14:conditionalFormatting></x14:conditionalFormattings><x14:sparklineGroups><x14:sparklineGroup><x14:sparklines><x14:sparkline><xm:f>One!A1:B1</xm:f><xm:sqref>C1</xm:sqref></x14:sparkline></x14:sparklines></x14:sparklineGroup></x14:sparklineGroups></ext></extLst>`},
	{"xl/styles.xml", "<cellStyleXfs", `<fills count="1"><fill><patternFill patternType="none"/></fill></fills><borders count="1"><border><left/></border></borders>`},
	{"xl/styles.xml", "</dxfs>", `<dxf><numFmt numFmtId="164" formatCode="000"/><alignment/></dxf><dxf><numFmt numFmtId="2" formatCode="@"/></dxf>`},
	{"xl/styles.xml", "</styleSheet>", `<tableStyles count="1"><tableStyle name="t" count="1"><tableStyleElement type="wholeTable" dxfId="0"/></tableStyle></tableStyles><colors><indexedColors><rgbColor rgb="0"/></indexedColors></colors><extLst><ext uri="{0}"><x14:dxfs count="1"><x14:dxf/></x14:dxfs><x15:timelineStyles/></ext></extLst>`},
	{"xl/sharedStrings.xml", "</si>", `<phoneticPr fontId="1" type="noConversion"/>`},
	{"xl/sharedStrings.xml", "</sst>", `<extLst><ext uri="{0}"><x14:w>text</x14:w></ext></extLst>`},
	{"xl/_rels/workbook.xml.rels", "</Relationships>", `<Relationship Id="rId77" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/theme" Target="theme/theme1.xml"/><Relationship Id="rId78" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/externalLink" Target="externalLinks/externalLink1.xml"/>`},
	{"_rels/.rels", "</Relationships>", `<Relationship Id="rId77" Type="http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties" Target="docProps/core.xml"/><Relationship Id="rId78" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/extended-properties" Target="docProps/app.xml"/>`},
	{"xl/worksheets/_rels/sheet1.xml.rels", "</Relationships>", `<Relationship Id="rId77" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/drawing" Target="../drawings/drawing1.xml"/><Relationship Id="rId78" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/comments" Target="../comments1.xml"/>`},
}

// c29Extend puts the elements in; where a text repeats, before each of them,
// or before one of them.
func c29Extend(parts []gen.XPart, e c29Ext, at int) bool {
	for i := range parts {
		if parts[i].Name != e.part {
			continue
		}
		l := strings.Split(parts[i].Data, e.before)
		if len(l) < 2 || at >= len(l) {
			return false
		}
		s := l[0]
		for k := 1; k < len(l); k++ {
			if at == 0 || at == k {
				s += e.xml
			}
			s += e.before + l[k]
		}
		for _, root := range []string{"<workbook ", "<worksheet ", "<styleSheet ", "<sst "} {
			if !strings.Contains(s, "xmlns:x14=") {
				s = strings.Replace(s, root, root[:len(root)-1]+c29NS+" ", 1)
			}
			if root != "<sst " && !strings.Contains(s, "xmlns:r=") && strings.Contains(s, "r:id") {
				s = strings.Replace(s, root, root+`xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" `, 1)
			}
		}
		parts[i].Data = s
		return true
	}
	panic("no part " + e.part)
}

func c29Extensions(c *engine.Ctx) {
	c29Init(c)
	mode := c.Pick("1904", 2)
	a := c.Pick("first", len(c29Exts)+1)
	parts := append([]gen.XPart(nil), c29Parts...)
	want := c29Want
	if mode == 1 {
		for i := range parts {
			parts[i].Data = strings.Replace(parts[i].Data, `date1904="0"`, `date1904="1"`, 1)
		}
		c29Once04.Do(func() {
			c29Want04 = c29Dump(c, xlsx.Open, c.File("base04.xlsx", gen.Zip(parts, false)), "base")
			if c29Want04 == c29Want {
				panic("the base workbook does not depend on its date system")
			}
		})
		want = c29Want04
	}
	what := "every element"
	if a == len(c29Exts) {
		for _, e := range c29Exts {
			if !c29Extend(parts, e, 0) {
				panic("no place for " + e.xml)
			}
		}
	} else {
		if !c29Extend(parts, c29Exts[a], c.Pick("place", 6)) {
			return
		}
		what = c29Exts[a].xml
		if b := a + c.Pick("second", len(c29Exts)-a); b > a {
			c29Extend(parts, c29Exts[b], 0)
			what += " and " + c29Exts[b].xml
		}
	}
	f := gen.Zip(parts, false)
	c.State(f)
	if got := c29Dump(c, xlsx.Open, c.File("f.xlsx", f), what); got != want {
		c.Failf("%s: the workbook reads as\n%s\nbut as\n%s\nwithout", what, got, want)
	}
	c.Outcome("same")
}

// ---- records of an xls stream

// record types which carry cells, text, formats, sheets or structure, or did
// so in earlier versions of the format
var c29Meaning = map[int]bool{0x00: true, 0x01: true, 0x02: true, 0x03: true, 0x04: true, 0x05: true, 0x06: true, 0x07: true, 0x08: true, 0x09: true, 0x0A: true,
	0x1E: true, 0x21: true, 0x22: true, 0x2F: true, 0x3C: true, 0x42: true, 0x43: true, 0x81: true, 0x85: true, 0xBD: true, 0xBE: true, 0xD6: true, 0xE0: true, 0xE5: true, 0xFC: true, 0xFD: true,
	0x1B8: true, 0x200: true, 0x201: true, 0x203: true, 0x204: true, 0x205: true, 0x206: true, 0x207: true, 0x208: true, 0x209: true, 0x221: true, 0x236: true, 0x243: true, 0x27E: true,
	0x406: true, 0x409: true, 0x41E: true, 0x443: true, 0x4BC: true, 0x809: true, 0x8E2: true}

var (
	c29XOnce  sync.Once
	c29Recs   []gen.Rec
	c29XWant  string
	c29Inside []bool // an ignorable record may stand before record i
)

func c29XSetup(c *engine.Ctx) {
	c20Once.Do(c20Setup)
	c29Recs = c20Bases[0].recs
	c29Inside = make([]bool, len(c29Recs))
	depth := 0
	for i, r := range c29Recs {
		c29Inside[i] = depth > 0 && r.T != gen.TContinue && r.T != gen.TString
		switch r.T {
		case gen.TBOF:
			depth++
		case gen.TEOF:
			depth--
		}
	}
	c29XWant = c29Dump(c, xls.Open, c.File("base.xls", c29Stream(-1, nil)), "base")
	for _, s := range []string{`"One" "Δύο"`, `hidden ["hid"]`, "http://x.y/", `"text"`, `"abcd"`} {
		if !strings.Contains(c29XWant, s) {
			panic("the base workbook does not show " + s + "\n" + c29XWant)
		}
	}
}

// c29Stream is the workbook with records put in before record i.
func c29Stream(i int, add []gen.Rec) []byte {
	var l []gen.Rec
	bof := map[int]int{} // old position to new
	var dirs []int
	o, n := 0, 0
	for k, r := range c29Recs {
		if k == i {
			for _, a := range add {
				l = append(l, a)
				n += 4 + len(a.D)
			}
		}
		bof[o] = n
		if r.T == gen.TBoundSheet {
			dirs = append(dirs, len(l))
			r.D = append([]byte(nil), r.D...)
		}
		l = append(l, r)
		o += 4 + len(r.D)
		n += 4 + len(r.D)
	}
	for _, d := range dirs {
		p, ok := bof[int(binary.LittleEndian.Uint32(l[d].D))]
		if !ok {
			panic("sheet position")
		}
		binary.LittleEndian.PutUint32(l[d].D, uint32(p))
	}
	return gen.XLSFile(gen.RecBytes(l))
}

func c29XCheck(c *engine.Ctx, what string, f []byte) {
	c.State(f)
	if got := c29Dump(c, xls.Open, c.File("f.xls", f), what); got != c29XWant {
		c.Failf("%s: the workbook reads as\n%s\nbut as\n%s\nwithout it", what, got, c29XWant)
	}
	c.Outcome("same")
}

func c29XInit(c *engine.Ctx) { c29XOnce.Do(func() { c29XSetup(c) }) }

// records without content at every place
func c29Records(c *engine.Ctx) {
	c29XInit(c)
	full := make([]byte, 8224)
	for i := range full {
		full[i] = byte(i * 7)
	}
	menu := [][]gen.Rec{
		{{T: gen.TFont, D: full[:20]}}, {{T: gen.TStyle, D: full[:4]}}, {{T: gen.TWindow1, D: full[:18]}}, {{T: gen.TWindow2, D: full[:18]}},
		{{T: gen.TDBCell, D: full[:8]}}, {{T: gen.TIndex, D: full[:20]}}, {{T: gen.TNote, D: full[:12]}}, {{T: gen.TColInfo, D: full[:12]}},
		{{T: gen.TObj, D: full[:26]}}, {{T: gen.TTxo, D: full[:18]}, {T: gen.TContinue, D: append([]byte{0}, "note text"...)}, {T: gen.TContinue, D: full[:16]}},
		{{T: 0xEC, D: full}, {T: gen.TContinue, D: full}, {T: gen.TContinue, D: full[:100]}}, // drawings
		{{T: 0x863, D: full[:64]}, {T: 0x87F, D: full[:64]}},                                 // extensions and their own continuation
		{{T: gen.TExtSST, D: full[:10]}}, {{T: 0x55, D: full[:2]}}, {{T: 0x0D, D: nil}}, {{T: 0xFFFE, D: full[:300]}},
	}
	i := c.Pick("before", len(c29Recs))
	k := c.Pick("record", len(menu))
	if !c29Inside[i] {
		return
	}
	add := menu[k]
	if c.Pick("twice", 2) == 1 {
		add = append(append([]gen.Rec(nil), add...), menu[(k+3)%len(menu)]...)
	}
	// a note's or drawing's continuation would be taken for one of the string table
	c29XCheck(c, fmt.Sprintf("record %#x (and %d more) before record %d (%#x)", add[0].T, len(add)-1, i, c29Recs[i].T), c29Stream(i, add))
}

// c29Unused is what of a record says nothing about cells, texts, formats and sheets.
func c29Unused(r gen.Rec) []int {
	span := func(a, b int) (l []int) {
		for ; a < b && a < len(r.D); a++ {
			l = append(l, a)
		}
		return l
	}
	switch r.T {
	case gen.TBOF: // the build of the program and the history of the file
		return append(span(4, 6), span(8, 16)...)
	case gen.TXF: // all but the number format
		return append(span(0, 2), span(4, 20)...)
	case gen.TSST: // the number of cells with texts
		return span(0, 4)
	case gen.TFormula: // options and the formula itself
		l := span(14, len(r.D))
		if r.D[12] == 0xFF && r.D[13] == 0xFF {
			l = append(l, 7, 9, 10, 11)
			if r.D[6] == 0 || r.D[6] == 3 {
				l = append(l, 8)
			}
		}
		return l
	case gen.TDimensions: // where cells begin
		return append(append(span(0, 2), span(8, 9)...), span(12, 14)...)
	case gen.TRow, gen.TBlank, 0x42:
		return span(0, len(r.D))
	case gen.TMulBlank:
		return span(4, len(r.D)-2)
	}
	return nil
}

// every value of every byte which says nothing
func c29Fields(c *engine.Ctx) {
	c29XInit(c)
	i := c.Pick("record", len(c29Recs))
	u := c29Unused(c29Recs[i])
	if c29Recs[i].T == gen.TBOF {
		u = append(u, 6)
	}
	if len(u) == 0 {
		return
	}
	k := u[c.Pick("field", len(u))]
	v := c.Pick("value", 256)
	if c29Recs[i].T == gen.TBOF && k == 6 && v&^1 != 0xCC {
		return // the year is one of two
	}
	r := c29Recs[i]
	r.D = append([]byte(nil), r.D...)
	r.D[k] = byte(v)
	l := append([]gen.Rec(nil), c29Recs...)
	l[i] = r
	c29XCheck(c, fmt.Sprintf("byte %d of record %d (%#x) is %#x instead of %#x", k, i, r.T, v, c29Recs[i].D[k]), gen.XLSFile(gen.RecBytes(l)))
}

// between a formula and its text
func c29Formula(c *engine.Ctx) {
	c29XInit(c)
	var at []int
	for i, r := range c29Recs {
		if r.T == gen.TString {
			at = append(at, i)
		}
	}
	body := make([]byte, 40)
	for i := range body {
		body[i] = byte(i)
	}
	i := at[c.Pick("formula", len(at))]
	var add []gen.Rec
	for n := c.Pick("records", 3); n >= 0; n-- {
		add = append(add, gen.Rec{T: []uint16{gen.TShrFmla, gen.TArray, 0x236}[c.Pick("type", 3)], D: body[:[]int{12, 20, 40}[c.Pick("size", 3)]]})
		if c.Pick("continued", 2) == 1 {
			add = append(add, gen.Rec{T: gen.TContinue, D: body})
		}
	}
	c29XCheck(c, fmt.Sprintf("%d records from %#x on before text record %d", len(add), add[0].T, i), c29Stream(i, add))
}

// every type of record which is not known to mean anything
func c29Types(c *engine.Ctx) {
	c29XInit(c)
	typ := c.Pick("high", 256)<<8 | c.Pick("low", 256)
	if c29Meaning[typ] {
		return
	}
	var places []int // the end of the globals, in the first sheet, in the second
	for i, r := range c29Recs {
		if r.T == gen.TEOF || r.T == gen.TRK {
			places = append(places, i)
		}
	}
	i := places[c.Pick("place", 3)]
	d := bytes.Repeat([]byte{0xFF}, 20)
	if c.Pick("payload", 2) == 1 {
		d = make([]byte, 20)
	}
	c29XCheck(c, fmt.Sprintf("record %#x before record %d (%#x)", typ, i, c29Recs[i].T), c29Stream(i, []gen.Rec{{T: uint16(typ), D: d}}))
}

func init() {
	engine.Register(&engine.Property{
		ID: "C29", Level: "model_checking",
		Rule: "place: every token of every part of a package x 21 ways to write it differently (thorough: followed by a second rewriting anywhere in the part); whole: every combination of 10 ways to write a whole part, for each part and for all of them; archive: rotations, reversals and exchanges of the parts x compression x directory entries x comments, extra fields and headers with sizes; extensions: 23 groups of elements without content at each of their places, pairs and all of them x both date systems; records: 16 records without content (and pairs) before every record of a workbook; fields: every value of every unused or optional byte of its records; formula: up to three shared, array or table formula records between a formula and its text; types: every record type without a meaning at three places. Oracle: what the plain file shows",
		Assumptions: []string{"parts are UTF-8; elements of foreign namespaces share the names of main elements only where writers are known to do so",
			"record types which carried cells in earlier versions of the format are left out"},
		Harnesses: []engine.Harness{
			{Name: "place", Run: c29Place},
			{Name: "whole", Run: c29Whole, Quick: 10, Thorough: 10},
			{Name: "archive", Run: c29Archive, Quick: 3, Thorough: 3},
			{Name: "extensions", Run: c29Extensions},
			{Name: "records", Run: c29Records},
			{Name: "fields", Run: c29Fields},
			{Name: "formula", Run: c29Formula},
			{Name: "types", Run: c29Types},
		},
	})
}

func c29Crc(b []byte) uint32 { return crc32.ChecksumIEEE(b) }

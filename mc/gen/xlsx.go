package gen

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"fmt"
	"strings"
)

// XPart is a file in a package.
type XPart struct{ Name, Data string }

// XRel is a relationship.
type XRel struct {
	ID, Type, Target string
	External         bool
}

const (
	RelNS     = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/"
	RelDoc    = RelNS + "officeDocument"
	RelSheet  = RelNS + "worksheet"
	RelStyles = RelNS + "styles"
	RelSST    = RelNS + "sharedStrings"
	RelTheme  = RelNS + "theme"
	RelLink   = RelNS + "hyperlink"
	RelDraw   = RelNS + "drawing"
)

const xmlHead = `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>` + "\r\n"
const mainNS = `xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships"`

// Esc escapes text for XML.
func Esc(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

// Rels renders a relationship part.
func Rels(rs []XRel) string {
	var b strings.Builder
	b.WriteString(xmlHead + `<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">`)
	for _, r := range rs {
		m := ""
		if r.External {
			m = ` TargetMode="External"`
		}
		fmt.Fprintf(&b, `<Relationship Id="%s" Type="%s" Target="%s"%s/>`, r.ID, r.Type, Esc(r.Target), m)
	}
	b.WriteString(`</Relationships>`)
	return b.String()
}

// XSheet is a worksheet.
type XSheet struct {
	Name  string
	State string // "", hidden, veryHidden
	Dim   string // dimension reference, "" for none
	Rows  string // content of sheetData
	Tail  string // what follows sheetData
	Rels  []XRel
	ID    string // relationship id, default rIdN
	Path  string // part name, default xl/worksheets/sheetN.xml
	XML   string // the complete part, instead of the above
	Lost  bool   // the part is left out of the package
	Type  string // relationship type, default RelSheet
}

// XLSX is a workbook package model.
type XLSX struct {
	Sheets   []XSheet
	SST      []string // content of each si element
	NoSST    bool
	NumFmts  [][2]string
	XFs      []string // xf elements; if nil a single general one
	BaseXFs  []string
	Styles   string // the complete styles part
	Date1904 string // value of the date1904 attribute
	DirOrder []int  // order in the workbook

	WBPath, StylesPath, SSTPath string
	AbsRoot, AbsTargets         bool
	Prefix                      string // namespace prefix of the spreadsheet parts
	PartOrder                   []int  // order of the parts in the archive
	RelOrder                    []int  // order of the workbook's relationships
	ExtraRels                   []XRel
	Extra                       []XPart
	Deflate                     bool
	WBExtra                     string // after the sheet directory
}

// Ref is an A1 reference (0-based row and column).
func Ref(r, c int) string {
	s := ""
	for c++; c > 0; c = (c - 1) / 26 {
		s = string(rune('A'+(c-1)%26)) + s
	}
	return fmt.Sprint(s, r+1)
}

// C renders a cell element.
func C(r, c int, typ string, style int, inner string) string {
	a := ""
	if style >= 0 {
		a += fmt.Sprintf(` s="%d"`, style)
	}
	if typ != "" {
		a += ` t="` + typ + `"`
	}
	if inner == "" {
		return fmt.Sprintf(`<c r="%s"%s/>`, Ref(r, c), a)
	}
	return fmt.Sprintf(`<c r="%s"%s>%s</c>`, Ref(r, c), a, inner)
}

// V renders a value element.
func V(s string) string { return "<v>" + Esc(s) + "</v>" }

// T renders a text element.
func T(s string) string {
	sp := ""
	if strings.TrimSpace(s) != s {
		sp = ` xml:space="preserve"`
	}
	return "<t" + sp + ">" + Esc(s) + "</t>"
}

// RowX renders a row element.
func RowX(r int, cells ...string) string {
	return fmt.Sprintf(`<row r="%d">%s</row>`, r+1, strings.Join(cells, ""))
}

// XF renders a cell format.
func XFX(fmtID int) string {
	return fmt.Sprintf(`<xf numFmtId="%d" fontId="0" fillId="0" borderId="0" xfId="0" applyNumberFormat="1"/>`, fmtID)
}

func dirname(p string) string {
	i := strings.LastIndexByte(p, '/')
	return p[:i+1]
}

// rel makes a relative target from a part to another.
func relTarget(from, to string) string {
	d := dirname(from)
	up := ""
	for !strings.HasPrefix(to, d) {
		d = dirname(strings.TrimSuffix(d, "/"))
		up += "../"
	}
	return up + to[len(d):]
}

// RelsName is the name of the relationship part of a part.
func RelsName(p string) string {
	d := dirname(p)
	return d + "_rels/" + p[len(d):] + ".rels"
}

// Worksheet renders a worksheet part.
func (s *XSheet) Worksheet() string {
	if s.XML != "" {
		return s.XML
	}
	var b strings.Builder
	b.WriteString(xmlHead + `<worksheet ` + mainNS + `>`)
	if s.Dim != "" {
		fmt.Fprintf(&b, `<dimension ref="%s"/>`, s.Dim)
	}
	b.WriteString(`<sheetViews><sheetView workbookViewId="0"/></sheetViews><sheetFormatPr defaultRowHeight="15"/><sheetData>`)
	b.WriteString(s.Rows)
	b.WriteString(`</sheetData>`)
	b.WriteString(s.Tail)
	b.WriteString(`</worksheet>`)
	return b.String()
}

// Parts of the package, in the default order.
func (x *XLSX) Parts() []XPart {
	wb := x.WBPath
	if wb == "" {
		wb = "xl/workbook.xml"
	}
	base := dirname(wb)
	target := func(p string) string {
		if x.AbsTargets {
			return "/" + p
		}
		return relTarget(wb, p)
	}
	root := wb
	if x.AbsRoot {
		root = "/" + wb
	}
	parts := []XPart{
		{"[Content_Types].xml", xmlHead + `<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/><Default Extension="xml" ContentType="application/xml"/></Types>`},
		{"_rels/.rels", Rels([]XRel{
			{ID: "rId3", Type: RelNS + "extended-properties", Target: "docProps/app.xml"},
			{ID: "rId1", Type: RelDoc, Target: root},
			{ID: "rId2", Type: "http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties", Target: "docProps/core.xml"}})},
	}
	var rels []XRel
	var sheetParts []XPart
	dir := x.DirOrder
	if dir == nil {
		dir = ident(len(x.Sheets))
	}
	entries := make([]string, len(x.Sheets))
	for i := range x.Sheets {
		s := &x.Sheets[i]
		id, p := s.ID, s.Path
		if id == "" {
			id = fmt.Sprintf("rId%d", i+1)
		}
		if p == "" {
			p = fmt.Sprintf("%sworksheets/sheet%d.xml", base, i+1)
		}
		st := ""
		if s.State != "" {
			st = ` state="` + s.State + `"`
		}
		entries[i] = fmt.Sprintf(`<sheet name="%s" sheetId="%d"%s r:id="%s"/>`, Esc(s.Name), i+11, st, id)
		rt := s.Type
		if rt == "" {
			rt = RelSheet
		}
		rels = append(rels, XRel{ID: id, Type: rt, Target: target(p)})
		if !s.Lost {
			sheetParts = append(sheetParts, XPart{p, s.Worksheet()})
			if s.Rels != nil {
				sheetParts = append(sheetParts, XPart{RelsName(p), Rels(s.Rels)})
			}
		}
	}
	var sheets string
	for _, i := range dir {
		sheets += entries[i]
	}
	wbpr := ""
	if x.Date1904 != "" {
		wbpr = `<workbookPr date1904="` + x.Date1904 + `"/>`
	}
	wbx := xmlHead + `<workbook ` + mainNS + `><fileVersion appName="xl"/>` + wbpr + `<bookViews><workbookView/></bookViews><sheets>` + sheets + `</sheets>` + x.WBExtra + `</workbook>`
	sp := x.StylesPath
	if sp == "" {
		sp = base + "styles.xml"
	}
	styles := x.Styles
	if styles == "" {
		var b strings.Builder
		b.WriteString(xmlHead + `<styleSheet ` + mainNS + `>`)
		if len(x.NumFmts) > 0 {
			fmt.Fprintf(&b, `<numFmts count="%d">`, len(x.NumFmts))
			for _, f := range x.NumFmts {
				fmt.Fprintf(&b, `<numFmt numFmtId="%s" formatCode="%s"/>`, f[0], Esc(f[1]))
			}
			b.WriteString(`</numFmts>`)
		}
		b.WriteString(`<fonts count="1"><font><sz val="11"/></font></fonts>`)
		bx := x.BaseXFs
		if bx == nil {
			bx = []string{`<xf numFmtId="0" fontId="0" fillId="0" borderId="0"/>`}
		}
		fmt.Fprintf(&b, `<cellStyleXfs count="%d">%s</cellStyleXfs>`, len(bx), strings.Join(bx, ""))
		xs := x.XFs
		if xs == nil {
			xs = []string{XFX(0)}
		}
		fmt.Fprintf(&b, `<cellXfs count="%d">%s</cellXfs>`, len(xs), strings.Join(xs, ""))
		b.WriteString(`<cellStyles count="1"><cellStyle name="Normal" xfId="0" builtinId="0"/></cellStyles><dxfs count="1"><dxf><font><b/></font></dxf></dxfs></styleSheet>`)
		styles = b.String()
	}
	rels = append(rels, XRel{ID: "rIdStyles", Type: RelStyles, Target: target(sp)})
	ssp := x.SSTPath
	if ssp == "" {
		ssp = base + "sharedStrings.xml"
	}
	if !x.NoSST {
		rels = append(rels, XRel{ID: "rIdSST", Type: RelSST, Target: target(ssp)})
	}
	rels = append(rels, x.ExtraRels...)
	if x.RelOrder != nil {
		r2 := make([]XRel, len(rels))
		for i, k := range x.RelOrder {
			r2[i] = rels[k]
		}
		rels = r2
	}
	parts = append(parts, XPart{RelsName(wb), Rels(rels)}, XPart{wb, x.prefix(wbx)})
	for _, p := range sheetParts {
		if !strings.HasSuffix(p.Name, ".rels") {
			p.Data = x.prefix(p.Data)
		}
		parts = append(parts, p)
	}
	parts = append(parts, XPart{sp, x.prefix(styles)})
	if !x.NoSST {
		var b strings.Builder
		fmt.Fprintf(&b, `%s<sst %s count="%d" uniqueCount="%d">`, xmlHead, mainNS, len(x.SST), len(x.SST))
		for _, s := range x.SST {
			b.WriteString("<si>" + s + "</si>")
		}
		b.WriteString("</sst>")
		parts = append(parts, XPart{ssp, x.prefix(b.String())})
	}
	parts = append(parts, x.Extra...)
	if x.PartOrder != nil {
		p2 := make([]XPart, len(parts))
		for i := range parts {
			p2[i] = parts[x.PartOrder[i%len(x.PartOrder)]]
		}
		parts = p2
	}
	return parts
}

// prefix rewrites a part to use a namespace prefix for its elements.
func (x *XLSX) prefix(s string) string {
	if x.Prefix == "" {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		b.WriteByte(s[i])
		if s[i] != '<' || s[i+1] == '?' || s[i+1] == '!' {
			continue
		}
		if s[i+1] == '/' {
			b.WriteByte('/')
			i++
		}
		b.WriteString(x.Prefix + ":")
	}
	return strings.Replace(b.String(), "xmlns=", "xmlns:"+x.Prefix+"=", 1)
}

// File renders the package.
func (x *XLSX) File() []byte { return Zip(x.Parts(), x.Deflate) }

// Zip packs parts into an archive.
func Zip(parts []XPart, deflate bool) []byte {
	var buf bytes.Buffer
	w := zip.NewWriter(&buf)
	for _, p := range parts {
		h := &zip.FileHeader{Name: p.Name, Method: zip.Store}
		if deflate {
			h.Method = zip.Deflate
		}
		f, err := w.CreateHeader(h)
		if err != nil {
			panic(err)
		}
		f.Write([]byte(p.Data))
	}
	w.Close()
	return buf.Bytes()
}

package zzdemo

import (
	"archive/zip"
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/pbnjay/grate"
)

// rec is one BIFF8 record.
func rec(typ int, parts ...interface{}) []byte {
	var d []byte
	for _, p := range parts {
		switch v := p.(type) {
		case int:
			d = append(d, byte(v), byte(v>>8))
		case byte:
			d = append(d, v)
		case uint32:
			d = append(d, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
		case float64:
			b := make([]byte, 8)
			binary.LittleEndian.PutUint64(b, math.Float64bits(v))
			d = append(d, b...)
		case string:
			d = append(d, v...)
		case []byte:
			d = append(d, v...)
		default:
			panic(fmt.Sprintf("%T", p))
		}
	}
	return append([]byte{byte(typ), byte(typ >> 8), byte(len(d)), byte(len(d) >> 8)}, d...)
}

func cat(b ...[]byte) []byte { return bytes.Join(b, nil) }

func bofGlobals() []byte { return rec(0x809, 0x600, 5, 0x1234, 0x7CC, uint32(0x41), uint32(6)) }
func bofSheet() []byte   { return rec(0x809, 0x600, 0x10, 0x1234, 0x7CC, uint32(0x41), uint32(6)) }
func eof() []byte        { return rec(10) }
func dims(rows, cols int) []byte {
	return rec(0x200, uint32(0), uint32(rows), 0, cols, 0)
}
func number(r, c, xf int, v float64) []byte { return rec(0x203, r, c, xf, v) }
func label(r, c, xf, i int) []byte          { return rec(0xFD, r, c, xf, uint32(i)) }
func xf(fmtno int) []byte                   { return rec(0xE0, 0, fmtno, 0, make([]byte, 14)) }
func sst(s ...string) []byte {
	d := []interface{}{uint32(len(s)), uint32(len(s))}
	for _, x := range s {
		d = append(d, len(x), byte(0), x)
	}
	return rec(0xFC, d...)
}

type sheet struct {
	name string
	body []byte // without BOF and EOF
}

// book is a workbook stream of globals (without BOF and EOF) and sheets.
func book(globals []byte, sheets ...sheet) []byte {
	n := len(bofGlobals()) + len(globals) + len(eof())
	for _, s := range sheets {
		n += 4 + 8 + len(s.name)
	}
	out := bofGlobals()
	pos := n
	for _, s := range sheets {
		out = append(out, rec(0x85, uint32(pos), byte(0), byte(0), byte(len(s.name)), byte(0), s.name)...)
		pos += len(bofSheet()) + len(s.body) + len(eof())
	}
	out = append(out, globals...)
	out = append(out, eof()...)
	for _, s := range sheets {
		out = append(out, bofSheet()...)
		out = append(out, s.body...)
		out = append(out, eof()...)
	}
	return out
}

// cfbFile wraps a workbook stream in a version 3 compound file.
func cfbFile(stream []byte) []byte {
	for len(stream) < 4096 {
		stream = append(stream, 0)
	}
	size := len(stream)
	for len(stream)%512 != 0 {
		stream = append(stream, 0)
	}
	ns := len(stream) / 512
	nfat := 1
	for nfat*128 < nfat+1+ns {
		nfat++
	}
	h := make([]byte, 512)
	le := binary.LittleEndian
	le.PutUint64(h, 0xe11ab1a1e011cfd0)
	le.PutUint16(h[24:], 0x3E)
	le.PutUint16(h[26:], 3)
	le.PutUint16(h[28:], 0xFFFE)
	le.PutUint16(h[30:], 9)
	le.PutUint16(h[32:], 6)
	le.PutUint32(h[44:], uint32(nfat))
	le.PutUint32(h[48:], uint32(nfat)) // directory
	le.PutUint32(h[56:], 4096)
	le.PutUint32(h[60:], 0xFFFFFFFE)
	le.PutUint32(h[68:], 0xFFFFFFFE)
	for i := 0; i < 109; i++ {
		v := uint32(0xFFFFFFFF)
		if i < nfat {
			v = uint32(i)
		}
		le.PutUint32(h[76+4*i:], v)
	}
	fat := make([]byte, 512*nfat)
	for i := 0; i < 128*nfat; i++ {
		v := uint32(0xFFFFFFFF)
		switch {
		case i < nfat:
			v = 0xFFFFFFFD
		case i == nfat || i == nfat+ns:
			v = 0xFFFFFFFE
		case i < nfat+ns:
			v = uint32(i + 1)
		}
		le.PutUint32(fat[4*i:], v)
	}
	dir := make([]byte, 512)
	ent := func(i int, name string, typ byte, start uint32, size int, child uint32) {
		e := dir[128*i:]
		for j, ch := range name {
			le.PutUint16(e[2*j:], uint16(ch))
		}
		le.PutUint16(e[64:], uint16(2*len(name)+2))
		e[66] = typ
		e[67] = 1
		le.PutUint32(e[68:], 0xFFFFFFFF)
		le.PutUint32(e[72:], 0xFFFFFFFF)
		le.PutUint32(e[76:], child)
		le.PutUint32(e[116:], start)
		le.PutUint32(e[120:], uint32(size))
	}
	ent(0, "Root Entry", 5, 0xFFFFFFFE, 0, 1)
	ent(1, "Workbook", 2, uint32(nfat+1), size, 0xFFFFFFFF)
	return cat(h, fat, dir, stream)
}

// xlsxFile makes a package of one sheet with the given extra parts.
func xlsxFile(sheetXML string, parts map[string]string) []byte {
	const ns = ` xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships"`
	all := map[string]string{
		"[Content_Types].xml":        `<?xml version="1.0"?><Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/><Override PartName="/xl/workbook.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.sheet.main+xml"/><Override PartName="/xl/worksheets/sheet1.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml"/></Types>`,
		"_rels/.rels":                `<?xml version="1.0"?><Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" Target="xl/workbook.xml"/></Relationships>`,
		"xl/workbook.xml":            `<?xml version="1.0"?><workbook` + ns + `><sheets><sheet name="One" sheetId="1" r:id="rId1"/></sheets></workbook>`,
		"xl/_rels/workbook.xml.rels": `<?xml version="1.0"?><Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/worksheet" Target="worksheets/sheet1.xml"/><Relationship Id="rId2" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/styles" Target="styles.xml"/><Relationship Id="rId3" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/sharedStrings" Target="sharedStrings.xml"/></Relationships>`,
		"xl/worksheets/sheet1.xml":   `<?xml version="1.0"?><worksheet` + ns + `>` + sheetXML + `</worksheet>`,
		"xl/styles.xml":              `<?xml version="1.0"?><styleSheet` + ns + `><cellXfs count="1"><xf numFmtId="0"/></cellXfs></styleSheet>`,
		"xl/sharedStrings.xml":       `<?xml version="1.0"?><sst` + ns + `></sst>`,
	}
	for k, v := range parts {
		all[k] = strings.ReplaceAll(v, "NS", ns)
	}
	var b bytes.Buffer
	z := zip.NewWriter(&b)
	order := []string{"[Content_Types].xml", "_rels/.rels", "xl/workbook.xml", "xl/_rels/workbook.xml.rels", "xl/styles.xml", "xl/sharedStrings.xml", "xl/worksheets/sheet1.xml"}
	for k := range parts {
		known := false
		for _, o := range order {
			known = known || o == k
		}
		if !known {
			order = append(order, k)
		}
	}
	for _, k := range order {
		w, _ := z.Create(k)
		w.Write([]byte(all[k]))
	}
	z.Close()
	return b.Bytes()
}

func put(t *testing.T, name string, data []byte) string {
	p := filepath.Join(t.TempDir(), name)
	if err := os.WriteFile(p, data, 0644); err != nil {
		t.Fatal(err)
	}
	return p
}

// show renders a collection.
func show(col grate.Collection) string {
	s := ""
	for col.Next() {
		s += fmt.Sprintf("%q %v\n", col.Strings(), col.Types())
	}
	if col.Err() != nil {
		s += "err " + col.Err().Error()
	}
	return s
}

type opener = func(string) (grate.Source, error)

// read opens data with an opener and shows the named sheet.
func read(t *testing.T, open opener, data []byte, name string) string {
	src, err := open(put(t, "f.dat", data))
	if err != nil {
		t.Fatal(err)
	}
	defer src.Close()
	col, err := src.Get(name)
	if err != nil {
		t.Fatal(err)
	}
	return show(col)
}

var _ = fmt.Sprint

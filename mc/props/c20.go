package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"regexp"
	"runtime/metrics"
	"strings"
	"sync"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/simple"
	"github.com/pbnjay/grate/xls"
	"github.com/pbnjay/grate/xls/cfb"
	"github.com/pbnjay/grate/xlsx"

	"verif/mc/engine"
	"verif/mc/gen"
)

// allocated bytes since the start of the process
func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// The files used are below 100 KB. The largest grid which a reader may set up in
// advance (a table of the rows of the largest sheet the format allows, and at most
// four million cells) stays below this.
const allocLimit = 450 << 20

type hiddenLister interface{ ListHidden() ([]string, error) }

// exercise opens and reads everything of a file which may be damaged in any way.
// It returns a summary of what was observed.
func exercise(c *engine.Ctx, open func(string) (grate.Source, error), path string) string {
	before := allocated()
	var src grate.Source
	var err error
	c.Guard("Open", func() { src, err = open(path) })
	if n := allocated() - before; n > allocLimit {
		c.Failf("opening the file allocates %d MB", n>>20)
	}
	c.Steps(1)
	if err != nil {
		return "open: error"
	}
	if src == nil {
		c.Failf("Open returns neither a source nor an error")
	}
	var names []string
	c.Guard("List", func() { names, err = src.List() })
	if err != nil {
		c.Guard("Close", func() { src.Close() })
		return "list: error"
	}
	c.Guard("ListHidden", func() {
		if h, ok := src.(hiddenLister); ok {
			if hid, err := h.ListHidden(); err == nil {
				names = append(names, hid...)
			}
		}
	})
	bad, good := 0, 0
	read := func(what string, col grate.Collection) string {
		var b strings.Builder
		cells, rows := 0, 0
		for {
			var ok bool
			c.Guard(what+": Next", func() { ok = col.Next() })
			if !ok {
				break
			}
			rows++
			if rows > 1<<20 {
				c.Failf("%s: more than %d rows", what, 1<<20)
			}
			if cells > 20000 || rows > 300 {
				continue
			}
			c.Guard(what+": row", func() {
				s, t, f := col.Strings(), col.Types(), col.Formats()
				if len(s) != len(t) || len(s) != len(f) {
					c.Failf("%s: %d strings, %d types, %d formats", what, len(s), len(t), len(f))
				}
				fmt.Fprintf(&b, "%q%q%q\n", s, t, f)
				cells += len(s)
				dst := make([]interface{}, len(s))
				for i := range dst {
					dst[i] = new(string)
				}
				col.Scan(dst...)
			})
		}
		fmt.Fprintf(&b, "%d rows, %v", rows, col.Err())
		return b.String()
	}
	var first grate.Collection
	firstWhat, firstRow := "", ""
	out := map[string]string{}
	for _, n := range names {
		before = allocated()
		var col grate.Collection
		c.Guard("Get", func() { col, err = src.Get(n) })
		if a := allocated() - before; a > allocLimit {
			c.Failf("reading sheet %q allocates %d MB", n, a>>20)
		}
		c.Steps(1)
		if err != nil {
			bad++
			out[n] = "error"
			continue
		}
		if col == nil {
			c.Failf("Get(%q) returns neither a collection nor an error", n)
		}
		good++
		if first == nil {
			first, firstWhat = col, n
			c.Guard("first row", func() {
				if first.Next() {
					firstRow = fmt.Sprintf("%q", first.Strings())
				}
			})
			c.Guard("Get", func() { col, err = src.Get(n) })
			if err != nil {
				c.Failf("Get(%q) fails the second time: %v", n, err)
			}
		}
		out[n] = read(n, col)
	}
	// what was returned before stays as it was
	if first != nil && firstRow != "" {
		c.Guard("first row again", func() {
			if s := fmt.Sprintf("%q", first.Strings()); s != firstRow {
				c.Failf("the first row of %q changed from %s to %s", firstWhat, firstRow, s)
			}
		})
	}
	for _, n := range names {
		var col grate.Collection
		c.Guard("Get", func() { col, err = src.Get(n) })
		if err != nil {
			if out[n] != "error" {
				c.Failf("Get(%q) fails after other sheets were read: %v", n, err)
			}
			continue
		}
		if s := read(n, col); s != out[n] {
			c.Failf("sheet %q reads differently the second time:\n%s\n%s", n, out[n], s)
		}
	}
	c.Guard("Close", func() { src.Close() })
	return fmt.Sprintf("opened: %d sheets read, %d errors", min(good, 3), min(bad, 3))
}

func c20Finish(c *engine.Ctx, o string) { c.Outcome(o) }

// ---- xls records

type c20Base struct {
	recs   []gen.Rec
	stream []byte
	file   []byte
	at     int // of the stream in the file
}

var (
	c20Once  sync.Once
	c20Bases []c20Base // 0 plain, 1 small, 2 encrypted
)

func c20Setup() {
	hl := func(r, c int, l *hlLink) gen.Rec { return hlRec(rect{r, r, c, c}, l) }
	sst := gen.NewSST(5)
	sst.Add("alpha", false, 0, 0)
	sst.Add("βήτα", true, 2, 0)
	sst.Add("phonetic", false, 0, 9)
	sst.Header(6, false, 0, 0)
	sst.Raw([]byte("abc"))
	sst.Break()
	sst.Raw([]byte{1, 'd', 0, 'e', 0, 'f', 0})
	sst.Add("last", false, 1, 5)
	x := &gen.XLS{
		Pre:  append([]gen.Rec{gen.Date1904(false), gen.Format(164, `0.0" u"`, false), gen.Format(165, `yyyy\-mm\-dd`, false)}, gen.XF(0), gen.XF(2), gen.XF(14), gen.XF(164), gen.XF(165), gen.XF(12)),
		Post: sst.Recs(),
	}
	body := []gen.Rec{gen.Dimensions(0, 12, 0, 6), gen.WsBool(false),
		gen.Row(0, 0, 6), gen.Number(0, 0, 1, 3.5), gen.RK(0, 1, 0, 7<<2|2), gen.MulRK(0, 2, []int{0, 1}, []uint32{5 << 2, 9<<2 | 3}), gen.Blank(0, 4, 0), gen.LabelSst(0, 5, 0, 1),
		gen.Row(1, 0, 6), gen.MulBlank(1, 0, []int{0, 0}), gen.Bool(1, 2, 0, true), gen.Err(1, 3, 0, 7), gen.LabelSst(1, 4, 3, 4),
		gen.Formula(2, 0, 2, gen.FNum(41000.5)), gen.Formula(2, 1, 0, gen.FStr()), gen.Str("text", false), gen.Formula(2, 2, 0, gen.FBool(true)),
		gen.Formula(2, 3, 0, gen.FErr(42)), gen.Formula(2, 4, 0, gen.FBlank()),
		gen.Formula(3, 0, 0, gen.FStr()), {T: gen.TString, D: []byte{4, 0, 1, 'a', 0, 'b', 0}}, {T: gen.TContinue, D: []byte{0, 'c', 'd'}},
		gen.Number(4, 0, 5, 2.25), gen.Number(5, 1, 4, 41000), gen.Number(6, 1, 3, -8),
		gen.Merge([4]int{4, 5, 2, 3}, [4]int{7, 7, 0, 2}),
		hl(8, 0, &hlLink{display: "disp", target: "http://x.y/", moniker: 2}),
		hl(9, 0, &hlLink{frame: "fr", target: `C:\f.xls`, moniker: 4, loc: "S!A1"}),
		hl(10, 0, &hlLink{target: "str", moniker: 5}),
		gen.BOF(0x20), gen.Number(0, 0, 0, 1), gen.EOF(),
		hl(11, 1, &hlLink{target: "ansi", moniker: 3, guid: true, time: true}),
	}
	small := []gen.Rec{gen.Dimensions(0, 2, 0, 2), gen.Number(0, 0, 0, 1), gen.LabelSst(0, 1, 0, 0), gen.Number(1, 1, 2, 41000.75)}
	x.Sheets = []gen.Sheet{{Name: "One", Recs: body}, {Name: "Δύο", Recs: small}, {Name: "hid", State: 1, Recs: small}}
	y := &gen.XLS{Pre: []gen.Rec{gen.XF(0), gen.XF(14), gen.XF(2)}, Post: gen.SST([]string{"alpha"}),
		Sheets: []gen.Sheet{{Name: "One", Recs: small}, {Name: "Two", Recs: []gen.Rec{gen.Formula(0, 0, 0, gen.FStr()), gen.Str("x", false)}}}}
	for i, s := range [][]byte{x.Stream(), y.Stream(), y.EncryptedStream(c09Key(1))} {
		b := c20Base{stream: s, file: gen.XLSFile(s)}
		switch i {
		case 0:
			b.recs = x.Records(nil)
		case 1:
			b.recs = y.Records(nil)
		}
		n := min(len(s), 64)
		b.at = bytes.Index(b.file, s[:n])
		if b.at < 0 || !bytes.Equal(b.file[b.at:b.at+len(s)], s) {
			panic("the stream is not contiguous")
		}
		c20Bases = append(c20Bases, b)
	}
}

func c20Book(i int) *c20Base {
	c20Once.Do(c20Setup)
	return &c20Bases[i]
}

var c20Bytes = []byte{0, 1, 2, 0x7F, 0x80, 0xFF}
var c20Words = []uint16{0, 1, 0x00FF, 0x7FFF, 0x8000, 0xFFFF}
var c20Longs = []uint32{0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE, 0x10000000, 0x00010000}

// c20Damage changes up to four bytes at a position; n alternatives.
const c20Kinds = 6 + 3 + 6 + 8

func c20Damage(b []byte, p, k int) {
	switch {
	case k < 6:
		b[p] = c20Bytes[k]
	case k < 9:
		b[p] ^= []byte{1, 4, 0x40}[k-6]
	case k < 15:
		if p+2 <= len(b) {
			binary.LittleEndian.PutUint16(b[p:], c20Words[k-9])
		}
	default:
		if p+4 <= len(b) {
			binary.LittleEndian.PutUint32(b[p:], c20Longs[k-15])
		}
	}
}

func c20XlsBytes(c *engine.Ctx) {
	b := c20Book(c.Pick("book", 3))
	p := c.Pick("position", len(b.stream))
	k := c.Pick("damage", c20Kinds)
	f := append([]byte(nil), b.file...)
	c20Damage(f[b.at:b.at+len(b.stream)], p, k)
	c.State(f)
	c20Finish(c, exercise(c, xls.Open, c.File("f.xls", f)))
}

// the fields of one record, two at a time
func c20XlsPairs(c *engine.Ctx) {
	b := c20Book(0)
	i := c.Pick("record", len(b.recs))
	n := len(b.recs[i].D)
	if n > 64 {
		n = 64
	}
	if n < 2 {
		return
	}
	p := c.Pick("first", n-1)
	q := p + 1 + c.Pick("second", n-1-p)
	vals := []byte{0, 1, 0x7F, 0xFF}
	f := append([]byte(nil), b.file...)
	at := b.at
	for j := 0; j < i; j++ {
		at += 4 + len(b.recs[j].D)
	}
	f[at+4+p] = vals[c.Pick("v1", 4)]
	f[at+4+q] = vals[c.Pick("v2", 4)]
	c.State(f)
	c20Finish(c, exercise(c, xls.Open, c.File("f.xls", f)))
}

func c20XlsRecords(c *engine.Ctx) {
	b := c20Book(c.Pick("book", 2))
	recs := append([]gen.Rec(nil), b.recs...)
	i := c.Pick("record", len(recs))
	r := recs[i]
	with := func(rs ...gen.Rec) {
		recs = append(append(append([]gen.Rec(nil), recs[:i]...), rs...), recs[i+1:]...)
	}
	switch c.Pick("change", 8) {
	case 0:
		with()
	case 1:
		with(r, r)
	case 2:
		j := c.Pick("with", len(recs))
		recs[i], recs[j] = recs[j], recs[i]
	case 3:
		if len(r.D) == 0 {
			return
		}
		with(gen.Rec{T: r.T, D: r.D[:c.Pick("length", len(r.D))]})
	case 4:
		with(gen.Rec{T: r.T, D: append(append([]byte(nil), r.D...), make([]byte, []int{1, 2, 7, 8000}[c.Pick("extra", 4)])...)})
	case 5:
		with(r, gen.Rec{T: gen.TContinue})
	case 6:
		// every other kind of record read from these bytes
		types := []uint16{gen.TFormula, gen.TEOF, gen.TDate1904, gen.TContinue, gen.TFilePass, gen.TCodePage, gen.TWsBool, gen.TBoundSheet, gen.TMulRk, gen.TMulBlank, gen.TXF,
			gen.TMergeCells, gen.TSST, gen.TLabelSst, gen.THLink, gen.TDimensions, gen.TBlank, gen.TNumber, gen.TBoolErr, gen.TString, gen.TRow, gen.TRK, gen.TFormat, gen.TBOF, gen.TTxo, 0x8FFF}
		with(gen.Rec{T: types[c.Pick("type", len(types))], D: r.D})
	case 7:
		// the declared length
		s := append([]byte(nil), b.stream...)
		at := 0
		for j := 0; j < i; j++ {
			at += 4 + len(recs[j].D)
		}
		n := len(r.D) + []int{-8, -4, -2, -1, 1, 2, 3, 4, 5, 8, 100, 8224, 8225}[c.Pick("length", 13)]
		if n < 0 {
			return
		}
		binary.LittleEndian.PutUint16(s[at+2:], uint16(n))
		c.State(s)
		c20Finish(c, exercise(c, xls.Open, c.File("f.xls", gen.XLSFile(s))))
		return
	}
	s := gen.RecBytes(recs)
	c.State(s)
	c20Finish(c, exercise(c, xls.Open, c.File("f.xls", gen.XLSFile(s))))
}

// every stream position as the position of a sheet
func c20XlsSheetPos(c *engine.Ctx) {
	b := c20Book(0)
	n := 0
	at := b.at
	which := c.Pick("sheet", 2)
	for _, r := range b.recs {
		if r.T == gen.TBoundSheet {
			if n == which {
				break
			}
			n++
		}
		at += 4 + len(r.D)
	}
	f := append([]byte(nil), b.file...)
	binary.LittleEndian.PutUint32(f[at+4:], uint32(c.Pick("position", len(b.stream)+2)))
	c.State(f)
	c20Finish(c, exercise(c, xls.Open, c.File("f.xls", f)))
}

// cells and ranges at and beyond the limits, all combinations
func c20XlsRanges(c *engine.Ctx) {
	rows := []uint32{0x10000, 0, 3, 0xFFFFFFFF, 1, 0x7FFFFFFF}
	cols := []int{256, 0, 3, 0xFFFF, 1, 257, 0x7FFF}
	r16 := []int{0, 0xFFFF, 0x7FFF}
	c16 := []int{0, 255, 0xFFFF, 256}
	kinds, nr, nc := 6, 3, 4
	var recs []gen.Rec
	var dim int
	if c.Thorough {
		dim = c.Pick("dimensions", len(rows)*len(cols)+1)
	} else {
		dim = []int{0, 1, 1 + 6 + 1, 1 + 2*6 + 2, 1 + 3*6, 1 + 3*6 + 3}[c.Pick("dimensions", 6)]
		kinds, nr, nc = 3, 2, 3
	}
	if dim > 0 {
		d := dim - 1
		recs = append(recs, gen.Rec{T: gen.TDimensions, D: (&gen.W{}).U32(0, rows[d%len(rows)]).U16(0, cols[d/len(rows)], 0).Bytes()})
	}
	row, col := r16[c.Pick("row", nr)], c16[c.Pick("col", nc)]
	switch c.Pick("cell", kinds) {
	case 0:
		recs = append(recs, gen.Number(row, col, 0, 1))
	case 1:
		recs = append(recs, gen.MulBlank(row, col, []int{0, 0, 0}))
	case 2:
		recs = append(recs, gen.MulRK(row, col, []int{0, 0}, []uint32{1 << 2, 2 << 2}))
	case 3:
		recs = append(recs, gen.Formula(row, col, 0, gen.FStr()), gen.Str("s", false))
	case 4:
		recs = append(recs, gen.LabelSst(row, col, 0, 0))
	case 5:
		recs = append(recs, gen.Bool(row, col, 0, true))
	}
	er, ec := r16[c.Pick("lastrow", nr)], c16[c.Pick("lastcol", nc)]
	sr, sc := 0, 0
	if c.Pick("start", 2) == 1 {
		sr, sc = row, col
	}
	switch c.Pick("range", 2) {
	case 0:
		recs = append(recs, gen.Merge([4]int{sr, er, sc, ec}))
	case 1:
		recs = append(recs, hlRec(rect{sr, er, sc, ec}, &hlLink{target: "http://a/", moniker: 1}))
	}
	x := &gen.XLS{Pre: []gen.Rec{gen.XF(0)}, Post: gen.SST([]string{"s"}), Sheets: []gen.Sheet{{Name: "S", Recs: recs}}}
	f := x.File()
	c.State(f)
	c20Finish(c, exercise(c, xls.Open, c.File("f.xls", f)))
}

// ---- compound files

type c20Cfb struct {
	file  []byte
	ss    int
	meta  []int // positions outside the streams
	words []int // positions of 32-bit fields: header and allocation tables
	nsec  int
}

var (
	c20CfbOnce sync.Once
	c20Cfbs    []c20Cfb
)

func c20CfbSetup() {
	c20Once.Do(c20Setup)
	wbSmall, wbLarge := c20Bases[1].stream, append([]byte(nil), c20Bases[0].stream...)
	wbLarge = append(wbLarge, make([]byte, max(0, 4200-len(wbLarge)))...)
	var kinds []string
	perm := func(k []string) []int {
		kinds = append([]string(nil), k...)
		p := make([]int, len(k))
		for i := range p {
			p[i] = i
		}
		return p
	}
	for i, f := range []*gen.CFB{
		{Version: 3, Streams: []gen.Stream{{Name: "Workbook", Data: wbSmall}, {Name: "Other", Data: pat(1, 4500)}, {Name: "Store", Storage: true}}, Free: 1, FreeMini: 1},
		{Version: 3, Streams: []gen.Stream{{Name: "A", Data: pat(1, 100)}, {Name: "Workbook", Data: wbLarge}, {Name: "B", Data: pat(2, 70)}, {Name: "C", Data: nil}}},
		{Version: 4, Streams: []gen.Stream{{Name: "Workbook", Data: wbSmall}, {Name: "Other", Data: pat(1, 5000)}}},
		{Version: 3, Streams: []gen.Stream{{Name: "Workbook", Data: wbSmall}}, ExtraFAT: 110},
	} {
		f.Perm = perm
		e := c20Cfb{file: f.Bytes(), ss: 512}
		if f.Version == 4 {
			e.ss = 4096
		}
		e.nsec = len(kinds)
		for p := 0; p < 512; p++ {
			if p >= 76+4*4 && p < 512-8 && i < 3 { // unused entries of the table: a few suffice
				continue
			}
			e.meta = append(e.meta, p)
			if p%4 == 0 && p >= 40 {
				e.words = append(e.words, p)
			}
		}
		for s, k := range kinds {
			at := (s + 1) * e.ss
			switch k {
			case "fat", "minifat":
				if i == 3 && s > 1 && s != e.nsec-1 {
					continue
				}
				for p := 0; p < 4*(e.nsec+3) && p < e.ss; p++ {
					e.meta = append(e.meta, at+p)
					if p%4 == 0 {
						e.words = append(e.words, at+p)
					}
				}
			case "difat":
				for p := 0; p < e.ss; p++ {
					if p >= 16 && p < e.ss-8 {
						continue
					}
					e.meta = append(e.meta, at+p)
					if p%4 == 0 {
						e.words = append(e.words, at+p)
					}
				}
			case "dir":
				for p := 0; p < e.ss && p < 5*128; p++ {
					e.meta = append(e.meta, at+p)
					if o := p % 128; p%4 == 0 && o >= 64 && (o < 80 || o >= 116) {
						e.words = append(e.words, at+p)
					}
				}
			}
		}
		c20Cfbs = append(c20Cfbs, e)
	}
}

func c20CfbCheck(c *engine.Ctx, f []byte) {
	c.State(f)
	path := c.File("f.xls", f)
	before := allocated()
	var doc *cfb.Document
	var err error
	c.Guard("cfb.Open", func() { doc, err = cfb.Open(path) })
	o := "cfb: error"
	if err == nil {
		o = "cfb: opened"
		var names []string
		c.Guard("List", func() { names, err = doc.List() })
		for _, n := range names {
			c.Guard("stream", func() {
				r, err := doc.Open(n)
				if err == nil {
					var m int64
					m, err = io.Copy(io.Discard, r)
					if m > int64(len(f)) {
						c.Failf("stream %q yields %d bytes from a file of %d", n, m, len(f))
					}
					if _, e := r.Seek(0, io.SeekStart); e == nil {
						m2, err2 := io.Copy(io.Discard, r)
						if m2 != m || (err == nil) != (err2 == nil) {
							c.Failf("stream %q yields %d bytes (%v), then %d (%v)", n, m, err, m2, err2)
						}
					}
				}
			})
			c.Steps(2)
		}
	}
	if n := allocated() - before; n > 64<<20 {
		c.Failf("reading a compound file of %d bytes allocates %d MB", len(f), n>>20)
	}
	c20Finish(c, o+"; "+exercise(c, xls.Open, path))
}

func c20CfbBytes(c *engine.Ctx) {
	c20CfbOnce.Do(c20CfbSetup)
	e := &c20Cfbs[c.Pick("file", len(c20Cfbs))]
	f := append([]byte(nil), e.file...)
	c20Damage(f, e.meta[c.Pick("position", len(e.meta))], c.Pick("damage", c20Kinds))
	c20CfbCheck(c, f)
}

// links and counts of the container: every sector number and special value
func c20Link(c *engine.Ctx, e *c20Cfb, f []byte, label string, from int) int {
	i := from + c.Pick(label, len(e.words)-from)
	special := []uint32{0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFD, 0xFFFFFFFC, 0xFFFFFFFA, 0x7FFFFFFF, 0x80000000, 0x00800000, 4095, 4097}
	v := c.Pick(label+"=", e.nsec+2+len(special))
	if v < e.nsec+2 {
		binary.LittleEndian.PutUint32(f[e.words[i]:], uint32(v))
	} else {
		binary.LittleEndian.PutUint32(f[e.words[i]:], special[v-e.nsec-2])
	}
	return i
}

func c20CfbLinks(c *engine.Ctx) {
	c20CfbOnce.Do(c20CfbSetup)
	e := &c20Cfbs[c.Pick("file", 3)]
	f := append([]byte(nil), e.file...)
	c20Link(c, e, f, "field", 0)
	c20CfbCheck(c, f)
}

// chains of the container's own tables which come back to one of their
// sectors, with every count the header may give, and with tables of all kinds
func c20CfbCycles(c *engine.Ctx) {
	c20CfbOnce.Do(c20CfbSetup)
	e := &c20Cfbs[[]int{0, 2, 3}[c.Pick("file", 3)]]
	f := append([]byte(nil), e.file...)
	le := binary.LittleEndian
	n := uint32(e.nsec) // the sector which is added at the end
	sec := make([]byte, e.ss)
	fill := []uint32{0xFFFFFFFF, 0xFFFFFFFE, 0, n}[c.Pick("entries", 4)]
	for i := 0; i < e.ss; i += 4 {
		le.PutUint32(sec[i:], fill)
	}
	f = append(f[:(e.nsec+1)*e.ss], sec...)
	f = append(f, sec...)
	last := func(s uint32) []byte { return f[int(s+2)*e.ss-4:] }
	count := []uint32{0, 1, 2, 1000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF}[c.Pick("count", 7)]
	fat := func(s, v uint32) {
		// the table's first sector
		le.PutUint32(f[(int(le.Uint32(f[76:]))+1)*e.ss+4*int(s):], v)
	}
	back := n + uint32(c.Pick("length", 2)) // a cycle of one sector or of two
	switch c.Pick("chain", 5) {
	case 0: // of the sectors which list the table
		le.PutUint32(f[68:], n)
		le.PutUint32(f[72:], count)
		copy(last(n), le.AppendUint32(nil, back))
		copy(last(n+1), le.AppendUint32(nil, n))
	case 1: // of the small table
		le.PutUint32(f[60:], n)
		le.PutUint32(f[64:], count)
		fat(n, back)
		fat(n+1, n)
	case 2: // of the directory
		le.PutUint32(f[48:], n)
		if e.ss == 4096 {
			le.PutUint32(f[40:], count)
		}
		fat(n, back)
		fat(n+1, n)
	case 3: // of the directory, after its first sector
		fat(le.Uint32(f[48:]), n)
		fat(n, back)
		fat(n+1, n)
		for i := range f[int(n+1)*e.ss:] {
			f[int(n+1)*e.ss+i] = 0
		}
	case 4: // of the small table, after its first sector
		le.PutUint32(f[64:], count)
		if s := le.Uint32(f[60:]); s < n {
			fat(s, n)
		} else {
			le.PutUint32(f[60:], n)
		}
		fat(n, back)
		fat(n+1, n)
	}
	c20CfbCheck(c, f)
}

func c20CfbLinkPairs(c *engine.Ctx) {
	c20CfbOnce.Do(c20CfbSetup)
	e := &c20Cfbs[c.Pick("file", 3)]
	f := append([]byte(nil), e.file...)
	i := c20Link(c, e, f, "field", 0)
	if i+1 < len(e.words) {
		c20Link(c, e, f, "other", i+1)
	}
	c20CfbCheck(c, f)
}

// ---- xlsx

var (
	c20XOnce  sync.Once
	c20XParts []gen.XPart
	c20XZips  [][]byte
)

func c20XBook() *gen.XLSX {
	rows := gen.RowX(0, gen.C(0, 0, "", 0, gen.V("1.5")), gen.C(0, 1, "s", 1, gen.V("0")), gen.C(0, 2, "b", -1, gen.V("1")), gen.C(0, 3, "e", -1, gen.V("#N/A"))) +
		gen.RowX(1, gen.C(1, 0, "inlineStr", -1, "<is>"+gen.T("in")+"</is>"), gen.C(1, 1, "str", -1, "<f>A1&amp;B1</f>"+gen.V("fs")), gen.C(1, 2, "", 2, gen.V("41000.5")), gen.C(1, 3, "", -1, "")) +
		gen.RowX(3, gen.C(3, 0, "", 3, gen.V("-7")), gen.C(3, 3, "s", 0, gen.V("1")))
	return &gen.XLSX{
		Sheets: []gen.XSheet{
			{Name: "One", Dim: "A1:D4", Rows: rows, Tail: `<mergeCells count="1"><mergeCell ref="B3:C4"/></mergeCells><hyperlinks><hyperlink ref="A4" r:id="rId7"/></hyperlinks>`,
				Rels: []gen.XRel{{ID: "rId7", Type: gen.RelLink, Target: "http://a.b/?c&d", External: true}}},
			{Name: "Two", Dim: "A1", Rows: gen.RowX(0, gen.C(0, 0, "s", -1, gen.V("1")))},
		},
		SST:     []string{gen.T("shared"), "<r>" + gen.T("ri") + "</r><r>" + gen.T("ch ") + `</r><rPh sb="0" eb="1">` + gen.T("ph") + "</rPh>"},
		NumFmts: [][2]string{{"164", `0.0" u"`}},
		XFs:     []string{gen.XFX(0), gen.XFX(2), gen.XFX(14), gen.XFX(164)},
	}
}

func c20XSetup() {
	x := c20XBook()
	c20XParts = x.Parts()
	c20XZips = [][]byte{gen.Zip(c20XParts, true), gen.Zip(c20XParts, false)}
}

func c20XFile(c *engine.Ctx, part int, data string) {
	parts := append([]gen.XPart(nil), c20XParts...)
	parts[part].Data = data
	f := gen.Zip(parts, false)
	c.State(parts[part].Name, data)
	c20Finish(c, exercise(c, xlsx.Open, c.File("f.xlsx", f)))
}

func c20XBytes(c *engine.Ctx) {
	c20XOnce.Do(c20XSetup)
	i := 1 + c.Pick("part", len(c20XParts)-1)
	s := c20XParts[i].Data
	p := c.Pick("position", len(s))
	menu := []string{"", "<", ">", `"`, "&", "\x00", "\xff", "9", "-", "A", ":", "/", " "}
	c20XFile(c, i, s[:p]+menu[c.Pick("byte", len(menu))]+s[p+1:])
}

var (
	c20Attr = regexp.MustCompile(` [A-Za-z:0-9]+="([^"]*)"`)
	c20Text = regexp.MustCompile(`>([^<>]+)<`)
	c20Tag  = regexp.MustCompile(`<[^<>]*>`)
)

func c20Spans(re *regexp.Regexp, s string) [][]int {
	var r [][]int
	for _, m := range re.FindAllStringSubmatchIndex(s, -1) {
		if len(m) > 2 {
			r = append(r, m[2:4])
		} else {
			r = append(r, m[:2])
		}
	}
	return r
}

var c20Values = []string{"", "0", "1", "-1", "65535", "65536", "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "99999999999999999999999999",
	"A", "A0", "a1", "$A$1", "A1:", ":", ":A1", "A1:A1048576", "A1:XFD1048576", "XFD1048576", "XFE1048577", "ZZZ9", "ZZZZZZZZZZZZZZ1", "A99999999999999999999", "AAA1048576:A1", "B2:A1", "A0:B2", "B2:A0", "A0:A0", "1", "1A", "A1A", "A-1",
	"1e400", "-1e400", "1e-400", "NaN", "Inf", "-Inf", "0x10", "1_0", "\u00e9", "s", "inlineStr", "/", "..", "../../../etc/passwd", "xl/workbook.xml", "rId1", "true", "n", "b", "e", "d", " 7 ", "&#9;", "&bogus;", "&#xFFFF;"}

func c20XValues(c *engine.Ctx) {
	c20XOnce.Do(c20XSetup)
	i := 1 + c.Pick("part", len(c20XParts)-1)
	s := c20XParts[i].Data
	sp := append(c20Spans(c20Attr, s), c20Spans(c20Text, s)...)
	if len(sp) == 0 {
		return
	}
	m := sp[c.Pick("value", len(sp))]
	c20XFile(c, i, s[:m[0]]+c20Values[c.Pick("with", len(c20Values))]+s[m[1]:])
}

// two values of one part
func c20XValuePairs(c *engine.Ctx) {
	c20XOnce.Do(c20XSetup)
	i := 1 + c.Pick("part", len(c20XParts)-1)
	s := c20XParts[i].Data
	if strings.Contains(c20XParts[i].Name, ".rels") {
		return
	}
	sp := append(c20Spans(c20Attr, s), c20Spans(c20Text, s)...)
	if len(sp) < 2 {
		return
	}
	a := c.Pick("value", len(sp)-1)
	b := a + 1 + c.Pick("other", len(sp)-1-a)
	m, n := sp[a], sp[b]
	if n[0] < m[0] {
		m, n = n, m
	}
	menu := []string{"", "-1", "99999999999", "A1048576", "XFD1", "XFD1048576", "A1:XFD1048576", "NaN", "1e300", "14", "s", "e"}
	c20XFile(c, i, s[:m[0]]+menu[c.Pick("with", len(menu))]+s[m[1]:n[0]]+menu[c.Pick("and", len(menu))]+s[n[1]:])
}

// tags removed, doubled, nested deeply
func c20XTags(c *engine.Ctx) {
	c20XOnce.Do(c20XSetup)
	i := 1 + c.Pick("part", len(c20XParts)-1)
	s := c20XParts[i].Data
	sp := c20Spans(c20Tag, s)
	m := sp[c.Pick("tag", len(sp))]
	tag := s[m[0]:m[1]]
	switch c.Pick("change", 8) {
	case 0:
		c20XFile(c, i, s[:m[0]]+s[m[1]:])
	case 1:
		c20XFile(c, i, s[:m[1]]+tag+s[m[1]:])
	case 2:
		c20XFile(c, i, s[:m[1]]+strings.Repeat(tag, 3000)+s[m[1]:])
	case 3: // unclosed or self-closed
		t := tag
		if strings.HasSuffix(t, "/>") {
			t = t[:len(t)-2] + ">"
		} else if !strings.HasPrefix(t, "</") && !strings.HasPrefix(t, "<?") {
			t = t[:len(t)-1] + "/>"
		}
		c20XFile(c, i, s[:m[0]]+t+s[m[1]:])
	case 4: // without attributes
		j := strings.IndexByte(tag, ' ')
		if j < 0 || strings.HasPrefix(tag, "<?") {
			return
		}
		c20XFile(c, i, s[:m[0]]+tag[:j]+tag[len(tag)-1:]+s[m[1]:])
	case 5: // moved to the end
		c20XFile(c, i, s[:m[0]]+s[m[1]:]+tag)
	case 6: // cut after it
		c20XFile(c, i, s[:m[1]])
	case 7: // other markup in between
		c20XFile(c, i, s[:m[1]]+[]string{"<!-- c -->", "<![CDATA[x]]>", "<?pi x?>", "<!DOCTYPE x>", "text", "<c>", "<v>9</v>", `<c r="B9"><v>`, "</sheetData>", "<xf/>", `<dimension ref="A1:B2"/>`, "<si>"}[c.Pick("markup", 12)]+s[m[1]:])
	}
}

// parts missing, empty, doubled or exchanged
func c20XPackage(c *engine.Ctx) {
	c20XOnce.Do(c20XSetup)
	parts := append([]gen.XPart(nil), c20XParts...)
	i := c.Pick("part", len(parts))
	switch c.Pick("change", 5) {
	case 0:
		parts = append(parts[:i], parts[i+1:]...)
	case 1:
		parts[i].Data = ""
	case 2:
		parts = append(parts, parts[i])
	case 3:
		j := c.Pick("with", len(parts))
		parts[i].Data, parts[j].Data = parts[j].Data, parts[i].Data
	case 4:
		parts[i].Name = []string{"", "/", "..", "xl/", "x"}[c.Pick("name", 5)]
	}
	f := gen.Zip(parts, false)
	c.State(f)
	c20Finish(c, exercise(c, xlsx.Open, c.File("f.xlsx", f)))
}

// the bytes of the archive itself
func c20XZip(c *engine.Ctx) {
	c20XOnce.Do(c20XSetup)
	z := c20XZips[c.Pick("method", 2)]
	f := append([]byte(nil), z...)
	p := c.Pick("position", len(f))
	k := c.Pick("damage", 7)
	switch {
	case k < 5:
		f[p] = []byte{0, 0xFF, 0x7F, f[p] ^ 1, f[p] ^ 8}[k]
	case p+4 <= len(f):
		binary.LittleEndian.PutUint32(f[p:], []uint32{0xFFFFFFFF, 0x7FFFFFFF}[k-5])
	}
	c.State(f)
	c20Finish(c, exercise(c, xlsx.Open, c.File("f.xlsx", f)))
}

// references at and beyond the limits, all combinations
func c20XRefs(c *engine.Ctx) {
	refs := []string{"A1", "XFD1048576", "XFE1048577", "A1048576", "", "B3", "XFD1", "ZZZZZZZ9", "A99999999999", "A0", "7", "AAAA"}
	ranges := []string{"", "A1:XFD1048576", "A1:B3", "B2:ZZZZ99999999", "A1:A1048576", "A0:B2", "A1:XFD1", "C3:A1", "A1048575:B1048576"}
	links := len(refs)
	if !c.Thorough {
		refs, ranges, links = refs[:5], ranges[:6], 2
	}
	cell := refs[c.Pick("cell", len(refs))]
	s := gen.XSheet{Name: "S", Rows: `<row r="1"><c r="` + cell + `"><v>1</v></c></row>`}
	s.Dim = ranges[c.Pick("dimension", len(ranges))]
	s.Tail = ""
	if m := ranges[c.Pick("merge", len(ranges))]; m != "" {
		s.Tail += `<mergeCells count="1"><mergeCell ref="` + m + `"/></mergeCells>`
	}
	if l := c.Pick("link", links+1); l > 0 {
		s.Tail += `<hyperlinks><hyperlink ref="` + refs[l-1] + `" r:id="rId1"/></hyperlinks>`
		s.Rels = []gen.XRel{{ID: "rId1", Type: gen.RelLink, Target: "http://a/", External: true}}
	}
	x := &gen.XLSX{Sheets: []gen.XSheet{s}}
	f := x.File()
	c.State(f)
	c20Finish(c, exercise(c, xlsx.Open, c.File("f.xlsx", f)))
}

// ---- text

func c20Tsv(c *engine.Ctx) {
	alpha := []byte{0, '\t', '\n', '\r', 'a', '"', ',', 0xFF, 0x80, ' ', '#'}
	open := []func(string) (grate.Source, error){simple.OpenTSV, simple.OpenCSV, grate.Open}[c.Pick("opener", 3)]
	n := c.Pick("length", 5)
	if c.Thorough {
		n += c.Pick("more", 2)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = alpha[c.Pick("byte", len(alpha))]
	}
	if n <= 3 && c.Pick("repeat", 2) == 1 {
		b = bytes.Repeat(b, 5000)
	}
	c.State(b)
	c20Finish(c, "text "+exercise(c, open, c.File("f.txt", b)))
}

// any file through detection: the damaged headers of all kinds
func c20Head(c *engine.Ctx) {
	c20XOnce.Do(c20XSetup)
	base := [][]byte{c20Book(1).file, c20XZips[0], []byte("a\tb\nc\td\ne\tf\n")}[c.Pick("kind", 3)]
	n := c.Pick("cut", 9)
	f := append([]byte(nil), base[:min(len(base), []int{0, 1, 4, 8, 26, 76, 512, 600, len(base)}[n])]...)
	if len(f) > 0 {
		p := c.Pick("position", min(len(f), 80))
		f[p] = []byte{0, 0xFF, '\t', '\n', f[p]}[c.Pick("byte", 5)]
	}
	c.State(f)
	c20Finish(c, "any "+exercise(c, grate.Open, c.File("f", f)))
}

func init() {
	engine.Register(&engine.Property{
		ID:    "C20",
		Level: "model-checked",
		Rule:  "any damage to a record, container link, archive or XML part: Open, List, Get and full reading return data or an error, twice the same, without panic, hang or excessive allocation",
		Assumptions: []string{
			"input files below 100 KB; a hang is 25 s of processor time for one file; the allocation limit is 450 MB per call, which the largest grid of the format fits",
			"one damaged field, record, tag or part at a time, except the pair and range harnesses (two damaged fields)",
		},
		Harnesses: []engine.Harness{
			{Name: "xls-bytes", Run: c20XlsBytes},
			{Name: "xls-records", Run: c20XlsRecords},
			{Name: "xls-sheet-position", Run: c20XlsSheetPos},
			{Name: "xls-ranges", Run: c20XlsRanges},
			{Name: "cfb-bytes", Run: c20CfbBytes},
			{Name: "cfb-links", Run: c20CfbLinks},
			{Name: "cfb-cycles", Run: c20CfbCycles},
			{Name: "xlsx-bytes", Run: c20XBytes},
			{Name: "xlsx-values", Run: c20XValues},
			{Name: "xlsx-tags", Run: c20XTags},
			{Name: "xlsx-package", Run: c20XPackage},
			{Name: "xlsx-archive", Run: c20XZip},
			{Name: "xlsx-references", Run: c20XRefs},
			{Name: "text", Run: c20Tsv},
			{Name: "any-head", Run: c20Head},
			{Name: "xls-byte-pairs", Run: c20XlsPairs, Only: "thorough"},
			{Name: "cfb-link-pairs", Run: c20CfbLinkPairs, Only: "thorough"},
			{Name: "xlsx-value-pairs", Run: c20XValuePairs, Only: "thorough"},
		},
	})
}

package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"strings"
	"sync"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/xls"
	"github.com/pbnjay/grate/xls/cfb"
	"github.com/pbnjay/grate/xlsx"

	"verif/mc/engine"
	"verif/mc/gen"
)

// c21Data is what a file shows: its sheet names and the contents of each.
type c21Data struct {
	names  []string
	sheets map[string]string
}

func c21Read(c *engine.Ctx, open func(string) (grate.Source, error), path string) (*c21Data, error) {
	var src grate.Source
	var err error
	c.Guard("Open", func() { src, err = open(path) })
	c.Steps(1)
	if err != nil {
		return nil, err
	}
	defer src.Close()
	d := &c21Data{sheets: map[string]string{}}
	c.Guard("List", func() { d.names, err = src.List() })
	if err != nil {
		return nil, err
	}
	all := d.names
	if h, ok := src.(hiddenLister); ok {
		hid, err := h.ListHidden()
		if err != nil {
			return nil, err
		}
		all = append(append([]string(nil), all...), "|")
		all = append(all, hid...)
		d.names = all
	}
	for _, n := range all {
		if n == "|" {
			continue
		}
		c.Guard("read", func() {
			col, err := src.Get(n)
			if err != nil {
				d.sheets[n] = "error " + err.Error()
				return
			}
			t, err := readAll(col)
			if err != nil {
				d.sheets[n] = "error " + err.Error()
				return
			}
			d.sheets[n] = fmt.Sprint(t.Empty, t)
		})
		c.Steps(1)
	}
	return d, nil
}

// c21Same reports a file which shows anything but the intact data without an error.
func c21Same(c *engine.Ctx, what string, intact, d *c21Data, err error) {
	if err != nil {
		c.Outcome("error on open")
		return
	}
	if fmt.Sprintf("%q", d.names) != fmt.Sprintf("%q", intact.names) {
		c.Failf("%s: sheets %q are listed without an error, the intact file has %q", what, d.names, intact.names)
	}
	o := "same data"
	for _, n := range intact.names {
		if strings.HasPrefix(d.sheets[n], "error ") {
			o = "error on get"
			continue
		}
		if d.sheets[n] != intact.sheets[n] {
			c.Failf("%s: sheet %q reads without an error as\n%s\nand the intact file as\n%s", what, n, d.sheets[n], intact.sheets[n])
		}
	}
	c.Outcome(o)
}

type c21File struct {
	what   string
	data   []byte
	intact *c21Data
}

var (
	c21Once    sync.Once
	c21Xls     []c21File
	c21Stream  [][]byte
	c21Streams []c21File // whole files of the record streams
	c21Cfb     []*gen.CFB
	c21Xlsx    []c21File
	c21Parts   [][]gen.XPart
)

func c21Setup(c *engine.Ctx) {
	c20Once.Do(c20Setup)
	c20XOnce.Do(c20XSetup)
	intact := func(what string, open func(string) (grate.Source, error), data []byte) c21File {
		d, err := c21Read(c, open, c.File("intact", data))
		if err != nil {
			c.Failf("%s: the intact file fails: %v", what, err)
		}
		for n, s := range d.sheets {
			if strings.HasPrefix(s, "error ") {
				c.Failf("%s: sheet %q of the intact file: %s", what, n, s)
			}
		}
		return c21File{what, data, d}
	}
	small, large := c20Bases[1].stream, append([]byte(nil), c20Bases[0].stream...)
	enc := c20Bases[2].stream
	// a large workbook: the sheets lie beyond the cutoff of the mini stream
	big := &gen.XLS{Pre: []gen.Rec{gen.XF(0), gen.XF(14)}, Post: gen.SST([]string{"a", "b", strings.Repeat("long ", 200)})}
	for k := 0; k < 3; k++ {
		rs := []gen.Rec{gen.Dimensions(0, 40, 0, 4)}
		for r := 0; r < 40; r++ {
			rs = append(rs, gen.Number(r, 0, 0, float64(100*k+r)), gen.LabelSst(r, 1, 0, r%3), gen.RK(r, 2, 1, uint32(r+1)<<2|2))
		}
		big.Sheets = append(big.Sheets, gen.Sheet{Name: fmt.Sprint("S", k), State: byte(k / 2), Recs: rs})
	}
	bigS := big.Stream()
	for _, s := range []struct {
		what string
		data []byte
	}{{"small", small}, {"rich", large}, {"encrypted", enc}, {"big", bigS}} {
		c21Stream = append(c21Stream, s.data)
		c21Streams = append(c21Streams, intact(s.what, xls.Open, gen.XLSFile(s.data)))
	}
	rot := func(n int) func(k []string) []int {
		return func(k []string) []int {
			p := make([]int, len(k))
			for i := range p {
				p[i] = (i + n) % len(k)
			}
			return p
		}
	}
	miniRev := func(n int) []int { return reversePerm(make([]string, n)) }
	add := func(what string, f *gen.CFB) {
		c21Xls = append(c21Xls, intact(what, xls.Open, f.Bytes()))
		c21Cfb = append(c21Cfb, f)
	}
	for _, v := range []int{3, 4} {
		for k, perm := range []func([]string) []int{nil, reversePerm, rot(1), rot(2), rot(4)} {
			for j, s := range [][]byte{small, bigS} {
				if v == 4 && k > 1 && j == 1 {
					continue
				}
				f := &gen.CFB{Version: v, Perm: perm, Streams: []gen.Stream{{Name: "Workbook", Data: s}, {Name: "Other", Data: pat(3, 700)}}}
				if k == 2 {
					f.MiniPerm = miniRev
					f.Free = 1
				}
				if k == 3 {
					f.Trailing = 100
					f.Streams[0], f.Streams[1] = f.Streams[1], f.Streams[0]
				}
				add(fmt.Sprintf("v%d layout %d stream of %d", v, k, len(s)), f)
			}
		}
	}
	inner := (&gen.XLSX{Sheets: []gen.XSheet{{Name: "Inner", Rows: gen.RowX(0, gen.C(0, 0, "", -1, gen.V("99")))}}}).File()
	x := c20XBook()
	// tables of more than one entry
	x.Sheets[0].Rels = append(x.Sheets[0].Rels, gen.XRel{ID: "rId8", Type: gen.RelLink, Target: "http://second/", External: true})
	x.Sheets[0].Tail = strings.Replace(x.Sheets[0].Tail, "</hyperlinks>", `<hyperlink ref="D4" r:id="rId8"/></hyperlinks>`, 1)
	for _, p := range []struct {
		what    string
		deflate bool
		embed   int // 0 none, 1 in the middle, 2 last
	}{{"stored", false, 0}, {"deflated", true, 0}, {"embedding, stored", false, 1}, {"embedding last", false, 2}} {
		parts := append([]gen.XPart(nil), x.Parts()...)
		e := gen.XPart{Name: "xl/embeddings/Microsoft_Excel_Sheet1.xlsx", Data: string(inner)}
		switch p.embed {
		case 1:
			parts = append(append(append([]gen.XPart(nil), parts[:3]...), e), parts[3:]...)
		case 2:
			parts = append(parts, e)
		}
		c21Xlsx = append(c21Xlsx, intact(p.what, xlsx.Open, gen.Zip(parts, p.deflate)))
	}
	rel := *x
	rel.PartOrder = reversePerm(make([]string, len(x.Parts())))
	c21Xlsx = append(c21Xlsx, intact("reverse", xlsx.Open, rel.File()))
	c21Parts = append(c21Parts, x.Parts())
}

func c21Init(c *engine.Ctx) { c21Once.Do(func() { c21Setup(c) }) }

// the file ends at any byte
func c21XlsCut(c *engine.Ctx) {
	c21Init(c)
	f := &c21Xls[c.Pick("file", len(c21Xls))]
	n := c.Pick("length", len(f.data))
	c.State(f.what, n)
	d, err := c21Read(c, xls.Open, c.File("f.xls", f.data[:n]))
	c21Same(c, fmt.Sprintf("%s, the first %d of %d bytes", f.what, n, len(f.data)), f.intact, d, err)
}

func c21CfbCut(c *engine.Ctx) {
	c21Init(c)
	i := c.Pick("file", len(c21Xls))
	f := &c21Xls[i]
	n := c.Pick("length", len(f.data))
	c.State(f.what, n)
	path := c.File("f.xls", f.data[:n])
	c.Guard("cfb", func() {
		doc, err := cfb.Open(path)
		c.Steps(1)
		if err != nil {
			c.Outcome("error on open")
			return
		}
		names, err := doc.List()
		if err != nil {
			return
		}
		have := map[string]bool{}
		for _, m := range names {
			have[m] = true
		}
		o := "same data"
		for _, s := range c21Cfb[i].Streams {
			if !have[s.Name] {
				c.Failf("%s, the first %d of %d bytes: the stream %q is not listed", f.what, n, len(f.data), s.Name)
			}
			r, err := doc.Open(s.Name)
			c.Steps(1)
			if err != nil {
				o = "error on a stream"
				continue
			}
			b, err := io.ReadAll(r)
			if err != nil {
				o = "error on a stream"
				continue
			}
			if !bytes.Equal(b, s.Data) {
				c.Failf("%s, the first %d of %d bytes: stream %q yields %d bytes which differ at %d from the %d stored", f.what, n, len(f.data), s.Name, len(b), diffAt(b, s.Data), len(s.Data))
			}
		}
		c.Outcome(o)
	})
}

// the record stream of a sound container ends at any byte
func c21StreamCut(c *engine.Ctx) {
	c21Init(c)
	i := c.Pick("stream", len(c21Stream))
	s := c21Stream[i]
	n := c.Pick("length", len(s))
	c.State(i, n)
	d, err := c21Read(c, xls.Open, c.File("f.xls", gen.XLSFile(s[:n])))
	c21Same(c, fmt.Sprintf("%s stream, the first %d of %d bytes", c21Streams[i].what, n, len(s)), c21Streams[i].intact, d, err)
}

// the directory understates the size of the stream
func c21SizeCut(c *engine.Ctx) {
	c21Init(c)
	k := c.Pick("file", 2)
	f := &c21Xls[k]
	n := uint32(c.Pick("size", len(c21Cfb[k].Streams[0].Data)))
	data := append([]byte(nil), f.data...)
	name := gen.Chars(gen.U16s("Workbook"), true)
	at := bytes.Index(data, name)
	binary.LittleEndian.PutUint32(data[at+120:], n)
	c.State(k, n)
	d, err := c21Read(c, xls.Open, c.File("f.xls", data))
	c21Same(c, fmt.Sprintf("%s with a size of %d", f.what, n), f.intact, d, err)
}

func c21XlsxCut(c *engine.Ctx) {
	c21Init(c)
	f := &c21Xlsx[c.Pick("file", len(c21Xlsx))]
	n := c.Pick("length", len(f.data))
	c.State(f.what, n)
	d, err := c21Read(c, xlsx.Open, c.File("f.xlsx", f.data[:n]))
	c21Same(c, fmt.Sprintf("%s, the first %d of %d bytes", f.what, n, len(f.data)), f.intact, d, err)
}

// the same through the detection of the format
func c21DetectCut(c *engine.Ctx) {
	c21Init(c)
	fs := append(append([]c21File(nil), c21Xls[:4]...), c21Xlsx...)
	f := &fs[c.Pick("file", len(fs))]
	n := 10 + c.Pick("length", len(f.data)-10) // what is shorter may be text as well
	c.State(f.what, n)
	d, err := c21Read(c, grate.Open, c.File("f", f.data[:n]))
	c21Same(c, fmt.Sprintf("grate.Open: %s, the first %d of %d bytes", f.what, n, len(f.data)), f.intact, d, err)
}

// a part of a sound archive ends at any byte
func c21PartCut(c *engine.Ctx) {
	c21Init(c)
	parts := append([]gen.XPart(nil), c21Parts[0]...)
	i := c.Pick("part", len(parts)-1) + 1 // the content types are not read
	s := parts[i].Data
	n := c.Pick("length", len(s))
	parts[i].Data = s[:n]
	c.State(i, n)
	d, err := c21Read(c, xlsx.Open, c.File("f.xlsx", gen.Zip(parts, false)))
	c21Same(c, fmt.Sprintf("part %s cut to %d of %d bytes", parts[i].Name, n, len(s)), c21Xlsx[0].intact, d, err)
}

func init() {
	engine.Register(&engine.Property{
		ID:    "C21",
		Level: "model-checked",
		Rule:  "every cut of the file, its record stream or an XML part: the intact data or an error, per sheet",
		Assumptions: []string{
			"the files are those of the setup: two container versions, five sector layouts, workbooks in the mini stream and in regular sectors, plain and encrypted; archives stored, deflated, with an embedded workbook",
			"xls.Open and xlsx.Open; detection by grate.Open may hand an unrecognisable rest to the text reader",
		},
		Harnesses: []engine.Harness{
			{Name: "xls-file", Run: c21XlsCut},
			{Name: "cfb-file", Run: c21CfbCut},
			{Name: "xls-stream", Run: c21StreamCut},
			{Name: "xls-stream-size", Run: c21SizeCut},
			{Name: "xlsx-file", Run: c21XlsxCut},
			{Name: "detect", Run: c21DetectCut},
			{Name: "xlsx-part", Run: c21PartCut},
		},
	})
}

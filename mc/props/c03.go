package props

import (
	"fmt"
	"strings"

	"github.com/pbnjay/grate/xls"

	"verif/mc/engine"
	"verif/mc/gen"
)

// a shared string to be stored
type sstStr struct {
	s    string
	wide bool
}

var c03Menu = []sstStr{
	{"abc", false}, {"abc", true}, {"é", false}, {"日本", true}, {"", false}, {"", true}, {"x𝄞y", true}, {"aÿ日b", true}, {"q", false},
}

func c03Payload(i int) (runs, ext int) {
	return []int{0, 1, 2, 0, 0, 1}[i], []int{0, 0, 0, 1, 6, 5}[i]
}

// c03Column checks that a sheet of one column shows the strings.
func c03Column(c *engine.Ctx, post []gen.Rec, strs []string) {
	n := len(strs)
	recs := []gen.Rec{gen.Dimensions(0, n+1, 0, 2)}
	g := blankGrid(n+1, 2)
	for i, s := range strs {
		recs = append(recs, gen.LabelSst(i, 0, 0, i))
		if s != "" {
			g[i][0] = want{typ: "string", val: s, str: s}
		}
	}
	// the last string again, and a number after it
	recs = append(recs, gen.LabelSst(n, 0, 0, n-1), gen.RK(n, 1, 0, rkInt(9, false)))
	g[n][0] = g[n-1][0]
	g[n][1] = want{typ: "integer", val: int64(9), str: "9"}
	x := &gen.XLS{Pre: xlsPre(), Post: post, Sheets: []gen.Sheet{{Name: "S", Recs: recs}}}
	checkGrid(c, xlsSheet(c, x, "S"), g)
}

// c03Put stores a string, asking at every place where a record may end.
func c03Put(c *engine.Ctx, w *gen.SSTWriter, s sstStr, runs, ext int) {
	if w.Len() > 0 && c.Bool("between") {
		w.Break()
	}
	u := gen.U16s(s.s)
	w.Header(len(u), s.wide, runs, ext)
	wide := s.wide
	for _, ch := range u {
		brk := false
		switch c.Dev("char", 3) {
		case 1:
			brk = true
		case 2:
			brk = true
			wide = !wide
		}
		if !wide && ch > 0xFF {
			wide, brk = true, true
		}
		if brk {
			w.Break()
			w.Raw([]byte{b2(wide)})
		}
		w.Raw(gen.Chars([]uint16{ch}, wide))
	}
	for i := 0; i < 4*runs; i++ {
		if c.Bool("run") {
			w.Break()
		}
		w.Raw([]byte{byte(0x11*i + 1)})
	}
	for i := 0; i < ext; i++ {
		if c.Bool("ext") {
			w.Break()
		}
		w.Raw([]byte{byte(0x21*i + 3)})
	}
}

func b2(b bool) byte {
	if b {
		return 1
	}
	return 0
}

func c03Split(c *engine.Ctx) {
	n := 2
	w := gen.NewSST(n)
	var strs []string
	for i := 0; i < n; i++ {
		s := c03Menu[c.Pick("str", len(c03Menu))]
		runs, ext := c03Payload(c.Pick("payload", 6))
		c03Put(c, w, s, runs, ext)
		strs = append(strs, s.s)
	}
	w.Add("end", false, 0, 0)
	strs = append(strs, "end")
	c03Column(c, w.Recs(), strs)
}

// one longer string, with breaks at every combination of places
func c03Deep(c *engine.Ctx) {
	s := []sstStr{{"abcdé", false}, {"ab日𝄞c", true}, {"abcde", true}}[c.Pick("str", 3)]
	runs, ext := c03Payload([]int{0, 1, 3, 5}[c.Pick("payload", 4)])
	w := gen.NewSST(3)
	w.Add("first", false, 0, 0)
	c03Put(c, w, s, runs, ext)
	if c.Bool("between") {
		w.Break()
	}
	w.Add("end", false, 0, 0)
	c03Column(c, w.Recs(), []string{"first", s.s, "end"})
}

// tables which fill records up to their limit: every alignment of a string to the boundary
func c03Limit(c *engine.Ctx) {
	k := c.Pick("align", 40)
	s := []sstStr{{"abcdé", false}, {"ab日𝄞c", true}, {"abcde", true}, {"", false}, {"x", false}}[c.Pick("str", 5)]
	pay := c.Pick("payload", 6)
	runs, ext := c03Payload(pay)
	fw := c.Pick("fillwide", 2) == 1
	w := gen.NewSST(3)
	fill := 8224 - 8 - 3 - 30 + k
	if fw {
		fill /= 2
		if k >= 20 {
			return
		}
		fill += k
	}
	filler := strings.Repeat("ab", fill/2)
	if fill%2 == 1 {
		filler += "c"
	}
	w.Add(filler, fw, 0, 0)
	w.Add(s.s, s.wide, runs, ext)
	w.Add("end", false, 0, 0)
	c03Column(c, w.Recs(), []string{filler, s.s, "end"})
}

// long strings and long tables
func c03Long(c *engine.Ctx) {
	wide := c.Pick("wide", 2) == 1
	switch c.Pick("kind", 5) {
	case 0: // every length class
		l := []int{255, 256, 4096, 8192, 8213, 8214, 16384, 32767, 32768, 40000}[c.Pick("len", 10)]
		var b strings.Builder
		for i := 0; i < l; i++ {
			if wide && i%7 == 3 {
				b.WriteRune(rune(0x4e00 + i%1000))
			} else {
				b.WriteByte(byte('a' + i%26))
			}
		}
		w := gen.NewSST(2)
		runs := []int{0, 3, 2200, 16384, 20000}[c.Pick("runs", 5)]
		if runs > 3000 && l < runs {
			runs = l // one for each character
		}
		ext := []int{0, 9000, 70000}[c.Pick("ext", 3)]
		w.Add(b.String(), wide, runs, ext)
		w.Add("end", false, 0, 0)
		c03Column(c, w.Recs(), []string{b.String(), "end"})
	case 1: // many strings
		n := []int{1, 100, 1000, 5000, 30000, 60000}[c.Pick("count", 6)]
		w := gen.NewSST(n)
		w.Max = []int{8224, 8223, 1000, 64, 22}[c.Pick("limit", 5)] // down to tens of thousands of records
		var strs []string
		for i := 0; i < n; i++ {
			s := fmt.Sprintf("string %d é", i)
			if wide && i%3 == 0 {
				s += "日"
			}
			w.Add(s, !gen.Latin(s), i%4%3, i%5%2)
			strs = append(strs, s)
		}
		c03Column(c, w.Recs(), strs)
	case 2: // long then short strings: nothing of the long one may remain
		w := gen.NewSST(3)
		strs := []string{strings.Repeat("long", 50), "s", strings.Repeat("é", 40), "t"}
		for _, s := range strs {
			w.Add(s, wide, 0, 0)
		}
		c03Column(c, w.Recs(), strs)
	case 4: // more strings than 16 bits count
		n := 70000
		w := gen.NewSST(n)
		for i := 0; i < n; i++ {
			w.Add(fmt.Sprintf("%dé", i), wide, 0, 0)
		}
		idx := []int{0, 1, 255, 256, 32767, 32768, 65534, 65535, 65536, 65537, 66000, 69999}
		recs := []gen.Rec{gen.Dimensions(0, len(idx), 0, 1)}
		g := blankGrid(len(idx), 1)
		for i, k := range idx {
			recs = append(recs, gen.LabelSst(i, 0, 0, k))
			s := fmt.Sprintf("%dé", k)
			g[i][0] = want{typ: "string", val: s, str: s}
		}
		x := &gen.XLS{Pre: xlsPre(), Post: w.Recs(), Sheets: []gen.Sheet{{Name: "S", Recs: recs}}}
		checkGrid(c, xlsSheet(c, x, "S"), g)
	case 3: // the table before the sheet directory
		x := &gen.XLS{Pre: xlsPre(), Post: gen.SST([]string{"a", "b"}), SSTFirst: true, Sheets: []gen.Sheet{
			{Name: "S", Recs: []gen.Rec{gen.Dimensions(0, 1, 0, 2), gen.LabelSst(0, 0, 0, 1), gen.LabelSst(0, 1, 0, 0)}}}}
		checkGrid(c, xlsSheet(c, x, "S"), [][]want{{{typ: "string", val: "b", str: "b"}, {typ: "string", val: "a", str: "a"}}})
	}
}

// formula result strings: every split
func c03Formula(c *engine.Ctx) {
	s := []sstStr{{"abcdé", false}, {"ab日𝄞c", true}, {"abcde", true}, {"ÿ", false}, {"𝄞", true}}[c.Pick("str", 5)]
	u := gen.U16s(s.s)
	cur := gen.Rec{T: gen.TString, D: (&gen.W{}).U16(len(u)).U8(b2(s.wide)).Bytes()}
	recs := []gen.Rec{gen.Dimensions(0, 1, 0, 3), gen.RK(0, 0, 0, rkInt(4, false)), gen.Formula(0, 1, 0, gen.FStr())}
	wide := s.wide
	for _, ch := range u {
		brk := false
		switch c.Dev("char", 3) {
		case 1:
			brk = true
		case 2:
			brk = true
			wide = !wide
		}
		if !wide && ch > 0xFF {
			wide, brk = true, true
		}
		if brk {
			recs = append(recs, cur)
			cur = gen.Rec{T: gen.TContinue, D: []byte{b2(wide)}}
		}
		cur.D = append(cur.D, gen.Chars([]uint16{ch}, wide)...)
	}
	recs = append(recs, cur, gen.RK(0, 2, 0, rkInt(5, false)))
	x := &gen.XLS{Pre: xlsPre(), Sheets: []gen.Sheet{{Name: "S", Recs: recs}}}
	checkGrid(c, xlsSheet(c, x, "S"), [][]want{{{typ: "integer", val: int64(4), str: "4"}, {typ: "string", val: s.s, str: s.s}, {typ: "integer", val: int64(5), str: "5"}}})
}

// long formula strings, split at the record limit
func c03FormulaLong(c *engine.Ctx) {
	wide := c.Pick("wide", 2) == 1
	l := []int{1, 100, 4108, 4110, 4111, 4112, 8218, 8220, 8221, 8222, 8300, 16437, 20000, 32767}[c.Pick("len", 14)]
	limit := []int{8224, 8223, 4000, 1000, 257, 64, 11}[c.Pick("limit", 7)]
	flip := c.Pick("flip", 2) == 1 // every other record in the other width
	var u []uint16
	for i := 0; i < l; i++ {
		if wide && i%11 == 4 && !flip {
			u = append(u, uint16(0x4e00+i%1000))
		} else {
			u = append(u, uint16('a'+i%26))
		}
	}
	recs := []gen.Rec{gen.Dimensions(0, 1, 0, 3), gen.Formula(0, 1, 0, gen.FStr())}
	cur := gen.Rec{T: gen.TString, D: (&gen.W{}).U16(l).U8(b2(wide)).Bytes()}
	var rs []rune
	for _, ch := range u {
		b := gen.Chars([]uint16{ch}, wide)
		if len(cur.D)+len(b) > limit {
			recs = append(recs, cur)
			if flip {
				wide = !wide
				b = gen.Chars([]uint16{ch}, wide)
			}
			cur = gen.Rec{T: gen.TContinue, D: []byte{b2(wide)}}
		}
		cur.D = append(cur.D, b...)
		rs = append(rs, rune(ch))
	}
	recs = append(recs, cur, gen.RK(0, 2, 0, rkInt(5, false)))
	s := string(rs)
	x := &gen.XLS{Pre: xlsPre(), Sheets: []gen.Sheet{{Name: "S", Recs: recs}}}
	checkGrid(c, xlsSheet(c, x, "S"), [][]want{{wBlank, {typ: "string", val: s, str: s}, {typ: "integer", val: int64(5), str: "5"}}})
}

// sheet names and format codes in both widths
func c03Names(c *engine.Ctx) {
	names := []string{"S", "Ünïcöde", "日本語シート", "a𝄞b", "with space", "quo'te", strings.Repeat("n", 31), strings.Repeat("é", 31), strings.Repeat("日", 31)}
	n1 := names[c.Pick("name1", len(names))]
	n2 := "other"
	if c.Pick("name2", 2) == 1 {
		n2 = "ôther日"
	}
	wide := c.Pick("wide", 2) == 1
	codes := []string{"é", "日", "unit", strings.Repeat("long", 70), "𝄞"}
	code := codes[c.Pick("code", len(codes))]
	cw := c.Pick("codewide", 2) == 1
	pre := []gen.Rec{gen.Format(164, `"`+code+`"0`, cw), gen.XF(0), gen.XF(164)}
	x := &gen.XLS{Pre: pre, Sheets: []gen.Sheet{
		{Name: n1, Wide: wide, Recs: []gen.Rec{gen.Dimensions(0, 1, 0, 1), gen.RK(0, 0, 1, rkInt(7, false))}},
		{Name: n2, Wide: wide, Recs: []gen.Rec{gen.Dimensions(0, 1, 0, 1), gen.RK(0, 0, 0, rkInt(8, false))}}}}
	if bits := []byte{0, 2, 0xF2}[c.Pick("reserved", 3)]; bits != 0 {
		// the reserved bits of the strings' flags are to be ignored
		x.Wrap = func(s []byte) []byte {
			for i := 0; i+4 <= len(s); i += 4 + int(s[i+2]) + int(s[i+3])<<8 {
				switch int(s[i]) | int(s[i+1])<<8 {
				case gen.TBoundSheet:
					s[i+4+7] |= bits
				case gen.TFormat:
					s[i+4+4] |= bits
				}
			}
			return gen.XLSFile(s)
		}
	}
	src := xlsOpen(c, x)
	l, err := src.List()
	if err != nil || len(l) != 2 || l[0] != n1 || l[1] != n2 {
		c.Failf("List = %q, %v; want %q", l, err, []string{n1, n2})
	}
	for i, n := range []string{n1, n2} {
		col, err := src.(*xls.WorkBook).Get(n)
		if err != nil {
			c.Failf("Get(%q): %v", n, err)
		}
		w := want{typ: "integer", val: int64(7), str: code + "7"}
		if i == 1 {
			w = want{typ: "integer", val: int64(8), str: "8"}
		}
		checkGrid(c, col, [][]want{{w}})
	}
}

func init() {
	engine.Register(&engine.Property{
		ID: "C03", Level: "model_checking",
		Rule:        "split: every pair of strings from 9 (text x stored width) x 6 run/phonetic payloads x every placement of up to 2 (thorough 3) record boundaries at any character, run or phonetic byte, each keeping or switching the width; deep: one longer string with up to 4 (thorough 6) boundaries; limit: every alignment of a string to the 8224-byte record limit; long: long strings and tables, tables of up to 60000 strings in up to 80000 records; formula: every split of formula strings; names: sheet names and format codes in both widths. Oracle: the strings stored",
		Assumptions: []string{"a string header (length, flags, counts) is never split, as the format requires"},
		Harnesses: []engine.Harness{
			{Name: "split", Run: c03Split, Quick: 2, Thorough: 3},
			{Name: "deep", Run: c03Deep, Quick: 4, Thorough: 6},
			{Name: "limit", Run: c03Limit},
			{Name: "long", Run: c03Long},
			{Name: "formula", Run: c03Formula, Quick: 6, Thorough: 6},
			{Name: "formulalong", Run: c03FormulaLong},
			{Name: "names", Run: c03Names},
		},
	})
}

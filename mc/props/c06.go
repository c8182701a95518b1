package props

import (
	"errors"
	"fmt"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/simple"

	"verif/mc/engine"
)

// c06Lines is the tab-separated reading of a text: the records, and whether
// the last line is one which ends in a carriage return only (left open).
func c06Lines(s string) [][]string {
	var rows [][]string
	for s != "" {
		i := strings.IndexByte(s, '\n')
		var l string
		if i < 0 {
			l, s = s, ""
		} else {
			l, s = s[:i], s[i+1:]
		}
		l = strings.TrimSuffix(l, "\r")
		rows = append(rows, strings.Split(l, "\t"))
	}
	return rows
}

// c06Accepted: the openers decline a file in which a column count is shared by
// more than 25 records but none by 80 percent of them.
func c06Accepted(rows [][]string) bool {
	n := map[int]int{}
	for _, r := range rows {
		n[len(r)]++
	}
	many := false
	for c, k := range n {
		if c <= 1 {
			continue
		}
		if k > 10 && float64(k)/float64(len(rows)) > 0.8 {
			return true
		}
		many = many || k > 25
	}
	return !many
}

// c06Grid compares a delimited collection with its records.
func c06Grid(c *engine.Ctx, col grate.Collection, rows [][]string) {
	data := false
	for _, r := range rows {
		for _, f := range r {
			data = data || f != ""
		}
	}
	var t *table
	var err error
	c.Guard("reading", func() { t, err = readAll(col) })
	if err != nil {
		c.Failf("reading: %v", err)
	}
	if t.Empty == data {
		c.Failf("IsEmpty = %v for %q", t.Empty, rows)
	}
	if len(t.Rows) != len(rows) {
		c.Failf("%d records, want %d: %.300q\n%.500v", len(t.Rows), len(rows), rows, t)
	}
	for i, r := range rows {
		g := t.Rows[i]
		if len(g.S) != len(r) || len(g.T) != len(r) || len(g.F) != len(r) {
			c.Failf("record %d has %d/%d/%d fields, want %d", i, len(g.S), len(g.T), len(g.F), len(r))
		}
		for k, f := range r {
			if g.S[k] != f {
				c.Failf("record %d field %d is %.200q, want %.200q", i, k, g.S[k], f)
			}
			w := "string"
			if f == "" {
				w = "blank"
			}
			if g.T[k] != w || g.F[k] != "General" {
				c.Failf("record %d field %d %.200q has type %q and format %q", i, k, f, g.T[k], g.F[k])
			}
		}
		c.Steps(1)
	}
	var again bool
	c.Guard("Next", func() { again = col.Next() || col.Next() })
	if again {
		c.Failf("Next is true again after the end")
	}
}

// c06Open opens a file directly or by detection and gets its only table.
func c06Open(c *engine.Ctx, path string, detect bool, open func(string) (grate.Source, error)) (grate.Source, grate.Collection, error) {
	var src grate.Source
	var err error
	c.Guard("Open", func() {
		if detect {
			src, err = grate.Open(path)
		} else {
			src, err = open(path)
		}
	})
	if err != nil {
		return nil, nil, err
	}
	var l []string
	var col grate.Collection
	c.Guard("List", func() { l, err = src.List() })
	if err != nil || len(l) != 1 || l[0] != filepath.Base(path) {
		c.Failf("List = %q, %v", l, err)
	}
	c.Guard("Get", func() { col, err = src.Get(l[0]) })
	if err != nil {
		c.Failf("Get: %v", err)
	}
	return src, col, nil
}

func c06TSV(c *engine.Ctx, text string, name string) {
	rows := c06Lines(text)
	p := c.File(name, []byte(text))
	ok := c06Accepted(rows)
	for _, detect := range []bool{false, true} {
		_, col, err := c06Open(c, p, detect, simple.OpenTSV)
		if !ok {
			// refused as not being in the format; what detection makes of it is left open
			if !detect && !errors.Is(err, grate.ErrNotInFormat) {
				c.Failf("an irregular file gives error %v", err)
			}
			continue
		}
		if err != nil {
			c.Failf("Open (detection %v) of %.100q: %v", detect, text, err)
		}
		c06Grid(c, col, rows)
	}
}

func c06TSVText(c *engine.Ctx) {
	alpha := []string{"a", "\t", "\n", "\r\n", "\""}
	n := 8
	if c.Thorough {
		n = 9
	}
	k := c.Pick("length", n+1)
	var b strings.Builder
	for i := 0; i < k; i++ {
		b.WriteString(alpha[c.Pick("unit", len(alpha))])
	}
	c.State(b.String())
	c06TSV(c, b.String(), "t.tsv")
}

var c06Sizes = []int{1, 4095, 4096, 4097, 65534, 65535, 65536, 65537, 131072, 300000, 1<<20 + 1, 5000000}

// fields and lines of every size at every place
func c06TSVBig(c *engine.Ctx) {
	size := c06Sizes[c.Pick("size", len(c06Sizes))]
	unit := []string{"x", " ", "\"", "é", "\x00", "\xff"}[c.Pick("unit", 6)]
	place := c.Pick("place", 4)
	eol := []string{"\n", "\r\n"}[c.Pick("eol", 2)]
	last := c.Pick("final newline", 2) == 1
	if size > 1<<20 && (place == 3 || last) {
		return
	}
	big := strings.Repeat(unit, size/len(unit)+1)
	rows := [][]string{{"h1", "h2", "h3"}, {"1", "2", "3"}, {"", "", ""}, {"7", "8", "9"}}
	switch place {
	case 0:
		rows[0][0] = big
	case 1:
		rows[1][1] = big
	case 2:
		rows[3][2] = big
	case 3: // many fields
		rows[1] = make([]string, size+1)
		rows[1][0], rows[1][size] = "first", "last"
	}
	var l []string
	for _, r := range rows {
		l = append(l, strings.Join(r, "\t"))
	}
	text := strings.Join(l, eol)
	if last {
		text += eol
	}
	c06TSV(c, text, "big.txt")
}

// record counts around the regularity thresholds
func c06Count(c *engine.Ctx) {
	n := c.Pick("regular", 46)
	m := c.Pick("others", 14)
	w := 2 + c.Pick("width", 2)
	ow := []int{1, 2, 5}[c.Pick("other width", 3)]
	where := c.Pick("where", 3)
	csv := c.Pick("csv", 2) == 1
	var rows [][]string
	for i := 0; i < n; i++ {
		r := make([]string, w)
		for k := range r {
			r[k] = fmt.Sprintf("r%dc%d", i, k)
		}
		rows = append(rows, r)
	}
	for i := 0; i < m; i++ {
		r := make([]string, ow)
		for k := range r {
			r[k] = fmt.Sprintf("o%dc%d", i, k)
		}
		switch where {
		case 0:
			rows = append(rows, r)
		case 1:
			rows = append([][]string{r}, rows...)
		case 2:
			j := (i * 7) % (len(rows) + 1)
			rows = append(rows[:j:j], append([][]string{r}, rows[j:]...)...)
		}
	}
	sep := "\t"
	if csv {
		sep = ","
	}
	var b strings.Builder
	for _, r := range rows {
		b.WriteString(strings.Join(r, sep) + "\n")
	}
	if !csv {
		c06TSV(c, b.String(), "count.tsv")
		return
	}
	c06CSV(c, b.String(), rows)
}

func c06CSV(c *engine.Ctx, text string, rows [][]string) {
	p := c.File("t.csv", []byte(text))
	_, col, err := c06Open(c, p, false, simple.OpenCSV)
	if !c06Accepted(rows) {
		if !errors.Is(err, grate.ErrNotInFormat) {
			c.Failf("an irregular file gives error %v", err)
		}
		return
	}
	if err != nil {
		c.Failf("OpenCSV of %.100q: %v", text, err)
	}
	c06Grid(c, col, rows)
}

// c06Parse is RFC 4180; bad reports text it does not allow. Empty lines hold
// no record, and line ends within quotes count as one newline.
func c06Parse(s string) (rows [][]string, bad bool) {
	s = strings.ReplaceAll(s, "\r\n", "\n")
	i := 0
	for i < len(s) {
		if s[i] == '\n' {
			i++
			continue
		}
		var rec []string
		for {
			var f strings.Builder
			if i < len(s) && s[i] == '"' {
				i++
				for {
					if i >= len(s) {
						return nil, true
					}
					if s[i] == '"' {
						if i+1 < len(s) && s[i+1] == '"' {
							f.WriteByte('"')
							i += 2
							continue
						}
						i++
						break
					}
					f.WriteByte(s[i])
					i++
				}
				if i < len(s) && s[i] != ',' && s[i] != '\n' {
					return nil, true
				}
			} else {
				for i < len(s) && s[i] != ',' && s[i] != '\n' {
					if s[i] == '"' {
						return nil, true
					}
					f.WriteByte(s[i])
					i++
				}
			}
			rec = append(rec, f.String())
			if i < len(s) && s[i] == ',' {
				i++
				continue
			}
			i++
			break
		}
		rows = append(rows, rec)
	}
	return rows, false
}

func c06CSVText(c *engine.Ctx) {
	alpha := []string{"a", ",", "\"", "\n", "\r\n", " "}
	n := 7
	if c.Thorough {
		n = 8
	}
	k := c.Pick("length", n+1)
	var b strings.Builder
	for i := 0; i < k; i++ {
		b.WriteString(alpha[c.Pick("unit", len(alpha))])
	}
	c.State(b.String())
	rows, bad := c06Parse(b.String())
	if bad {
		c.Outcome("malformed")
		p := c.File("t.csv", []byte(b.String()))
		src, _, err := c06Open(c, p, false, simple.OpenCSV)
		if !errors.Is(err, grate.ErrNotInFormat) {
			c.Failf("malformed text %q gives %v and error %v", b.String(), src, err)
		}
		return
	}
	c.Outcome("well formed")
	c06CSV(c, b.String(), rows)
}

var c06Fields = []string{"", "a", "b,c", "q\"q", "l1\nl2", " sp ", "x\ty", "\"", "é\n"}

func c06CSVTable(c *engine.Ctx) {
	nr, nc := 1+c.Pick("rows", 2), 1+c.Pick("cols", 2)
	eol := []string{"\n", "\r\n"}[c.Pick("eol", 2)]
	quoteAll := c.Pick("quote all", 2) == 1
	last := c.Pick("final newline", 2) == 1
	var rows [][]string
	var b strings.Builder
	for r := 0; r < nr; r++ {
		var rec []string
		if r > 0 {
			b.WriteString(eol)
		}
		for k := 0; k < nc; k++ {
			f := c06Fields[c.Pick("field", len(c06Fields))]
			rec = append(rec, f)
			if k > 0 {
				b.WriteByte(',')
			}
			if quoteAll || strings.ContainsAny(f, ",\"\n") || (nc == 1 && f == "") {
				b.WriteString(`"` + strings.ReplaceAll(strings.ReplaceAll(f, `"`, `""`), "\n", eol) + `"`)
			} else {
				b.WriteString(f)
			}
		}
		rows = append(rows, rec)
	}
	if last {
		b.WriteString(eol)
	}
	c06CSV(c, b.String(), rows)
}

// fields of characters which other tools treat specially, in both formats
var c06Special = []string{"", "a", "\ufeff", "\ufeffb", "\u00a0", " ", "\u0085", "\u2028x", "\v", "\f", "\x00", "\xff\xfe", "#c", "'q", "a\rb", "a\r", "\x1a", "=1", "\\n", "e\u0301", "\U0001d11e", ";", "|", "NULL", "\\N"}

func c06Specials(c *engine.Ctx) {
	csv := c.Pick("csv", 2) == 1
	eol := []string{"\n", "\r\n"}[c.Pick("eol", 2)]
	sep := "\t"
	if csv {
		sep = ","
	}
	// a mark at the very start of a file may be taken for its encoding
	rows := [][]string{{"x", ""}, {"", ""}}
	for i := 1; i < 4; i++ {
		f := c06Special[c.Pick("field", len(c06Special))]
		if f == "a\r" && i%2 == 1 {
			return // before the end of a line it would be part of that
		}
		rows[i/2][i%2] = f
	}
	var b strings.Builder
	for _, r := range rows {
		b.WriteString(strings.Join(r, sep) + eol)
	}
	c.State(csv, b.String())
	if csv {
		c06CSV(c, b.String(), rows)
	} else {
		c06TSV(c, b.String(), "t.tsv")
	}
}

// files of very many records
func c06Many(c *engine.Ctx) {
	n := []int{100, 999, 1000, 1001, 4096, 10000, 32767, 32768, 65535, 65536, 65537, 131073}[c.Pick("records", 12)]
	share := c.Pick("irregular", 7)
	csv := c.Pick("csv", 2) == 1
	place := c.Pick("place", 2)
	others := []int{0, 1, n / 100, n / 6, n/5 - 1, n/5 + 1, n / 2}[share]
	sep := "\t"
	if csv {
		sep = ","
	}
	var rows [][]string
	var b strings.Builder
	for i := 0; i < n; i++ {
		r := []string{fmt.Sprintf("r%d", i), "x", fmt.Sprint(i % 7)}
		if place == 0 && i < others || place == 1 && i >= n-others {
			r = r[:2]
		}
		rows = append(rows, r)
		b.WriteString(strings.Join(r, sep) + "\n")
	}
	if csv {
		c06CSV(c, b.String(), rows)
	} else {
		c06TSV(c, b.String(), "many.tsv")
	}
}

// large CSV fields and files
func c06CSVBig(c *engine.Ctx) {
	size := c06Sizes[c.Pick("size", len(c06Sizes))]
	unit := []string{"x", "\"", ",", "\n", "é"}[c.Pick("unit", 5)]
	place := c.Pick("place", 3)
	big := strings.Repeat(unit, size/len(unit)+1)
	rows := [][]string{{"h1", "h2"}, {"1", "2"}, {"7", "8"}}
	rows[place][c.Pick("col", 2)] = big
	var b strings.Builder
	for _, r := range rows {
		for k, f := range r {
			if k > 0 {
				b.WriteByte(',')
			}
			b.WriteString(`"` + strings.ReplaceAll(f, `"`, `""`) + `"`)
		}
		b.WriteByte('\n')
	}
	c06CSV(c, b.String(), rows)
}

var c06ScanText = []string{"", "0", "1", "-1", "42", "007", "+5", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
	"1.5", "-0.25", "1e3", "1e400", "0.1", "16777217", "1e39", "123456789.123", ".5", "5.", "NaN", "abc", " 1", "1 ", "0x10", "1_000", "true", "TRUE", "T", "t", "yes", "Y", "y", "false", "F", "no", "N", "n", "f", "on", "2", "\"x\"", "é"}

// every text into every kind of destination
func c06Scan(c *engine.Ctx) {
	f := c06ScanText[c.Pick("text", len(c06ScanText))]
	kind := c.Pick("kind", 6)
	csv := c.Pick("csv", 2) == 1
	var src grate.Source
	var col grate.Collection
	var err error
	if csv {
		p := c.File("s.csv", []byte("first,"+`"`+strings.ReplaceAll(f, `"`, `""`)+`"`+",last\n"))
		src, col, err = c06Open(c, p, false, simple.OpenCSV)
	} else {
		p := c.File("s.tsv", []byte("first\t"+f+"\tlast\n"))
		src, col, err = c06Open(c, p, false, simple.OpenTSV)
	}
	if err != nil {
		c.Failf("Open: %v", err)
	}
	defer src.Close()
	if !col.Next() {
		c.Failf("no record")
	}
	var a, z string
	var want interface{}
	var werr bool
	var dst interface{}
	switch kind {
	case 0:
		dst, want = new(string), f
	case 1, 2:
		n, e := strconv.ParseInt(f, 10, 64)
		want, werr = n, e != nil
		dst = new(int64)
		if kind == 2 {
			want, dst = int(n), new(int)
		}
	case 3:
		x, e := strconv.ParseFloat(f, 64)
		if f == "NaN" || f == "0x10" || f == "1_000" {
			return // whether these denote numbers is left open
		}
		want, werr, dst = x, e != nil, new(float64)
	case 4, 5:
		switch strings.ToLower(f) {
		case "1", "t", "true", "y", "yes":
			want = true
		case "on", "2", "0":
			if f != "0" {
				return // left open
			}
			want = false
		default:
			want = false
		}
		b := new(bool)
		*b = kind == 5
		dst = b
	}
	before := fmt.Sprint(c06Deref(dst))
	c.Guard("Scan", func() { err = col.Scan(&a, dst, &z) })
	if werr {
		if err == nil {
			c.Failf("%q scans as %v", f, c06Deref(dst))
		}
		if fmt.Sprint(c06Deref(dst)) != before {
			c.Failf("failing to scan %q leaves %v", f, c06Deref(dst))
		}
		return
	}
	if err != nil {
		if kind >= 4 && want == false {
			return // refusing text that is not a boolean is as good
		}
		c.Failf("%q into %T: %v", f, dst, err)
	}
	if c06Deref(dst) != want || a != "first" || z != "last" {
		c.Failf("%q into %T gives %v, want %v (%q %q)", f, dst, c06Deref(dst), want, a, z)
	}
}

func c06Deref(p interface{}) interface{} {
	switch v := p.(type) {
	case *string:
		return *v
	case *int64:
		return *v
	case *int:
		return *v
	case *float64:
		return *v
	case *bool:
		return *v
	}
	return nil
}

func init() {
	engine.Register(&engine.Property{
		ID: "C06", Level: "model_checking",
		Rule: "tsv-text/csv-text: every text of up to 8 and 7 (thorough 9 and 8) units over the delimiters, quotes, line ends and a letter; csv-table: every table up to 2x2 over 9 fields x quoting x line ends; tsv-big/csv-big: fields, lines and rows of 12 sizes from 1 byte to 5 MB at every place; count: every number of regular and irregular records around the detection thresholds; special: every three of 24 fields of unusual characters in both formats; many: up to 131073 records, regular or not; scan: every text of a menu into every kind of destination. Oracle: line/tab splitting and an RFC 4180 parser",
		Assumptions: []string{
			"a file in which a field count is shared by more than 25 records but none by 80 percent is declined by design",
			"empty lines of a CSV file hold no record, and CRLF within quotes may be read as LF (encoding/csv)",
		},
		Harnesses: []engine.Harness{
			{Name: "tsv-text", Run: c06TSVText},
			{Name: "tsv-big", Run: c06TSVBig},
			{Name: "count", Run: c06Count},
			{Name: "csv-text", Run: c06CSVText},
			{Name: "csv-table", Run: c06CSVTable},
			{Name: "csv-big", Run: c06CSVBig},
			{Name: "special", Run: c06Specials},
			{Name: "many", Run: c06Many},
			{Name: "scan", Run: c06Scan},
		},
	})
}

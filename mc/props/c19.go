package props

import (
	"errors"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/commonxl"
	"github.com/pbnjay/grate/simple"

	"verif/mc/engine"
	"verif/mc/gen"
)

var c19Date = time.Date(2020, 2, 29, 12, 34, 56, 0, time.UTC)

// the kinds of column: what is stored and how
var c19Cols = []struct {
	name string
	put  func(s *commonxl.Sheet, k int)
	val  interface{} // nil: nothing to scan
}{
	{"blank", func(s *commonxl.Sheet, k int) {}, nil},
	{"integer", func(s *commonxl.Sheet, k int) { s.Put(0, k, int64(-42), 1) }, int64(-42)},
	{"float", func(s *commonxl.Sheet, k int) { s.Put(0, k, 2.5, 0) }, 2.5},
	{"string", func(s *commonxl.Sheet, k int) { s.Put(0, k, "text", 0) }, "text"},
	{"numeric text", func(s *commonxl.Sheet, k int) { s.Put(0, k, "12", 1) }, "12"},
	{"boolean", func(s *commonxl.Sheet, k int) { s.Put(0, k, true, 0) }, true},
	{"date", func(s *commonxl.Sheet, k int) { s.Put(0, k, c19Date, 22) }, c19Date},
	{"hyperlink", func(s *commonxl.Sheet, k int) { s.Put(0, k, "link", 0); s.SetURL(0, k, "http://x/") }, "link"},
	{"empty text", func(s *commonxl.Sheet, k int) { s.Put(0, k, "", 0) }, nil},
	{"zero", func(s *commonxl.Sheet, k int) { s.Put(0, k, int64(0), 0) }, int64(0)},
	{"false", func(s *commonxl.Sheet, k int) { s.Put(0, k, false, 0) }, false},
	{"large integer", func(s *commonxl.Sheet, k int) { s.Put(0, k, int64(9007199254740993), 1) }, int64(9007199254740993)},
	{"least integer", func(s *commonxl.Sheet, k int) { s.Put(0, k, int64(math.MinInt64), 0) }, int64(math.MinInt64)},
	{"large float", func(s *commonxl.Sheet, k int) { s.Put(0, k, -1.7976931348623157e308, 0) }, -1.7976931348623157e308},
	{"fraction", func(s *commonxl.Sheet, k int) { s.Put(0, k, 0.1, 2) }, 0.1},
	{"old date", func(s *commonxl.Sheet, k int) { s.Put(0, k, c19Date.AddDate(-1000, 0, 0), 14) }, c19Date.AddDate(-1000, 0, 0)},
	{"long text", func(s *commonxl.Sheet, k int) { s.Put(0, k, c12Text(40000, 1), 49) }, c12Text(40000, 1)},
}

// c19Extreme is the number of kinds with values at a limit, at the end of c19Cols
const c19Extreme = 6

type c19Struct struct{ A int }

// c19Dst makes a destination: kinds 0-4 are the supported ones
func c19Dst(kind int) interface{} {
	switch kind {
	case 0:
		v := false
		return &v
	case 1:
		v := int64(99)
		return &v
	case 2:
		v := 99.5
		return &v
	case 3:
		v := "before"
		return &v
	case 4:
		v := time.Unix(99, 0)
		return &v
	case 5:
		return true
	case 6:
		return int64(3)
	case 7:
		return 2.5
	case 8:
		return "s"
	case 9:
		return time.Unix(1, 0)
	case 10:
		return nil
	case 11:
		return new([]byte)
	case 12:
		return new(interface{})
	case 13:
		return new(int32)
	case 14:
		return c19Struct{1}
	case 15:
		return &c19Struct{1}
	case 16:
		return make(chan int)
	case 17:
		return func() {}
	case 18:
		return map[string]int{}
	case 19:
		p := new(string)
		return &p
	case 20:
		return new(float32)
	case 21:
		return new(uint64)
	}
	return errors.New("x")
}

const c19Kinds = 23

func c19Get(p interface{}) interface{} {
	switch v := p.(type) {
	case *bool:
		return *v
	case *int64:
		return *v
	case *float64:
		return *v
	case *string:
		return *v
	case *time.Time:
		return *v
	case *[]byte:
		return string(*v)
	case *interface{}:
		return *v
	case *int32:
		return *v
	case *float32:
		return *v
	case *uint64:
		return *v
	}
	return nil
}

// c19Invalid: destinations which no value can be scanned into; texts are not turned into times
func c19Invalid(kind int, exact bool) bool { return kind > 4 || exact && kind == 4 }

// c19Check scans vals, the current row, into destinations of the given kinds.
func c19Check(c *engine.Ctx, col grate.Collection, vals []interface{}, kinds []int, exact bool) {
	dst := make([]interface{}, len(kinds))
	before := make([]interface{}, len(kinds))
	match := make([]bool, len(kinds))
	maybe, unsure := make([]bool, len(kinds)), false
	good, invalid := len(kinds) <= len(vals), false
	if exact && len(kinds) != len(vals) {
		good = false
	}
	for i, k := range kinds {
		dst[i] = c19Dst(k)
		if i < len(vals) {
			if b, ok := vals[i].(bool); ok && k == 0 {
				// the opposite of what is to be delivered
				v := !b
				dst[i] = &v
			}
			switch vals[i].(type) {
			case nil: // a blank may or may not be scanned as an empty text
				maybe[i] = k == 3
			case bool:
				match[i] = k == 0
			case int64:
				match[i] = k == 1
			case float64:
				match[i] = k == 2
			case string:
				match[i] = k == 3
			case time.Time:
				match[i] = k == 4
			}
		}
		if c19Invalid(k, exact) {
			invalid = true
		}
		unsure = unsure || maybe[i]
		good = good && (match[i] || maybe[i])
		before[i] = c19Get(dst[i])
	}
	S := join(col.Strings())
	var err error
	c.Guard("Scan", func() { err = col.Scan(dst...) })
	c.Steps(1)
	if good && unsure {
		good = err == nil
	}
	if good && err != nil {
		c.Failf("%v into kinds %v: %v", vals, kinds, err)
	}
	if !good && err == nil {
		if !(exact && len(kinds) < len(vals)) {
			c.Failf("%v into kinds %v: no error, destinations %v", vals, kinds, before)
		}
	}
	if err != nil && invalid && len(kinds) <= len(vals) {
		// the first column which cannot be scanned decides what the error is
		for i, k := range kinds {
			if c19Invalid(k, exact) {
				if !errors.Is(err, grate.ErrInvalidScanType) && !(exact && len(kinds) != len(vals)) {
					c.Failf("%v into kinds %v: error %q is not the invalid scan type error", vals, kinds, err)
				}
				break
			}
			if !match[i] {
				break
			}
		}
	}
	for i := range kinds {
		now := c19Get(dst[i])
		same := fmt.Sprint(now) == fmt.Sprint(before[i])
		if maybe[i] && (now == "" || !good && same) {
			continue
		}
		if !match[i] && !same {
			c.Failf("%v into kinds %v: destination %d, which does not match, changes from %v to %v", vals, kinds, i, before[i], now)
		}
		if good && match[i] {
			if t, ok := now.(time.Time); ok {
				if !t.Equal(vals[i].(time.Time)) {
					c.Failf("%v into kinds %v: destination %d = %v", vals, kinds, i, now)
				}
			} else if now != vals[i] {
				c.Failf("%v into kinds %v: destination %d = %v", vals, kinds, i, now)
			}
		}
	}
	if after := join(col.Strings()); after != S {
		c.Failf("scanning changes the row from %q to %q", S, after)
	}
	if good {
		c.Outcome("scanned")
	} else if invalid {
		c.Outcome("invalid type")
	} else {
		c.Outcome("no match")
	}
}

func c19Sheet(c *engine.Ctx) {
	n := c.Pick("cols", 3)
	if c.Thorough {
		n = c.Pick("cols", 4)
	}
	s := &commonxl.Sheet{Formatter: &commonxl.Formatter{}}
	s.Resize(1, n)
	var vals []interface{}
	for k := 0; k < n; k++ {
		nc := len(c19Cols)
		if n > 1 {
			nc -= c19Extreme
		}
		x := c19Cols[c.Pick("column", nc)]
		x.put(s, k)
		vals = append(vals, x.val)
	}
	if n == 0 {
		vals = []interface{}{nil}
	}
	m := n
	switch c.Dev("count", 4) {
	case 1:
		m = n + 1
	case 2:
		m = n - 1
	case 3:
		m = 0
	}
	var kinds []int
	for k := 0; k < m; k++ {
		nk := c19Kinds
		if n == 3 {
			nk = 12
		}
		kinds = append(kinds, c.Pick("destination", nk))
	}
	if !s.Next() {
		c.Failf("no row")
	}
	c19Check(c, s, vals, kinds, false)
	if s.Next() {
		c.Failf("a second row")
	}
}

// real rows of every reader, each with every kind of column it has
func c19Readers(c *engine.Ctx) {
	var src grate.Source
	var err error
	var vals []interface{}
	name := "S"
	kind := c.Pick("reader", 4)
	exact := kind >= 2
	switch kind {
	case 0:
		src = xlsOpen(c, &gen.XLS{Pre: xlsPre(), Sheets: []gen.Sheet{{Name: "S", Recs: []gen.Rec{gen.Dimensions(0, 1, 0, 8),
			gen.RK(0, 0, 0, rkInt(7, false)), gen.Number(0, 1, 0, 2.25), gen.LabelSst(0, 2, 0, 0), gen.Bool(0, 3, 0, true), gen.Err(0, 4, 0, 7),
			gen.Formula(0, 6, 0, gen.FStr()), gen.Str("calc", false), gen.Formula(0, 7, 0, gen.FBool(false))}}}, Post: gen.SST([]string{"a"})})
		vals = []interface{}{int64(7), 2.25, "a", true, "#DIV/0!", nil, "calc", false}
	case 1:
		src = xlsxOpen(c, &gen.XLSX{XFs: xlsxXFs(), NumFmts: xlsxNumFmts, Sheets: []gen.XSheet{{Name: "S", Rows: gen.RowX(0,
			gen.C(0, 0, "", 0, gen.V("7")), gen.C(0, 1, "", 0, gen.V("2.25")), gen.C(0, 2, "inlineStr", 0, "<is>"+gen.T("a")+"</is>"),
			gen.C(0, 3, "b", 0, gen.V("1")), gen.C(0, 4, "e", 0, gen.V("#DIV/0!")), gen.C(0, 6, "str", 0, "<f>A1</f>"+gen.V("calc")), gen.C(0, 7, "b", 0, gen.V("0")))}}})
		vals = []interface{}{float64(7), 2.25, "a", true, "#DIV/0!", nil, "calc", false}
	case 2:
		name = "r.tsv"
		src, err = simple.OpenTSV(c.File(name, []byte("a\tbb\t\tccc\n")))
		vals = []interface{}{"a", "bb", "", "ccc"}
	case 3:
		name = "r.csv"
		src, err = simple.OpenCSV(c.File(name, []byte("a,bb,,ccc\n")))
		vals = []interface{}{"a", "bb", "", "ccc"}
	}
	if err != nil {
		c.Failf("Open: %v", err)
	}
	defer src.Close()
	col, err := src.Get(name)
	if err != nil {
		c.Failf("Get: %v", err)
	}
	// there is no row to scan yet; nothing must go wrong
	c.Guard("Scan before Next", func() { col.Scan(c19Dst(3)); col.Scan() })
	if !col.Next() {
		c.Failf("no row")
	}
	// matching destinations, but for up to two columns
	m := len(vals)
	switch c.Dev("count", 4) {
	case 1:
		m++
	case 2:
		m--
	case 3:
		m = 1
	}
	var kinds []int
	for k := 0; k < m; k++ {
		def := 3
		if k < len(vals) {
			switch vals[k].(type) {
			case bool:
				def = 0
			case int64:
				def = 1
			case float64:
				def = 2
			}
		}
		d := c.Dev("destination", c19Kinds)
		x := d - 1
		if d == 0 {
			x = def
		} else if x >= def {
			x++
		}
		if exact && (x == 0 || x == 1 || x == 2) {
			// the conversion of text is decided by C06
			x = 3
		}
		kinds = append(kinds, x)
	}
	if kind < 2 && len(kinds) > 5 {
		// the blank column has nothing to scan: check the columns before it, and those after through errors
		if c.Pick("whole", 2) == 0 {
			kinds = kinds[:5]
		}
	}
	c19Check(c, col, vals, kinds, exact)
	if col.Next() {
		c.Failf("a second row")
	}
	c.Guard("Scan after the end", func() { col.Scan(c19Dst(3)); col.Scan() })
}

// sheets without rows, without columns, or never resized, and every position before, in and behind them
func c19Empty(c *engine.Ctx) {
	var col grate.Collection
	var src grate.Source
	var err error
	which := c.Pick("sheet", 12)
	name := "S"
	switch which {
	case 0:
		col = &commonxl.Sheet{}
	case 1:
		col = &commonxl.Sheet{Formatter: &commonxl.Formatter{}}
	case 2, 3, 4, 5:
		s := &commonxl.Sheet{Formatter: &commonxl.Formatter{}}
		z := [][2]int{{0, 0}, {0, 3}, {3, 0}, {2, 2}}[which-2]
		s.Resize(z[0], z[1])
		col = s
	case 6:
		src = xlsOpen(c, &gen.XLS{Pre: xlsPre(), Sheets: []gen.Sheet{{Name: "S"}}})
	case 7:
		src = xlsOpen(c, &gen.XLS{Pre: xlsPre(), Sheets: []gen.Sheet{{Name: "S", Recs: []gen.Rec{gen.Dimensions(0, 0, 0, 0)}}}})
	case 8:
		src = xlsxOpen(c, &gen.XLSX{XFs: xlsxXFs(), Sheets: []gen.XSheet{{Name: "S"}}})
	case 9:
		src = xlsxOpen(c, &gen.XLSX{XFs: xlsxXFs(), Sheets: []gen.XSheet{{Name: "S", Dim: "A1", Rows: "<row r=\"1\"></row>"}}})
	case 10:
		name = "r.tsv"
		src, err = simple.OpenTSV(c.File(name, []byte("a\tb\tc\n\n\n")))
	case 11:
		name = "r.csv"
		src, err = simple.OpenCSV(c.File(name, []byte("a,b,c\nd,e,f\n")))
	}
	if err != nil {
		c.Failf("Open: %v", err)
	}
	if src != nil {
		defer src.Close()
		if col, err = src.Get(name); err != nil {
			c.Failf("Get: %v", err)
		}
	}
	for k := c.Pick("next", 5); k > 0; k-- {
		c.Guard("Next", func() { col.Next() })
	}
	var kinds []int
	var dst []interface{}
	for k := c.Pick("count", 4); k > 0; k-- {
		kinds = append(kinds, []int{3, 0, 1, 2, 4, 6, 10, 11}[c.Pick("destination", 8)])
		dst = append(dst, c19Dst(kinds[len(kinds)-1]))
	}
	before := fmt.Sprint(len(col.Strings()))
	c.Guard("Scan", func() { err = col.Scan(dst...) })
	c.Steps(1)
	if n := len(col.Strings()); len(dst) > n && err == nil {
		c.Failf("%d destinations %v for a row of %d columns: no error", len(dst), kinds, n)
	}
	if now := fmt.Sprint(len(col.Strings())); now != before {
		c.Failf("Scan changes the number of columns from %s to %s", before, now)
	}
	c.Outcome(fmt.Sprint("error ", err != nil))
}

// rows of many columns
func c19Wide(c *engine.Ctx) {
	ns := []int{1, 2, 16, 63, 64, 65, 127, 128, 255, 256, 257, 300, 1000, 4096, 16384}
	kind := c.Pick("reader", 5)
	if kind == 0 {
		ns = ns[:10]
	}
	n := ns[c.Pick("cols", len(ns))]
	ms := []int{n, n + 1, n - 1, (n + 1) / 2, 1, 256, 257}
	mi := c.Pick("count", len(ms))
	m := ms[mi]
	wrong := []int{-1, 0, n / 2, m - 1, 255, 256, 257}[c.Pick("wrong", 7)]
	if wrong >= m || mi > 3 && m > n {
		return
	}
	exact := kind >= 3
	var vals []interface{}
	var src grate.Source
	var col grate.Collection
	var err error
	for k := 0; k < n; k++ {
		switch {
		case exact:
			vals = append(vals, fmt.Sprintf("t%d", k))
		case k%3 == 1 && kind == 0:
			vals = append(vals, int64(k))
		case k%3 == 1:
			vals = append(vals, float64(k)+0.5)
		case k%3 == 2:
			vals = append(vals, k%2 == 0)
		default:
			vals = append(vals, fmt.Sprintf("t%d", k))
		}
	}
	name := "S"
	switch kind {
	case 0:
		recs := []gen.Rec{gen.Dimensions(0, 1, 0, n)}
		var sst []string
		for k, v := range vals {
			switch x := v.(type) {
			case int64:
				recs = append(recs, gen.RK(0, k, 0, rkInt(int32(x), false)))
			case bool:
				recs = append(recs, gen.Bool(0, k, 0, x))
			case string:
				recs = append(recs, gen.LabelSst(0, k, 0, len(sst)))
				sst = append(sst, x)
			}
		}
		src = xlsOpen(c, &gen.XLS{Pre: xlsPre(), Sheets: []gen.Sheet{{Name: "S", Recs: recs}}, Post: gen.SST(sst)})
	case 1:
		var cells []string
		for k, v := range vals {
			switch x := v.(type) {
			case float64:
				cells = append(cells, gen.C(0, k, "", 0, gen.V(fmt.Sprint(x))))
			case bool:
				b := "0"
				if x {
					b = "1"
				}
				cells = append(cells, gen.C(0, k, "b", 0, gen.V(b)))
			case string:
				cells = append(cells, gen.C(0, k, "inlineStr", 0, "<is>"+gen.T(x)+"</is>"))
			}
		}
		src = xlsxOpen(c, &gen.XLSX{XFs: xlsxXFs(), NumFmts: xlsxNumFmts, Sheets: []gen.XSheet{{Name: "S", Rows: gen.RowX(0, cells...)}}})
	case 2:
		s := &commonxl.Sheet{Formatter: &commonxl.Formatter{}}
		s.Resize(1, n)
		for k, v := range vals {
			s.Put(0, k, v, 0)
		}
		col = s
	case 3, 4:
		sep := "\t"
		if kind == 4 {
			sep = ","
		}
		var b strings.Builder
		for k, v := range vals {
			if k > 0 {
				b.WriteString(sep)
			}
			b.WriteString(v.(string))
		}
		b.WriteString("\n")
		if n == 1 {
			return // one column is not a delimited file
		}
		if kind == 3 {
			name = "r.tsv"
			src, err = simple.OpenTSV(c.File(name, []byte(b.String()+b.String())))
		} else {
			name = "r.csv"
			src, err = simple.OpenCSV(c.File(name, []byte(b.String()+b.String())))
		}
	}
	if err != nil {
		c.Failf("Open: %v", err)
	}
	if src != nil {
		defer src.Close()
		if col, err = src.Get(name); err != nil {
			c.Failf("Get: %v", err)
		}
	}
	if !col.Next() {
		c.Failf("no row")
	}
	kinds := make([]int, m)
	for k := range kinds {
		kinds[k] = 3
		if k < n {
			switch vals[k].(type) {
			case bool:
				kinds[k] = 0
			case int64:
				kinds[k] = 1
			case float64:
				kinds[k] = 2
			}
		}
	}
	if wrong >= 0 {
		kinds[wrong] = []int{4, 12, 8}[c.Pick("how", 3)]
	}
	c19Check(c, col, vals, kinds, exact)
}

func init() {
	engine.Register(&engine.Property{
		ID: "C19", Level: "model_checking",
		Rule: "sheet: every row of up to 2 (thorough 3) columns out of 11 kinds (one column: 17, with the values at the limits of their types) x every destination of 23 kinds per column (5 supported, 18 not) x argument count; readers: rows of each of the four readers with up to 2 (thorough 3) destinations of every other kind; empty: 12 sheets without rows, columns or cells x every position x up to 3 destinations of 8 kinds.; wide: rows of 1 to 16384 columns of five sources x all, one more, one less, half, 1, 256 or 257 destinations x one wrong destination of three kinds at the first, middle, last, 256th to 258th column or none. Oracle: the stored values",
		Assumptions: []string{
			"destinations are not nil pointers of a supported type",
			"whether a blank column can be scanned, as an empty text, is not specified",
			"when several columns cannot be scanned, the first one decides the error",
			"converting the text of delimited files is decided by C06",
		},
		Harnesses: []engine.Harness{
			{Name: "sheet", Run: c19Sheet, Quick: 1, Thorough: 1},
			{Name: "readers", Run: c19Readers, Quick: 2, Thorough: 3},
			{Name: "empty", Run: c19Empty},
			{Name: "wide", Run: c19Wide},
		},
	})
}

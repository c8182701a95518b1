package props

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf16"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/commonxl"

	"verif/mc/engine"
)

// c28Agree decides whether a value is one of the reported type.
func c28Agree(t string, v interface{}) bool {
	switch v.(type) {
	case nil:
		return t == "blank" || t == "hyperlink"
	case bool:
		return t == "boolean" || t == "hyperlink"
	case int64:
		return t == "integer" || t == "hyperlink"
	case float64:
		return t == "float" || t == "hyperlink"
	case string:
		return t == "string" || t == "hyperlink" || t == "static"
	case time.Time:
		return t == "date" || t == "hyperlink"
	}
	return false
}

type c28Str string

func (s c28Str) String() string { return string(s) }

var c28When = time.Date(2021, 3, 4, 5, 6, 7, 0, time.UTC)

// every builtin type a cell is made from, and the value it is kept as
var c28Values = []struct{ in, kept interface{} }{
	{true, true}, {false, false},
	{int(-7), int64(-7)}, {int8(-128), int64(-128)}, {int16(-32768), int64(-32768)}, {int32(math.MinInt32), int64(math.MinInt32)},
	{int64(0), int64(0)}, {int64(1), int64(1)}, {int64(math.MaxInt64), int64(math.MaxInt64)}, {int64(math.MinInt64), int64(math.MinInt64)}, {int64(1<<53 + 1), int64(1<<53 + 1)}, {int64(44000), int64(44000)},
	{uint8(255), int64(255)}, {uint16(65535), int64(65535)}, {uint32(math.MaxUint32), int64(math.MaxUint32)}, {uint(9), int64(9)}, {uint64(math.MaxInt64), int64(math.MaxInt64)}, {uint64(1 << 63), float64(1 << 63)}, {uint(1 << 63), float64(1 << 63)},
	{float32(0.5), 0.5}, {0.0, 0.0}, {1.0, 1.0}, {-2.0, -2.0}, {2.5, 2.5}, {44000.25, 44000.25}, {1e21, 1e21}, {-1e300, -1e300}, {5e-324, 5e-324}, {float64(1 << 63), float64(1 << 63)}, {-float64(1 << 63), -float64(1 << 63)}, {9007199254740993.0, 9007199254740992.0},
	{"text", "text"}, {"12", "12"}, {"-3", "-3"}, {"2.5", "2.5"}, {"1e3", "1e3"}, {"true", "true"}, {"YES", "YES"}, {"no", "no"}, {" 5", " 5"}, {"2020-01-01", "2020-01-01"}, {"<nil>", "<nil>"}, {"é☃𝄞", "é☃𝄞"},
	{"", nil}, {[]byte("bytes"), "bytes"}, {[]byte{}, nil}, {[]byte(nil), nil}, {[]uint16{'u', 0xD834, 0xDD1E}, "u𝄞"}, {[]uint16{}, nil}, {[]rune("rünes"), "rünes"}, {[]rune{}, nil},
	{c28When, c28When}, {c28Str("stringer"), "stringer"}, {c28Str(""), nil},
	{c28Long, c28Long}, {[]byte(c28Long), c28Long}, {[]rune(c28Long), c28Long}, {utf16.Encode([]rune(c28Long)), c28Long}, {c28Str(c28Long), c28Long},
}

var c28Long = strings.Repeat("é☃𝄞x", 8000)

var c28Types = []commonxl.CellType{commonxl.BlankCell, commonxl.IntegerCell, commonxl.FloatCell, commonxl.StringCell, commonxl.BooleanCell, commonxl.DateCell,
	commonxl.HyperlinkStringCell, commonxl.StaticCell}

var c28Kind = map[commonxl.CellType]string{commonxl.IntegerCell: "int64", commonxl.FloatCell: "float64", commonxl.StringCell: "string", commonxl.BooleanCell: "bool", commonxl.DateCell: "time.Time",
	commonxl.HyperlinkStringCell: "string", commonxl.StaticCell: "string"}

// c28Meaning decides whether a cell which was coerced still means the value it was made from.
func c28Meaning(fx *commonxl.Formatter, from interface{}, t commonxl.CellType, to interface{}) string {
	if reflect.DeepEqual(from, to) {
		return ""
	}
	if k := c28Kind[t]; k != "" && k != fmt.Sprintf("%T", to) {
		return fmt.Sprintf("%T %v becomes %T %v", from, from, to, to)
	}
	num := func(v interface{}) (float64, bool) {
		switch x := v.(type) {
		case bool:
			if x {
				return 1, true
			}
			return 0, true
		case int64:
			return float64(x), true
		case float64:
			return x, true
		}
		return 0, false
	}
	f, isNum := num(from)
	s, isText := from.(string)
	switch v := to.(type) {
	case int64:
		switch x := from.(type) {
		case float64:
			if float64(v) == x && !(v == math.MaxInt64) {
				return ""
			}
		case bool:
			if float64(v) == f {
				return ""
			}
		case string:
			if w, err := strconv.ParseInt(x, 10, 64); err != nil || w == v {
				return "" // text which is no number has no meaning as one
			}
		}
	case float64:
		if isNum && v == f {
			return ""
		}
		if isText {
			if w, err := strconv.ParseFloat(s, 64); err != nil || w == v {
				return ""
			}
		}
	case bool:
		if isNum && v == (f != 0) {
			return ""
		}
		if isText {
			switch s {
			case "true", "YES":
				if v {
					return ""
				}
			default:
				if !v {
					return ""
				}
			}
		}
	case time.Time:
		if isNum {
			if v.Equal(fx.ConvertToDate(f)) {
				return ""
			}
		}
	case string:
		switch x := from.(type) {
		case bool:
			if v == map[bool]string{true: "TRUE", false: "FALSE"}[x] {
				return ""
			}
		case int64:
			if v == strconv.FormatInt(x, 10) {
				return ""
			}
		case float64:
			if w, err := strconv.ParseFloat(v, 64); err == nil && w == x {
				return ""
			}
		case time.Time:
			if v == x.String() {
				return ""
			}
		}
	}
	return fmt.Sprintf("%T %v becomes %T %v", from, from, to, to)
}

// every value as every type
func c28Make(c *engine.Ctx) {
	v := c28Values[c.Pick("value", len(c28Values))]
	fx := &commonxl.Formatter{}
	if c.Pick("1904", 2) == 1 {
		fx.Mode1904(true)
	}
	t := c.Pick("type", len(c28Types)+1)
	var cell commonxl.Cell
	what := fmt.Sprintf("NewCell(%#v)", v.in)
	if t == len(c28Types) {
		c.Guard(what, func() { cell = commonxl.NewCell(v.in) })
		if !reflect.DeepEqual(cell.Value(), v.kept) {
			c.Failf("%s keeps %#v, want %#v", what, cell.Value(), v.kept)
		}
	} else {
		what = fmt.Sprintf("NewCellWithType(%#v, %v)", v.in, c28Types[t])
		c.Guard(what, func() { cell = commonxl.NewCellWithType(v.in, c28Types[t], fx) })
		if m := c28Meaning(fx, v.kept, c28Types[t], cell.Value()); m != "" {
			c.Failf("%s: %s", what, m)
		}
		// what is possible without loss is done
		var want interface{}
		switch x := v.kept.(type) {
		case int64:
			switch c28Types[t] {
			case commonxl.FloatCell:
				want = float64(x)
			case commonxl.BooleanCell:
				want = x != 0
			case commonxl.StringCell:
				want = strconv.FormatInt(x, 10)
			case commonxl.DateCell:
				want = fx.ConvertToDate(float64(x))
			}
		case float64:
			switch {
			case c28Types[t] == commonxl.IntegerCell && x == math.Trunc(x) && math.Abs(x) < 1<<62:
				want = int64(x)
			case c28Types[t] == commonxl.BooleanCell:
				want = x != 0
			case c28Types[t] == commonxl.DateCell:
				want = fx.ConvertToDate(x)
			}
		case bool:
			n := 0
			if x {
				n = 1
			}
			switch c28Types[t] {
			case commonxl.IntegerCell:
				want = int64(n)
			case commonxl.FloatCell:
				want = float64(n)
			case commonxl.StringCell:
				want = []string{"FALSE", "TRUE"}[n]
			}
		}
		if want != nil && !reflect.DeepEqual(want, cell.Value()) {
			c.Failf("%s gives %#v, want %#v", what, cell.Value(), want)
		}
	}
	if !c28Agree(cell.Type().String(), cell.Value()) {
		c.Failf("%s: the type is %v, the value %T %v", what, cell.Type(), cell.Value(), cell.Value())
	}
	if cell.FormatNo() != 0 {
		c.Failf("%s has the format %d", what, cell.FormatNo())
	}
	if _, ok := cell.URL(); ok {
		c.Failf("%s has a link", what)
	}
	c.Steps(1)
	c.Outcome(cell.Type().String())
}

var c28Formats = []uint16{0, 2, 14, 49, 164, 65535}
var c28Links = []string{"http://a/", "", "https://example.com/p?q=1#f", "#Sheet2!A1"}

// every sequence of changes to a cell
func c28Updates(c *engine.Ctx) {
	starts := []interface{}{nil, int64(5), 2.5, "text", true, "", c28When}
	k := c.Pick("start", len(starts)+1)
	var cell commonxl.Cell
	var val interface{} = ""
	typ := "blank"
	if k < len(starts) {
		if starts[k] != nil {
			c.Guard("NewCell", func() { cell = commonxl.NewCell(starts[k]) })
			val, typ = cell.Value(), cell.Type().String()
		}
	} else {
		cell = commonxl.Cell{}
	}
	type model struct {
		typ  string
		fno  uint16
		link string
		has  bool
	}
	m := model{typ: typ}
	type kept struct {
		cell commonxl.Cell
		m    model
	}
	var old []kept
	trace := fmt.Sprintf("%v", cell)
	steps := 3
	if c.Thorough {
		steps = 4
	}
	check := func(cell commonxl.Cell, m model, what string) {
		if !reflect.DeepEqual(cell.Value(), val) && !(len(cell) > 0 && (val == "" || val == nil) && (cell.Value() == nil || cell.Value() == "")) {
			c.Failf("%s: the %s keeps %#v, want %#v", trace, what, cell.Value(), val)
		}
		if cell.Type().String() != m.typ || cell.FormatNo() != m.fno {
			c.Failf("%s: the %s has type %v and format %d, want %s and %d", trace, what, cell.Type(), cell.FormatNo(), m.typ, m.fno)
		}
		u, ok := cell.URL()
		if ok != m.has || ok && u.String() != m.link {
			c.Failf("%s: the link of the %s is %v %v, want %v %q", trace, what, u, ok, m.has, m.link)
		}
	}
	for i := 0; i < steps; i++ {
		op := c.Pick("operation", 1+len(c28Formats)+len(c28Links))
		if op == 0 {
			var x commonxl.Cell
			c.Guard("Clone", func() { x = cell.Clone() })
			trace += " Clone"
			old = append(old, kept{cell, m})
			cell = x
		} else if op <= len(c28Formats) {
			f := c28Formats[op-1]
			trace += fmt.Sprintf(" SetFormatNumber(%d)", f)
			c.Guard(trace, func() { cell.SetFormatNumber(f) })
			m.fno = f
		} else {
			l := c28Links[op-1-len(c28Formats)]
			trace += fmt.Sprintf(" SetURL(%q)", l)
			c.Guard(trace, func() { cell.SetURL(l) })
			m.link, m.has, m.typ = l, true, "hyperlink"
		}
		check(cell, m, "cell")
		for _, o := range old {
			check(o.cell, o.m, "cell it was cloned from")
		}
		c.Steps(1)
	}
	c.State(trace)
}

// every value under every format in a sheet: the type, the raw value and what Scan gives agree
func c28Sheets(c *engine.Ctx) {
	v := c28Values[c.Pick("value", len(c28Values))]
	fx := c15Formatter(c)
	id, _ := c15Format(c)
	if c.Pick("1904", 2) == 1 {
		fx.Mode1904(true)
	}
	s := &commonxl.Sheet{Formatter: fx}
	var t []string
	var raw []commonxl.Cell
	link := c.Pick("link", 2) == 1
	c.Guard("sheet", func() {
		s.Resize(1, 2)
		s.Put(0, 0, v.in, uint16(id))
		s.Put(0, 1, "beside", 0)
		if link {
			s.SetURL(0, 0, "http://x/")
		}
		s.Next()
		t, raw = s.Types(), s.Raw()
	})
	what := fmt.Sprintf("%#v with format %d", v.in, id)
	if !c28Agree(t[0], raw[0].Value()) {
		c.Failf("%s has type %s and the value %T %v", what, t[0], raw[0].Value(), raw[0].Value())
	}
	if link != (t[0] == "hyperlink") || int(raw[0].FormatNo()) != id {
		c.Failf("%s: the type is %s and the format %d (link %v)", what, t[0], raw[0].FormatNo(), link)
	}
	if m := c28Meaning(fx, v.kept, 0, raw[0].Value()); m != "" {
		c.Failf("%s: %s", what, m)
	}
	// only the destination for the type is accepted, and gets the value
	dst := map[string]interface{}{"boolean": new(bool), "integer": new(int64), "float": new(float64), "string": new(string), "date": new(time.Time)}
	own := map[string]string{"bool": "boolean", "int64": "integer", "float64": "float", "string": "string", "Time": "date"}
	vt := ""
	if raw[0].Value() != nil {
		vt = own[reflect.TypeOf(raw[0].Value()).Name()]
	}
	for k, d := range dst {
		var err error
		c.Guard("Scan", func() { err = s.Scan(d) })
		c.Steps(1)
		if vt == "" && k == "string" {
			continue // a blank may be scanned as text
		}
		if (err == nil) != (k == vt) {
			c.Failf("%s has type %s, and Scan into a destination for %s gives %v", what, t[0], k, err)
		}
		if err == nil && !reflect.DeepEqual(reflect.ValueOf(d).Elem().Interface(), raw[0].Value()) {
			c.Failf("%s: Scan gives %v, the cell holds %v", what, reflect.ValueOf(d).Elem().Interface(), raw[0].Value())
		}
	}
	c.Outcome(t[0])
}

// every value and format in files of both formats
func c28Files(c *engine.Ctx) {
	cell := c27Cells[c.Pick("cell", len(c27Cells))]
	cell.style = c.Pick("format", len(c27XFs))
	t := &tBook{fmts: c27Fmts, xfs: c27XFs, d1904: c.Bool("1904")}
	t.sheets = []tSheet{{name: "S", dim: true, grid: [][]tCell{{cell, {kind: 2, text: "z"}}}}}
	for i, src := range []grate.Source{xlsOpen(c, t.xls()), xlsxOpen(c, t.xlsx())} {
		what := fmt.Sprintf("%+v with format %d from %s", cell, c27XFs[cell.style], []string{"xls", "xlsx"}[i])
		c.Guard(what, func() {
			col, err := src.Get("S")
			if err != nil {
				c.Failf("%s: %v", what, err)
			}
			if !col.Next() {
				c.Failf("%s: no row", what)
			}
			typ := col.Types()[0]
			dst := map[string]interface{}{"boolean": new(bool), "integer": new(int64), "float": new(float64), "date": new(time.Time), "string": new(string)}
			for k, d := range dst {
				err := col.Scan(d)
				c.Steps(1)
				if k == "string" && typ == "blank" {
					continue
				}
				if (err == nil) != (k == typ) {
					c.Failf("%s has type %s, and Scan into a destination for %s gives %v", what, typ, k, err)
				}
			}
			c.Outcome(typ)
		})
		src.Close()
	}
}

func init() {
	engine.Register(&engine.Property{
		ID: "C28", Level: "model_checking",
		Rule: "make: every builtin Go type and its limit values as a cell, and as every cell type, in both date systems; updates: every sequence of up to 3 (quick) or 4 (thorough) format, link and clone operations on 8 cells against a record model; sheets: every value under every built-in and 25 custom formats in a sheet, types against raw and scanned values; files: 31 stored cells under 36 formats in xls and xlsx files, types against scans",
		Assumptions: []string{
			"what text which denotes no number becomes as a number is not specified, only that type and value agree",
		},
		Harnesses: []engine.Harness{
			{Name: "make", Run: c28Make},
			{Name: "updates", Run: c28Updates},
			{Name: "sheets", Run: c28Sheets},
			{Name: "files", Run: c28Files, Quick: 1, Thorough: 1},
		},
	})
}

package props

import (
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/commonxl"

	"verif/mc/engine"
	"verif/mc/gen"
)

// every built-in format id
var c15IDs = func() (l []uint16) {
	for i := 0; i <= 81; i++ {
		if i >= 5 && i <= 8 || i >= 23 && i <= 26 || i >= 63 && i <= 66 {
			continue
		}
		l = append(l, uint16(i))
	}
	return
}()

// c15Code is a custom format and how it shows text (with @ for it).
type c15Code struct{ code, text string }

var c15Codes = []c15Code{
	{"General", "@"}, {"GENERAL", "@"}, {"@", "@"}, {"0.000", "@"}, {"#,##0.0", "@"}, {"0.0%", "@"}, {"0.0E+00", "@"}, {"yyyy-mm-dd", "@"}, {"h:mm", "@"},
	{`"x "0" y"`, "@"}, {"0;(0)", "@"}, {`0;-0;"zero"`, "@"}, {`"yes";"yes";"no"`, "@"}, {`[Red]0.0;[Blue]-0.0`, "@"}, {`0.0"@"`, "@"},
	{`0;-0;0;@`, "@"}, {`0;-0;0;"<"@">"`, "<@>"}, {`0.0;-0.0;;\t@`, "t@"}, {`"text: "@`, "text: @"}, {`_(* #,##0_);_(* \(#,##0\);_(* "-"_);_(@_)`, "@"}, {`0;0;0;"text"`, "text"},
	{"[h]:mm", "@"}, {`$#,##0.00`, "@"}, {"mmss.0", "@"}, {";;;", ""},
}

var c15Texts = []string{"x", "12", "-3.5", "1e5", "TRUE", "false", "0", "2020-01-01", "#DIV/0!", "#N/A", "50%", "$5", " 12 ", "NaN", "Inf", "0x10", "日本語", "@", "General", "%d %s", "a;b", "1,234", "(5)", "-", "→x", "\n", "=1+1", strings.Repeat("long ", 60)}

// c15Text is the text shown.
func c15Text(code c15Code, s string) string { return strings.Replace(code.text, "@", s, 1) }

var c15Custom = func() []c15Code {
	// some pairs share an id in no workbook
	return c15Codes
}()

func c15Formatter(c *engine.Ctx) *commonxl.Formatter {
	fx := &commonxl.Formatter{}
	c.Guard("Add", func() {
		for i, k := range c15Custom {
			if err := fx.Add(uint16(164+i), k.code); err != nil {
				c.Failf("Add(%q): %v", k.code, err)
			}
		}
	})
	return fx
}

// c15Format picks any format: its id, and the way it shows text
func c15Format(c *engine.Ctx) (int, c15Code) {
	i := c.Pick("format", len(c15IDs)+len(c15Custom))
	if i < len(c15IDs) {
		return int(c15IDs[i]), c15Code{"", "@"}
	}
	i -= len(c15IDs)
	return 164 + i, c15Custom[i]
}

// plain formats show booleans and numbers as they are
func c15Plain(id int) bool { return id == 0 || id == 49 || id >= 164 && id <= 166 }

func c15Diagnostic(s string) bool {
	return strings.Contains(s, "%!") || strings.Contains(s, "MUST BE") || strings.Contains(s, "<nil>")
}

var c15Numbers = []interface{}{int64(0), int64(1), int64(-1), int64(12345678901), int64(math.MaxInt64), int64(math.MinInt64), 0.0, 0.5, -0.5, 1.0, -12.75, 1234567.0, 123456789012.0, 1e21, 1e300, -1e300, 5e-324, 43831.75, 2958465.999,
	math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1)}

// values passed to the formatter and to sheets directly
func c15Direct(c *engine.Ctx) {
	fx := c15Formatter(c)
	id, code := c15Format(c)
	if c.Pick("m1904", 2) == 1 {
		fx.Mode1904(true)
	}
	var v interface{}
	text, shown, typ := "", "", ""
	switch k := c.Pick("kind", 4); k {
	case 0:
		text = c15Texts[c.Pick("text", len(c15Texts))]
		v, shown, typ = text, c15Text(code, text), "string"
	case 1:
		b := c.Pick("bool", 2) == 1
		v = b
		if c15Plain(id) {
			shown, typ = strings.ToUpper(strconv.FormatBool(b)), "boolean"
			if id == 49 || id == 166 {
				typ = "string"
			}
		}
	case 2:
		v = c15Numbers[c.Pick("num", len(c15Numbers))]
	case 3:
		v = []interface{}{time.Date(2020, 2, 29, 13, 14, 15, 0, time.UTC), time.Date(1899, 12, 31, 0, 0, 0, 0, time.UTC), time.Time{}}[c.Pick("time", 3)]
	}
	c.State(id, v)
	var s1, s2 string
	c.Guard("Apply", func() {
		s1, _ = fx.Apply(uint16(id), v)
		ff, _ := fx.Get(uint16(id))
		s2 = ff(fx, v)
	})
	sh := &commonxl.Sheet{Formatter: fx}
	var s3, t3 string
	c.Guard("Sheet", func() {
		sh.Resize(1, 2)
		sh.Put(0, 1, v, uint16(id))
		sh.Next()
		s3, t3 = sh.Strings()[1], sh.Types()[1]
		sh.Raw()
	})
	c.Steps(3)
	for i, s := range []string{s1, s2, s3} {
		where := []string{"Apply", "Get", "Sheet"}[i]
		if c15Diagnostic(s) && !c15Diagnostic(text) {
			c.Failf("%s: format %d %q shows %v (%T) as %q", where, id, code.code, v, v, s)
		}
		if typ != "" && s != shown {
			c.Failf("%s: format %d %q shows %q as %q, want %q", where, id, code.code, v, s, shown)
		}
	}
	if b, ok := v.(bool); ok && typ == "" {
		// as the truth value or as the number it stands for
		n := 0
		if b {
			n = 1
		}
		var a1, a2 string
		c.Guard("Apply", func() {
			a1, _ = fx.Apply(uint16(id), int64(n))
			a2, _ = fx.Apply(uint16(id), float64(n))
		})
		for i, s := range []string{s1, s2, s3} {
			where := []string{"Apply", "Get", "Sheet"}[i]
			if s != a1 && s != a2 && !strings.Contains(strings.ToUpper(s), strings.ToUpper(strconv.FormatBool(b))) {
				c.Failf("%s: format %d %q shows %v as %q, and %d as %q", where, id, code.code, b, s, n, a2)
			}
		}
	}
	if typ != "" && t3 != typ {
		c.Failf("format %d %q: the type of %v is %q, want %q", id, code.code, v, t3, typ)
	}
	if id == 49 || id == 166 {
		// the text format shows all digits of a number
		for _, s := range []string{s3} {
			if err := c15Number(v, s); err != "" {
				c.Failf("format %d shows %v as %q: %s", id, v, s, err)
			}
		}
	}
	c.Outcome(t3)
}

func c15Number(v interface{}, s string) string {
	switch x := v.(type) {
	case int64:
		if s != strconv.FormatInt(x, 10) {
			return "not the same integer"
		}
	case float64:
		y, err := strconv.ParseFloat(s, 64)
		if err != nil || y != x && !(math.IsNaN(x) && math.IsNaN(y)) {
			return "not the same number"
		}
	}
	return ""
}

// a blank cell is blank whatever its format, and a placeholder takes any text
func c15Set(c *engine.Ctx) {
	fx := c15Formatter(c)
	id, code := c15Format(c)
	sh := &commonxl.Sheet{Formatter: fx}
	first := []interface{}{"", "old", 12.5, true}[c.Pick("first", 4)]
	set := c.Pick("set", 2) == 1
	text := c15Texts[c.Pick("text", len(c15Texts))]
	if !set && first != "" {
		return
	}
	var s, typ string
	c.Guard("Sheet", func() {
		sh.Resize(2, 2)
		sh.Put(1, 0, first, uint16(id))
		if set {
			sh.Set(1, 0, text)
		}
		sh.Next()
		sh.Next()
		s, typ = sh.Strings()[0], sh.Types()[0]
	})
	c.Steps(2)
	w := want{typ: "blank"}
	if set {
		w = want{typ: "string", str: c15Text(code, text)}
	}
	if msg := checkCell(w, s, typ, ""); msg != "" {
		c.Failf("format %d %q: %s", id, code.code, msg)
	}
	c.Outcome(typ)
}

// cells of files
func c15File(c *engine.Ctx) {
	id, code := c15Format(c)
	isXlsx := c.Pick("file", 2) == 1
	kind := c.Pick("kind", 8)
	w := want{typ: "string", fmts: ""}
	var text string
	switch kind {
	case 0, 1, 2:
		text = c15Texts[c.Pick("text", len(c15Texts))]
		w.str = c15Text(code, text)
		w.val = text
	case 3, 4:
		i := c.Pick("err", len(c02Errs))
		text = c02ErrText[i]
		w.str, w.val = text, text
		if code.text != "@" {
			return // whether errors use the text section is left open
		}
		kind += 10 * i
	case 5, 6:
		if !c15Plain(id) {
			return
		}
		i := c.Pick("bool", 2)
		w = want{typ: "boolean", val: i == 1, str: []string{"FALSE", "TRUE"}[i]}
		if id == 49 || id == 166 {
			w.typ, w.val = "string", w.str
		}
		kind += 10 * i
	case 7:
		w = wBlank
	}
	var col grate.Collection
	i := kind / 10
	kind %= 10
	if isXlsx {
		x := &gen.XLSX{XFs: []string{gen.XFX(0), gen.XFX(id)}, SST: []string{gen.T("other"), gen.T(text)}}
		for j, k := range c15Custom {
			x.NumFmts = append(x.NumFmts, [2]string{strconv.Itoa(164 + j), k.code})
		}
		var cell string
		switch kind {
		case 0:
			cell = gen.C(0, 1, "s", 1, gen.V("1"))
		case 1:
			cell = gen.C(0, 1, "str", 1, "<f>A1</f>"+gen.V(text))
		case 2:
			cell = gen.C(0, 1, "inlineStr", 1, "<is>"+gen.T(text)+"</is>")
		case 3:
			cell = gen.C(0, 1, "e", 1, gen.V(text))
		case 4:
			cell = gen.C(0, 1, "e", 1, "<f>1/0</f>"+gen.V(text))
		case 5:
			cell = gen.C(0, 1, "b", 1, gen.V(strconv.Itoa(i)))
		case 6:
			cell = gen.C(0, 1, "b", 1, "<f>1=1</f>"+gen.V(strconv.Itoa(i)))
		case 7:
			cell = gen.C(0, 1, "", 1, "")
		}
		x.Sheets = []gen.XSheet{{Name: "S", Dim: "A1:C1", Rows: gen.RowX(0, cell)}}
		var src grate.Source
		src, col = xlsxGet(c, x, "S")
		defer src.Close()
	} else {
		x := &gen.XLS{Post: gen.SST([]string{"other", text})}
		for j, k := range c15Custom {
			x.Pre = append(x.Pre, gen.Format(164+j, k.code, j%2 == 1))
		}
		x.Pre = append(x.Pre, gen.XF(0), gen.XF(id))
		recs := []gen.Rec{gen.Dimensions(0, 1, 0, 3)}
		switch kind {
		case 0:
			recs = append(recs, gen.LabelSst(0, 1, 1, 1))
		case 1:
			recs = append(recs, gen.Formula(0, 1, 1, gen.FStr()), gen.Str(text, false))
		case 2:
			recs = append(recs, gen.Number(0, 1, 1, 5), gen.LabelSst(0, 1, 1, 1))
		case 3:
			recs = append(recs, gen.Err(0, 1, 1, c02Errs[i]))
		case 4:
			recs = append(recs, gen.Formula(0, 1, 1, gen.FErr(c02Errs[i])))
		case 5:
			recs = append(recs, gen.Bool(0, 1, 1, i == 1))
		case 6:
			recs = append(recs, gen.Formula(0, 1, 1, gen.FBool(i == 1)))
		case 7:
			recs = append(recs, gen.Blank(0, 1, 1))
		}
		x.Sheets = []gen.Sheet{{Name: "S", Recs: recs}}
		col = xlsSheet(c, x, "S")
	}
	checkGrid(c, col, [][]want{{wBlank, w, wBlank}})
	c.Outcome(w.typ)
}

func init() {
	engine.Register(&engine.Property{
		ID: "C15", Level: "model_checking",
		Rule:        "every built-in format id and a list of custom codes (with and without text sections) x every kind of value (text, error, formula string, boolean, number, special float, date, blank) x the paths to the text (Formatter.Apply, Formatter.Get, Sheet.Put, Sheet.Set over a placeholder, xls records, xlsx cells), enumerated completely. Oracle: the value itself",
		Assumptions: []string{"whether a boolean under a number or date format shows as TRUE/FALSE or like the number 1/0 is left open", "whether error values use a format's own text section is left open"},
		Harnesses: []engine.Harness{
			{Name: "direct", Run: c15Direct},
			{Name: "set", Run: c15Set},
			{Name: "file", Run: c15File},
		},
	})
}

package props

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/commonxl"

	"verif/mc/engine"
	"verif/mc/gen"
)

// lit is a literal of a format code and what it shows.
type lit struct{ code, shown string }

// nsec is a section of a numeric code.
type nsec struct {
	color     string
	pre, post lit
	ip, fp    string // digit placeholders of the integer and fraction part
	suf       string // "", "%" or an exponent
	scale     int    // commas behind the digits
	kind      string // "general", "@", "mask", "fraction" instead of digits
	mask      string // the code of that kind
	cond      string // a condition
}

func (s *nsec) static() bool { return s.ip == "" && s.fp == "" && s.kind == "" }

func (s *nsec) code() string {
	f := ""
	if s.fp != "" {
		f = "." + s.fp
	}
	cond := s.cond
	if cond != "" {
		cond = "[" + cond + "]"
	}
	return s.color + cond + s.pre.code + s.mask + s.ip + f + strings.Repeat(",", s.scale) + s.suf + s.post.code
}

var c17Pre = []lit{{"", ""}, {`"$"`, "$"}, {`$`, "$"}, {`"a\b"`, `a\b`}, {`"a.b,c;0#e?ymd% "`, `a.b,c;0#e?ymd% `}, {`\e\0`, "e0"}, {`"№ "`, "№ "}, {`(`, "("}, {`_-* `, ""}, {`\"`, `"`}, {`[$€-407]\ `, "€ "}, {`[$USD] `, "USD "}}
var c17Post = []lit{{"", ""}, {`" units"`, " units"}, {`\ \m`, " m"}, {`" %"`, " %"}, {`_)`, ""}, {`)`, ")"}, {`"0.0"`, "0.0"}, {`"; s"`, "; s"}, {`"[Red]"`, "[Red]"}, {`\ [$kr-414]`, " kr"}, {`[$-409]`, ""}}

var c17IP = []string{"", "0", "00", "000", "#", "#,##0", "0,000", "#,###", "?", "??0", "###0", "?,??0", "#,#", "0,0", "###,###,##0", "000,000", "0000000000000000"}
var c17FP = []string{"", "0", "00", "0000", "#", "0#", "##", "0##", "?", "0??", "0000000", "0000000000", "00000##########"}

var c17Vals = []interface{}{0.0, 1.0, -1.0, 5.0, 0.5, -0.5, 0.05, 0.004, -0.004, 0.0625, 2.75, -2.25, -0.999, 9.996, 99.95, -9.5, 12.0, 123.456, -123.456, 999.9999, 1000.0, 1234.5, -1234.5, 43831.789, 99999.5, 100000.0,
	1234567.891, -1234567.891, 123456789012.0, 1e15, -1e15, 1e21, 3.0e-7, 1.0 / 3, 2.0 / 3, math.Copysign(0, -1),
	int64(0), int64(7), int64(-7), int64(1000), int64(-1234567)}

func ratOf(v interface{}) *big.Rat {
	switch x := v.(type) {
	case int64:
		return new(big.Rat).SetInt64(x)
	case float64:
		return new(big.Rat).SetFloat64(x)
	}
	return nil
}

// c17Number decides whether t shows v (without its literals) under the digit placeholders of s.
func c17Number(s *nsec, v *big.Rat, t string) string {
	neg := strings.HasPrefix(t, "-")
	t = strings.TrimPrefix(t, "-")
	exp := 0
	if s.suf == "%" {
		if !strings.HasSuffix(t, "%") {
			return "no percent sign"
		}
		t = strings.TrimSpace(strings.TrimSuffix(t, "%"))
	} else if s.suf != "" {
		i := strings.IndexByte(t, 'E')
		if i < 0 {
			return "no exponent"
		}
		n, err := strconv.Atoi(t[i+1:])
		if err != nil || len(t[i+1:]) < 2 {
			return "bad exponent"
		}
		exp, t = n, t[:i]
	}
	imin := strings.Count(s.ip, "0")
	fmin, fmax := strings.Count(s.fp, "0"), len(s.fp)
	ip, fp := t, ""
	if i := strings.IndexByte(t, '.'); i >= 0 {
		ip, fp = t[:i], t[i+1:]
		if s.fp == "" {
			return "a decimal point"
		}
	}
	plain := strings.ReplaceAll(ip, ",", "")
	for _, ch := range plain + fp {
		if ch < '0' || ch > '9' {
			return "not a number"
		}
	}
	if strings.Contains(s.ip, ",") {
		g := ""
		for i := range plain {
			if i > 0 && (len(plain)-i)%3 == 0 {
				g += ","
			}
			g += plain[i : i+1]
		}
		if g != ip {
			return "digits are not grouped by three"
		}
	} else if ip != plain {
		return "digits are grouped"
	}
	if len(plain) < imin {
		return "too few integer digits"
	}
	if len(plain) > imin && len(plain) > 1 && plain[0] == '0' || len(plain) == 1 && imin == 0 && fmax == 0 && plain == "0" && false {
		return "leading zeros"
	}
	if len(fp) < fmin || len(fp) > fmax {
		return "the number of decimals is wrong"
	}
	if s.suf == "" && len(fp) > fmin && fp[len(fp)-1] == '0' {
		return "an optional digit is zero"
	}
	if s.suf != "" && s.suf != "%" && v.Sign() != 0 && (len(plain) != 1 || plain == "0") {
		return "the mantissa is not normalised"
	}
	if plain+fp == "" {
		if imin+fmin > 0 {
			return "no digits"
		}
		plain = "0"
	}
	x, ok := new(big.Rat).SetString("0" + plain + "." + fp + "0")
	if !ok {
		return "not a number"
	}
	if neg {
		x.Neg(x)
	}
	unit := pow10(exp - fmax)
	x.Mul(x, pow10(exp))
	if s.suf == "%" {
		x.Mul(x, pow10(-2))
		unit.Mul(unit, pow10(-2))
	}
	if x.Sign() != 0 && x.Sign() != v.Sign() {
		return "the sign is wrong"
	}
	d := new(big.Rat).Sub(x, v)
	d.Abs(d)
	unit.Mul(unit, big.NewRat(1, 2))
	if s.suf == "%" || s.scale > 0 {
		unit.Add(unit, new(big.Rat).Mul(new(big.Rat).Abs(v), pow10(-15)))
	}
	if d.Cmp(unit) > 0 {
		return "not the value to the last digit shown"
	}
	return ""
}

// c17Section decides whether t shows v under section s; abs tells that the section defines the sign.
func c17Section(s *nsec, v *big.Rat, abs bool, t string) string {
	t = strings.TrimSpace(t)
	pre, post := strings.TrimSpace(s.pre.shown), strings.TrimSpace(s.post.shown)
	if s.static() {
		if w := strings.TrimSpace(s.pre.shown + s.post.shown); t != w {
			return fmt.Sprintf("want %q", w)
		}
		return ""
	}
	if abs {
		v = new(big.Rat).Abs(v)
	}
	sign := ""
	if strings.HasPrefix(t, "-") && v.Sign() < 0 && pre != "" {
		sign, t = "-", t[1:]
	}
	if !strings.HasPrefix(t, pre) {
		return "the literal in front is missing"
	}
	t = t[len(pre):]
	if !strings.HasSuffix(t, post) {
		return "the literal at the end is missing"
	}
	t = strings.TrimSpace(t[:len(t)-len(post)])
	if sign != "" && strings.HasPrefix(t, "-") {
		return "two signs"
	}
	switch s.kind {
	case "general", "@":
		return c17Plain(v, sign+t)
	case "mask":
		return c17Mask(s.mask, v, sign+t)
	case "fraction":
		return c17Fraction(s.mask, v, sign+t)
	}
	return c17Number(s, new(big.Rat).Mul(v, pow10(-3*s.scale)), sign+t)
}

// c17Plain decides whether t is v in full, or with six digits if it is long.
func c17Plain(v *big.Rat, t string) string {
	x, ok := new(big.Rat).SetString(t)
	if !ok {
		return "not a number"
	}
	d := new(big.Rat).Sub(x, v)
	tol := new(big.Rat).Mul(v, pow10(-15))
	f, _ := v.Float64()
	if len(strings.Trim(strconv.FormatFloat(f, 'f', -1, 64), "-")) > 11 {
		tol = new(big.Rat).Mul(v, big.NewRat(1, 100000))
	}
	if d.Abs(d).Cmp(tol.Abs(tol)) > 0 {
		return "not the value"
	}
	return ""
}

// c17Mask decides whether t shows the digits of v at the placeholders of a mask.
func c17Mask(mask string, v *big.Rat, t string) string {
	neg := strings.HasPrefix(t, "-")
	t = strings.TrimPrefix(t, "-")
	lits := strings.NewReplacer("\\", "", "\"", "").Replace(mask)
	digits, j, holes := "", len(t)-1, strings.Count(lits, "0")
	for i := len(lits) - 1; i >= 0; i-- {
		if j < 0 {
			return "it is too short"
		}
		if lits[i] != '0' {
			if t[j] != lits[i] {
				return "a literal is missing"
			}
			j--
			continue
		}
		digits = t[j:j+1] + digits
		j--
		holes--
		for holes == 0 && j >= 0 && t[j] >= '0' && t[j] <= '9' {
			digits = t[j:j+1] + digits // more digits than placeholders
			j--
		}
	}
	x, ok := new(big.Rat).SetString(digits)
	if !ok || j >= 0 {
		return "not a number"
	}
	if neg {
		x.Neg(x)
	}
	if len(digits) > strings.Count(lits, "0") && digits[0] == '0' {
		return "leading zeros"
	}
	if x.Sign() != 0 && x.Sign() != v.Sign() {
		return "the sign is wrong"
	}
	d := new(big.Rat).Sub(x, v)
	if d.Abs(d).Cmp(big.NewRat(1, 2)) > 0 {
		return "not the value"
	}
	return ""
}

// c17Fraction decides whether t shows v as a whole number and a fraction.
func c17Fraction(mask string, v *big.Rat, t string) string {
	neg := strings.HasPrefix(t, "-")
	t = strings.TrimPrefix(t, "-")
	den := mask[strings.IndexByte(mask, '/')+1:]
	fixed, _ := strconv.Atoi(den)
	x, ok := new(big.Rat).SetString("0")
	if i := strings.IndexByte(t, ' '); i >= 0 {
		x, ok = new(big.Rat).SetString(t[:i])
		t = strings.TrimSpace(t[i:])
	}
	n, ok2 := new(big.Rat).SetString(t)
	if !ok || !ok2 || strings.ContainsAny(t, ".eE") {
		return "not a fraction"
	}
	tol := pow10(-len(den))
	if i := strings.IndexByte(t, '/'); i >= 0 {
		if fixed > 0 && t[i+1:] != den {
			return "the denominator is wrong"
		}
		if len(t[i+1:]) > len(den) {
			return "the denominator is too long"
		}
		if n.Cmp(big.NewRat(1, 1)) >= 0 {
			return "the fraction is not proper"
		}
	}
	if fixed > 0 {
		tol = new(big.Rat).Add(big.NewRat(1, int64(2*fixed)), pow10(-9))
	}
	if v.IsInt() {
		tol = new(big.Rat)
	}
	x.Add(x, n)
	if neg {
		x.Neg(x)
	}
	if x.Sign() != 0 && x.Sign() != v.Sign() {
		return "the sign is wrong"
	}
	d := new(big.Rat).Sub(x, v)
	if d.Abs(d).Cmp(tol) > 0 {
		return "not the value"
	}
	return ""
}

// c17Show decides what a code of the given sections shows for v.
func c17Show(c *engine.Ctx, fx *commonxl.Formatter, id uint16, code string, secs []nsec, v interface{}) {
	r := ratOf(v)
	sec, abs := &secs[0], false
	conds := false
	for i := range secs {
		conds = conds || secs[i].cond != ""
	}
	switch {
	case conds && len(secs) > 1:
		sec, abs = c17Cond(secs, r)
	case r.Sign() < 0 && len(secs) > 1:
		sec, abs = &secs[1], true
	case r.Sign() == 0 && len(secs) > 2:
		sec = &secs[2]
	}
	var s, s2 string
	var ok bool
	c.Guard(fmt.Sprintf("Apply(%q, %v)", code, v), func() { s, ok = fx.Apply(id, v) })
	if !ok {
		c.Failf("the format %q is not known", code)
	}
	if msg := c17Section(sec, r, abs, s); msg != "" {
		c.Failf("format %q shows %v as %q: %s", code, v, s, msg)
	}
	sh := &commonxl.Sheet{Formatter: fx}
	c.Guard("Sheet", func() {
		sh.Resize(1, 1)
		sh.Put(0, 0, v, id)
		sh.Next()
		s2 = sh.Strings()[0]
	})
	if s2 != s {
		if msg := c17Section(sec, r, abs, s2); msg != "" {
			c.Failf("a cell of format %q shows %v as %q: %s", code, v, s2, msg)
		}
	}
	c.Steps(2)
}

// c17Cond selects the section by the conditions.
func c17Cond(secs []nsec, v *big.Rat) (*nsec, bool) {
	n := len(secs) - 1
	for i := 0; i < n; i++ {
		cond := secs[i].cond
		if cond == "" {
			cond = []string{">0", "<0"}[i]
		}
		op := strings.TrimRight(cond, "-.0123456789e")
		limit, _ := new(big.Rat).SetString(cond[len(op):])
		k := v.Cmp(limit)
		if strings.Contains(op, "<") && k < 0 || strings.Contains(op, ">") && k > 0 || strings.Contains(op, "=") && k == 0 {
			return &secs[i], cond == "<0"
		}
	}
	return &secs[n], false
}

var c17Forms = func() []nsec {
	var r []nsec
	for _, g := range []string{"General", "GENERAL", "general"} {
		r = append(r, nsec{kind: "general", mask: g})
	}
	r = append(r, nsec{kind: "@", mask: "@"})
	for _, m := range []string{`000\-00\-0000`, `(000) 000-0000`, `00000-0000`, `00":"00`, `0\.0\.0`, `00 00 00 00`, `0\m00\s`} {
		r = append(r, nsec{kind: "mask", mask: m})
	}
	for _, m := range []string{"# ?/?", "# ??/??", "# ???/???", "?/?", "#/##", "0 ?/?", "# ?/2", "# ?/4", "# ?/8", "# ??/16", "# ??/100", "# ?/10", "# ????/????", "?????/?????", "# ??/12", "# ??/32", "# ??/64", "# ???/128", "# ???/360", "# ???/1000"} {
		r = append(r, nsec{kind: "fraction", mask: m})
	}
	for _, ip := range []string{"0", "#,##0", "000"} {
		for _, fp := range []string{"", "0", "0#", "000"} {
			for _, scale := range []int{1, 2, 3, 4, 6} {
				r = append(r, nsec{ip: ip, fp: fp, scale: scale})
			}
		}
	}
	return r
}()

// the rarer forms of a section: General, text, fractions, masks, scaling
func c17Form(c *engine.Ctx) {
	s := c17Forms[c.Pick("form", len(c17Forms))]
	s.pre, s.post, s.color = c17Pre[c.Pick("pre", len(c17Pre))], c17Post[c.Pick("post", len(c17Post))], []string{"", "[Red]", "[Color 12]"}[c.Pick("color", 3)]
	if s.kind == "mask" && (s.pre.shown != "" && strings.Contains("(", s.pre.shown) || s.post.shown != "" && strings.Contains("-", s.post.shown)) {
		return
	}
	secs := []nsec{s}
	code := s.code()
	switch c.Pick("sections", 3) {
	case 1: // with a section for negative values
		n := s
		n.pre = lit{"-", "-"}
		secs = append(secs, n)
		code += ";" + n.code()
	case 2: // as the section for zero
		secs = []nsec{{ip: "0", fp: "00"}, {ip: "0", pre: lit{"-", "-"}}, s}
		code = "0.00;-0;" + code
	}
	text := lit{"", "@"}
	if c.Pick("text", 2) == 1 && s.kind != "@" {
		text = lit{`"t: "@`, "t: @"}
		code += ";" + text.code
	} else if s.kind == "@" {
		if len(secs) > 1 {
			return // it is the text section
		}
		text.shown = s.pre.shown + "@" + s.post.shown
	}
	fx := &commonxl.Formatter{}
	c17Add(c, fx, 164, code)
	c.State(code)
	for _, v := range c17Vals {
		if f, ok := v.(float64); ok && math.Abs(f) > 1e14 && (s.kind == "fraction" || s.kind == "mask") {
			continue
		}
		c17Show(c, fx, 164, code, secs, v)
	}
	c17Text(c, fx, code, text)
	c.Outcome(s.kind)
}

func c17Text(c *engine.Ctx, fx *commonxl.Formatter, code string, text lit) {
	for _, s := range []string{"text", "-5"} {
		t, _ := fx.Apply(164, s)
		if w := strings.Replace(text.shown, "@", s, 1); t != w && strings.TrimSpace(t) != strings.TrimSpace(w) {
			c.Failf("format %q shows text %q as %q, want %q", code, s, t, w)
		}
	}
}

var c17Conds = []string{"", ">100", ">=100", "<0", "<=5", "<>0", "=0", "=1234.5", "<-1", ">0.25", "<1e3", ">=-5"}

// sections with conditions
func c17Conditions(c *engine.Ctx) {
	menu := []nsec{{ip: "0"}, {ip: "0", fp: "0", post: lit{`"k"`, "k"}}, {ip: "#,##0", fp: "00", scale: 1, post: lit{`"K"`, "K"}}, {kind: "general", mask: "General"}, {pre: lit{`"none"`, "none"}}, {ip: "0", fp: "00", pre: lit{"(", "("}, post: lit{")", ")"}}}
	n := c.Pick("sections", 2) + 2
	var secs []nsec
	var codes []string
	any := false
	for i := 0; i < n; i++ {
		s := menu[c.Pick("section", len(menu))]
		if i < 2 && i < n-1 {
			s.cond = c17Conds[c.Pick("cond", len(c17Conds))]
		}
		if c.Thorough && c.Pick("color", 2) == 1 {
			s.color = "[Blue]"
		}
		any = any || s.cond != ""
		secs = append(secs, s)
		codes = append(codes, s.code())
	}
	if !any {
		return
	}
	code := strings.Join(codes, ";")
	text := lit{"", "@"}
	if c.Pick("text", 2) == 1 {
		text = lit{`"t: "@`, "t: @"}
		code += ";" + text.code
	}
	fx := &commonxl.Formatter{}
	c17Add(c, fx, 164, code)
	c.State(code)
	for _, v := range append(c17FewVals, 100.0, 99.5, 1.0, -1.0, -1.5, 1e6, 1234567.0) {
		c17Show(c, fx, 164, code, secs, v)
	}
	c17Text(c, fx, code, text)
	c.Outcome(fmt.Sprint(n))
}

func c17Add(c *engine.Ctx, fx *commonxl.Formatter, id uint16, code string) {
	var err error
	c.Guard(fmt.Sprintf("Add(%q)", code), func() { err = fx.Add(id, code) })
	if err != nil {
		c.Failf("Add(%d, %q): %v", id, code, err)
	}
}

// one section
func c17One(c *engine.Ctx) {
	s := nsec{pre: c17Pre[c.Pick("pre", len(c17Pre))], post: c17Post[c.Pick("post", len(c17Post))], ip: c17IP[c.Pick("int", len(c17IP))], fp: c17FP[c.Pick("frac", len(c17FP))],
		suf: []string{"", "%", "E+00", "E+0", "E-00", "E-0", "e+00", "E+000"}[c.Pick("suffix", 8)], color: []string{"", "[Red]", "[Color 12]"}[c.Pick("color", 3)]}
	if s.static() && s.suf != "" {
		return
	}
	if strings.HasPrefix(strings.ToUpper(s.suf), "E") && (s.ip != "0" || strings.Contains(s.fp, "#")) {
		return
	}
	code := s.code()
	if strings.TrimSpace(code) == "" {
		return
	}
	fx := &commonxl.Formatter{}
	c17Add(c, fx, 164, code)
	c.State(code)
	for _, v := range c17Vals {
		c17Show(c, fx, 164, code, []nsec{s}, v)
	}
	if s.static() {
		c.Outcome("static")
	} else {
		c.Outcome("digits")
	}
}

var c17Secs = []nsec{
	{ip: "0"}, {ip: "0", fp: "00"}, {ip: "#,##0"}, {pre: lit{"(", "("}, post: lit{")", ")"}, ip: "#,##0", fp: "00"}, {color: "[Red]", pre: lit{"-", "-"}, ip: "0", fp: "0"}, {pre: lit{`"none"`, "none"}}, {},
	{pre: lit{`"a;b "`, "a;b "}, ip: "000"}, {ip: "0", suf: "%"}, {ip: "0", fp: "00", suf: "E+00"}, {pre: lit{`\;\-`, ";-"}, ip: "0"}, {color: "[Blue]", pre: lit{`_(* "-"`, "-"}, fp: "", ip: "", post: lit{`_)`, ""}},
	{ip: "#", fp: "##", post: lit{`" e"`, " e"}},
}

var c17TextSecs = []lit{{"@", "@"}, {`"t: "@`, "t: @"}, {`"none"`, "none"}, {"", ""}, {`_(@_)`, "@"}, {`@" ;"`, "@ ;"}}

var c17FewVals = []interface{}{0.0, 5.0, -5.0, 0.25, -0.25, 1234.5, -1234.567, -0.001, int64(0), int64(3), int64(-1000)}

// two to four sections
func c17Sections(c *engine.Ctx) {
	n := c.Pick("sections", 3) + 2
	var secs []nsec
	var codes []string
	for i := 0; i < n && i < 3; i++ {
		s := c17Secs[c.Pick("section", len(c17Secs))]
		secs = append(secs, s)
		codes = append(codes, s.code())
	}
	text := lit{"", "@"}
	if n == 4 {
		text = c17TextSecs[c.Pick("text", len(c17TextSecs))]
		codes = append(codes, text.code)
	}
	code := strings.Join(codes, ";")
	if secs[0].suf == "%" || c.Thorough || n < 4 || true {
		fx := &commonxl.Formatter{}
		c17Add(c, fx, 164, code)
		c.State(code)
		for _, v := range c17FewVals {
			c17Show(c, fx, 164, code, secs, v)
		}
		for _, s := range []string{"text", "-5"} {
			t, _ := fx.Apply(164, s)
			if w := strings.Replace(text.shown, "@", s, 1); t != w && strings.TrimSpace(t) != strings.TrimSpace(w) {
				c.Failf("format %q shows text %q as %q, want %q", code, s, t, w)
			}
		}
	}
	c.Outcome(fmt.Sprint(n))
}

// date codes

type dpart struct {
	tok  string
	code string // as written
	lit  string // a literal if tok is empty
}

var c17Wday = []string{"Thursday", "Friday", "Saturday", "Sunday", "Monday", "Tuesday", "Wednesday"}
var c17Month = []string{"", "January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"}

func weekday(day int, m1904 bool) string {
	e := epoch1900
	if m1904 {
		e = epoch1904
	}
	return c17Wday[((day+e)%7+7)%7]
}

// c17Date lists the texts each part may show.
func c17Date(parts []dpart, x moment, m1904 bool) [][]string {
	var out [][]string
	ampm := false
	var toks []string
	for _, p := range parts {
		if p.tok != "" {
			toks = append(toks, p.tok)
		}
		ampm = ampm || p.tok == "am/pm"
	}
	k := -1
	for _, p := range parts {
		if p.tok == "" {
			out = append(out, []string{p.lit})
			continue
		}
		k++
		minute := len(p.tok) <= 2 && p.tok[0] == 'm' && (k > 0 && strings.Contains(toks[k-1], "h") || k+1 < len(toks) && toks[k+1][0] == 's')
		two := func(n int) []string { return []string{fmt.Sprintf("%02d", n)} }
		one := func(n int) []string { return []string{strconv.Itoa(n)} }
		h := x.H
		if ampm {
			h = (x.H+11)%12 + 1
		}
		var o []string
		switch p.tok {
		case "yyyy", "yyy":
			o = []string{fmt.Sprintf("%04d", x.y)}
		case "yy":
			o = two(x.y % 100)
		case "mmmm":
			o = []string{c17Month[x.m]}
		case "mmmmm": // the first letter, or three
			o = []string{c17Month[x.m][:3], c17Month[x.m][:1]}
		case "mmm":
			o = []string{c17Month[x.m][:3]}
		case "mm":
			o = two(x.m)
			if minute {
				o = two(x.M)
			}
		case "m":
			o = one(x.m)
			if minute {
				o = one(x.M)
			}
		case "dddd":
			o = []string{weekday(x.day, m1904)}
		case "ddd":
			o = []string{weekday(x.day, m1904)[:3]}
		case "dd":
			o = two(x.d)
		case "d":
			o = one(x.d)
		case "hh":
			o = two(h)
		case "h":
			o = append(one(h), two(h)...)
		case "ss":
			o = two(x.S)
		case "ss.0":
			o = []string{fmt.Sprintf("%02d.%d", x.S, x.T)}
		case "s":
			o = one(x.S)
		case "am/pm":
			o = []string{"AM"}
			if x.H >= 12 {
				o = []string{"PM"}
			}
		case "[h]", "[m]", "[s]", "[hh]", "[mm]", "[ss]":
			n := x.day*24 + x.H
			if p.tok[1] != 'h' {
				n = n*60 + x.M
			}
			if p.tok[1] == 's' {
				n = n*60 + x.S
			}
			o = one(n)
			if len(p.tok) == 4 {
				o = append(o, two(n)...)
			}
		default:
			panic(p.tok)
		}
		out = append(out, o)
	}
	return out
}

func matchParts(t string, parts [][]string) bool {
	if len(parts) == 0 {
		return t == ""
	}
	for _, o := range parts[0] {
		if strings.HasPrefix(t, o) && matchParts(t[len(o):], parts[1:]) {
			return true
		}
	}
	return false
}

var c17Toks = []string{"yyyy", "yy", "mmmm", "mmm", "mm", "m", "dddd", "ddd", "dd", "d", "hh", "h", "ss", "s", "am/pm", "ss.0", "[h]", "yyy", "mmmmm"}
var c17Seps = []lit{{"-", "-"}, {"", ""}, {":", ":"}, {`" day 06 Jan h:m "`, " day 06 Jan h:m "}, {`\ \d\/`, " d/"}, {"年", "年"}, {", ", ", "}, {`"."`, "."}, {"/", "/"}}
var c17Moments = [][2]int{{43890, 0}, {45351, 480950}, {40179, 863990}, {61, 36610}, {2958465, 432000}, {36526, 468070}}

func c17DateRun(c *engine.Ctx, n, nsep int) {
	var parts []dpart
	prev := byte(0)
	seen := map[string]bool{}
	upper := c.Pick("case", 2) == 1
	var code strings.Builder
	if c.Pick("lead", 2) == 1 {
		code.WriteString(`[$-409]"d: "`)
		parts = append(parts, dpart{lit: "d: "})
	}
	sep := c17Seps[0]
	if n > 1 {
		sep = c17Seps[c.Pick("sep", nsep)]
	}
	last := ""
	for i := 0; i < n; i++ {
		tok := c17Toks[c.Pick("tok", len(c17Toks))]
		if seen[tok] {
			return
		}
		if (tok == "[h]" || tok == "am/pm") && (seen["[h]"] || seen["am/pm"]) {
			return // elapsed hours of half a day
		}
		if tok == "[h]" && (seen["h"] || seen["hh"]) || (tok == "h" || tok == "hh") && seen["[h]"] {
			return
		}
		seen[tok] = true
		s := sep
		if tok == "am/pm" && s.code == "" {
			s = lit{" ", " "}
		}
		if i > 0 {
			if s.code == "" && (prev == tok[0] || last == "ss.0") {
				return // they would be one component
			}
			parts = append(parts, dpart{lit: s.shown})
			code.WriteString(s.code)
		}
		w := tok
		if upper || tok == "am/pm" {
			w = strings.ToUpper(tok)
		}
		code.WriteString(w)
		parts = append(parts, dpart{tok: tok})
		prev = tok[0]
		last = tok
	}
	fx := &commonxl.Formatter{}
	k := code.String()
	c17Add(c, fx, 164, k)
	c.State(k)
	for _, mo := range c17Moments {
		day, tenths := mo[0], mo[1]
		if !seen["ss.0"] {
			tenths = tenths / 10 * 10
		} else {
			tenths += 3
		}
		for mode := 0; mode < 2; mode++ {
			if mode == 1 && day > lastSerial1904 {
				continue
			}
			fx.Mode1904(mode == 1)
			x := momentOf(day, tenths, mode == 1)
			v := float64(day) + float64(tenths)/864000
			var s string
			var ok bool
			c.Guard(fmt.Sprintf("Apply(%q, %v)", k, v), func() { s, ok = fx.Apply(164, v) })
			ps := c17Date(parts, x, mode == 1)
			if !ok || !matchParts(s, ps) {
				c.Failf("format %q shows %v as %q, want %q (%+v)", k, v, s, ps, x)
			}
			var t string
			c.Guard("time", func() { t, _ = fx.Apply(164, fx.ConvertToDate(v)) })
			if t != s {
				c.Failf("format %q shows serial %v as %q and the same time as %q", k, v, s, t)
			}
			c.Steps(2)
		}
	}
	c.Outcome(strconv.Itoa(len(parts)))
}

// elapsed times, alone and with the components which may follow them
var c17After = map[byte][]string{
	'h': {"mm", "m", "mm:ss", "m:s", "mm:ss.0", `mm" min"`, `mm\ ss`},
	'm': {"ss", "s", "ss.0", `ss"s"`},
}

func c17Elapsed(c *engine.Ctx) {
	tok := []string{"[h]", "[hh]", "[m]", "[mm]", "[s]", "[ss]"}[c.Pick("unit", 6)]
	lead := []lit{{"", ""}, {`"t "`, "t "}, {`[Red]`, ""}, {`[$-409]`, ""}, {`\d`, "d"}}[c.Pick("lead", 5)]
	sep := []lit{{":", ":"}, {`" h "`, " h "}, {`\s`, "s"}, {"", ""}}[c.Pick("sep", 4)]
	tail := []lit{{"", ""}, {`" h"`, " h"}, {`\m`, "m"}}[c.Pick("tail", 3)]
	after := c17After[tok[1]]
	k := c.Pick("after", len(after)+1)
	upper := c.Pick("case", 2) == 1
	w := tok
	if upper {
		w = strings.ToUpper(tok)
	}
	code := lead.code + w
	parts := []dpart{{lit: lead.shown}, {tok: tok}}
	tenth := false
	if k > 0 {
		if tok[1] == 's' || sep.code == "" {
			return
		}
		a := after[k-1]
		tenth = strings.Contains(a, ".0")
		code += sep.code + a
		parts = append(parts, dpart{lit: sep.shown})
		for a != "" {
			n := 0
			for n < len(a) && strings.IndexByte("ms.0", a[n]) >= 0 && (n == 0 || a[n] == a[0] || a[n] == '.' || a[n] == '0') {
				n++
			}
			if n > 0 {
				parts = append(parts, dpart{tok: a[:n]})
				a = a[n:]
				continue
			}
			switch {
			case a[0] == '"':
				e := strings.IndexByte(a[1:], '"') + 1
				parts = append(parts, dpart{lit: a[1:e]})
				a = a[e+1:]
			case a[0] == '\\':
				parts = append(parts, dpart{lit: a[1:2]})
				a = a[2:]
			default:
				parts = append(parts, dpart{lit: a[:1]})
				a = a[1:]
			}
		}
	} else if sep.code != "" {
		return
	}
	code += tail.code
	parts = append(parts, dpart{lit: tail.shown})
	fx := &commonxl.Formatter{}
	c17Add(c, fx, 164, code)
	c.State(code)
	days := []int{0, 1, 2, 31, 58, 59, 61, 99, 100, 366, 9999, 43890, 100000, 2958464, 2958465}
	secs := []int{0, 1, 59, 60, 61, 599, 3599, 3600, 3661, 35999, 36000, 43200, 86340, 86399}
	for _, day := range days {
		for _, sec := range secs {
			for mode := 0; mode < 2; mode++ {
				if mode == 1 && day > lastSerial1904 {
					continue
				}
				fx.Mode1904(mode == 1)
				tenths := sec * 10
				if tenth {
					tenths += 3
				}
				x := momentOf(day, tenths, mode == 1)
				v := float64(day) + float64(tenths)/864000
				var s string
				var ok bool
				c.Guard(fmt.Sprintf("Apply(%q, %v)", code, v), func() { s, ok = fx.Apply(164, v) })
				ps := c17Date(parts, x, mode == 1)
				if !ok || !matchParts(s, ps) {
					c.Failf("format %q shows %v as %q, want %q (%+v)", code, v, s, ps, x)
				}
				c.Steps(1)
			}
		}
	}
	c.Outcome(tok)
}

func c17Dates(c *engine.Ctx) { c17DateRun(c, c.Pick("len", 3)+1, len(c17Seps)) }
func c17Dates4(c *engine.Ctx) {
	n := 3
	if c.Thorough {
		n = len(c17Seps)
	}
	c17DateRun(c, 4, n)
}

// the ids: sequences of definitions
func c17Ids(c *engine.Ctx) {
	fx := &commonxl.Formatter{}
	ids := []uint16{164, 165, 14, 0, 5, 40000}
	codes := []string{"0.000", "General", `"x"0`, "yyyy"}
	shown := []string{"43831.500", "43831.5", "x43832", "2020"}
	model := map[uint16]int{}
	depth := 3
	if c.Thorough {
		depth = 4
	}
	for i := 0; i < depth; i++ {
		id := ids[c.Pick("id", len(ids))]
		k := c.Pick("code", len(codes))
		var err error
		c.Guard("Add", func() { err = fx.Add(id, codes[k]) })
		_, dup := model[id]
		builtin := id == 14 || id == 0
		if (err != nil) != (dup || builtin) {
			c.Failf("definition %d: Add(%d, %q) returns %v (defined before: %v, built-in: %v)", i, id, codes[k], err, dup, builtin)
		}
		if err == nil {
			model[id] = k
		}
		for _, id := range ids {
			var s string
			var ok bool
			c.Guard("Apply", func() { s, ok = fx.Apply(id, 43831.5) })
			w, known := "43831.5", false
			if k, def := model[id]; def {
				w, known = shown[k], true
			}
			if id == 14 {
				w, known = "01-01-20", true
			} else if id == 0 {
				known = true
			}
			if id == 5 && !known {
				continue
			}
			if s != w || ok != known {
				c.Failf("after %d definitions %v: format %d shows %q, %v; want %q, %v", i+1, model, id, s, ok, w, known)
			}
			c.Steps(1)
		}
		c.State(fmt.Sprint(model))
	}
}

var c17FileCodes = []string{"000", "#,##0.00", `"$"#,##0.00;("$"#,##0.00)`, `0.0" ; units"`, `0.00E+00`, `yyyy\-mm\-dd`, `[$-F400]h:mm:ss AM/PM`, `0%;-0%;"zero";"<"@">"`, `#,##0.00\ "€"`, `dddd d mmmm`, "General", "gEneRal", `[h]:mm`, `"日本"0`, "0.0#"}

// the formats of files are those of their code, whatever the order of the definitions
func c17File(c *engine.Ctx) {
	n := len(c17FileCodes)
	a := c.Pick("code", n)
	b := c.Pick("other", n)
	rev := c.Pick("reverse", 2) == 1
	v := []float64{0, 5, -1234.5, 43831.75}[c.Pick("value", 4)]
	isXlsx := c.Pick("file", 2) == 1
	ids := []int{164, 170}
	switch c.Pick("ids", 4) {
	case 1:
		ids = []int{7, 383}
	case 2:
		ids = []int{32767, 32768}
	case 3:
		ids = []int{40000, 65535}
	}
	codes := []string{c17FileCodes[a], c17FileCodes[b]}
	var wantS []string
	for _, k := range codes {
		fx := &commonxl.Formatter{}
		c17Add(c, fx, 200, k)
		s, _ := fx.Apply(200, v)
		wantS = append(wantS, s)
	}
	order := []int{0, 1}
	if rev {
		order = []int{1, 0}
	}
	var col grate.Collection
	if isXlsx {
		x := &gen.XLSX{XFs: []string{gen.XFX(ids[1]), gen.XFX(0), gen.XFX(ids[0])}}
		for _, i := range order {
			x.NumFmts = append(x.NumFmts, [2]string{strconv.Itoa(ids[i]), codes[i]})
		}
		x.Sheets = []gen.XSheet{{Name: "S", Dim: "A1:B1", Rows: gen.RowX(0, gen.C(0, 0, "", 2, gen.V(fmt.Sprint(v))), gen.C(0, 1, "n", 0, gen.V(fmt.Sprint(v))))}}
		var src grate.Source
		src, col = xlsxGet(c, x, "S")
		defer src.Close()
	} else {
		x := &gen.XLS{}
		for _, i := range order {
			x.Pre = append(x.Pre, gen.Format(ids[i], codes[i], !gen.Latin(codes[i]) || i == 1))
		}
		x.Pre = append(x.Pre, gen.XF(ids[1]), gen.XF(0), gen.XF(ids[0]))
		x.Sheets = []gen.Sheet{{Name: "S", Recs: []gen.Rec{gen.Dimensions(0, 1, 0, 2), gen.Number(0, 0, 2, v), gen.Number(0, 1, 0, v)}}}
		col = xlsSheet(c, x, "S")
	}
	col.Next()
	var s []string
	c.Guard("Strings", func() { s = col.Strings() })
	c.Steps(1)
	if len(s) != 2 || s[0] != wantS[0] || s[1] != wantS[1] {
		c.Failf("formats %q show %v as %q, want %q", codes, v, s, wantS)
	}
	var ty, fm []string
	c.Guard("Types", func() { ty = col.Types() })
	c.Guard("Formats", func() { fm = col.Formats() })
	if len(ty) != 2 || len(fm) != 2 {
		c.Failf("Types %q, Formats %q for two columns", ty, fm)
	}
	for i := range codes {
		// date codes make dates of numbers, whatever their id
		d := codes[i] == `yyyy\-mm\-dd` || codes[i] == `[$-F400]h:mm:ss AM/PM` || codes[i] == `dddd d mmmm`
		if (ty[i] == "date") != d && codes[i] != `[h]:mm` {
			c.Failf("a number with the format %d %q has the type %q", ids[i], codes[i], ty[i])
		}
		if fm[i] != strconv.Itoa(ids[i]) && fm[i] != codes[i] {
			c.Failf("the format %d %q is shown by Formats as %q", ids[i], codes[i], fm[i])
		}
	}
}

func init() {
	engine.Register(&engine.Property{
		ID: "C17", Level: "model_checking",
		Rule:        "one: every combination of color, literals in front and behind, integer and fraction placeholders and percent or exponent x 40 values; sections: every combination of 2 to 4 sections from a menu x 11 values and text; dates, dates4: every sequence of up to 3 (4) different components x separators x upper/lower case x moments x date system; elapsed: every elapsed unit [h] to [ss] x literals x components behind it x 15 days x 14 times of day x date system; ids: every sequence of 3 (thorough 4) definitions; file: pairs of formats defined in xls and xlsx files under ids up to 65535; forms: every combination of General, @, digit masks, fractions and scaling commas x literals x number of sections x a text section x 40 values and text; conditions: every pair of bracketed conditions x section menus x values on both sides of the limits. Oracle: the text is parsed against the structure the code was generated from, numbers are compared exactly",
		Assumptions: []string{"literals between digits stand within plain digit masks (000-00-0000)", "no mmmmm or A/P", "a single h may be padded", "_x and *x show nothing or a space"},
		Harnesses: []engine.Harness{
			{Name: "one", Run: c17One},
			{Name: "sections", Run: c17Sections},
			{Name: "forms", Run: c17Form},
			{Name: "conditions", Run: c17Conditions},
			{Name: "dates", Run: c17Dates},
			{Name: "dates4", Run: c17Dates4},
			{Name: "elapsed", Run: c17Elapsed},
			{Name: "ids", Run: c17Ids},
			{Name: "file", Run: c17File},
		},
	})
}

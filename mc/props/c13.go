package props

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"github.com/pbnjay/grate/commonxl"

	"verif/mc/engine"
)

const (
	reInt   = `(?:0|[1-9]\d*)`
	reGroup = `(?:0|[1-9]\d{0,2}(?:,\d{3})*)`
	reExp   = `E([+-]\d{1,3})`
)

// c13Fmt describes what a built-in numeric format shows: the layout, in which
// the number, and possibly an exponent, are the submatches.
type c13Fmt struct {
	re   string
	dec  int
	pct  bool
	dash bool // zero is a dash
}

var c13Formats = map[uint16]c13Fmt{
	1:  {re: `^(-?` + reInt + `)$`},
	2:  {re: `^(-?` + reInt + `\.\d\d)$`, dec: 2},
	3:  {re: `^(-?` + reGroup + `)$`},
	4:  {re: `^(-?` + reGroup + `\.\d\d)$`, dec: 2},
	9:  {re: `^(-?` + reInt + `)%$`, pct: true},
	10: {re: `^(-?` + reInt + `\.\d\d)%$`, dec: 2, pct: true},
	11: {re: `^(-?\d\.\d\d)` + `E([+-]\d\d\d?)$`, dec: 2},
	37: {re: `^(?:(` + reGroup + `)|(\(` + reGroup + `\)))$`},
	38: {re: `^(?:(` + reGroup + `)|(\(` + reGroup + `\)))$`},
	39: {re: `^(?:(` + reGroup + `\.\d\d)|(\(` + reGroup + `\.\d\d\)))$`, dec: 2},
	40: {re: `^(?:(` + reGroup + `\.\d\d)|(\(` + reGroup + `\.\d\d\)))$`, dec: 2},
	41: {re: `^(?:(` + reGroup + `)|(\(` + reGroup + `\)))$`, dash: true},
	42: {re: `^\$ ?(?:(` + reGroup + `)|(\(` + reGroup + `\)))$`, dash: true},
	43: {re: `^(?:(` + reGroup + `\.\d\d)|(\(` + reGroup + `\.\d\d\)))$`, dec: 2, dash: true},
	44: {re: `^\$ ?(?:(` + reGroup + `\.\d\d)|(\(` + reGroup + `\.\d\d\)))$`, dec: 2, dash: true},
	48: {re: `^(-?\d{1,3}\.\d)` + reExp + `$`, dec: 1},
}

var c13IDs = []uint16{0, 1, 2, 3, 4, 9, 10, 11, 37, 38, 39, 40, 41, 42, 43, 44, 48, 59, 60, 61, 62, 67, 68}

var c13Regs = map[uint16]*regexp.Regexp{}

func init() {
	// the Thai variants
	for a, b := range map[uint16]uint16{59: 1, 60: 2, 61: 3, 62: 4, 67: 9, 68: 10} {
		c13Formats[a] = c13Formats[b]
	}
	for id, f := range c13Formats {
		c13Regs[id] = regexp.MustCompile(f.re)
	}
}

var bigTen = big.NewInt(10)

func pow10(n int) *big.Rat {
	p := new(big.Int).Exp(bigTen, big.NewInt(int64(max(n, -n))), nil)
	if n < 0 {
		return new(big.Rat).SetFrac(big.NewInt(1), p)
	}
	return new(big.Rat).SetInt(p)
}

// c13Check decides whether text s shows v under built-in format id.
func c13Check(id uint16, v *big.Rat, s string) string {
	f := c13Formats[id]
	s = strings.TrimSpace(s)
	if f.dash && v.Sign() == 0 {
		if s != "-" && s != "$-" && s != "$ -" {
			return "zero is not shown as a dash"
		}
		if strings.HasPrefix(s, "$") != (id == 42 || id == 44) {
			return "the currency sign is wrong"
		}
		return ""
	}
	m := c13Regs[id].FindStringSubmatch(s)
	if m == nil {
		return "not in the layout of the format"
	}
	t := m[1]
	exp := 0
	if id == 11 || id == 48 {
		exp, _ = strconv.Atoi(m[2])
	} else if len(m) > 2 && m[2] != "" {
		t = "-" + strings.Trim(m[2], "()")
	}
	t = strings.ReplaceAll(t, ",", "")
	x, ok := new(big.Rat).SetString(t)
	if !ok {
		return "not a number"
	}
	if x.Sign() != 0 && x.Sign() != v.Sign() {
		return "the sign is wrong"
	}
	unit := pow10(exp - f.dec)
	x.Mul(x, pow10(exp))
	if f.pct {
		x.Mul(x, pow10(-2))
		unit.Mul(unit, pow10(-2))
	}
	if id == 11 && x.Sign() != 0 && m[1][strings.IndexAny(m[1], "0123456789")] == '0' {
		return "the mantissa is not normalised"
	}
	d := new(big.Rat).Sub(x, v)
	d.Abs(d)
	unit.Mul(unit, big.NewRat(1, 2))
	if f.pct {
		// the product with 100 is a floating-point number
		unit.Add(unit, new(big.Rat).Mul(new(big.Rat).Abs(v), pow10(-15)))
	}
	if d.Cmp(unit) > 0 {
		return "it does not read back to the value"
	}
	return ""
}

// c13Quick avoids big numbers for ordinary values.
func c13Float(c *engine.Ctx, fx *commonxl.Formatter, sh *commonxl.Sheet, id uint16, v float64) {
	f := c13Formats[id]
	if f.pct && math.IsInf(v*100, 0) {
		return
	}
	var s, s2, s3 string
	var ok bool
	c.Guard(fmt.Sprintf("Apply(%d, %v)", id, v), func() {
		s, ok = fx.Apply(id, v)
		if ff, ok2 := fx.Get(id); ok2 {
			s2 = ff(fx, v)
		}
	})
	if !ok || s != s2 {
		c.Failf("Apply(%d, %v) = %q, %v; Get gives %q", id, v, s, ok, s2)
	}
	if id == 0 {
		if err := checkGeneral(v, s); err != nil {
			c.Failf("Apply(0, %v) = %q: %v", v, s, err)
		}
	} else if msg := c13Check(id, new(big.Rat).SetFloat64(v), s); msg != "" {
		c.Failf("Apply(%d, %v) = %q: %s", id, v, s, msg)
	}
	c.Guard(fmt.Sprintf("cell %v with format %d", v, id), func() {
		sh.Put(0, 0, v, id)
		sh.CurRow = 1
		s3 = sh.Strings()[0]
	})
	if s3 != s && v != 0 {
		c.Failf("format %d shows %v as %q and a cell which holds it as %q", id, v, s, s3)
	}
	if v == 0 && strings.TrimPrefix(s3, "-") != strings.TrimPrefix(s, "-") {
		c.Failf("format %d shows %v as %q and a cell which holds it as %q", id, v, s, s3)
	}
	c.Steps(1)
}

func c13Values() []float64 {
	l := []float64{0, math.Copysign(0, -1), math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53, 1<<53 - 1, 1<<53 + 2, 1 << 63, 1<<63 - 1024, 1<<63 + 2048, 1 << 64, 1 << 31, 1<<31 - 1, 1 << 32,
		0.1, 0.3, 1.0 / 3, 2.0 / 3, math.Pi, math.E, 1.005, 2.675, 0.285, 1.115, 1e22, 123456789.987654321, 1234.5678, 12345678901234567, 0.994999, 0.995, 0.9951, 9.9949, 9.995, 9.9951, 99949999, 99950001, 0.0099949, 0.009995001}
	for k := -308; k <= 308; k++ {
		p, _ := strconv.ParseFloat(fmt.Sprintf("1e%d", k), 64)
		l = append(l, p, 3*p, 9.4999*p, 9.5001*p, 9.994*p, 9.996*p)
		if k >= -12 && k <= 22 {
			for _, d := range []float64{1, -1, 0.5, -0.5, 0.4999, 0.5001, 0.005, -0.005, 0.004, 0.006, -0.004, -0.006, 0.25, 0.75} {
				l = append(l, p+d, p-d*p, 2*p+d)
			}
		}
	}
	n := len(l)
	for i := 0; i < n; i++ {
		if math.IsInf(l[i], 0) || math.IsNaN(l[i]) {
			l[i] = 1
		}
		l = append(l, -l[i])
	}
	return l
}

var c13Lattice = c13Values()

func c13Run(c *engine.Ctx) {
	id := c13IDs[c.Pick("format", len(c13IDs))]
	const B = 64
	nb := (len(c13Lattice) + B - 1) / B
	b := c.Pick("block", nb)
	fx := &commonxl.Formatter{}
	sh := &commonxl.Sheet{Formatter: fx}
	sh.Resize(1, 1)
	for i := b * B; i < len(c13Lattice) && i < (b+1)*B; i++ {
		c13Float(c, fx, sh, id, c13Lattice[i])
		c.State(id, math.Float64bits(c13Lattice[i]))
	}
}

// every multiple of 0.001 in a range
func c13Grid(c *engine.Ctx) {
	id := c13IDs[c.Pick("format", len(c13IDs))]
	n := 150
	if c.Thorough {
		n = 2100
	}
	b := c.Pick("block", n)
	fx := &commonxl.Formatter{}
	sh := &commonxl.Sheet{Formatter: fx}
	sh.Resize(1, 1)
	for i := 0; i < 1000; i++ {
		k := b*1000 + i
		v := float64(k) / 1000
		c13Float(c, fx, sh, id, v)
		c13Float(c, fx, sh, id, -v)
	}
	c.State(id, b)
}

// whole numbers, in every type a cell accepts
func c13Ints(c *engine.Ctx) {
	id := c13IDs[c.Pick("format", len(c13IDs))]
	vals := []int64{0, 1, -1, 7, -42, 99, 100, 127, -128, 999, 1000, -1000, 32767, -32768, 65535, 100000, 999999, 1000000, math.MaxInt32, math.MinInt32, 1 << 32, 123456789012, -12345678901, 1<<53 - 1, -(1<<53 - 1), 1<<53 + 1, 1<<62 + 1, math.MaxInt64, math.MinInt64, math.MinInt64 + 1}
	v := vals[c.Pick("value", len(vals))]
	f := c13Formats[id]
	if (v > 1<<53 || v < -(1<<53)) && (f.pct || f.dec > 0) {
		return // as a fraction it is stored in floating point
	}
	fx := &commonxl.Formatter{}
	kinds := []interface{}{v, int(v), int32(v), int16(v), int8(v), uint(v), uint64(v), uint32(v), uint16(v), uint8(v), float64(v), float32(v)}
	for i, x := range kinds {
		if fmt.Sprint(x) != fmt.Sprint(v) && i < 10 || i >= 10 && (v > 1<<24 || v < -1<<24) {
			continue
		}
		var s, s2, s3 string
		c.Guard(fmt.Sprintf("%T(%v) under format %d", x, x, id), func() {
			s, _ = fx.Apply(id, v)
			s3, _ = fx.Apply(id, x)
			sh := &commonxl.Sheet{Formatter: fx}
			sh.Resize(1, 1)
			sh.Put(0, 0, x, id)
			sh.Next()
			s2 = sh.Strings()[0]
		})
		if i == 10 && id == 0 || i == 11 && id == 0 {
			continue
		}
		if s != s2 {
			c.Failf("format %d shows %d as %q but %T(%v) in a cell as %q", id, v, s, x, x, s2)
		}
		if s != s3 {
			c.Failf("format %d shows %d as %q but %T(%v) as %q", id, v, s, x, x, s3)
		}
		if id == 0 {
			if s != strconv.FormatInt(v, 10) {
				c.Failf("%d is shown as %q", v, s)
			}
		} else if msg := c13Check(id, new(big.Rat).SetInt64(v), s); msg != "" {
			c.Failf("format %d shows %d as %q: %s", id, v, s, msg)
		}
		c.Steps(1)
	}
	c.State(id, v)
}

func init() {
	engine.Register(&engine.Property{
		ID: "C13", Level: "model_checking",
		Rule:        "lattice: every built-in numeric format x all boundary values (every power of ten, its multiples and neighbours, halves, roundings, integer limits, both signs); grid: every multiple of 0.001 below 150 (thorough 2100) in size; ints: whole numbers in every Go type. Oracle: exact rational arithmetic - the text must have the layout of the format and read back to the value correct to the last digit shown; a cell with the value shows the same",
		Assumptions: []string{"a tie may be rounded either way, and percentages may be off by the rounding of the product with 100", "under format 48 any mantissa and exponent which read back are accepted", "spaces which pad a format are not checked", "the result of a percentage is finite"},
		Harnesses: []engine.Harness{
			{Name: "lattice", Run: c13Run},
			{Name: "grid", Run: c13Grid},
			{Name: "ints", Run: c13Ints},
		},
	})
}

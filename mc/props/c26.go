package props

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"

	"github.com/pbnjay/grate/commonxl"

	"verif/mc/engine"
)

type c26Item struct {
	name string
	cell commonxl.Cell
	kind string     // number, text, boolean, date, blank
	num  *big.Float // numbers, and texts which denote one
	text string
	inf  int
	t    time.Time
	b    bool
}

func c26Num(v interface{}) (*big.Float, int) {
	switch x := v.(type) {
	case int64:
		return new(big.Float).SetPrec(200).SetInt64(x), 0
	case uint64:
		return new(big.Float).SetPrec(200).SetUint64(x), 0
	case float64:
		if math.IsInf(x, 1) {
			return nil, 1
		}
		if math.IsInf(x, -1) {
			return nil, -1
		}
		return new(big.Float).SetPrec(200).SetFloat64(x), 0
	}
	return nil, 0
}

// c26Items is the menu of cells.
func c26Items(wide bool) []c26Item {
	var r []c26Item
	num := func(v interface{}, n interface{}) {
		f, inf := c26Num(n)
		r = append(r, c26Item{name: fmt.Sprintf("%T(%v)", v, v), cell: commonxl.NewCell(v), kind: "number", num: f, inf: inf})
	}
	ints := []int64{0, 1, -1, 2, 10, 9, 100, 1 << 31, 1<<53 - 1, 1 << 53, 1<<53 + 1, -(1 << 53) - 1, -(1 << 53), math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1}
	floats := []float64{0, math.Copysign(0, -1), 1, -1, 0.5, -0.5, 1.5, 2, 9.99, 10, 1e-300, -1e-300, 1 << 53, 1<<53 + 2, -(1 << 53), 1 << 63, 1<<63 - 1024, -(1 << 63), -(1 << 63) - 2048, 1e300, -1e300, math.Inf(1), math.Inf(-1), 0.1, 0.30000000000000004, 0.3}
	if wide {
		for i := int64(3); i < 60; i += 7 {
			ints = append(ints, 1<<uint(i)-1, 1<<uint(i), -(1 << uint(i)))
			floats = append(floats, float64(int64(1)<<uint(i))+0.5, math.Ldexp(1, -int(i)), -math.Ldexp(3, int(i)))
		}
	}
	for _, i := range ints {
		num(i, i)
	}
	for _, f := range floats {
		num(f, f)
	}
	// the other types a number can come in
	num(int(7), int64(7))
	num(int8(-8), int64(-8))
	num(int16(-300), int64(-300))
	num(int32(1<<30), int64(1<<30))
	num(uint8(200), int64(200))
	num(uint16(60000), int64(60000))
	num(uint32(1<<32-1), int64(1<<32-1))
	num(uint(5), int64(5))
	num(uint(math.MaxInt64), int64(math.MaxInt64))
	num(uint(1<<63), uint64(1<<63))
	num(uint64(1<<63), uint64(1<<63))
	num(uint64(math.MaxInt64), int64(math.MaxInt64))
	num(float32(0.5), 0.5)
	texts := []string{"a", "A", "b", "aa", "ab", "0", "1", "01", "1.0", "-1", "10", "9", "0.5", "1e3", "12abc", "abc12", " 1", "true", "TRUE", "yes", "no", "9007199254740993", "9007199254740992", "9223372036854775807", "é", "z", "日本", "<nil>", "1 2", "0x10", "#N/A"}
	for _, s := range texts {
		it := c26Item{name: strconv.Quote(s), cell: commonxl.NewCell(s), kind: "text", text: s}
		if !strings.HasPrefix(s, "0x") {
			if f, _, err := big.ParseFloat(s, 10, 200, big.ToNearestEven); err == nil {
				it.num = f
			}
		}
		r = append(r, it)
	}
	link := commonxl.NewCell("link")
	link.SetURL("http://x/")
	r = append(r, c26Item{name: "hyperlink", cell: link, kind: "text", text: "link"})
	for _, b := range []bool{false, true} {
		r = append(r, c26Item{name: fmt.Sprint(b), cell: commonxl.NewCell(b), kind: "boolean", b: b})
	}
	for _, t := range []time.Time{time.Date(1900, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2020, 2, 29, 0, 0, 0, 0, time.UTC), time.Date(2020, 2, 29, 0, 0, 0, 1, time.UTC), time.Date(2020, 2, 29, 0, 0, 0, 999999999, time.UTC), time.Date(2020, 2, 29, 0, 0, 1, 0, time.UTC), time.Date(2020, 2, 29, 0, 0, 1, 500000000, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC), time.Date(2020, 2, 29, 1, 0, 0, 0, time.FixedZone("x", 3600))} {
		r = append(r, c26Item{name: t.String(), cell: commonxl.NewCell(t), kind: "date", t: t})
	}
	r = append(r, c26Item{name: "never written", cell: nil, kind: "blank"}, c26Item{name: "empty", cell: commonxl.Cell{}, kind: "blank"}, c26Item{name: "empty text", cell: commonxl.NewCell(""), kind: "blank"})
	// a number format does not matter
	f := commonxl.NewCell(int64(10))
	f.SetFormatNumber(9)
	n, _ := c26Num(int64(10))
	r = append(r, c26Item{name: "formatted", cell: f, kind: "number", num: n})
	return r
}

// order of two cells of the same kind: -1, 0, 1
func c26Cmp(a, b c26Item) int {
	switch a.kind {
	case "number":
		if a.inf != b.inf || a.inf != 0 {
			return sign(a.inf - b.inf)
		}
		return a.num.Cmp(b.num)
	case "text":
		return strings.Compare(a.text, b.text)
	case "date":
		if a.t.Before(b.t) {
			return -1
		}
		if b.t.Before(a.t) {
			return 1
		}
		return 0
	case "boolean":
		x, y := 0, 0
		if a.b {
			x = 1
		}
		if b.b {
			y = 1
		}
		return x - y
	}
	return 0
}

func sign(n int) int {
	if n < 0 {
		return -1
	}
	if n > 0 {
		return 1
	}
	return 0
}

func c26Pairs(c *engine.Ctx) {
	items := c26Items(true)
	a := items[c.Pick("a", len(items))]
	for _, b := range items {
		what := a.name + " and " + b.name
		var lt, gt, eq, qe bool
		c.Guard(what, func() {
			lt, gt, eq, qe = a.cell.Less(b.cell), b.cell.Less(a.cell), a.cell.Equal(b.cell), b.cell.Equal(a.cell)
		})
		c.Steps(1)
		if eq != qe {
			c.Failf("%s: equality is not symmetric", what)
		}
		if lt && gt && a.kind == b.kind {
			c.Failf("%s: each is less than the other", what)
		}
		if a.kind == b.kind {
			w := c26Cmp(a, b)
			if lt != (w < 0) || gt != (w > 0) || eq != (w == 0) {
				c.Failf("%s: less %v, greater %v, equal %v; want the order %d", what, lt, gt, eq, w)
			}
			c.Outcome("same kind " + a.kind)
			continue
		}
		if a.kind == "number" && b.kind == "text" && eq {
			// the text must denote the number, as far as a double can tell
			if b.num == nil || a.num == nil {
				c.Failf("%s are equal", what)
			}
			x, _ := a.num.Float64()
			y, _ := b.num.Float64()
			if a.num.Cmp(b.num) != 0 && (x != y || a.num.IsInt() && b.num.IsInt()) {
				c.Failf("%s are equal", what)
			}
		}
		if a.kind == "number" && b.kind == "text" && !eq && b.num != nil && a.num != nil && a.num.Cmp(b.num) == 0 && !strings.HasPrefix(b.text, " ") {
			c.Failf("%s are not equal", what)
		}
	}
	c.Guard(a.name, func() {
		if !a.cell.Equal(a.cell) || a.cell.Less(a.cell) || !a.cell.Clone().Equal(a.cell) {
			c.Failf("%s: equality is not reflexive", a.name)
		}
	})
}

// the laws of a strict weak order on every triple of a kind
func c26Triples(c *engine.Ctx) {
	items := c26Items(c.Thorough)
	a := items[c.Pick("a", len(items))]
	b := items[c.Pick("b", len(items))]
	if a.kind != b.kind {
		return
	}
	ab, ba, eab := a.cell.Less(b.cell), b.cell.Less(a.cell), a.cell.Equal(b.cell)
	for _, x := range items {
		if x.kind != a.kind {
			continue
		}
		c.Steps(1)
		bx, xb, ax, xa := b.cell.Less(x.cell), x.cell.Less(b.cell), a.cell.Less(x.cell), x.cell.Less(a.cell)
		if ab && bx && !ax {
			c.Failf("%s < %s < %s, but the first is not less than the last", a.name, b.name, x.name)
		}
		if !ab && !ba && !bx && !xb && (ax || xa) {
			c.Failf("%s, %s and %s: not ordered to each other, but the first and last are", a.name, b.name, x.name)
		}
		if eab && b.cell.Equal(x.cell) && !a.cell.Equal(x.cell) {
			c.Failf("%s = %s = %s, but the first does not equal the last", a.name, b.name, x.name)
		}
	}
}

func init() {
	engine.Register(&engine.Property{
		ID: "C26", Level: "model_checking",
		Rule: "pairs: every ordered pair of a menu of 170 cells of every kind (integers and floats around 2^53 and 2^63, every Go number type, numeric and other text, booleans, dates, blanks, links); triples: the order laws on every triple of cells of one kind. Oracle: exact (200 bit) arithmetic, string, time and boolean order",
		Assumptions: []string{
			"NaN is not a cell value",
			"the order between cells of different kinds is not specified beyond symmetric equality",
		},
		Harnesses: []engine.Harness{
			{Name: "pairs", Run: c26Pairs},
			{Name: "triples", Run: c26Triples},
		},
	})
}

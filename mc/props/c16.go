package props

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"

	"github.com/pbnjay/grate/commonxl"

	"verif/mc/engine"
)

// bestConvergent is the smallest error of the continued-fraction convergents
// of v >= 0 with at most the given digits.
func bestConvergent(v *big.Rat, nn, nd int) *big.Rat {
	maxn, maxd := pow10(nn).Num(), pow10(nd).Num()
	h0, k0 := big.NewInt(1), big.NewInt(0)
	a := new(big.Int).Quo(v.Num(), v.Denom())
	h1, k1 := new(big.Int).Set(a), big.NewInt(1)
	x := new(big.Rat).Sub(v, new(big.Rat).SetInt(a))
	best := new(big.Rat).Abs(new(big.Rat).Sub(v, new(big.Rat).SetInt(a)))
	for x.Sign() != 0 {
		x.Inv(x)
		a = new(big.Int).Quo(x.Num(), x.Denom())
		x.Sub(x, new(big.Rat).SetInt(a))
		h2 := new(big.Int).Add(new(big.Int).Mul(a, h1), h0)
		k2 := new(big.Int).Add(new(big.Int).Mul(a, k1), k0)
		h0, k0, h1, k1 = h1, k1, h2, k2
		if h1.Cmp(maxn) >= 0 || k1.Cmp(maxd) >= 0 {
			break
		}
		e := new(big.Rat).Sub(v, new(big.Rat).SetFrac(h1, k1))
		best = e.Abs(e)
	}
	return best
}

var c16Slack = big.NewRat(10001, 100000000000000) // 1.0001e-10

// c16Check decides whether sign*(num/den) is an acceptable approximation of v.
func c16Check(v float64, num, den int64, nn, nd int) string {
	if den <= 0 {
		return "the denominator is not positive"
	}
	abs := num
	if abs < 0 {
		abs = -abs
	}
	if float64(abs) >= math.Pow10(nn) || float64(den) >= math.Pow10(nd) {
		return "too many digits"
	}
	if num != 0 && (num < 0) != (v < 0) {
		return "the sign is wrong"
	}
	x := new(big.Rat).SetFloat64(math.Abs(v))
	e := new(big.Rat).Sub(x, big.NewRat(abs, den))
	e.Abs(e)
	// the expansion of a floating-point number which stands for a fraction is
	// that of one of its neighbours
	best := bestConvergent(x, nn, nd)
	for _, d := range []int64{-4, 4} {
		y := new(big.Rat).Mul(x, new(big.Rat).Add(big.NewRat(1, 1), big.NewRat(d, 1<<53)))
		if b := bestConvergent(y, nn, nd); b.Cmp(best) > 0 {
			best = b
		}
	}
	if e.Cmp(new(big.Rat).Add(best, c16Slack)) > 0 {
		f, _ := e.Float64()
		return fmt.Sprintf("the error of %g is larger than that of the best convergent", f)
	}
	return ""
}

var c16Digits = [][2]int{{1, 1}, {2, 2}, {3, 3}, {4, 4}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 4}, {0, 0}, {5, 5}, {6, 6}}

func c16Frac(c *engine.Ctx, v float64, nd [2]int) {
	a, b := nd[0], nd[1]
	if a == 0 {
		a, b = 2, 2 // the default
	}
	if math.Floor(math.Abs(v)) >= math.Pow10(a) {
		return
	}
	var n, d int
	c.Guard(fmt.Sprintf("DecimalToFraction(%v, %v)", v, nd), func() { n, d = commonxl.DecimalToFraction(v, nd[0], nd[1]) })
	if msg := c16Check(v, int64(n), int64(d), a, b); msg != "" {
		c.Failf("DecimalToFraction(%v, %d, %d) = %d/%d: %s", v, nd[0], nd[1], n, d, msg)
	}
	c.Steps(1)
}

func c16Whole(c *engine.Ctx, v float64, nd [2]int) {
	a, b := nd[0], nd[1]
	if a == 0 {
		a, b = 2, 2
	}
	if math.Abs(v) >= 1<<62 {
		return
	}
	var w, n, d int
	c.Guard(fmt.Sprintf("DecimalToWholeFraction(%v, %v)", v, nd), func() { w, n, d = commonxl.DecimalToWholeFraction(v, nd[0], nd[1]) })
	i, f := math.Modf(math.Abs(v))
	if math.Abs(float64(w)) == i+1 && n == 0 && f > 0.4 {
		// a fraction which is approximated by one
		n, d = 1, 1
	} else if math.Abs(float64(w)) != i {
		c.Failf("DecimalToWholeFraction(%v, %d, %d) = %d %d/%d", v, nd[0], nd[1], w, n, d)
	}
	if w != 0 && (w < 0) != (v < 0) {
		c.Failf("DecimalToWholeFraction(%v, %d, %d) = %d %d/%d: the sign is wrong", v, nd[0], nd[1], w, n, d)
	}
	if msg := c16Check(f, int64(n), int64(d), a, b); msg != "" {
		c.Failf("DecimalToWholeFraction(%v, %d, %d) = %d %d/%d: %s", v, nd[0], nd[1], w, n, d, msg)
	}
	c.Steps(1)
}

var c16Re = regexp.MustCompile(`^(-?)(?:(\d+)|(?:(\d+) )?(\d+)/(\d+))$`)

func c16Show(c *engine.Ctx, fx *commonxl.Formatter, sh *commonxl.Sheet, id uint16, v float64) {
	digits := 1
	if id == 13 || id == 70 {
		digits = 2
	}
	var s, s2 string
	var ok bool
	c.Guard(fmt.Sprintf("Apply(%d, %v)", id, v), func() {
		s, ok = fx.Apply(id, v)
		sh.Put(0, 0, v, id)
		sh.CurRow = 1
		s2 = sh.Strings()[0]
	})
	if !ok || s != s2 {
		c.Failf("Apply(%d, %v) = %q, %v; a cell shows %q", id, v, s, ok, s2)
	}
	m := c16Re.FindStringSubmatch(s)
	if m == nil {
		c.Failf("Apply(%d, %v) = %q is not a fraction", id, v, s)
	}
	i, f := math.Modf(math.Abs(v))
	w, _ := new(big.Rat).SetString("0" + m[2] + m[3])
	num, _ := strconv.ParseInt("0"+m[4], 10, 64)
	den := int64(1)
	if m[5] != "" {
		den, _ = strconv.ParseInt(m[5], 10, 64)
	}
	if m[5] != "" && num >= den {
		c.Failf("Apply(%d, %v) = %q: the fraction is not proper", id, v, s)
	}
	wi := new(big.Rat).SetFloat64(i)
	if f > 0.4 && num == 0 && w.Cmp(new(big.Rat).Add(wi, big.NewRat(1, 1))) == 0 {
		num = 1
	} else if w.Cmp(wi) != 0 {
		c.Failf("Apply(%d, %v) = %q: the whole part is wrong", id, v, s)
	}
	zero := w.Sign() == 0 && num == 0
	if !zero && (m[1] == "-") != (v < 0) {
		c.Failf("Apply(%d, %v) = %q: the sign is wrong", id, v, s)
	}
	if msg := c16Check(f, num, den, digits, digits); msg != "" {
		c.Failf("Apply(%d, %v) = %q: %s", id, v, s, msg)
	}
	c.Steps(1)
}

var c16Wholes = []float64{0, 1, 2, 9, 10, 99, 1000, 123456}

// every fraction
func c16Exact(c *engine.Ctx) {
	maxd := 99
	if c.Thorough {
		maxd = 999
	}
	d := 1 + c.Pick("den", maxd)
	w := c16Wholes[c.Pick("whole", len(c16Wholes))]
	sign := 1 - 2*c.Pick("neg", 2)
	fx := &commonxl.Formatter{}
	sh := &commonxl.Sheet{Formatter: fx}
	sh.Resize(1, 1)
	for n := 0; n <= d; n++ {
		f := float64(n) / float64(d)
		v := (w + f) * float64(sign)
		for _, nd := range c16Digits {
			if w == 0 {
				c16Frac(c, v, nd)
			}
			if w < 10 || n%5 == 0 {
				c16Whole(c, v, nd)
				if w > 0 && nd[0] > 0 {
					c16Frac(c, v, nd)
				}
			}
			// exactly representable
			if nd[0] == 0 || nd[1] > 4 || nd[0] > 4 || n == 0 || w > 10 {
				continue
			}
			g := int(new(big.Int).GCD(nil, nil, big.NewInt(int64(n)), big.NewInt(int64(d))).Int64())
			rn, rd := n/g, d/g
			if float64(rn) < math.Pow10(nd[0]) && float64(rd) < math.Pow10(nd[1]) && w == 0 {
				if a, b := commonxl.DecimalToFraction(v, nd[0], nd[1]); a != sign*rn || b != rd {
					c.Failf("DecimalToFraction(%v, %d, %d) = %d/%d, want %d/%d", v, nd[0], nd[1], a, b, sign*rn, rd)
				}
			}
		}
		for _, id := range []uint16{12, 13, 69, 70} {
			c16Show(c, fx, sh, id, v)
		}
	}
	c.State(d, w, sign)
}

// every multiple of 1/4096 and values around the limits
func c16Grid(c *engine.Ctx) {
	fx := &commonxl.Formatter{}
	sh := &commonxl.Sheet{Formatter: fx}
	sh.Resize(1, 1)
	nd := c16Digits[c.Pick("digits", len(c16Digits))]
	w := c16Wholes[c.Pick("whole", len(c16Wholes))]
	sign := 1 - 2*float64(c.Pick("neg", 2))
	var l []float64
	const q = 4096
	switch k := c.Pick("part", 5); k {
	case 4:
		for e := -320; e <= 18; e++ {
			p, _ := strconv.ParseFloat(fmt.Sprintf("1e%d", e), 64)
			l = append(l, p, 3*p, 7.77*p, 1-p, 0.5+p, 0.5-p, 1.0/3+p, 0.1+p)
		}
	default:
		step := 1
		if !c.Thorough && w > 1 {
			step = 5
		}
		for i := k * q / 4; i < (k+1)*q/4; i += step {
			l = append(l, float64(i)/q)
		}
	}
	for _, f := range l {
		v := sign * (w + f)
		c16Frac(c, v, nd)
		c16Whole(c, v, nd)
		if nd[0] == nd[1] && nd[0] >= 1 && nd[0] <= 4 {
			c16Show(c, fx, sh, []uint16{12, 13, 69, 70}[nd[0]-1], v)
		}
	}
	c.State(nd, w, sign)
}

func init() {
	engine.Register(&engine.Property{
		ID: "C16", Level: "model_checking",
		Rule:        "exact: every fraction n/d with d up to 99 (thorough 999) x whole parts x sign x digit limits x fraction format; grid: every multiple of 1/4096 and every power of ten around 0, 1/3, 1/2 and 1. Oracle: exact continued fractions",
		Assumptions: []string{"errors below 1e-10 are not told apart (the documented precision of the conversion)", "the whole part of the number has at most the numerator's digits when it is converted to a fraction alone", "a fraction approximated by one may be shown as 1/1 or carried into the whole part"},
		Harnesses: []engine.Harness{
			{Name: "exact", Run: c16Exact},
			{Name: "grid", Run: c16Grid},
		},
	})
}

package props

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/pbnjay/grate"

	"verif/mc/engine"
)

// want is the reference for one cell.
type want struct {
	typ    string      // expected type, "" if not checked
	val    interface{} // bool, int64, float64, string, time.Time, or nil for blank: what Scan must deliver
	str    string      // expected text; numbers may instead be checked by reading the text back
	num    bool        // the text must read back to the number in val (or rd)
	rd     interface{}
	fmts   string // expected format code, "" if not checked
	noText bool   // the text is not checked
	any    bool   // anything goes
}

// blank cell
var wBlank = want{typ: "blank", str: ""}

// checkGeneral: a number shown without a format is exact when it fits eleven
// characters and otherwise right to at least six significant digits.
func checkGeneral(v float64, s string) error {
	x, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return fmt.Errorf("%q is not a number", s)
	}
	if x == v {
		return nil
	}
	if len(strconv.FormatFloat(v, 'f', -1, 64)) <= 11 {
		return fmt.Errorf("%q shown for %v", s, v)
	}
	if math.Abs(x-v) > math.Abs(v)*0.500001e-5 {
		return fmt.Errorf("%q shown for %v", s, v)
	}
	return nil
}

// checkCell compares one observed cell.
func checkCell(w want, s, t, f string) string {
	if w.any {
		return ""
	}
	if w.typ != "" && t != w.typ {
		return fmt.Sprintf("type %q, want %q", t, w.typ)
	}
	if w.fmts != "" && f != w.fmts {
		return fmt.Sprintf("format %q, want %q", f, w.fmts)
	}
	if w.noText {
		return ""
	}
	if w.num {
		var v float64
		rd := w.rd
		if rd == nil {
			rd = w.val
		}
		switch x := rd.(type) {
		case int64:
			if s != strconv.FormatInt(x, 10) {
				return fmt.Sprintf("text %q, want %d", s, x)
			}
			return ""
		case float64:
			v = x
		}
		if err := checkGeneral(v, s); err != nil {
			return err.Error()
		}
		return ""
	}
	if s != w.str {
		return fmt.Sprintf("text %q, want %q", s, w.str)
	}
	return ""
}

// checkScan scans a row with the types its columns report and compares the values.
func checkScan(col grate.Collection, ws []want) string {
	dst := make([]interface{}, len(ws))
	for i, w := range ws {
		switch w.val.(type) {
		case bool:
			dst[i] = new(bool)
		case int64:
			dst[i] = new(int64)
		case float64:
			dst[i] = new(float64)
		case time.Time:
			dst[i] = new(time.Time)
		case string:
			dst[i] = new(string)
		default:
			return "" // a blank has no value to scan
		}
	}
	if err := col.Scan(dst...); err != nil {
		return "Scan: " + err.Error()
	}
	for i, w := range ws {
		var got interface{}
		switch p := dst[i].(type) {
		case *bool:
			got = *p
		case *int64:
			got = *p
		case *float64:
			got = *p
		case *string:
			got = *p
		case *time.Time:
			if !p.Equal(w.val.(time.Time)) {
				return fmt.Sprintf("column %d scans as %v, want %v", i, *p, w.val)
			}
			continue
		}
		if got != w.val {
			return fmt.Sprintf("column %d scans as %v, want %v", i, got, w.val)
		}
	}
	return ""
}

// scanPrefix scans the leading columns which have values.
func scanPrefix(col grate.Collection, ws []want) string {
	n := 0
	for n < len(ws) && ws[n].val != nil && !ws[n].any {
		n++
	}
	if n == 0 {
		return ""
	}
	return checkScan(col, ws[:n])
}

// checkGrid drains a collection and compares it with the reference grid, its shape included.
func checkGrid(c *engine.Ctx, col grate.Collection, g [][]want) {
	for r := range g {
		var ok bool
		c.Guard("Next", func() { ok = col.Next() })
		if !ok {
			c.Failf("the sheet ends after %d rows, want %d", r, len(g))
		}
		var S, T, F []string
		c.Guard(fmt.Sprintf("row %d", r), func() { S, T, F = col.Strings(), col.Types(), col.Formats() })
		if len(S) != len(g[r]) || len(T) != len(g[r]) || len(F) != len(g[r]) {
			c.Failf("row %d has %d/%d/%d columns, want %d: %q", r, len(S), len(T), len(F), len(g[r]), S)
		}
		for k, w := range g[r] {
			if msg := checkCell(w, S[k], T[k], F[k]); msg != "" {
				c.Failf("cell row %d col %d: %s\nrow: %q %v %q", r, k, msg, S, T, F)
			}
		}
		var msg string
		c.Guard("Scan", func() { msg = scanPrefix(col, g[r]) })
		if msg != "" {
			c.Failf("row %d: %s", r, msg)
		}
		c.Steps(1)
	}
	var ok bool
	c.Guard("Next", func() { ok = col.Next() })
	if ok {
		var S []string
		c.Guard("Strings", func() { S = col.Strings() })
		c.Failf("there is a row after the last one (%d rows expected): %q", len(g), S)
	}
	if col.Err() != nil {
		c.Failf("Err: %v", col.Err())
	}
}

func blankGrid(rows, cols int) [][]want {
	g := make([][]want, rows)
	for r := range g {
		g[r] = make([]want, cols)
		for k := range g[r] {
			g[r][k] = wBlank
		}
	}
	return g
}

// serialDate is the calendar meaning of a serial number, to the nearest millisecond.
func serialDate(v float64, mode1904 bool) time.Time {
	days := math.Floor(v)
	ms := math.Round((v - days) * 86400000)
	base := time.Date(1899, 12, 30, 0, 0, 0, 0, time.UTC)
	if mode1904 {
		base = time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC)
	}
	return base.AddDate(0, 0, int(days)).Add(time.Duration(ms) * time.Millisecond)
}

func join(s []string) string { return strings.Join(s, "|") }

package props

import (
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/simple"

	"verif/mc/engine"
	"verif/mc/gen"
)

// The opener table only grows, so the openers of every registration history are
// registered once, in a band of their own: all orders of up to four priorities.
// A history selects a band; the openers of all others decline.

type c01Answer struct {
	src grate.Source
	err error
}

type c01Op struct {
	band, pri int
}

type c01Source struct{ id int }

func (s *c01Source) List() ([]string, error)                   { return []string{fmt.Sprint(s.id)}, nil }
func (s *c01Source) Get(name string) (grate.Collection, error) { return nil, errors.New("x") }
func (s *c01Source) Close() error                              { return nil }

var (
	c01Once   sync.Once
	c01Bands  [][]int // the priorities, in the order of registration
	c01Active = -1
	c01Reply  [4]c01Answer // by registration
	c01Calls  []int
	c01File   string
	errC01    = errors.New("some failure")
	errC01b   = errors.New("another failure")
)

func c01Setup() {
	var perms func(n int) [][]int
	perms = func(n int) [][]int {
		if n == 0 {
			return [][]int{nil}
		}
		var r [][]int
		for _, p := range perms(n - 1) {
			for i := 0; i <= len(p); i++ {
				q := append(append(append([]int{}, p[:i]...), n), p[i:]...)
				r = append(r, q)
			}
		}
		return r
	}
	for n := 1; n <= 4; n++ {
		c01Bands = append(c01Bands, perms(n)...)
	}
	// equal priorities
	c01Bands = append(c01Bands, []int{1, 1}, []int{2, 1, 1}, []int{1, 2, 1}, []int{1, 1, 2}, []int{1, 2, 2}, []int{2, 2, 1}, []int{2, 1, 2})
	for band, p := range c01Bands {
		// before all the openers of the library, and every second one around them
		base := -10000 + 10*band
		for i, pri := range p {
			band, i := band, i
			op := func(fn string) (grate.Source, error) {
				if c01Active != band {
					return nil, grate.ErrNotInFormat
				}
				c01Calls = append(c01Calls, i)
				c01File = fn
				return c01Reply[i].src, c01Reply[i].err
			}
			if err := grate.Register(fmt.Sprintf("band%d/%d", band, i), base+pri, op); err != nil {
				panic(err)
			}
			// files may be opened between registrations
			grate.Open("/nonexistent/file")
		}
	}
	// openers between and after those of the library, registered in no order
	for i, pri := range []int{12, 2, 1000, -5, 7} {
		i := i
		grate.Register(fmt.Sprint("between", pri), pri, func(fn string) (grate.Source, error) {
			if c01Active != -2 {
				return nil, grate.ErrNotInFormat
			}
			c01Calls = append(c01Calls, i)
			return nil, grate.ErrNotInFormat
		})
	}
}

const c01Answers = 15

// the answers of an opener: the not-in-format error, wrapped at any place, and all else
func c01Ans(k, id int) (a c01Answer, declines bool, is error) {
	src := &c01Source{id}
	nif := grate.ErrNotInFormat
	switch k {
	case 0:
		return c01Answer{src, nil}, false, nil
	case 1:
		return c01Answer{nil, nif}, true, nil
	case 2:
		return c01Answer{nil, grate.WrapErr(errC01, nif)}, true, nil
	case 3:
		return c01Answer{nil, grate.WrapErr(nif, errC01)}, true, nil
	case 4:
		return c01Answer{nil, grate.WrapErr(errC01, errC01b, nif)}, true, nil
	case 5:
		return c01Answer{nil, grate.WrapErr(errC01, grate.WrapErr(errC01b, nif))}, true, nil
	case 6:
		return c01Answer{nil, grate.WrapErr(errC01, grate.WrapErr(nif, errC01b), errC01b)}, true, nil
	case 7:
		return c01Answer{nil, fmt.Errorf("no: %w", nif)}, true, nil
	case 8:
		return c01Answer{src, nif}, true, nil // as the delimited readers do
	case 9:
		return c01Answer{nil, errC01}, false, errC01
	case 10:
		return c01Answer{nil, grate.WrapErr(errC01, errC01b)}, false, errC01b
	case 11:
		return c01Answer{src, errC01b}, false, errC01b
	case 12:
		return c01Answer{nil, grate.ErrUnknownFormat}, false, grate.ErrUnknownFormat
	case 13:
		return c01Answer{nil, errors.New(nif.Error())}, false, nil // the same words, not the error
	}
	return c01Answer{nil, grate.WrapErr(nif)}, true, nil
}

func c01History(c *engine.Ctx) {
	c01Once.Do(c01Setup)
	band := c.Pick("band", len(c01Bands))
	pri := c01Bands[band]
	n := len(pri)
	var dec [4]bool
	var is [4]error
	for i := range pri {
		k := 0
		if n <= 3 || c.Thorough {
			k = c.Pick("answer", c01Answers)
		} else {
			k = []int{0, 1, 3, 4, 9}[c.Pick("answer", 5)]
		}
		c01Reply[i], dec[i], is[i] = c01Ans(k, i)
	}
	// the library's openers follow; they are given a file that no one accepts or that the last one does
	file := c.File("x.dat", []byte("a\tb\n"))
	grate.Debug = c.Pick("debug", 2) == 1
	log.SetOutput(io.Discard)
	defer func() { grate.Debug = false }()
	c01Active, c01Calls, c01File = band, nil, ""
	defer func() { c01Active = -1 }()
	var src grate.Source
	var err error
	c.Guard("Open", func() { src, err = grate.Open(file) })
	c.Steps(len(c01Calls))
	// which openers were tried, in which order
	for i := 1; i < len(c01Calls); i++ {
		if pri[c01Calls[i-1]] > pri[c01Calls[i]] {
			c.Failf("openers with priorities %v (by registration) are tried in the order %v", pri, c01Calls)
		}
	}
	tried := map[int]bool{}
	for i, k := range c01Calls {
		if tried[k] {
			c.Failf("opener %d is tried twice: %v", k, c01Calls)
		}
		tried[k] = true
		if i < len(c01Calls)-1 && !dec[k] {
			c.Failf("the openers after %d, which did not decline, are tried: %v", k, c01Calls)
		}
	}
	if c01File != file {
		c.Failf("the opener is asked for %q", c01File)
	}
	if len(c01Calls) == 0 {
		c.Failf("none of the openers with priorities %v is tried: %v, %v", pri, src, err)
	}
	last := c01Calls[len(c01Calls)-1]
	if dec[last] {
		// all declined: the library's own openers decide
		if len(c01Calls) != n {
			c.Failf("only the openers %v of %d are tried", c01Calls, n)
		}
		if err != nil {
			c.Failf("all declined: %v, %v", src, err)
		}
		l, _ := src.List()
		if join(l) != "x.dat" {
			c.Failf("all declined: %v", l)
		}
		c.Outcome("declined")
		return
	}
	// no opener of lower priority was left out
	for i := range pri {
		if !tried[i] && pri[i] < pri[last] {
			c.Failf("opener %d of priorities %v was not tried: %v", i, pri, c01Calls)
		}
	}
	a := c01Reply[last]
	if a.err == nil {
		if err != nil || src != a.src {
			c.Failf("opener %d succeeds, but the result is %v, %v", last, src, err)
		}
		c.Outcome("opened")
		return
	}
	if err == nil || src != nil {
		c.Failf("opener %d fails with %v, but the result is %v, %v", last, a.err, src, err)
	}
	if is[last] != nil && !errors.Is(err, is[last]) {
		c.Failf("opener %d fails with %v, but the error is %v", last, a.err, err)
	}
	if is[last] != grate.ErrUnknownFormat && errors.Is(err, grate.ErrUnknownFormat) {
		c.Failf("opener %d fails with %v, but the error is %v", last, a.err, err)
	}
	c.Outcome("failed")
}

var c01Names = []string{"plain", "f.xls", "f.xlsx", "f.tsv", "f.csv", "f.txt", "f.doc", "F.XLS", "a b%20c.xlsx", "日本.xls", ".hidden", "x.tsv.xls", "x.xls.tsv", "[1].tsv"}

// every format under every name
func c01Formats(c *engine.Ctx) {
	c01Once.Do(c01Setup)
	c01Active = -1
	kind := c.Pick("format", 9)
	name := c01Names[c.Pick("name", len(c01Names))]
	grate.Debug = c.Pick("debug", 2) == 1
	log.SetOutput(io.Discard)
	defer func() { grate.Debug = false }()
	var data []byte
	var sheets []string
	var g [][]want
	txt := func(s string) want { return want{typ: "string", val: s, str: s} }
	switch kind {
	case 0, 1, 2: // xls, small enough for the mini stream, or not, and protected
		x := &gen.XLS{Pre: xlsPre(), Sheets: []gen.Sheet{{Name: "Sheet1", Recs: []gen.Rec{gen.Dimensions(0, 1, 0, 2), gen.LabelSst(0, 0, 0, 0), gen.RK(0, 1, 0, rkInt(5, false))}}}, Post: gen.SST([]string{"xls"})}
		if kind == 1 {
			for i := 0; i < 2000; i++ {
				x.Sheets[0].Recs = append(x.Sheets[0].Recs, gen.Row(0, 0, 2))
			}
		}
		data = x.File()
		if kind == 2 {
			data = gen.XLSFile(x.EncryptedStream(c09Key(0)))
		}
		sheets, g = []string{"Sheet1"}, [][]want{{txt("xls"), {typ: "integer", val: int64(5), str: "5"}}}
	case 3, 4:
		x := &gen.XLSX{XFs: xlsxXFs(), NumFmts: xlsxNumFmts, Deflate: kind == 4, Sheets: []gen.XSheet{{Name: "Sheet1", Rows: gen.RowX(0, gen.C(0, 0, "inlineStr", 0, "<is>"+gen.T("xlsx")+"</is>"), gen.C(0, 1, "b", 0, gen.V("1")))}}}
		data = x.File()
		sheets, g = []string{"Sheet1"}, [][]want{{txt("xlsx"), {typ: "boolean", val: true, str: "TRUE"}}}
	case 5: // tab separated, a few lines
		data = []byte("name\tvalue\nx\t1\n")
		sheets, g = []string{name}, [][]want{{txt("name"), txt("value")}, {txt("x"), txt("1")}}
	case 6: // many lines
		sheets = []string{name}
		for i := 0; i < 60; i++ {
			data = append(data, fmt.Sprintf("k%d\tv%d\n", i, i)...)
			g = append(g, []want{txt(fmt.Sprintf("k%d", i)), txt(fmt.Sprintf("v%d", i))})
		}
	case 7: // text which starts like an archive or a compound file
		data = []byte("PK\x03\x04\tnot an archive\n\xd0\xcf\x11\xe0\tnot a compound file\n")
		sheets, g = []string{name}, [][]want{{txt("PK\x03\x04"), txt("not an archive")}, {txt("\xd0\xcf\x11\xe0"), txt("not a compound file")}}
	case 8: // irregular: no opener takes it for a table (it is not valid CSV either)
		for i := 0; i < 60; i++ {
			data = append(data, "a\tb\t\"c\n"...)
			if i%2 == 0 {
				data = append(data, "a\tb\tc\td\"e\"\n"...)
			} else {
				data = append(data, "\"\tx\n"...)
			}
		}
	}
	p := c.File(name, data)
	var src grate.Source
	var err error
	c.Guard("Open", func() { src, err = grate.Open(p) })
	if kind == 8 {
		if src != nil || !errors.Is(err, grate.ErrUnknownFormat) {
			c.Failf("a file no opener accepts gives %v, %v", src, err)
		}
		if _, e := simple.OpenTSV(p); !errors.Is(e, grate.ErrNotInFormat) {
			c.Failf("the tab-separated opener says %v", e)
		}
		return
	}
	if err != nil {
		c.Failf("format %d as %q: %v", kind, name, err)
	}
	defer src.Close()
	l, err := src.List()
	if err != nil || join(l) != join(sheets) {
		c.Failf("format %d as %q lists %q, %v", kind, name, l, err)
	}
	col, err := src.Get(l[0])
	if err != nil {
		c.Failf("Get: %v", err)
	}
	checkGrid(c, col, g)
}

// what cannot be opened at all
func c01Missing(c *engine.Ctx) {
	c01Once.Do(c01Setup)
	c01Active = -1
	name := c01Names[c.Pick("name", len(c01Names))]
	p := filepath.Join(c.Scratch(), "missing-"+name)
	kind := c.Pick("kind", 3)
	switch kind {
	case 1:
		os.Mkdir(p, 0755)
		defer os.Remove(p)
	case 2:
		p = filepath.Join(p, "below")
	}
	var src grate.Source
	var err error
	c.Guard("Open", func() { src, err = grate.Open(p) })
	if err == nil || src != nil {
		c.Failf("Open of %s gives %v, %v", p, src, err)
	}
	if kind != 1 && !errors.Is(err, os.ErrNotExist) {
		c.Failf("Open of a missing file gives %v", err)
	}
}

// c01Wrap: errors wrapped in any way are found again
func c01Wrap(c *engine.Ctx) {
	path := &os.PathError{Op: "read", Path: "p", Err: os.ErrPermission}
	leaves := []error{errC01, errC01b, grate.ErrNotInFormat, path, fmt.Errorf("more: %w", grate.ErrNotInFormat)}
	has := map[error]bool{}
	hasPath := false
	var first error
	leaf := func() error {
		e := leaves[c.Pick("error", len(leaves))]
		if first == nil {
			first = e
		}
		has[e] = true
		if e == path {
			hasPath, has[os.ErrPermission] = true, true
		}
		if u := errors.Unwrap(e); u != nil {
			has[u] = true
		}
		return e
	}
	var tree func(depth int) error
	tree = func(depth int) error {
		if depth == 0 {
			return leaf()
		}
		n := c.Pick("wrapped", 4)
		if n == 0 {
			return leaf()
		}
		var l []error
		for i := 0; i < n; i++ {
			if n == 3 {
				l = append(l, leaf()) // wide or deep
			} else {
				l = append(l, tree(depth-1))
			}
		}
		return grate.WrapErr(l...)
	}
	err := tree(2)
	for _, target := range []error{errC01, errC01b, grate.ErrNotInFormat, os.ErrPermission, os.ErrNotExist, grate.ErrUnknownFormat} {
		if got := errors.Is(err, target); got != has[target] {
			c.Failf("errors.Is(%#v, %v) = %v", err, target, got)
		}
		c.Steps(1)
	}
	var p *os.PathError
	if got := errors.As(err, &p); got != hasPath || got && p != path {
		c.Failf("errors.As(%#v, *os.PathError) = %v", err, got)
	}
	if !strings.Contains(err.Error(), first.Error()) {
		c.Failf("%#v says %q, not %q", err, err, first)
	}
}

func init() {
	engine.Register(&engine.Property{
		ID: "C01", Level: "model_checking",
		Rule: "history: every order of registering up to 4 openers with different priorities (and 7 with equal ones) x every assignment of 15 answers to them (4 openers in quick: 5 answers) x debug logging; formats: 9 kinds of content under 14 names; missing: missing files and directories; wrap: trees of wrapped errors up to depth 2 and width 3 over 5 errors (errors.Is, errors.As). Oracle: the priority order and the first answer which is not the not-in-format error",
		Assumptions: []string{
			"openers of equal priority are tried in any order",
			"registration and opening do not happen at the same time",
		},
		Harnesses: []engine.Harness{
			{Name: "history", Run: c01History},
			{Name: "formats", Run: c01Formats},
			{Name: "missing", Run: c01Missing},
			{Name: "wrap", Run: c01Wrap},
		},
	})
}

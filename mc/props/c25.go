package props

import (
	"crypto/md5"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"verif/mc/engine"
	"verif/mc/gen"
)

var (
	c25Once  sync.Once
	c25Files []hFile
	c25Small int // the number of those which are not large
)

// more files: contents to be cleaned, blank rows, empty sheets
func c25Setup() {
	hOnce.Do(hSetup)
	c25Files = append(c25Files, hFiles...)
	cell := func(r, c int, s string) string {
		return gen.C(r, c, "inlineStr", -1, "<is>"+gen.T(s)+"</is>")
	}
	w := &gen.XLSX{Sheets: []gen.XSheet{
		{Name: "to clean!", Rows: gen.RowX(0, cell(0, 0, "  a\n\tb  c "), cell(0, 1, "\n"), cell(0, 2, "x\ty")) +
			gen.RowX(2, cell(2, 0, " "), cell(2, 1, "\t")) + gen.RowX(3, cell(3, 1, "q"))},
		{Name: "empty", Rows: ""},
		{Name: "blanks", Rows: gen.RowX(0, cell(0, 0, " "), cell(0, 1, "\n"))},
		{Name: "one", Rows: gen.RowX(0, cell(0, 0, "1"))},
	}}
	tx := func(ss ...string) row { return row{S: ss} }
	c25Files = append(c25Files, hFile{name: "clean.xlsx", data: w.File(), sheets: []hSheet{
		{name: "to clean!", rows: []row{tx("  a\n\tb  c ", "\n", "x\ty"), tx("", "", ""), tx(" ", "\t", ""), tx("", "q", "")}},
		{name: "empty"},
		{name: "blanks", rows: []row{tx(" ", "\n")}},
		{name: "one", rows: []row{tx("1")}},
	}})
	// one of many rows
	var b strings.Builder
	big := hSheet{name: "big.tsv"}
	for i := 0; i < 900; i++ {
		fmt.Fprintf(&b, "row %d\tcolumn two\t%d\n", i, i*i)
		big.rows = append(big.rows, tx(fmt.Sprintf("row %d", i), "column two", fmt.Sprint(i*i)))
	}
	c25Files = append(c25Files, hFile{name: "big.tsv", data: []byte(b.String()), sheets: []hSheet{big}})
	c25Files = append(c25Files, hFile{name: "c.tsv", data: []byte("m\tn\to\np\tq\tr\n"), sheets: []hSheet{{name: "c.tsv", rows: []row{tx("m", "n", "o"), tx("p", "q", "r")}}}})
	c25Files = append(c25Files, hFile{name: "missing.xls", fails: true})
	// names with several dots, spaces in a row without other white space
	w = &gen.XLSX{Sheets: []gen.XSheet{{Name: "v1.2 (é)", Rows: gen.RowX(0, cell(0, 0, "d   e"), cell(0, 1, " f  g"))}, {Name: "next.", Rows: gen.RowX(0, cell(0, 0, "h\r\ni"))}}}
	c25Files = append(c25Files, hFile{name: "a.b v2.0.xlsx", data: w.File(), sheets: []hSheet{
		{name: "v1.2 (é)", rows: []row{tx("d   e", " f  g")}}, {name: "next.", rows: []row{tx("h\r\ni")}}}})
	c25Files = append(c25Files, hFile{name: "noext", data: []byte("1\t2\n"), sheets: []hSheet{{name: "noext", rows: []row{tx("1", "2")}}}})
	c25Small = len(c25Files)
	// more sheets than outputs can wait for being closed
	w = &gen.XLSX{}
	f := hFile{name: "sheets.xlsx"}
	for i := 0; i < 600; i++ {
		s := fmt.Sprintf("n%d", i)
		w.Sheets = append(w.Sheets, gen.XSheet{Name: s, Rows: gen.RowX(0, cell(0, 0, "of "+s))})
		f.sheets = append(f.sheets, hSheet{name: s, rows: []row{tx("of " + s)}})
	}
	f.data = w.File()
	c25Files = append(c25Files, f)
	// long rows, long cells, many rows
	b.Reset()
	wide := hSheet{name: "wide.tsv"}
	for i, n := range []int{20000, 20000, 1} {
		l := make([]string, n)
		for j := range l {
			l[j] = fmt.Sprint(i, "/", j)
		}
		b.WriteString(strings.Join(l, "\t") + "\n")
		wide.rows = append(wide.rows, tx(l...))
	}
	c25Files = append(c25Files, hFile{name: "wide.tsv", data: []byte(b.String()), sheets: []hSheet{wide}})
	b.Reset()
	cells := hSheet{name: "cells.tsv"}
	for _, n := range []int{4095, 4096, 4097, 32768, 65535, 65536, 65537, 300000} {
		l := strings.Repeat("0123456789abcdef", n/16) + strings.Repeat("x", n%16)
		b.WriteString(l + "\tend\n")
		cells.rows = append(cells.rows, tx(l, "end"))
	}
	c25Files = append(c25Files, hFile{name: "cells.tsv", data: []byte(b.String()), sheets: []hSheet{cells}})
	b.Reset()
	rows := hSheet{name: "rows.tsv"}
	for i := 0; i < 70000; i++ {
		fmt.Fprintf(&b, "%d\t\n", i)
		rows.rows = append(rows.rows, tx(fmt.Sprint(i), ""))
	}
	c25Files = append(c25Files, hFile{name: "rows.tsv", data: []byte(b.String()), sheets: []hSheet{rows}})
}

// large files, and many small ones, under the default schedules
func c25Large(c *engine.Ctx) {
	c25Once.Do(c25Setup)
	l := [][]int{{c25Small}, {c25Small + 1}, {c25Small + 2}, {c25Small + 3}, {c25Small, c25Small + 1, c25Small + 2, c25Small + 3}, nil}[c.Pick("files", 6)]
	if l == nil {
		for i := 0; i < 300; i++ {
			l = append(l, 13) // again and again the file that is not there
			if i%100 == 50 {
				l = append(l, []int{5, 11, 12}[i/100])
			}
		}
	}
	c25Run(c, l, c25Opts{}, []int{1, 4, 8}[c.Pick("cpus", 3)], true, "")
}

type c25Opts struct {
	pretend, keepNewlines, keepSpaces, keepBlanks, log, info bool
}

func (o c25Opts) args() []string {
	var l []string
	add := func(b bool, s ...string) {
		if b {
			l = append(l, s...)
		}
	}
	add(o.pretend, "-p")
	add(o.keepNewlines, "-r=false")
	add(o.keepSpaces, "-w=false")
	add(o.keepBlanks, "-b=false")
	add(o.log, "-l", "log.txt")
	add(o.info, "-i", "stats.txt")
	return l
}

var (
	c25Sanitize = regexp.MustCompile(`[^a-zA-Z0-9]+`)
	c25Newlines = regexp.MustCompile(`[ \n\r\t]+`)
	c25Time     = regexp.MustCompile(`^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d$`)
)

// c25Expect is the output for one file: the log lines without the time, and the files by path.
func c25Expect(f *hFile, arg string, o c25Opts, out map[string]string) []string {
	if f.fails {
		return []string{arg + "\t-\t-\t-\t*"}
	}
	base := strings.TrimSuffix(filepath.Base(arg), filepath.Ext(arg))
	h := fmt.Sprintf("%x", md5.Sum([]byte(base)))
	var lines []string
	for _, s := range f.sheets {
		if s.bad {
			lines = append(lines, arg+"\t"+s.name+"\t0\t0\t*")
			continue
		}
		var b strings.Builder
		nrows, ncols := 0, 0
		for _, r := range s.rows {
			var l []string
			blank := true
			for i, x := range r.S {
				if !o.keepNewlines {
					x = c25Newlines.ReplaceAllString(x, " ")
				}
				if !o.keepSpaces {
					x = strings.TrimSpace(x)
				}
				if x != "" {
					blank = false
					if i+1 > ncols {
						ncols = i + 1
					}
				}
				l = append(l, x)
			}
			if !blank || o.keepBlanks {
				b.WriteString(strings.Join(l, "\t") + "\n")
				nrows++
			}
		}
		lines = append(lines, fmt.Sprintf("%s\t%s\t%d\t%d\t-", arg, s.name, nrows, ncols))
		if len(s.rows) > 0 && !o.pretend {
			out[filepath.Join("results", h[:2], h[2:4], base+"."+c25Sanitize.ReplaceAllString(s.name, "_")+".tsv")] = b.String()
		}
	}
	return lines
}

// c25Run runs grate2tsv on files and looks at what it leaves.
func c25Run(c *engine.Ctx, files []int, o c25Opts, cpus int, delay bool, before string) {
	c25Once.Do(c25Setup)
	in := filepath.Join(c.Scratch(), "in")
	_, err := os.Stat(in)
	fresh := os.IsNotExist(err)
	if fresh {
		if err := os.Mkdir(in, 0755); err != nil {
			c.Environment(err)
		}
		for _, f := range c25Files {
			if f.data == nil {
				continue
			}
			if err := os.WriteFile(filepath.Join(in, f.name), f.data, 0644); err != nil {
				c.Environment(err)
			}
		}
	}
	dir := filepath.Join(c.Scratch(), "cwd")
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0755); err != nil {
		c.Environment(err)
	}
	info := "results.txt"
	if o.info {
		info = "stats.txt"
	}
	if before != "" {
		if err := os.WriteFile(filepath.Join(dir, info), []byte(before), 0644); err != nil {
			c.Environment(err)
		}
	}
	args := o.args()
	want := map[string]string{}
	lines := map[string][]string{} // by file
	n := 0
	for _, k := range files {
		f := &c25Files[k]
		arg := filepath.Join("..", "in", f.name)
		args = append(args, arg)
		l := c25Expect(f, arg, o, want)
		lines[arg] = append(lines[arg], l...)
		n += len(l)
	}
	if schedRun(c, "grate2tsv", dir, 1, cpus, delay, nil, args...) == nil {
		return
	}
	b, err := os.ReadFile(filepath.Join(dir, info))
	if err != nil {
		c.Failf("%s: %v", info, err)
	}
	text := string(b)
	head := before
	if before == "" {
		head = "time\tfilename\tsheet\trows\tcolumns\terrors\n"
	}
	if !strings.HasPrefix(text, head) {
		c.Failf("%s begins %.100q, want %q", info, text, head)
	}
	text = text[len(head):]
	got := 0
	for _, l := range strings.SplitAfter(text, "\n") {
		if l == "" {
			continue
		}
		p := strings.SplitN(strings.TrimSuffix(l, "\n"), "\t", 6)
		if len(p) != 6 || !strings.HasSuffix(l, "\n") || !c25Time.MatchString(p[0]) {
			c.Failf("line %q of %s", l, info)
		}
		rest := lines[p[1]]
		if len(rest) == 0 {
			c.Failf("line %q of %s is one too many", l, info)
		}
		w := rest[0]
		g := strings.Join(p[1:], "\t")
		if strings.HasSuffix(w, "*") {
			if p[5] == "-" || p[5] == "" {
				c.Failf("line %q of %s does not show the error", l, info)
			}
			g = strings.Join(p[1:5], "\t") + "\t*"
		}
		if g != w {
			c.Failf("line %q of %s, want %q", g, info, w)
		}
		lines[p[1]] = rest[1:]
		got++
	}
	if got != n {
		c.Failf("%d lines in %s, want %d (missing %q)", got, info, n, lines)
	}
	have := map[string]bool{}
	filepath.Walk(filepath.Join(dir, "results"), func(path string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			rel, _ := filepath.Rel(dir, path)
			have[rel] = true
		}
		return nil
	})
	var names []string
	for p := range want {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, p := range names {
		b, err := os.ReadFile(filepath.Join(dir, p))
		if err != nil {
			c.Failf("no output %s", p)
		}
		if string(b) != want[p] {
			c.Failf("%s contains %s, want %s", p, clip(string(b)), clip(want[p]))
		}
		delete(have, p)
	}
	for p := range have {
		c.Failf("unexpected output %s", p)
	}
	c.Outcome(fmt.Sprintf("%d files, %d lines, %d outputs", len(files), n, len(want)))
}

func clip(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%q... (%d bytes)", s[:300], len(s))
	}
	return fmt.Sprintf("%q", s)
}

var c25CPUs = []int{1, 2, 3, 4, 6, 8}

// every option, one file of each kind
func c25Options(c *engine.Ctx) {
	c25Once.Do(c25Setup)
	o := c25Opts{pretend: c.Pick("-p", 2) == 1, keepNewlines: c.Pick("-r", 2) == 1, keepSpaces: c.Pick("-w", 2) == 1, keepBlanks: c.Pick("-b", 2) == 1}
	switch c.Pick("files to", 3) {
	case 1:
		o.log = true
	case 2:
		o.info = true
	}
	all := make([]int, 0, len(c25Files))
	for i := range c25Files[:c25Small] {
		if filepath.Ext(c25Files[i].name) != ".csv" {
			all = append(all, i)
		}
	}
	before := ""
	if c.Pick("again", 2) == 1 {
		before = "what was there\nbefore\n"
	}
	c25Run(c, all, o, c25CPUs[c.Pick("cpus", len(c25CPUs))], true, before)
}

// every pair of files
func c25Pairs(c *engine.Ctx) {
	c25Once.Do(c25Setup)
	l := []int{0, 2, 5, 7, 9, 10, 12}
	i := c.Pick("first", len(l))
	j := c.Pick("second", len(l))
	if i == j {
		j = 13
	} else {
		j = l[j]
	}
	c25Run(c, []int{l[i], j}, c25Opts{}, []int{4, 1}[c.Pick("cpus", 2)], true, "")
}

// more files than workers
func c25Many(c *engine.Ctx) {
	t := [][]int{
		{},
		{5},
		{5, 12, 11},
		{7, 5, 12},
		{10, 5, 11, 12},
		{13, 13, 13},
		{0, 5, 2, 12},
	}
	c25Run(c, t[c.Pick("files", len(t))], c25Opts{}, []int{2, 4, 6, 8}[c.Pick("cpus", 4)], true, "")
}

// names of inputs and sheets which give the same output name (known findings)
func c25Names(c *engine.Ctx) {
	sheet := func(name, v string) gen.XSheet {
		return gen.XSheet{Name: name, Rows: gen.RowX(0, gen.C(0, 0, "inlineStr", -1, "<is>"+gen.T(v)+"</is>"))}
	}
	xs := func(l ...gen.XSheet) []byte { return (&gen.XLSX{Sheets: l}).File() }
	type in struct {
		path string
		data []byte
	}
	k := c.Pick("names", 3)
	files := [][]in{
		{{"x/a.tsv", []byte("first\n")}, {"y/a.tsv", []byte("second\n")}},
		{{"b.xlsx", xs(sheet("S", "first"))}, {"b.xlsm", xs(sheet("S", "second"))}},
		{{"c.xlsx", xs(sheet("A B", "first"), sheet("A_B", "second"))}},
	}[k]
	in1 := filepath.Join(c.Scratch(), "names")
	var args []string
	for _, f := range files {
		p := filepath.Join(in1, f.path)
		os.MkdirAll(filepath.Dir(p), 0755)
		if err := os.WriteFile(p, f.data, 0644); err != nil {
			c.Environment(err)
		}
		args = append(args, p)
	}
	dir := filepath.Join(c.Scratch(), "cwd")
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0755); err != nil {
		c.Environment(err)
	}
	if schedRun(c, "grate2tsv", dir, 1, 2, true, nil, args...) == nil {
		return
	}
	var got []string
	filepath.Walk(filepath.Join(dir, "results"), func(path string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, _ := os.ReadFile(path)
			got = append(got, string(b))
		}
		return nil
	})
	sort.Strings(got)
	if len(got) != 2 || got[0] != "first\n" || got[1] != "second\n" {
		c.Failf("the outputs of two sheets are %q", got)
	}
}

func init() {
	engine.Register(&engine.Property{
		ID:      "C25",
		Level:   "model_checking",
		Rule:    "a case is a schedule of an instrumented copy of grate2tsv on a list of files, distinct by the choices of the scheduler; every departure from the default schedule costs one deviation",
		Prepare: schedBuild(map[string]string{"cmdmain.go.txt": "cmd/grate2tsv"}),
		Assumptions: []string{
			"goroutines take over at operations of package sync, channels, file operations and accesses to package-level variables which change; accesses elsewhere are judged by the race detector in every schedule",
			"up to four files at once under changed schedules, 303 and files of 600 sheets or 70000 rows under the default one; 1 to 8 processors",
			"names of input files and sheets which give different output names (known findings otherwise)",
		},
		Harnesses: []engine.Harness{
			{Name: "names", Run: c25Names},
			{Name: "options", Run: c25Options, Quick: 0, Thorough: 1},
			{Name: "pairs", Run: c25Pairs, Quick: 1, Thorough: 2},
			{Name: "large", Run: c25Large},
			{Name: "many-files", Run: c25Many, Quick: 1, Thorough: 2},
		},
	})
}

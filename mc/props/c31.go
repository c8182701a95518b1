package props

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/mc/engine"
	"verif/mc/gen"
)

// c31Run is what one run of a command leaves.
type c31Run struct {
	failed bool
	errs   string            // what it says
	out    string            // standard output
	files  map[string]string // below the results directory, with the statistics
	ops    []string          // the operations on the file of the fault
}

// c31Inputs are what the commands read.
func c31Inputs() map[string][]byte {
	var t strings.Builder
	for i := 0; i < 250; i++ {
		fmt.Fprintf(&t, "row %d\tthe second column\t%d\n", i, i*i)
	}
	w := &gen.XLS{Pre: xlsPre(), Sheets: []gen.Sheet{{Name: "one"}, {Name: "two"}}}
	for i := range w.Sheets {
		w.Sheets[i].Recs = append(w.Sheets[i].Recs, gen.Dimensions(0, 3, 0, 1), gen.Number(0, 0, 0, float64(i)), gen.Number(2, 0, 0, 7.5))
	}
	x := &gen.XLSX{SST: []string{gen.T("text")}, Sheets: []gen.XSheet{{Name: "uno", Rows: gen.RowX(0, gen.C(0, 0, "s", -1, gen.V("0")))}}}
	return map[string][]byte{"a.tsv": []byte(t.String()), "b.xls": w.File(), "c.xlsx": x.File()}
}

// c31Exec runs a command over the inputs in a directory of its own.
func c31Exec(c *engine.Ctx, name, fault string, flags ...string) *c31Run {
	dir, err := os.MkdirTemp(c.Scratch(), "run")
	if err != nil {
		c.Environment(err)
	}
	defer os.RemoveAll(dir)
	in := c31Inputs()
	var names []string
	for n, b := range in {
		names = append(names, n)
		if err := os.WriteFile(filepath.Join(dir, n), b, 0644); err != nil {
			c.Environment(err)
		}
	}
	sort.Strings(names)
	if len(flags) > 0 && flags[0] == "again" {
		flags = flags[1:]
		if err := os.WriteFile(filepath.Join(dir, "results.txt"), []byte("time\tfilename\tsheet\trows\tcolumns\terrors\n2020-02-02 20:20:20\tbefore.xls\tSheet1\t5\t5\t-\n"), 0644); err != nil {
			c.Environment(err)
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(os.Getenv("VERIF_ROOT"), name), append(flags, names...)...)
	cmd.Dir = dir
	oplog := filepath.Join(dir, "operations")
	cmd.Env = append(os.Environ(), "VERIF_FAULT="+fault, "VERIF_FAULT_LOG="+oplog)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	err = cmd.Run()
	r := &c31Run{out: out.String(), errs: errs.String(), files: map[string]string{}}
	if ctx.Err() != nil {
		c.Failf("%s (%s) does not end", name, fault)
	}
	if err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			c.Environment(err)
		}
		r.failed = true
	}
	if strings.Contains(r.errs, "goroutine ") {
		c.Failf("%s (%s) crashes: %.500s", name, fault, r.errs)
	}
	b, _ := os.ReadFile(oplog)
	for _, l := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
		if i := strings.IndexByte(l, ' '); i > 0 {
			r.ops = append(r.ops, l[:i])
		}
	}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() && p != oplog && in[filepath.Base(p)] == nil {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			if rel == "log.txt" {
				r.errs += string(b)
			} else {
				r.files[rel] = string(b)
			}
		}
		return nil
	})
	return r
}

// lines are the sorted lines of the statistics without their times.
func (r *c31Run) lines() []string {
	l := strings.Split(strings.TrimSuffix(r.files["results.txt"], "\n"), "\n")
	for i, s := range l {
		if j := strings.IndexByte(s, '\t'); j >= 0 {
			l[i] = s[j:]
		}
	}
	sort.Strings(l)
	return l
}

// differs lists what of the undisturbed run is missing or different.
func (r *c31Run) differs(base *c31Run) (l []string) {
	if r.out != base.out {
		l = append(l, "standard output")
	}
	for n, t := range base.files {
		if n == "results.txt" {
			if strings.Join(r.lines(), "\n") != strings.Join(base.lines(), "\n") {
				l = append(l, n)
			}
		} else if r.files[n] != t {
			l = append(l, n)
		}
	}
	for n := range r.files {
		if _, ok := base.files[n]; !ok {
			l = append(l, n+" (not expected)")
		}
	}
	sort.Strings(l)
	return l
}

// reports tells whether the run says that something went wrong.
func (r *c31Run) reports(base *c31Run) bool {
	if r.failed || base.errs == "" && r.errs != "" {
		return true
	}
	for _, l := range r.lines() { // the errors column of the statistics
		if f := strings.Split(l, "\t"); len(f) == 6 && f[5] != "-" && f[5] != "errors" {
			return true
		}
	}
	said := r.errs + r.files["results.txt"]
	for _, e := range []string{"input/output error", "no space left", "too many open files", "permission denied"} {
		if strings.Contains(said, e) {
			return true
		}
	}
	return false
}

var c31Bases = map[string]*c31Run{}

func c31Check(c *engine.Ctx, name string, target func(base *c31Run) []string, flags ...string) {
	if os.Getenv("VERIF_DEGRADED") != "" {
		c.Outcome("not built")
		return
	}
	key := name + strings.Join(flags, " ")
	base := c31Bases[key]
	if base == nil {
		base = c31Exec(c, name, "", flags...)
		if base.failed {
			c.Outcome("fails without faults")
			return
		}
		c31Bases[key] = base
	}
	t := target(base)
	if len(t) == 0 {
		c.Outcome("no such file")
		return
	}
	sort.Strings(t)
	path := t[c.Pick("path", len(t))]
	ops := c31Bases[key+"|"+path]
	if ops == nil {
		ops = c31Exec(c, name, path+"|||", append([]string{}, flags...)...)
		if len(ops.differs(base)) > 0 {
			c.Outcome("not the same twice") // C25, C27
			return
		}
		if strings.HasPrefix(path, "=") && len(ops.ops) > 1 {
			ops.ops = ops.ops[:1] // several workers may try to make it
		}
		c31Bases[key+"|"+path] = ops
	}
	if len(ops.ops) == 0 {
		c.Outcome("no operation")
		return
	}
	k := c.Pick("operation", len(ops.ops))
	kinds := faultKinds[ops.ops[k]]
	kind := kinds[c.Pick("kind", len(kinds))]
	sticky := c.Pick("sticky", 2)
	c.State(key, path, k, kind, sticky)
	r := c31Exec(c, name, fmt.Sprintf("%s|%d|%s|%d", path, k, kind, sticky), flags...)
	c.Steps(len(r.ops))
	what := fmt.Sprintf("%s %v: %s of operation %d on %s (%s)", name, flags, kind, k, path, ops.ops[k])
	diff := r.differs(base)
	if len(diff) > 0 && !r.reports(base) {
		c.Failf("%s: no error is reported, and this is not complete: %s\n%.600s", what, strings.Join(diff, ", "), r.errs)
	}
	if kind == "one" || kind == "half" && ops.ops[k] == "read" {
		if len(diff) > 0 {
			c.Failf("%s: a short read changes %s", what, strings.Join(diff, ", "))
		}
	}
	if !r.failed {
		// only what the fault concerns may be missing
		for _, d := range diff {
			in := filepath.Base(d)
			if d == "results.txt" || d == "standard output" || strings.Contains(d, strings.TrimPrefix(path, "=")) || strings.HasPrefix(in, filepath.Base(path)[:1]+".") {
				continue
			}
			c.Failf("%s: %s is not complete, which the fault does not concern", what, d)
		}
	}
	res := "complete"
	if len(diff) > 0 {
		res = "reported"
	}
	c.Outcome(ops.ops[k] + " " + res)
}

func c31Outputs(c *engine.Ctx) {
	if c.Pick("command", 2) == 0 {
		flags := [][]string{nil, {"-v"}}[c.Pick("flags", 2)]
		c31Check(c, "grater", func(*c31Run) []string { return []string{"/dev/stdout"} }, flags...)
		return
	}
	flags := [][]string{nil, {"-l", "log.txt"}, {"-p"}, {"again"}}[c.Pick("flags", 4)]
	c31Check(c, "grate2tsv", func(base *c31Run) (l []string) {
		seen := map[string]bool{}
		for n := range base.files {
			l = append(l, n)
			for d := filepath.Dir(n); d != "."; d = filepath.Dir(d) {
				if !seen[d] {
					seen[d] = true
					l = append(l, "="+d) // the directory itself
				}
			}
		}
		return l
	}, flags...)
}

func c31Reads(c *engine.Ctx) {
	name := []string{"grater", "grate2tsv"}[c.Pick("command", 2)]
	c31Check(c, name, func(*c31Run) (l []string) {
		for n := range c31Inputs() {
			l = append(l, n)
		}
		return l
	})
}

func init() {
	engine.Register(&engine.Property{
		ID: "C31", Level: "model_checking",
		Rule:    "outputs: grater (plain and -v) and grate2tsv (plain, -l, -p, with statistics of an earlier run) over three files (a text of several output buffers, an xls workbook of two sheets, an xlsx workbook) x every output file and directory (standard output, each .tsv, the statistics) x every operation on it (make, open, seek, write, close) x every way it can fail (no space with nothing or half written, I/O error, no descriptors, no permission) x once or from then on; reads: both commands, every input file, every operation on it, every failure as in C30. Oracle: what is written is complete, or the command fails, or the error appears on standard error, in the log or in the statistics; what the fault does not concern is complete; the command ends",
		Prepare: faultBuild(false, "grater", "grate2tsv"),
		Assumptions: []string{
			"faults are injected into package os of the standard library (by an overlay), below all code of grate",
			"what the commands write without faults is C25's and C27's business: the undisturbed run is the reference",
		},
		Harnesses: []engine.Harness{
			{Name: "outputs", Run: c31Outputs},
			{Name: "reads", Run: c31Reads},
		},
	})
}

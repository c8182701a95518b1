package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/simple"
	"github.com/pbnjay/grate/xls"
	"github.com/pbnjay/grate/xlsx"

	"verif/mc/engine"
)

// c32Events are what happens to the path of an open file.
var c32Events = []string{"nothing", "removed", "renamed", "another file of its format", "a file of another format", "a directory", "unreadable", "directory renamed", "working directory changed", "link changed"}

var c32Openers = map[string]func(string) (grate.Source, error){"grate": grate.Open, "xls": xls.Open, "xlsx": xlsx.Open, "tsv": simple.OpenTSV, "csv": simple.OpenCSV}

// c32Read opens a file and reads everything twice; at is called between the steps.
func c32Read(c *engine.Ctx, open func(string) (grate.Source, error), path string, at func(step int)) []string {
	var res []string
	src, err := open(path)
	if err != nil {
		return []string{"open: " + err.Error()}
	}
	defer src.Close()
	at(0)
	names, err := src.List()
	if err != nil {
		return []string{"list: " + err.Error()}
	}
	at(1)
	for round := 0; round < 2; round++ {
		for i, n := range names {
			col, err := src.Get(n)
			if round == 0 && i == 0 {
				at(2)
			}
			if err != nil {
				res = append(res, fmt.Sprintf("%q: %v", n, err))
				continue
			}
			res = append(res, fmt.Sprintf("%q %v", n, col.IsEmpty()))
			for r := 0; col.Next(); r++ {
				res = append(res, fmt.Sprintf("%q %q %q", col.Strings(), col.Types(), col.Formats()))
				if round == 0 && i == 0 && r == 0 {
					at(3)
				}
			}
			if err := col.Err(); err != nil {
				res = append(res, err.Error())
			}
			if round == 0 && i == 0 {
				at(4)
			}
		}
		if round == 0 {
			at(5)
		}
	}
	return res
}

func c32Path(c *engine.Ctx) {
	c30Once.Do(c30Setup)
	f := &c30Files[c.Pick("file", len(c30Files))]
	on := f.openers[c.Pick("opener", len(f.openers))]
	open := c32Openers[on]
	relative := c.Pick("relative", 2) == 1
	dir := filepath.Join(c.Scratch(), "in")
	if err := os.Mkdir(dir, 0755); err != nil {
		c.Environment(err)
	}
	moved := dir + "2"
	defer os.RemoveAll(dir)
	defer os.RemoveAll(moved)
	path := filepath.Join(dir, f.name)
	if err := os.WriteFile(path, f.data, 0644); err != nil {
		c.Environment(err)
	}
	ext := filepath.Ext(f.name)
	var same, other *c30File
	for i := range c30Files {
		g := &c30Files[i]
		if g.name != f.name && filepath.Ext(g.name) == ext && same == nil {
			same = g
		}
		if filepath.Ext(g.name) != ext && other == nil {
			other = g
		}
	}
	arg := path
	old, err := os.Getwd()
	if err != nil {
		c.Environment(err)
	}
	defer os.Chdir(old)
	if relative {
		if err := os.Chdir(dir); err != nil {
			c.Environment(err)
		}
		arg = f.name
	}
	want := c32Read(c, open, arg, func(int) {})
	put := func(g *c30File) error {
		tmp := filepath.Join(c.Scratch(), "new")
		if err := os.WriteFile(tmp, g.data, 0644); err != nil {
			return err
		}
		return os.Rename(tmp, path)
	}
	n := 1
	if c.Thorough {
		n = 2
	}
	type ev struct{ step, kind int }
	var evs []ev
	linked := false
	for i := 0; i < n; i++ {
		k := c.Pick("event", len(c32Events))
		if k == 0 {
			break
		}
		if c32Events[k] == "link changed" && !linked {
			// the path is a link from the start
			linked = true
			if err := os.Rename(path, path+".target"); err != nil {
				c.Environment(err)
			}
			if err := os.Symlink(filepath.Base(path)+".target", path); err != nil {
				c.Environment(err)
			}
		}
		evs = append(evs, ev{c.Pick("step", 6), k})
	}
	c.State(f.name, on, relative, evs)
	happen := func(k int) {
		var err error
		switch c32Events[k] {
		case "removed":
			err = os.Remove(path)
		case "renamed":
			err = os.Rename(path, path+".old")
		case "another file of its format":
			err = put(same)
		case "a file of another format":
			err = put(other)
		case "a directory":
			if err = os.Remove(path); err == nil {
				err = os.Mkdir(path, 0755)
			}
		case "unreadable":
			if err = os.Remove(path); err == nil { // (root reads everything, so a dangling link stands for it)
				err = os.Symlink("nowhere", path)
			}
		case "directory renamed":
			err = os.Rename(dir, moved)
		case "working directory changed":
			err = os.Chdir("/")
		case "link changed":
			if err = os.Remove(path); err == nil {
				var tmp = path + ".other"
				if err = os.WriteFile(tmp, same.data, 0644); err == nil {
					err = os.Symlink(filepath.Base(tmp), path)
				}
			}
		}
		if err != nil && len(evs) == 1 {
			c.Environment(err)
		}
	}
	fds := func() int {
		l, _ := os.ReadDir("/proc/self/fd")
		return len(l)
	}
	before := fds()
	got := c32Read(c, open, arg, func(step int) {
		for _, e := range evs {
			if e.step == step {
				happen(e.kind)
			}
		}
	})
	c.Steps(len(got))
	var what []string
	for _, e := range evs {
		what = append(what, fmt.Sprintf("%s at step %d", c32Events[e.kind], e.step))
	}
	for i := 0; i < len(want) || i < len(got); i++ {
		a, b := "(nothing)", "(nothing)"
		if i < len(want) {
			a = want[i]
		}
		if i < len(got) {
			b = got[i]
		}
		if a != b {
			c.Failf("%s opened by %s, %s: read\n%.300s\ninstead of\n%.300s", f.name, on, strings.Join(what, ", "), b, a)
		}
	}
	if after := fds(); after != before {
		c.Failf("%s opened by %s, %s: %d descriptors instead of %d after closing", f.name, on, strings.Join(what, ", "), after, before)
	}
	if len(evs) == 0 {
		c.Outcome("nothing happens")
	} else {
		c.Outcome(c32Events[evs[len(evs)-1].kind])
	}
}

func init() {
	engine.Register(&engine.Property{
		ID: "C32", Level: "model_checking",
		Rule: "path: every readable file of C30 through grate.Open and its own opener, by an absolute or relative path, x everything that may happen to the path (removed, renamed, replaced by another file of its format or of another, by a directory, by a dangling link, its directory renamed, the working directory changed, a link pointed elsewhere) x when (after Open, List, the first Get, the first row, the first sheet, all sheets; everything is then read a second time); thorough: pairs of events. Oracle: the data of the undisturbed file; no descriptor stays open",
		Assumptions: []string{
			"the contents of the file itself are left alone: a file that is written to while it is read is no input grate promises to read",
		},
		Harnesses: []engine.Harness{
			{Name: "path", Run: c32Path},
		},
	})
}

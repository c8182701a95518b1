package props

import (
	"os"
	"path/filepath"

	"verif/mc/engine"
)

type c24Sheet struct {
	Name string
	Bad  bool
	Rows [][3][]string
}

type c24File struct {
	Path   string
	Opener string
	Fails  bool
	Sheets []c24Sheet
}

type c24Job struct {
	Files   []c24File
	Threads [][]int
	Debug   bool
	Early   bool
}

// c24Write puts the files in place, once per worker.
func c24Write(c *engine.Ctx) []c24File {
	hOnce.Do(hSetup)
	dir := filepath.Join(c.Scratch(), "in")
	_, err := os.Stat(dir)
	fresh := os.IsNotExist(err)
	if fresh {
		if err := os.Mkdir(dir, 0755); err != nil {
			c.Environment(err)
		}
	}
	var l []c24File
	for _, f := range hFiles {
		p := filepath.Join(dir, f.name)
		if fresh {
			if err := os.WriteFile(p, f.data, 0644); err != nil {
				c.Environment(err)
			}
		}
		x := c24File{Path: p, Fails: f.fails}
		for _, s := range f.sheets {
			y := c24Sheet{Name: s.name, Bad: s.bad}
			for _, r := range s.rows {
				y.Rows = append(y.Rows, [3][]string{r.S, r.T, r.F})
			}
			x.Sheets = append(x.Sheets, y)
		}
		l = append(l, x)
	}
	return l
}

func c24Run(c *engine.Ctx, files []c24File, threads [][]int, dbg, early bool) {
	for i := range files {
		if filepath.Ext(files[i].Path) == ".csv" {
			files[i].Opener = "csv" // grate.Open takes it for tab-separated text
		}
	}
	if schedRun(c, "mcreaders", c.Scratch(), 2, 4, false, &c24Job{Files: files, Threads: threads, Debug: dbg, Early: early}) != nil {
		c.Outcome("all read what they read alone")
	}
}

// two threads, any two files
func c24Pairs(c *engine.Ctx) {
	files := c24Write(c)
	i := c.Pick("first", len(files))
	j := c.Pick("second", len(files)-i) + i
	c24Run(c, files, [][]int{{i}, {j}}, false, false)
}

// two threads which read several files
func c24Several(c *engine.Ctx) {
	files := c24Write(c)
	t := [][][]int{
		{{0, 1}, {1, 0}},
		{{2, 3}, {3, 2}},
		{{7, 0}, {0, 0}},
		{{4, 1}, {0, 4}},
		{{2, 5}, {6, 2}},
		{{9, 8}, {2, 9}},
	}
	k := c.Pick("files", len(t))
	c24Run(c, files, t[k], false, c.Pick("closed early", 2) == 1)
}

// three threads
func c24Three(c *engine.Ctx) {
	files := c24Write(c)
	t := [][][]int{
		{{0}, {0}, {0}},
		{{2}, {2}, {2}},
		{{0}, {1}, {4}},
		{{0}, {2}, {5}},
		{{7}, {0}, {8}},
	}
	c24Run(c, files, t[c.Pick("files", len(t))], c.Pick("debug", 2) == 1, false)
}

func init() {
	engine.Register(&engine.Property{
		ID:      "C24",
		Level:   "model_checking",
		Rule:    "a case is a schedule of an instrumented copy of the library, distinct by the choices of the scheduler; a switch away from a thread that could go on costs one deviation",
		Prepare: schedBuild(map[string]string{"readers.go.txt": "mcreaders"}),
		Assumptions: []string{
			"threads take over at operations of package sync, at channels and at accesses to package-level variables which the library changes; accesses elsewhere are judged by the race detector in every schedule",
			"two or three threads, ten small files of all formats",
			"memory is sequentially consistent in a schedule without data races (the Go memory model)",
		},
		Harnesses: []engine.Harness{
			{Name: "pairs", Run: c24Pairs, Quick: 1, Thorough: 2},
			{Name: "several-files", Run: c24Several, Quick: 1, Thorough: 2},
			{Name: "three-threads", Run: c24Three, Quick: 1, Thorough: 2},
		},
	})
}

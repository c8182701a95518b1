package engine

import (
	"bufio"
	"bytes"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// VerifDir is where evidence, replays and the known-findings file live.
var VerifDir = "/verif"

type workerProc struct {
	id     int
	cmd    *exec.Cmd
	in     io.WriteCloser
	enc    *gob.Encoder
	bw     *bufio.Writer
	dec    *gob.Decoder
	dir    string
	stderr *tailBuf
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

// ScratchRoot makes a scratch directory for this check run.
func ScratchRoot() (string, error) {
	for _, base := range []string{"/dev/shm", os.TempDir()} {
		d, err := os.MkdirTemp(base, "grate-mc-")
		if err == nil {
			return d, nil
		}
	}
	return os.MkdirTemp("", "grate-mc-")
}

func startWorker(p *Property, id int, root string) (*workerProc, error) {
	dir := filepath.Join(root, fmt.Sprintf("w%d-%d", id, time.Now().UnixNano()))
	if err := os.MkdirAll(dir, 0700); err != nil {
		return nil, err
	}
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(exe, "-worker", p.ID, dir)
	cmd.Dir = dir
	// nothing grate does depends on the local time zone; an odd one shows it
	cmd.Env = append(os.Environ(), "TZ=America/St_Johns", "GOTRACEBACK=single")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	w := &workerProc{id: id, cmd: cmd, dir: dir, stderr: &tailBuf{}}
	w.in, err = cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	r, wr, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd.ExtraFiles = []*os.File{wr}
	cmd.Stderr = w.stderr
	cmd.Stdout = w.stderr
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	wr.Close()
	w.bw = bufio.NewWriter(w.in)
	w.enc = gob.NewEncoder(w.bw)
	w.dec = gob.NewDecoder(bufio.NewReader(r))
	return w, nil
}

func (w *workerProc) kill() {
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

func cpuTime(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	i := bytes.LastIndexByte(b, ')')
	f := strings.Fields(string(b[i+1:]))
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	s, _ := strconv.ParseFloat(f[12], 64)
	return (u + s) / 100
}

// HangCPU is how many CPU seconds a single execution may burn before it counts as a hang.
var HangCPU = 25.0

type died struct {
	hang   bool
	node   []uint16
	stderr string
}

// call sends one task and waits for the result.
func (w *workerProc) call(t *task) (*result, *died) {
	type rr struct {
		r   *result
		err error
	}
	ch := make(chan rr, 1)
	go func() {
		if err := w.enc.Encode(t); err != nil {
			ch <- rr{nil, err}
			return
		}
		if err := w.bw.Flush(); err != nil {
			ch <- rr{nil, err}
			return
		}
		var r result
		err := w.dec.Decode(&r)
		ch <- rr{&r, err}
	}()
	tick := time.NewTicker(2 * time.Second)
	defer tick.Stop()
	var lastCount uint64
	var base float64
	first := true
	for {
		select {
		case x := <-ch:
			if x.err == nil {
				return x.r, nil
			}
			time.Sleep(50 * time.Millisecond)
			_, _, node, _ := readStatus(filepath.Join(w.dir, "status"))
			w.kill()
			return nil, &died{node: node, stderr: w.stderr.String()}
		case <-tick.C:
			n, active, node, ok := readStatus(filepath.Join(w.dir, "status"))
			if !ok {
				continue
			}
			cpu := cpuTime(w.cmd.Process.Pid)
			if first || n != lastCount || !active {
				first, lastCount, base = false, n, cpu
				continue
			}
			if cpu-base > HangCPU {
				w.kill()
				return nil, &died{hang: true, node: node}
			}
		}
	}
}

// KnownFinding is an entry of /verif/known_findings.json.
type KnownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Case     string `json:"case"`
	What     string `json:"what"`
}

type knownFile struct {
	Findings []KnownFinding `json:"findings"`
	Fixed    []string       `json:"fixed"`
}

// LoadKnown reads the known findings of one property.
func LoadKnown(prop string) []KnownFinding {
	b, err := os.ReadFile(filepath.Join(VerifDir, "known_findings.json"))
	if err != nil {
		return nil
	}
	var kf knownFile
	if json.Unmarshal(b, &kf) != nil {
		return nil
	}
	var r []KnownFinding
	for _, k := range kf.Findings {
		if k.Property == prop {
			r = append(r, k)
		}
	}
	return r
}

type harnessStats struct {
	Name           string           `json:"harness"`
	Executions     int64            `json:"executions"`
	ChoicePoints   int64            `json:"choice_points"`
	Transitions    int64            `json:"transitions"`
	States         int              `json:"distinct_states"`
	CompletedBound int              `json:"completed_deviation_bound"`
	WantedBound    int              `json:"wanted_deviation_bound"`
	Exhaustive     bool             `json:"exhaustive_within_bound"`
	Outcomes       map[string]int64 `json:"outcomes,omitempty"`
	Samples        []string         `json:"samples,omitempty"`
	Seconds        float64          `json:"seconds"`
}

// Run explores a property and returns the exit code.
// prepare builds what the harnesses run besides the library; they find it below VERIF_ROOT.
func prepare(p *Property, root string) error {
	os.Setenv("VERIF_ROOT", root)
	if p.Prepare == nil {
		return nil
	}
	return p.Prepare(root)
}

func Run(p *Property, tier string, seed int64, only string) int {
	start := time.Now()
	if p.Custom != nil {
		return p.Custom(tier, seed)
	}
	thorough := tier == "thorough"
	budget := 300 * time.Second
	if thorough {
		budget = 3 * time.Hour
	}
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		if v, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(v) * time.Second
		}
	}
	deadline := start.Add(budget)
	root, err := ScratchRoot()
	if err != nil {
		fmt.Fprintln(os.Stderr, "scratch:", err)
		return 2
	}
	defer os.RemoveAll(root)
	if err := prepare(p, root); err != nil {
		fmt.Fprintln(os.Stderr, "prepare:", err)
		return 2
	}
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	known := LoadKnown(p.ID)
	var stats []*harnessStats
	var fails []failRec
	knownHit := map[string]KnownFinding{}
	allStates := map[uint64]struct{}{}
	code := 0
	var active []*Harness
	for i := range p.Harnesses {
		h := &p.Harnesses[i]
		if only != "" && h.Name != only {
			continue
		}
		if h.Only != "" && h.Only != tier {
			continue
		}
		active = append(active, h)
	}
	for i, h := range active {
		// share the remaining time evenly among the remaining harnesses
		left := time.Until(deadline)
		hd := time.Now().Add(left / time.Duration(len(active)-i))
		st, fs, env := explore(p, h, nw, root, thorough, seed, hd, known, knownHit, allStates)
		stats = append(stats, st)
		if env != "" {
			// not a statement about the code: the coverage says exhaustive=false
			fmt.Fprintf(os.Stderr, "%s/%s: environment error: %s\n", p.ID, h.Name, env)
			st.Exhaustive = false
		}
		if os.Getenv("VERIF_DEGRADED") != "" {
			st.Exhaustive = false
		}
		fails = append(fails, fs...)
		fmt.Printf("%s %-28s executions=%d states=%d transitions=%d bound=%d/%d exhaustive=%v outcomes=%d %.1fs\n",
			p.ID, h.Name, st.Executions, st.States, st.Transitions, st.CompletedBound, st.WantedBound, st.Exhaustive, len(st.Outcomes), st.Seconds)
		if len(fs) > 0 {
			break
		}
	}
	for _, k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", p.ID, k.What, k.Case)
	}
	nviol := 0
	for i, f := range fails {
		if i >= 3 {
			break
		}
		path := writeReplay(p, f, thorough)
		fmt.Printf("  %s\n  case: %s\n  %s\n", f.Harness, f.Desc, firstLines(f.Msg, 12))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		nviol++
		code = 1
	}
	writeEvidence(p, tier, seed, stats, len(allStates), nviol, len(knownHit), time.Since(start))
	return code
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = append(l[:n], "...")
	}
	return strings.Join(l, "\n  ")
}

func explore(p *Property, h *Harness, nw int, root string, thorough bool, seed int64, deadline time.Time,
	known []KnownFinding, knownHit map[string]KnownFinding, allStates map[uint64]struct{}) (*harnessStats, []failRec, string) {
	t0 := time.Now()
	bound := h.Quick
	if thorough {
		bound = h.Thorough
	}
	st := &harnessStats{Name: h.Name, WantedBound: bound, CompletedBound: -1, Outcomes: map[string]int64{}}
	states := map[uint64]struct{}{}
	var fails []failRec
	var envErr string

	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	queue := []pending{{nil, false}}
	inflight := 0
	cost := 0
	stop := false
	hasDev := false
	var done [][]uint16
	retries := 0

	isKnown := func(f failRec) bool {
		for _, k := range known {
			if k.Harness == f.Harness && k.Case == f.Desc {
				mu.Lock()
				knownHit[k.Harness+k.Case] = k
				mu.Unlock()
				return true
			}
		}
		return false
	}

	var wg sync.WaitGroup
	quit := false
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			var w *workerProc
			defer func() {
				if w != nil {
					w.in.Close()
					w.kill()
					os.RemoveAll(w.dir)
				}
			}()
			for {
				mu.Lock()
				for len(queue) == 0 && !quit {
					cond.Wait()
				}
				if quit {
					mu.Unlock()
					return
				}
				// take a share of the queue, all of the same kind
				n := len(queue)/(2*nw) + 1
				if n > 256 {
					n = 256
				}
				var nodes [][]uint16
				exp := queue[len(queue)-1].Expand
				for len(nodes) < n && len(queue) > 0 && queue[len(queue)-1].Expand == exp {
					nodes = append(nodes, queue[len(queue)-1].Node)
					queue = queue[:len(queue)-1]
				}
				inflight++
				budget := 4000
				if len(queue) < nw {
					budget = 40
				}
				c := cost
				mu.Unlock()

				var res *result
				var dead *died
				if w == nil {
					var err error
					w, err = startWorker(p, id, root)
					if err != nil {
						mu.Lock()
						envErr = err.Error()
						stop = true
						inflight--
						cond.Broadcast()
						mu.Unlock()
						return
					}
				}
				res, dead = w.call(&task{Harness: h.Name, Nodes: nodes, Expand: exp, Cost: c, Budget: budget, Thorough: thorough, Seed: seed})
				var crash *failRec
				if dead != nil {
					os.RemoveAll(w.dir)
					w = nil
					f := confirmCrash(p, h, root, dead, thorough, seed)
					crash = f
				}
				var real []failRec
				if res != nil {
					for _, f := range res.Fails {
						if isKnown(f) {
							continue
						}
						f2, ok := confirm(p, h, root, f, thorough, seed)
						if ok {
							real = append(real, f2)
						}
					}
				}
				if crash != nil && isKnown(*crash) {
					crash = nil
				}
				mu.Lock()
				inflight--
				if crash != nil {
					fails = append(fails, *crash)
					stop = true
				} else if dead != nil {
					// not reproducible: put the nodes back, a few times
					retries++
					if retries > 3 {
						envErr = "worker died without a reproducible cause: " + firstLines(dead.stderr, 5)
						stop = true
					} else {
						for _, nd := range nodes {
							queue = append(queue, pending{nd, exp})
						}
					}
				}
				if res != nil {
					st.Executions += res.Execs
					st.Transitions += res.Trans
					st.ChoicePoints += res.Points
					for _, s := range res.States {
						states[s] = struct{}{}
						allStates[s] = struct{}{}
					}
					for k, v := range res.Outcomes {
						st.Outcomes[k] += v
					}
					hasDev = hasDev || res.HasDev
					if len(st.Samples) < 4 {
						st.Samples = append(st.Samples, res.Samples...)
					}
					done = append(done, res.Done...)
					queue = append(queue, res.Rest...)
					if res.EnvErr != "" {
						envErr = res.EnvErr
						stop = true
					}
					if res.Diverged != "" {
						envErr = res.Diverged
						stop = true
					}
					if len(real) > 0 {
						fails = append(fails, real...)
						stop = true
					}
				}
				if time.Now().After(deadline) {
					stop = true
				}
				if stop {
					queue = nil
				}
				cond.Broadcast()
				mu.Unlock()
			}
		}(i)
	}
	mu.Lock()
	for {
		for (len(queue) > 0 || inflight > 0) && !(stop && inflight == 0) {
			cond.Wait()
		}
		if stop {
			break
		}
		st.CompletedBound = cost
		if cost >= bound || !hasDev {
			if !hasDev {
				st.CompletedBound = bound
			}
			break
		}
		cost++
		nd := done
		done = nil
		for _, x := range nd {
			queue = append(queue, pending{x, true})
		}
		if len(queue) == 0 {
			st.CompletedBound = bound
			break
		}
		cond.Broadcast()
	}
	quit = true
	cond.Broadcast()
	mu.Unlock()
	wg.Wait()
	st.States = len(states)
	st.Exhaustive = !stop
	st.Seconds = time.Since(t0).Seconds()
	sort.Slice(fails, func(i, j int) bool { return len(fails[i].Desc) < len(fails[j].Desc) })
	if len(st.Outcomes) > 40 {
		type kv struct {
			k string
			v int64
		}
		var l []kv
		for k, v := range st.Outcomes {
			l = append(l, kv{k, v})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v })
		m := map[string]int64{}
		for _, x := range l[:40] {
			m[x.k] = x.v
		}
		st.Outcomes = m
	}
	return st, fails, envErr
}

// once runs one prefix in a fresh process.
func once(p *Property, h *Harness, root string, prefix []uint16, thorough bool, seed int64, history [][]uint16) (*result, *died, error) {
	w, err := startWorker(p, 900, root)
	if err != nil {
		return nil, nil, err
	}
	defer os.RemoveAll(w.dir)
	r, d := w.call(&task{Harness: h.Name, Nodes: [][]uint16{prefix}, Budget: 1, Thorough: thorough, Seed: seed, Single: true, History: history})
	if d == nil {
		w.in.Close()
		w.kill()
	}
	return r, d, nil
}

// confirm replays a failure in fresh processes; it must fail again.
func confirm(p *Property, h *Harness, root string, f failRec, thorough bool, seed int64) (failRec, bool) {
	n := 0
	for i := 0; i < 5; i++ {
		r, d, err := once(p, h, root, f.Prefix, thorough, seed, nil)
		if err != nil {
			continue
		}
		if d != nil || len(r.Fails) > 0 {
			n++
		}
	}
	if n == 0 {
		if f2, ok := confirmHistory(p, h, root, f, thorough, seed); ok {
			return f2, true
		}
		fmt.Fprintf(os.Stderr, "unconfirmed (0/5 replays failed): %s: %s\n", f.Desc, firstLines(f.Msg, 3))
		return f, false
	}
	f.Msg += fmt.Sprintf("\n(reproduced in %d of 5 fresh processes)", n)
	f.History = nil
	return f, true
}

// confirmHistory replays a failure after the executions which came before it
// in the same process: behaviour which depends on earlier use of the library
// does not show in a fresh process. It has to fail twice.
func confirmHistory(p *Property, h *Harness, root string, f failRec, thorough bool, seed int64) (failRec, bool) {
	for k := 1; ; k *= 4 {
		if k > len(f.History) {
			k = len(f.History)
		}
		hist := f.History[len(f.History)-k:]
		n := 0
		for n < 2 {
			r, d, err := once(p, h, root, f.Prefix, thorough, seed, hist)
			if err != nil || d != nil || len(r.Fails) == 0 {
				break
			}
			n++
		}
		if n == 2 {
			f.History = hist
			f.Msg += fmt.Sprintf("\n(reproduced in fresh processes after %d earlier executions)", len(hist))
			return f, true
		}
		if k == len(f.History) {
			return f, false
		}
	}
}

func confirmCrash(p *Property, h *Harness, root string, d *died, thorough bool, seed int64) *failRec {
	for i := 0; i < 2; i++ {
		r, d2, err := once(p, h, root, d.node, thorough, seed, nil)
		if err != nil {
			continue
		}
		if d2 == nil && len(r.Fails) > 0 {
			// alone, the execution survives for long enough to be judged
			if f, ok := confirm(p, h, root, r.Fails[0], thorough, seed); ok {
				return &f
			}
		}
		if d2 != nil {
			what := "the process died: " + firstLines(strings.TrimSpace(d2.stderr), 8)
			if d2.hang {
				what = fmt.Sprintf("no progress after %.0f CPU seconds (hang)", HangCPU)
			}
			f := &failRec{Harness: h.Name, Prefix: d.node, Msg: what, Crash: true, Desc: fmt.Sprint("prefix ", d.node)}
			f.Desc = dryDesc(p, h, root, d.node, thorough, seed)
			return f
		}
	}
	return nil
}

// dryDesc names a crashing case by its prefix (it cannot be run to completion).
func dryDesc(p *Property, h *Harness, root string, node []uint16, thorough bool, seed int64) string {
	s := make([]string, len(node))
	for i, x := range node {
		s[i] = strconv.Itoa(int(x))
	}
	return "prefix " + strings.Join(s, ",")
}

type replayFile struct {
	Property string     `json:"property"`
	Harness  string     `json:"harness"`
	Prefix   []uint16   `json:"prefix"`
	Desc     string     `json:"case"`
	Msg      string     `json:"message"`
	Thorough bool       `json:"thorough"`
	History  [][]uint16 `json:"history,omitempty"`
	Command  string     `json:"command"`
}

func writeReplay(p *Property, f failRec, thorough bool) string {
	dir := filepath.Join(VerifDir, "replay")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", p.ID, f.Harness, time.Now().UnixNano()))
	b, _ := json.MarshalIndent(replayFile{Property: p.ID, Harness: f.Harness, Prefix: f.Prefix, Desc: f.Desc, Msg: f.Msg, Thorough: thorough, History: f.History,
		Command: "bash /verif/run.sh " + p.ID + " replay " + path}, "", " ")
	os.WriteFile(path, b, 0644)
	return path
}

// Replay re-executes a recorded violation, twice, and reports what happens.
func Replay(p *Property, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	h := findHarness(p, rf.Harness)
	if h == nil {
		fmt.Fprintln(os.Stderr, "no such harness", rf.Harness)
		return 2
	}
	root, err := ScratchRoot()
	if err != nil {
		return 2
	}
	defer os.RemoveAll(root)
	if err := prepare(p, root); err != nil {
		fmt.Fprintln(os.Stderr, "prepare:", err)
		return 2
	}
	keep := os.Getenv("VERIF_KEEP")
	if keep != "" {
		os.MkdirAll(keep, 0755)
		c, fail, env := run(h, rf.Prefix, keep, rf.Thorough, 1)
		fmt.Println("case:", c.Desc(), "\nresult:", fail, env, c.bad, "\ninputs:", c.files)
		return 0
	}
	for i := 0; i < 2; i++ {
		r, d, err := once(p, h, root, rf.Prefix, rf.Thorough, 1, rf.History)
		switch {
		case err != nil:
			fmt.Println("error:", err)
		case d != nil:
			fmt.Println("process died; hang:", d.hang, firstLines(d.stderr, 10))
		case len(r.Fails) > 0:
			fmt.Println("case:", r.Fails[0].Desc)
			fmt.Println("FAILS:", r.Fails[0].Msg)
		default:
			fmt.Println("passes", r.EnvErr, r.Diverged)
		}
	}
	return 0
}

func writeEvidence(p *Property, tier string, seed int64, stats []*harnessStats, states, viol, known int, wall time.Duration) {
	var execs, trans, points int64
	ex := true
	var samples []interface{}
	var outs int
	for _, s := range stats {
		execs += s.Executions
		trans += s.Transitions + s.ChoicePoints
		points += s.ChoicePoints
		ex = ex && s.Exhaustive
		outs += len(s.Outcomes)
		for i, x := range s.Samples {
			if i < 2 && len(x) < 600 {
				samples = append(samples, s.Name+": "+x)
			}
		}
		if len(s.Samples) > 2 {
			s.Samples = nil
		}
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": map[string]interface{}{
			"states":                         states,
			"transitions":                    trans,
			"traces_validated_against_impl":  execs,
			"choice_points":                  points,
			"distinct_outcome_classes":       outs,
			"exhaustive":                     ex,
			"rule":                           p.Rule,
			"samples":                        samples,
			"harnesses":                      stats,
			"known_findings_hit_on_this_run": known,
		},
		"assumptions": p.Assumptions,
		"wall_s":      wall.Seconds(),
		"violations":  viol,
	}
	WriteEvidence(p.ID, ev)
}

// WriteEvidence writes evidence/<id>.json.
func WriteEvidence(id string, ev interface{}) {
	dir := filepath.Join(VerifDir, "evidence")
	os.MkdirAll(dir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0644)
}

package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"verif/mc/engine"
	"verif/mc/instr"
)

// The concurrency checks run an instrumented copy of the repository, in which
// one thread runs at a time and every place where another could take over is a
// choice of the explorer. Each schedule is a process of its own, under the race
// detector.

const schedModule = "github.com/pbnjay/grate"

// schedBuild makes the instrumented copy and builds what runs in it. If the
// code uses something that cannot be controlled the check has nothing to say.
func schedBuild(targets map[string]string) func(root string) error {
	return func(root string) error {
		if err := schedTry(root, targets); err != nil {
			os.Setenv("VERIF_DEGRADED", err.Error())
			fmt.Fprintln(os.Stderr, "not explored, the code cannot be instrumented:", err)
		}
		return nil
	}
}

func schedTry(root string, targets map[string]string) error {
	conc := filepath.Join(engine.VerifDir, "mc", "conc")
	dst := filepath.Join(root, "copy")
	patterns := []string{".", "./simple", "./xls", "./xlsx"}
	for _, dir := range targets {
		if strings.HasPrefix(dir, "cmd/") {
			patterns = append(patterns, "./"+dir)
		}
	}
	st, err := instr.Copy("/repo", dst, filepath.Join(conc, "mcsync"), patterns...)
	if err != nil {
		return err
	}
	fmt.Printf("instrumented: %d files, %d channel operations, %d go statements, %d imports of sync, %d accesses; variables %v\n", st.Files, st.ChanOps, st.GoStmts, st.SyncImports, st.Points, st.Vars)
	for src, dir := range targets {
		b, err := os.ReadFile(filepath.Join(conc, src))
		if err != nil {
			return err
		}
		d := filepath.Join(dst, dir)
		os.MkdirAll(d, 0755)
		if err := os.WriteFile(filepath.Join(d, "zz_mc.go"), bytes.ReplaceAll(b, []byte("MODULE"), []byte(schedModule)), 0644); err != nil {
			return err
		}
		cmd := exec.Command("go", "build", "-race", "-o", filepath.Join(root, filepath.Base(dir)), "./"+dir)
		cmd.Dir = dst
		if out, err := cmd.CombinedOutput(); err != nil {
			return fmt.Errorf("%v: %s", err, out)
		}
	}
	return nil
}

type schedJob struct {
	Prefix []byte
	Level  int
	CPUs   int
	Out    string
	Data   interface{}
}

type schedAnswer struct {
	Status  string
	Trace   []byte
	Points  int
	Diverge bool
	Data    []string
}

// schedRun runs a binary under the schedule the explorer asks for. It returns
// the answer, or nil if there is nothing to check in this execution.
func schedRun(c *engine.Ctx, bin, dir string, level, cpus int, delay bool, data interface{}, args ...string) *schedAnswer {
	if os.Getenv("VERIF_DEGRADED") != "" {
		c.Outcome("not instrumented")
		return nil
	}
	// the race detector reserves terabytes of addresses
	var lim syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_AS, &lim) == nil && lim.Cur != lim.Max {
		lim.Cur = lim.Max
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	input := c.Desc()
	j := schedJob{Level: level, CPUs: cpus, Out: filepath.Join(c.Scratch(), "answer"), Data: data}
	for _, x := range c.Rest() {
		j.Prefix = append(j.Prefix, byte(x))
	}
	b, err := json.Marshal(j)
	if err != nil {
		c.Environment(err)
	}
	job := filepath.Join(c.Scratch(), "job")
	if err := os.WriteFile(job, b, 0644); err != nil {
		c.Environment(err)
	}
	os.Remove(j.Out)
	var out bytes.Buffer
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_ROOT"), bin), args...)
	cmd.Dir = dir
	cmd.Env = []string{"MC_JOB=" + job, "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "PATH=" + os.Getenv("PATH"), "HOME=" + dir, "TZ=UTC", "TMPDIR=" + dir}
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		c.Environment(err)
	}
	timer := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	if !timer.Stop() {
		c.Environment(fmt.Errorf("a schedule did not end in time"))
	}
	code := cmd.ProcessState.ExitCode()
	var a *schedAnswer
	if b, err2 := os.ReadFile(j.Out); err2 == nil {
		a = &schedAnswer{}
		if json.Unmarshal(b, a) != nil {
			a = nil
		}
	}
	tail := out.String()
	if len(tail) > 3000 {
		tail = tail[:3000]
	}
	if a == nil {
		c.Steps(len(j.Prefix))
		switch {
		case code == 66:
			c.Failf("data race\n%s", schedRace(tail))
		case code == 9 || code < 0:
			c.Environment(fmt.Errorf("the process ended with %d: %s", code, tail))
		case strings.Contains(tail, "failed to reserve") || strings.Contains(tail, "ThreadSanitizer failed") || strings.Contains(tail, "out of memory") || strings.Contains(tail, "cannot allocate"):
			c.Environment(fmt.Errorf("%s", tail))
		}
		c.Failf("the process ended with exit status %d\n%s", code, tail)
	}
	c.Steps(a.Points)
	if a.Diverge {
		c.Outcome("diverged")
		return nil
	}
	// the choices of the process are choices of this execution
	for i := 0; i+2 < len(a.Trace); i += 3 {
		n, kind := int(a.Trace[i]), a.Trace[i+2]
		if kind == 1 && !delay {
			c.Pick(fmt.Sprint("turn", i/3), n)
		} else {
			c.Dev([]string{"switch", "turn", "miss"}[kind]+fmt.Sprint(i/3), n)
		}
	}
	c.State(input, a.Trace)
	switch {
	case code == 66:
		c.Failf("data race\n%s", schedRace(tail))
	case a.Status == "limit":
		c.Environment(fmt.Errorf("a schedule did not end"))
	case a.Status != "ok" || code != 0:
		c.Failf("%s (exit status %d)\n%s", a.Status, code, tail)
	}
	if len(a.Data) > 0 {
		c.Failf("%s", strings.Join(a.Data, "\n"))
	}
	return a
}

// schedRace keeps the functions of a report.
func schedRace(s string) string {
	var l []string
	for _, x := range strings.Split(s, "\n") {
		if strings.HasPrefix(x, "Read at") || strings.HasPrefix(x, "Write at") || strings.HasPrefix(x, "Previous") || strings.Contains(x, schedModule) && strings.Contains(x, "()") {
			l = append(l, strings.TrimSpace(x))
		}
	}
	if len(l) == 0 {
		return s
	}
	return strings.Join(l, "\n")
}

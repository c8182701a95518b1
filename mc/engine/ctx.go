// Package engine is a small stateless model checker: a harness is a function
// that builds one execution by asking a Ctx for choices, and the explorer
// enumerates every sequence of choices, either completely (Pick) or up to a
// bound on the number of departures from the default answer (Dev).
package engine

import (
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"strings"
)

// Point is one choice point of an execution.
type Point struct {
	Label  string
	N      int
	Choice int
	Dev    bool
}

// Ctx is one execution of a harness.
type Ctx struct {
	prefix []uint16
	Trace  []Point
	devs   int

	states   []uint64
	steps    int64
	outcomes []string
	bad      string // replay divergence
	scratch  string
	files    []string
	nfile    int
	Thorough bool
	Seed     int64
}

type failure struct{ msg string }

func (c *Ctx) choose(label string, n int, dev bool) int {
	if n <= 0 {
		panic("engine: choice point with no alternatives: " + label)
	}
	i := len(c.Trace)
	ch := 0
	if i < len(c.prefix) {
		ch = int(c.prefix[i])
		if ch >= n {
			c.bad = fmt.Sprintf("replay divergence at point %d (%s): choice %d of %d", i, label, ch, n)
			panic(divergence{c.bad})
		}
	}
	if dev && ch != 0 {
		c.devs++
	}
	c.Trace = append(c.Trace, Point{label, n, ch, dev})
	return ch
}

// Rest is what the given choices leave to be decided: a harness which runs its
// choices in another process passes them on and repeats them here afterwards.
func (c *Ctx) Rest() []uint16 {
	if len(c.Trace) >= len(c.prefix) {
		return nil
	}
	return c.prefix[len(c.Trace):]
}

// Environment gives an execution up for a reason that is no statement about the code.
func (c *Ctx) Environment(err error) { panic(envError{err}) }

type divergence struct{ msg string }

// Pick is a choice point explored completely.
func (c *Ctx) Pick(label string, n int) int { return c.choose(label, n, false) }

// Dev is a choice point whose answer 0 is the default; each other answer costs one deviation.
func (c *Ctx) Dev(label string, n int) int { return c.choose(label, n, true) }

// Bool is a two-way Dev.
func (c *Ctx) Bool(label string) bool { return c.Dev(label, 2) == 1 }

// State records a distinct model state (by hash).
func (c *Ctx) State(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0xfe})
	}
	c.states = append(c.states, h.Sum64())
}

// Steps counts transitions taken on the implementation.
func (c *Ctx) Steps(n int) { c.steps += int64(n) }

// Outcome counts a class of observed outcome.
func (c *Ctx) Outcome(s string) { c.outcomes = append(c.outcomes, s) }

// Failf reports that this execution breaks the property.
func (c *Ctx) Failf(format string, a ...interface{}) {
	panic(failure{fmt.Sprintf(format, a...)})
}

// Scratch returns a directory private to this worker.
func (c *Ctx) Scratch() string { return c.scratch }

// File writes data as an input file for this execution and returns its path.
func (c *Ctx) File(name string, data []byte) string {
	p := filepath.Join(c.scratch, name)
	if err := os.WriteFile(p, data, 0644); err != nil {
		// an environment problem, not a property violation
		panic(envError{err})
	}
	seen := false
	for _, f := range c.files {
		if f == p {
			seen = true
		}
	}
	if !seen {
		c.files = append(c.files, p)
	}
	return p
}

type envError struct{ err error }

// Desc describes the execution by its non-default choices.
func (c *Ctx) Desc() string {
	var b strings.Builder
	for _, p := range c.Trace {
		if p.Dev && p.Choice == 0 {
			continue
		}
		if b.Len() > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "%s=%d/%d", p.Label, p.Choice, p.N)
	}
	if b.Len() == 0 {
		return "default"
	}
	return b.String()
}

// Guard runs f and converts a panic of the code under test into a failure.
func (c *Ctx) Guard(what string, f func()) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch r.(type) {
		case failure, divergence, envError:
			panic(r)
		}
		panic(failure{fmt.Sprintf("%s: panic: %v [%s]", what, r, panicSite())})
	}()
	f()
}

// panicSite names the innermost grate function on the stack.
func panicSite() string {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(2, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "pbnjay/grate") {
			return fmt.Sprintf("%s:%d", f.Function, f.Line)
		}
		if !more {
			return "?"
		}
	}
}

// Harness is one closed system to explore.
type Harness struct {
	Name     string
	Run      func(*Ctx)
	Quick    int // deviation bound for the quick check
	Thorough int // deviation bound for the thorough check
	Only     string
}

// Property is a claimed property and the harnesses which decide it.
type Property struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Harnesses   []Harness
	// Prepare builds what the harnesses need, once per run.
	Prepare func(root string) error
	// Custom replaces the generic exploration (used by the scheduler checks).
	Custom func(tier string, seed int64) int
}

// Registry of properties.
var Registry = map[string]*Property{}

// Register adds a property.
func Register(p *Property) { Registry[p.ID] = p }

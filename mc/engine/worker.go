package engine

import (
	"bufio"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"io"
	"log"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"syscall"
	"time"
)

type task struct {
	Harness  string
	Nodes    [][]uint16
	Expand   bool // expand children with exactly Cost deviations from each node (node itself already executed)
	Cost     int
	Budget   int
	Thorough bool
	Seed     int64
	Single   bool       // execute only the given prefix
	History  [][]uint16 // executions which come before it in the same process
}

type failRec struct {
	Harness string
	Prefix  []uint16
	Msg     string
	Desc    string
	Crash   bool
	History [][]uint16 // what the process executed before (the latest ones)
}

type result struct {
	Execs    int64
	Trans    int64
	Points   int64
	States   []uint64
	Outcomes map[string]int64
	Done     [][]uint16 // executed nodes, kept for the next stage
	Rest     []pending  // unfinished work
	Fails    []failRec
	EnvErr   string
	Diverged string
	Samples  []string
	HasDev   bool
}

type pending struct {
	Node   []uint16
	Expand bool
}

func findHarness(p *Property, name string) *Harness {
	for i := range p.Harnesses {
		if p.Harnesses[i].Name == name {
			return &p.Harnesses[i]
		}
	}
	return nil
}

// run executes one prefix.
func run(h *Harness, prefix []uint16, scratch string, thorough bool, seed int64) (c *Ctx, fail string, envErr string) {
	c = &Ctx{prefix: prefix, scratch: scratch, Thorough: thorough, Seed: seed}
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch v := r.(type) {
			case failure:
				fail = v.msg
			case divergence:
				c.bad = v.msg
			case envError:
				envErr = v.err.Error()
			default:
				site := panicSite()
				if site == "?" {
					fail = fmt.Sprintf("panic while checking the observed results: %v\n%s", r, debug.Stack())
				} else {
					fail = fmt.Sprintf("panic: %v [%s]", r, site)
				}
			}
		}()
		h.Run(c)
	}()
	if c.bad == "" && len(c.Trace) < len(prefix) && fail == "" && envErr == "" {
		c.bad = fmt.Sprintf("replay divergence: %d choices given, %d used", len(prefix), len(c.Trace))
	}
	return
}

func (c *Ctx) choices() []uint16 {
	r := make([]uint16, len(c.Trace))
	for i, p := range c.Trace {
		r[i] = uint16(p.Choice)
	}
	return r
}

// Worker executes tasks from stdin.
func Worker(p *Property, scratch string) {
	signal.Ignore(syscall.SIGINT)
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(1 << 30)
	log.SetOutput(io.Discard)
	if lim := uint64(6) << 30; true {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	}
	out := os.NewFile(3, "results")
	bw := bufio.NewWriterSize(out, 1<<16)
	enc := gob.NewEncoder(bw)
	dec := gob.NewDecoder(bufio.NewReader(os.Stdin))
	st := newStatus(filepath.Join(scratch, "status"))
	seen := map[uint64]struct{}{}
	var history [][]uint16
	for {
		var t task
		if err := dec.Decode(&t); err != nil {
			return
		}
		h := findHarness(p, t.Harness)
		res := result{Outcomes: map[string]int64{}}
		var stack []pending
		for i := len(t.Nodes) - 1; i >= 0; i-- {
			stack = append(stack, pending{t.Nodes[i], t.Expand})
		}
		for _, nd := range t.History {
			st.begin(nd)
			run(h, nd, scratch, t.Thorough, t.Seed)
			st.end()
		}
		deadline := time.Now().Add(2 * time.Second)
		n := 0
		for len(stack) > 0 {
			if n >= t.Budget || (n&15 == 15 && time.Now().After(deadline)) || len(res.Fails) >= 3 || res.EnvErr != "" || res.Diverged != "" {
				break
			}
			it := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			st.begin(it.Node)
			c, fail, envErr := run(h, it.Node, scratch, t.Thorough, t.Seed)
			st.end()
			n++
			if envErr != "" {
				res.EnvErr = envErr
				break
			}
			if c.bad != "" {
				res.Diverged = c.bad + " (" + c.Desc() + ")"
				break
			}
			if !it.Expand {
				res.Execs++
				res.Trans += c.steps
				res.Points += int64(len(c.Trace))
				for _, s := range c.states {
					if _, ok := seen[s]; !ok && len(seen) < 1<<22 {
						seen[s] = struct{}{}
						res.States = append(res.States, s)
					}
				}
				for _, o := range c.outcomes {
					if len(res.Outcomes) < 200 {
						res.Outcomes[o]++
					} else if _, ok := res.Outcomes[o]; ok {
						res.Outcomes[o]++
					}
				}
				if len(res.Samples) < 2 {
					res.Samples = append(res.Samples, c.Desc())
				}
			}
			if fail != "" {
				if !it.Expand {
					prefix := c.choices()
					if len(prefix) < len(it.Node) {
						prefix = it.Node // the rest was passed on to another process
					}
					res.Fails = append(res.Fails, failRec{Harness: h.Name, Prefix: prefix, Msg: fail, Desc: c.Desc(), History: append([][]uint16(nil), history...)})
				}
				// (what else there is may be a known finding: go on)
			}
			history = remember(history, it.Node)
			if t.Single {
				continue
			}
			// children
			ch := c.choices()
			devs := 0
			cost := make([]int, len(c.Trace))
			for i, pt := range c.Trace {
				cost[i] = devs
				if pt.Dev {
					res.HasDev = true
					if pt.Choice != 0 {
						devs++
					}
				}
			}
			if !it.Expand {
				res.Done = append(res.Done, it.Node)
			}
			for i := len(c.Trace) - 1; i >= len(it.Node); i-- {
				pt := c.Trace[i]
				k := cost[i]
				if pt.Dev {
					k++
				}
				if it.Expand && (!pt.Dev || k != t.Cost) {
					continue // cost-0 children were explored with the node itself
				}
				if !it.Expand && pt.Dev {
					continue
				}
				for alt := pt.N - 1; alt >= 1; alt-- {
					child := make([]uint16, i+1)
					copy(child, ch[:i])
					child[i] = uint16(alt)
					stack = append(stack, pending{child, false})
				}
			}
		}
		res.Rest = stack
		if err := enc.Encode(&res); err != nil {
			return
		}
		bw.Flush()
	}
}

// maxHistory is how many executions of a process are kept to reproduce a
// failure which depends on what was executed before.
const maxHistory = 4096

func remember(h [][]uint16, node []uint16) [][]uint16 {
	if len(h) >= 2*maxHistory {
		h = append(h[:0], h[maxHistory:]...)
	}
	return append(h, node)
}

// status is a memory-mapped record of the execution in progress, read by the
// coordinator when a worker dies or stops making progress.
type status struct{ m []byte }

const statusSize = 1 << 16

func newStatus(path string) *status {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0600)
	if err != nil {
		return &status{make([]byte, statusSize)}
	}
	f.Truncate(statusSize)
	m, err := syscall.Mmap(int(f.Fd()), 0, statusSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	f.Close()
	if err != nil {
		return &status{make([]byte, statusSize)}
	}
	return &status{m}
}

func (s *status) begin(node []uint16) {
	binary.LittleEndian.PutUint64(s.m[0:], binary.LittleEndian.Uint64(s.m[0:])+1)
	n := len(node)
	if n > (statusSize-64)/2 {
		n = (statusSize - 64) / 2
	}
	binary.LittleEndian.PutUint32(s.m[8:], uint32(n))
	for i := 0; i < n; i++ {
		binary.LittleEndian.PutUint16(s.m[64+2*i:], node[i])
	}
	s.m[12] = 1
}
func (s *status) end() { s.m[12] = 0 }

func readStatus(path string) (count uint64, active bool, node []uint16, ok bool) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 64 {
		return 0, false, nil, false
	}
	count = binary.LittleEndian.Uint64(b)
	n := int(binary.LittleEndian.Uint32(b[8:]))
	active = b[12] == 1
	if 64+2*n > len(b) {
		return count, active, nil, false
	}
	for i := 0; i < n; i++ {
		node = append(node, binary.LittleEndian.Uint16(b[64+2*i:]))
	}
	return count, active, node, true
}

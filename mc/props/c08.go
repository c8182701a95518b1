package props

import (
	"bytes"
	"fmt"
	"io"
	"math"

	"github.com/pbnjay/grate/xls/cfb"

	"verif/mc/engine"
)

// chunk layouts of a seven byte stream; 0 stands for the empty trailing slice
// which a stream whose size is a multiple of the sector size ends with.
var c08Layouts = [][]int{
	{7}, {3, 4}, {1, 6}, {6, 1}, {2, 2, 3}, {1, 1, 5}, {2, 4, 1, 0}, {7, 0}, {1, 1, 1, 1, 1, 1, 1}, {3, 3, 1}, {4, 3, 0},
}

// a read (read >= 0) or a seek
type c08Op struct {
	read   int
	off    int64
	whence int
}

// the operations: reads of five sizes, seeks to every place that exists and one beyond on each side
func c08Small(c *engine.Ctx, depth int) {
	lay := c08Layouts[c.Pick("layout", len(c08Layouts))]
	full := []byte("ABCDEFG")
	L := len(full)
	var ops []c08Op
	for _, n := range []int{1, 2, 3, 5, 9} {
		ops = append(ops, c08Op{read: n})
	}
	for o := -1; o <= L+1; o++ {
		ops = append(ops, c08Op{-1, int64(o), io.SeekStart})
	}
	for o := -L - 1; o <= L+1; o++ {
		ops = append(ops, c08Op{-1, int64(o), io.SeekCurrent})
	}
	for o := -L - 1; o <= 1; o++ {
		ops = append(ops, c08Op{-1, int64(o), io.SeekEnd})
	}
	c08Run(c, depth, lay, full, ops)
}

// offsets far beyond any stream, between operations which move the position
func c08Huge(c *engine.Ctx) {
	lay := c08Layouts[c.Pick("layout", len(c08Layouts))]
	full := []byte("ABCDEFG")
	ops := []c08Op{{read: 2}, {read: 9}, {-1, 3, io.SeekStart}, {-1, -1, io.SeekEnd}}
	for _, o := range []int64{1 << 16, 1 << 31, 1<<31 + 3, 1<<31 - 1, 1 << 32, 1<<32 + 2, 1<<32 - 1, 1 << 33, 1<<40 + 5, 1 << 62, 1<<63 - 1, 1<<63 - 8} {
		for w := io.SeekStart; w <= io.SeekEnd; w++ {
			ops = append(ops, c08Op{-1, o, w}, c08Op{-1, -o, w})
		}
	}
	for w := io.SeekStart; w <= io.SeekEnd; w++ {
		ops = append(ops, c08Op{-1, math.MinInt64, w})
	}
	depth := 2
	if c.Thorough {
		depth = 3
	}
	c08Run(c, depth, lay, full, ops)
}

var c08Pat = pat(8, 9000*512)

// long streams: every pair of operations around the boundaries of the slices
func c08Long(c *engine.Ctx) {
	k := c.Pick("layout", 5)
	size := []int{64, 512, 4096, 512, 64}[k]
	n := []int{1000, 300, 40, 9000, 70000}[k]
	cut := []int{0, 1, size - 1}[c.Pick("last", 3)] // the last slice is shorter
	full := c08Pat[:size*n-cut]
	lay := make([]int, n)
	for i := range lay {
		lay[i] = size
	}
	lay[n-1] -= cut
	L := len(full)
	ops := []c08Op{{read: 1}, {read: size}, {read: size + 1}, {read: 3 * size}, {read: L + 1}}
	places := []int{0, 1, 2, 127, 128, 255, 256, 257, n / 2, n - 2, n - 1, n}
	if n > 2000 {
		places = []int{0, 1, 256, 32768, 65536, n - 1, n}
		if !c.Thorough {
			places = places[2:]
		}
	}
	for _, p := range places {
		for d := -1; d <= 1; d++ {
			o := p*size + d
			if o < 0 || o > L+1 {
				continue
			}
			ops = append(ops, c08Op{-1, int64(o), io.SeekStart}, c08Op{-1, int64(o - L), io.SeekEnd})
		}
	}
	for _, o := range []int{-size, -1, 0, 1, size - 1, size, size + 1, 2 * size, -100 * size, 100 * size} {
		ops = append(ops, c08Op{-1, int64(o), io.SeekCurrent})
	}
	c08Run(c, 2, lay, full, ops)
}

func c08Run(c *engine.Ctx, depth int, lay []int, full []byte, ops []c08Op) {
	sr := &cfb.SliceReader{}
	rest := append([]byte(nil), full...)
	for _, n := range lay {
		sr.Data = append(sr.Data, rest[:n:n])
		rest = rest[n:]
	}
	L := len(full)
	pos := 0
	hist := fmt.Sprint(lay[:min(len(lay), 12)])
	c.State(hist, pos)
	for d := 0; d < depth; d++ {
		o := ops[c.Pick("op", len(ops))]
		c.Steps(1)
		if o.read >= 0 {
			hist += fmt.Sprintf(" Read(%d)", o.read)
			buf := bytes.Repeat([]byte{'?'}, o.read)
			n, err := 0, error(nil)
			c.Guard(hist, func() { n, err = sr.Read(buf) })
			if n < 0 || n > o.read {
				c.Failf("%s: returned %d bytes", hist, n)
			}
			if pos+n > L || !bytes.Equal(buf[:n], full[pos:pos+n]) {
				c.Failf("%s: at position %d got %q", hist, pos, buf[:n])
			}
			if pos == L && (n != 0 || err != io.EOF) {
				c.Failf("%s: at the end got n=%d err=%v, want 0 and EOF", hist, n, err)
			}
			if pos < L && n == 0 {
				c.Failf("%s: no progress before the end (position %d, err=%v)", hist, pos, err)
			}
			if err != nil && err != io.EOF {
				c.Failf("%s: error %v", hist, err)
			}
			if err == io.EOF && pos+n < L {
				c.Failf("%s: EOF at %d before the end", hist, pos+n)
			}
			if o.read > 0 && pos == L && d+1 == depth {
				m, err := sr.Read(nil)
				if m != 0 || err != nil && err != io.EOF {
					c.Failf("%s: an empty read at the end gives %d, %v", hist, m, err)
				}
			}
			pos += n
		} else {
			hist += fmt.Sprintf(" Seek(%d,%d)", o.off, o.whence)
			want, base := o.off, int64(0)
			switch o.whence {
			case io.SeekCurrent:
				base = int64(pos)
			case io.SeekEnd:
				base = int64(L)
			}
			if want > math.MaxInt64-base {
				want = math.MaxInt64
			} else {
				want += base
			}
			var got int64
			var err error
			c.Guard(hist, func() { got, err = sr.Seek(o.off, o.whence) })
			switch {
			case want < 0:
				if err == nil {
					c.Failf("%s: seeking before the start gave %d and no error", hist, got)
				}
				c.Outcome("before start: error")
			case want > int64(L):
				// the io.Seeker contract leaves this open: it may be refused, or reads then report EOF
				if err == nil {
					n, rerr := sr.Read(make([]byte, 1))
					if n != 0 || rerr != io.EOF {
						c.Failf("%s: read beyond the end gave %d, %v", hist, n, rerr)
					}
					return
				}
				c.Outcome("after end: error")
			default:
				if err != nil || got != want {
					c.Failf("%s: got %d, %v; want %d", hist, got, err, want)
				}
				pos = int(want)
				c.Outcome("seek ok")
			}
		}
		c.State(len(lay), lay[:min(len(lay), 12)], pos)
	}
	// whatever happened, the rest of the stream is what lies behind the position
	var tail []byte
	var err error
	if left := L - pos; left > 20000 {
		tail = make([]byte, 20000)
		c.Guard(hist+" ReadFull", func() { _, err = io.ReadFull(sr, tail) })
		if err != nil || !bytes.Equal(tail, full[pos:pos+20000]) {
			c.Failf("%s ReadFull: %v, first difference at %d", hist, err, diffAt(tail, full[pos:]))
		}
		return
	}
	c.Guard(hist+" ReadAll", func() { tail, err = io.ReadAll(sr) })
	if err != nil || !bytes.Equal(tail, full[pos:]) {
		c.Failf("%s ReadAll: got %q, %v; want %q", hist, tail, err, full[pos:])
	}
}

func init() {
	engine.Register(&engine.Property{
		ID: "C08", Level: "model_checking",
		Rule: "every operation sequence of the given depth over 5 reads and every seek target of a 7 byte stream, for 11 slice layouts; huge: every two (thorough three) operations with offsets up to the limits of int64; long: every two operations around the slice boundaries of streams of up to 70000 slices (the 20000 bytes after each history compared); oracle: the position/bytes model of io.ReadSeeker",
		Assumptions: []string{
			"the streams of ops are small: the reader's control flow depends only on slice boundaries, which the layouts cover",
			"after a refused seek the position is unchanged, as for bytes.Reader",
		},
		Harnesses: []engine.Harness{
			{Name: "huge", Run: c08Huge},
			{Name: "long", Run: c08Long},
			{Name: "ops3", Run: func(c *engine.Ctx) { c08Small(c, 3) }, Only: "quick"},
			{Name: "ops4", Run: func(c *engine.Ctx) { c08Small(c, 4) }, Only: "thorough"},
		},
	})
}

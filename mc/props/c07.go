package props

import (
	"bytes"
	"fmt"
	"io"
	"sort"

	"github.com/pbnjay/grate/xls/cfb"

	"verif/mc/engine"
	"verif/mc/gen"
)

// pat is position dependent content, so that any exchanged byte shows.
func pat(id, n int) []byte {
	b := make([]byte, n)
	x := uint32(id)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

// c07Check renders the file, opens it and compares every stream.
func c07Check(c *engine.Ctx, f *gen.CFB) { c07CheckBytes(c, f, f.Bytes()) }

func c07CheckBytes(c *engine.Ctx, f *gen.CFB, data []byte) {
	path := c.File("f.cfb", data)
	c.State(data[:min(len(data), 1<<17)], len(data))
	var doc *cfb.Document
	var err error
	c.Guard("cfb.Open", func() { doc, err = cfb.Open(path) })
	if err != nil {
		c.Failf("cfb.Open: %v", err)
	}
	var want []string
	order := f.DirOrder
	if order == nil {
		for i := range f.Streams {
			order = append(order, i)
		}
	}
	for _, i := range order {
		if i >= 0 && !f.Streams[i].Storage {
			want = append(want, f.Streams[i].Name)
		}
	}
	var got []string
	c.Guard("List", func() { got, err = doc.List() })
	a, b := append([]string(nil), want...), append([]string(nil), got...)
	sort.Strings(a)
	sort.Strings(b)
	if err != nil || fmt.Sprintf("%q", a) != fmt.Sprintf("%q", b) {
		c.Failf("List: %q, %v; want %q", got, err, want)
	}
	c.Steps(2)
	for _, i := range order {
		if i < 0 {
			continue
		}
		s := f.Streams[i]
		if (s.Parent != 0 || s.Storage) && !unique(f, i) {
			continue // the root's stream goes first; which of the nested ones is opened is not specified
		}
		var r io.ReadSeeker
		c.Guard("Open", func() { r, err = doc.Open(s.Name) })
		c.Steps(1)
		if s.Storage {
			if err == nil {
				c.Failf("opening storage %q as a stream succeeded", s.Name)
			}
			continue
		}
		if err != nil {
			c.Failf("Open(%q) of %d bytes: %v", s.Name, len(s.Data), err)
		}
		var all []byte
		c.Guard("ReadAll", func() { all, err = io.ReadAll(r) })
		if err != nil || !bytes.Equal(all, s.Data) {
			c.Failf("stream %q: read %d bytes (err %v), want %d; first difference at %d", s.Name, len(all), err, len(s.Data), diffAt(all, s.Data))
		}
		// the size by seeking, and a read from the middle
		c.Guard("Seek", func() {
			n, err := r.Seek(0, io.SeekEnd)
			if err != nil || n != int64(len(s.Data)) {
				c.Failf("stream %q: Seek to the end gives %d, %v; want %d", s.Name, n, err, len(s.Data))
			}
			mid := int64(len(s.Data) / 2)
			if n, err = r.Seek(mid, io.SeekStart); err != nil || n != mid {
				c.Failf("stream %q: Seek(%d) gives %d, %v", s.Name, mid, n, err)
			}
			rest, err := io.ReadAll(r)
			if err != nil || !bytes.Equal(rest, s.Data[mid:]) {
				c.Failf("stream %q: wrong bytes after Seek(%d)", s.Name, mid)
			}
		})
		c.Steps(3)
	}
	if _, err = doc.Open("no such stream"); err == nil {
		c.Failf("opening an unknown stream succeeded")
	}
	c.Outcome(fmt.Sprintf("v%d streams=%d ok", f.Version, len(want)))
}

// unique reports whether no other entry of the directory has the name.
func unique(f *gen.CFB, i int) bool {
	for k, s := range f.Streams {
		if k != i && s.Name == f.Streams[i].Name {
			return false
		}
	}
	return true
}

func diffAt(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

var c07Sizes = []int{0, 1, 2, 63, 64, 65, 127, 128, 129, 511, 512, 513, 575, 576, 577, 1023, 1024, 1025, 2047, 2048, 3967, 3968, 4031, 4032, 4033, 4095,
	4096, 4097, 4607, 4608, 4609, 5120, 8191, 8192, 8193, 9000, 12287, 12288, 12289}

func c07SizesRun(c *engine.Ctx) {
	f := &gen.CFB{Version: 3 + c.Pick("version", 2)}
	n1 := c07Sizes[c.Pick("size1", len(c07Sizes))]
	n2 := c07Sizes[c.Pick("size2", len(c07Sizes))]
	f.Streams = []gen.Stream{{Name: "Workbook", Data: pat(1, n1)}, {Name: "Other", Data: pat(2, n2)}}
	if c.Bool("reverse") {
		f.Perm = reversePerm
		f.MiniPerm = func(n int) []int { return reversePerm(make([]string, n)) }
	}
	c07Check(c, f)
}

func reversePerm(k []string) []int {
	p := make([]int, len(k))
	for i := range p {
		p[i] = len(k) - 1 - i
	}
	return p
}

// pickPerm chooses any permutation of n places.
func pickPerm(c *engine.Ctx, label string, n int) []int {
	left := make([]int, n)
	for i := range left {
		left[i] = i
	}
	p := make([]int, n)
	for i := range p {
		k := 0
		if len(left) > 1 {
			k = c.Pick(label, len(left))
		}
		p[i] = left[k]
		left = append(left[:k], left[k+1:]...)
	}
	return p
}

// all placements of the sectors of one kind among the places of that kind (data), or of all sectors
func c07Regular(c *engine.Ctx) {
	// eight data sectors: every order of the chain
	f := &gen.CFB{Version: 3, Streams: []gen.Stream{{Name: "Workbook", Data: pat(1, 4096-c.Pick("short", 1)+0)}}}
	f.Perm = func(kinds []string) []int {
		p := make([]int, len(kinds))
		var places []int
		for i := range kinds {
			p[i] = i
			if kinds[i] == "data" {
				places = append(places, i)
			}
		}
		q := pickPerm(c, "place", len(places))
		for i, pl := range places {
			p[pl] = places[q[i]]
		}
		return p
	}
	c07Check(c, f)
}

func c07V4All(c *engine.Ctx) {
	// version 4: every placement of every sector of a file with two large and one small stream
	f := &gen.CFB{Version: 4}
	f.Streams = []gen.Stream{{Name: "A", Data: pat(1, 8200)}, {Name: "B", Data: pat(3, 130)}}
	f.Perm = func(kinds []string) []int { return pickPerm(c, "place", len(kinds)) }
	c07Check(c, f)
}

func c07Mini(c *engine.Ctx) {
	// every placement of the mini sectors of two small streams, and every order of the other sectors
	f := &gen.CFB{Version: 3, FreeMini: c.Pick("freemini", 2)}
	sizes := [][2]int{{200, 64}, {256, 63}, {65, 129}}[c.Pick("sizes", 3)]
	f.Streams = []gen.Stream{{Name: "A", Data: pat(1, sizes[0])}, {Name: "B", Data: pat(2, sizes[1])}}
	f.MiniPerm = func(n int) []int { return pickPerm(c, "mini", n) }
	if c.Pick("outer", 2) == 1 {
		f.Perm = reversePerm
	}
	c07Check(c, f)
}

func c07MiniOuter(c *engine.Ctx) {
	// a mini stream of three sectors: every placement of every sector of the file
	f := &gen.CFB{Version: 3}
	f.Streams = []gen.Stream{{Name: "A", Data: pat(1, 700)}, {Name: "B", Data: pat(2, 600)}}
	f.Perm = func(kinds []string) []int { return pickPerm(c, "place", len(kinds)) }
	if c.Pick("mini", 2) == 1 {
		f.MiniPerm = func(n int) []int { return reversePerm(make([]string, n)) }
	}
	c07Check(c, f)
}

// permutations for larger files
func c07BigPerm(k int) func(kinds []string) []int {
	return func(kinds []string) []int {
		n := len(kinds)
		p := make([]int, n)
		switch k {
		case 0:
			for i := range p {
				p[i] = i
			}
		case 1:
			return reversePerm(kinds)
		case 2: // interleave: even places first
			for i := range p {
				if i%2 == 0 {
					p[i] = i / 2
				} else {
					p[i] = (n+1)/2 + i/2
				}
			}
		case 3: // rotate: the tables come last
			for i := range p {
				p[i] = (i + n - 3%n) % n
			}
		case 4: // a large stride
			s := 7
			for gcd(s, n) != 1 {
				s++
			}
			for i := range p {
				p[i] = (i*s + 3) % n
			}
		}
		return p
	}
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func c07Tables(c *engine.Ctx) {
	f := &gen.CFB{Version: 3}
	if c.Bool("v4") {
		f.Version = 4
	}
	large := []int{5000, 0, 65024, 65025, 66000, 140000}[c.Dev("large", 6)]
	nsmall := []int{1, 0, 3, 6, 12, 40}[c.Dev("nsmall", 6)]
	small := []int{300, 64, 4095, 4000}[c.Dev("smallsize", 4)]
	names := c.Dev("names", 3)
	name := func(i int) string {
		switch names {
		case 1:
			return fmt.Sprintf("%c\x05Ж𝄞 %d", 'a'+i%26, i)
		case 2:
			return fmt.Sprintf("a thirty-one character name %03d", i)
		}
		return fmt.Sprintf("s%d", i)
	}
	if large > 0 {
		f.Streams = append(f.Streams, gen.Stream{Name: "Workbook", Data: pat(99, large)})
	}
	for i := 0; i < nsmall; i++ {
		f.Streams = append(f.Streams, gen.Stream{Name: name(i), Data: pat(i, small-i%7)})
	}
	if len(f.Streams) == 0 || c.Bool("second large") {
		f.Streams = append(f.Streams, gen.Stream{Name: "Tail", Data: pat(77, 4700)})
	}
	if c.Bool("storage") {
		f.Streams = append([]gen.Stream{{Name: "Folder", Storage: true}}, f.Streams...)
	}
	// directory: unused entries in front, in between, at the end; the reverse order
	switch c.Dev("dir", 6) {
	case 1:
		f.DirOrder = []int{-1}
		for i := range f.Streams {
			f.DirOrder = append(f.DirOrder, i)
		}
	case 2:
		for i := range f.Streams {
			f.DirOrder = append(f.DirOrder, i, -1)
		}
	case 3:
		for i := len(f.Streams) - 1; i >= 0; i-- {
			f.DirOrder = append(f.DirOrder, i)
		}
	case 4:
		f.DirOrder = []int{-1, -1, -1, -1, -1, -1, -1, -1}
		for i := range f.Streams {
			f.DirOrder = append(f.DirOrder, i)
		}
	case 5:
		for i := range f.Streams {
			f.DirOrder = append(f.DirOrder, i)
		}
		f.DirOrder = append(f.DirOrder, -1, -1, -1)
	}
	f.Perm = c07BigPerm(c.Dev("perm", 5))
	switch c.Dev("miniperm", 4) {
	case 1:
		f.MiniPerm = func(n int) []int { return c07BigPerm(1)(make([]string, n)) }
	case 2:
		f.MiniPerm = func(n int) []int { return c07BigPerm(2)(make([]string, n)) }
	case 3:
		f.MiniPerm = func(n int) []int { return c07BigPerm(4)(make([]string, n)) }
	}
	f.Free = []int{0, 1, 5}[c.Dev("free", 3)]
	f.FreeMini = []int{0, 1, 9}[c.Dev("freemini", 3)]
	f.ExtraFAT = []int{0, 1, 3}[c.Dev("extrafat", 3)]
	f.ExtraMini = c.Dev("extramini", 2)
	f.HighBits = c.Bool("highbits")
	if c.Bool("minor") {
		f.Minor = 0x3B
	}
	if c.Bool("garbage") {
		f.Garbage = 0xEE
	}
	f.Trailing = []int{0, 1, 512}[c.Dev("trailing", 3)]
	f.MiniFATFree = c.Bool("minifatfree")
	c07Check(c, f)
}

// tables long enough to be chained through DIFAT sectors
func c07Difat(c *engine.Ctx) {
	f := &gen.CFB{Version: 3}
	// the last sizes fill a DIFAT sector to its last entry
	sizes := []int{109*128*512 - 120*512, 110 * 128 * 512, 7300000, 236*128*512 - 250*512, 237 * 128 * 512, 365 * 128 * 512}
	if c.Thorough {
		sizes = append(sizes, 300*128*512, 236*128*512-400*512, 364*128*512, 620*128*512)
	}
	n := sizes[c.Pick("size", len(sizes))]
	f.Perm = c07BigPerm(c.Pick("perm", 5))
	f.Streams = []gen.Stream{{Name: "Workbook", Data: pat(5, n)}, {Name: "small", Data: pat(6, 1000)}}
	c07Check(c, f)
}

// several mini FAT sectors: the mini stream of version 4 files needs more than 64 KB of small streams
func c07MiniV4(c *engine.Ctx) {
	f := &gen.CFB{Version: 4}
	n := []int{16, 17, 33, 34}[c.Pick("streams", 4)]
	for i := 0; i < n; i++ {
		f.Streams = append(f.Streams, gen.Stream{Name: fmt.Sprintf("s%d", i), Data: pat(i, 4095)})
	}
	f.Perm = c07BigPerm(c.Pick("perm", 5))
	k := c.Pick("miniperm", 5)
	f.MiniPerm = func(n int) []int { return c07BigPerm(k)(make([]string, n)) }
	c07Check(c, f)
}

// hundreds of small streams: a mini stream beyond 1 and 4 MB, a long directory
func c07MiniMany(c *engine.Ctx) {
	f := &gen.CFB{Version: 3 + c.Pick("version", 2)}
	n := []int{250, 262, 1030, 1100}[c.Pick("streams", 4)]
	for i := 0; i < n; i++ {
		f.Streams = append(f.Streams, gen.Stream{Name: fmt.Sprintf("s%d", i), Data: pat(i, 4095-i%3)})
	}
	k := c.Pick("perm", 5)
	f.Perm = c07BigPerm(k)
	f.MiniPerm = func(n int) []int { return c07BigPerm(k)(make([]string, n)) }
	c07Check(c, f)
}

// c07Embedded are contents of the root storage beside its stream "Workbook":
// storages of embedded documents, which hold streams of the same names.
func c07Embedded(k int, wb, other []byte) []gen.Stream {
	w := gen.Stream{Name: "Workbook", Data: wb}
	st := func(name string, parent int) gen.Stream { return gen.Stream{Name: name, Storage: true, Parent: parent} }
	in := func(name string, id, parent int) gen.Stream {
		d := other
		if id > 0 {
			d = pat(id, 4095+id)
		}
		return gen.Stream{Name: name, Data: d, Parent: parent}
	}
	switch k {
	case 0: // one embedded document
		return []gen.Stream{w, st("MBD0001A2B3", 0), in("Workbook", 0, 2)}
	case 1: // beside another stream, and with one of its own
		return []gen.Stream{w, {Name: "Z", Data: pat(8, 70)}, st("MBD0001A2B3", 0), in("Workbook", 0, 3), in("Z", 2, 3)}
	case 2: // a document within an embedded document
		return []gen.Stream{w, st("MBD0001A2B3", 0), in("Workbook", 0, 2), st("B", 2), in("Workbook", 2, 4)}
	case 3: // two embedded documents, one in a storage whose name sorts behind the stream's
		return []gen.Stream{w, st("A", 0), in("Workbook", 0, 2), st("_VBA_PROJECT_CUR", 0), in("Workbook", 2, 4)}
	case 4: // an empty storage and deeper ones without a document at the top
		return []gen.Stream{w, st("X", 0), st("Workbook", 2), in("Workbook", 0, 3), st("Empty", 0)}
	}
	return nil
}

const c07EmbeddedKinds = 5

func c07Nested(c *engine.Ctx) {
	f := &gen.CFB{Version: 3 + c.Pick("version", 2)}
	sizes := [][2]int{{300, 200}, {5000, 300}, {300, 5000}, {5000, 6000}}[c.Pick("sizes", 4)]
	f.Streams = c07Embedded(c.Pick("kind", c07EmbeddedKinds), pat(1, sizes[0]), pat(5, sizes[1]))
	f.DirOrder = pickPerm(c, "slot", len(f.Streams))
	if c.Pick("unused", 2) == 1 {
		o := []int{-1}
		for i, x := range f.DirOrder {
			if i == 2 {
				o = append(o, -1)
			}
			o = append(o, x)
		}
		f.DirOrder = o
	}
	c07Check(c, f)
}

// c07Fields gives every byte of the header and of the directory that says
// nothing about the streams every value it may have.
func c07Fields(c *engine.Ctx) {
	// the storage is where the search for the root's streams begins, and its own stream of that name comes first
	f := &gen.CFB{Version: 3 + c.Pick("version", 2), DirOrder: []int{3, 1, 2, 0}, Streams: []gen.Stream{
		{Name: "Workbook", Data: pat(1, 5000)}, {Name: "Object", Storage: true}, {Name: "Small", Data: pat(2, 150)}, {Name: "Workbook", Data: pat(3, 4500), Parent: 2}}}
	data := append([]byte(nil), f.Bytes()...)
	dir := (int(data[48]) | int(data[49])<<8) + 1
	dir <<= uint(data[30])
	pos := []int{24, 25, 52, 53, 54, 55} // minor version, transaction number
	for e, typ := range []byte{5, 2, 1, 2, 2} {
		o := dir + e*128
		if data[o+66] != typ {
			c.Failf("the generator's directory is not where it was expected")
		}
		pos = append(pos, o+67) // colour
		if typ != 2 {
			for i := o + 80; i < o+116; i++ { // class, state, times
				if typ == 1 || i < o+100 || i >= o+108 { // the root has no time of creation
					pos = append(pos, i)
				}
			}
		}
	}
	k := c.Pick("byte", len(pos))
	v := byte(c.Pick("value", 256))
	switch c.Pick("others", 3) { // one byte, all of its field, or all of them
	case 0:
		data[pos[k]] = v
	case 1:
		for i := pos[k] &^ 3; i < pos[k]&^3+4; i++ {
			for _, p := range pos {
				if p == i {
					data[i] = v
				}
			}
		}
	default:
		if k != 0 {
			return
		}
		for _, p := range pos {
			data[p] = v
		}
	}
	for e := 0; e <= len(f.Streams); e++ {
		data[dir+e*128+67] &= 1 // red or black
	}
	c07CheckBytes(c, f, data)
}

func init() {
	engine.Register(&engine.Property{
		ID: "C07", Level: "model_checking",
		Rule: "sizes: all pairs of boundary sizes x version; regular: all 8! orders of a chain; v4all/miniouter: all placements of all sectors; mini: all placements of all mini sectors; tables: deviations in 18 layout features; minimany: up to 1100 small streams (mini streams beyond 4 MB) x placement; nested: five trees of storages whose streams have the names of the root's x every order of the directory x unused entries x sizes; fields: every value of every byte of the header and the directory that says nothing of the streams (minor version, transaction number, colours of its entries, classes, states and times of storages), alone, four together and all at once; difat: FAT sizes around the DIFAT limits and up to a full DIFAT sector x placement. Oracle: the stream contents the file was built from",
		Assumptions: []string{
			"files are well-formed per [MS-CFB]; stream names are unique within the root storage (grate looks streams up by name only: what is opened for a name that only nested storages hold is checked only where that name is unique)",
		},
		Harnesses: []engine.Harness{
			{Name: "sizes", Run: c07SizesRun, Quick: 1, Thorough: 1},
			{Name: "regular", Run: c07Regular},
			{Name: "v4all", Run: c07V4All},
			{Name: "mini", Run: c07Mini},
			{Name: "miniouter", Run: c07MiniOuter},
			{Name: "tables", Run: c07Tables, Quick: 3, Thorough: 5},
			{Name: "miniv4", Run: c07MiniV4},
			{Name: "minimany", Run: c07MiniMany},
			{Name: "nested", Run: c07Nested},
			{Name: "fields", Run: c07Fields},
			{Name: "difat", Run: c07Difat},
		},
	})
}

// Package gen renders models to file bytes; it shares no code with grate.
package gen

import (
	"bytes"
	"encoding/binary"
	"sort"
	"strings"
	"unicode/utf16"
)

// Stream is one object of a compound file.
type Stream struct {
	Name    string
	Data    []byte
	Storage bool
	Parent  int // 1 + the index of the storage that holds it, 0 for the root
}

// CFB describes a compound file and its layout.
type CFB struct {
	Version     int // 3 or 4
	Minor       uint16
	Streams     []Stream
	DirOrder    []int                      // directory slots after the root entry: index into Streams, -1 for an unused entry
	Perm        func(kinds []string) []int // physical place of each logical sector
	MiniPerm    func(n int) []int          // place of each mini sector in the mini stream
	Free        int                        // free sectors
	FreeMini    int                        // free mini sectors
	ExtraFAT    int                        // FAT sectors beyond those needed
	ExtraMini   int                        // mini FAT sectors beyond those needed
	HighBits    bool                       // garbage in the upper half of v3 stream sizes
	Garbage     byte                       // contents of padding
	Trailing    int                        // bytes after the last sector
	MiniFATFree bool                       // an absent mini FAT is written as FREESECT with count 0
}

const (
	eoc  = 0xFFFFFFFE
	free = 0xFFFFFFFF
	fats = 0xFFFFFFFD
	difs = 0xFFFFFFFC
)

func ident(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	return p
}

// Bytes renders the compound file.
func (c *CFB) Bytes() []byte {
	le := binary.LittleEndian
	shift := uint(9)
	if c.Version == 4 {
		shift = 12
	}
	ss := 1 << shift
	perFAT := ss / 4
	order := c.DirOrder
	if order == nil {
		order = ident(len(c.Streams))
	}
	nsec := func(n int) int { return (n + ss - 1) / ss }

	// mini stream
	type chain struct{ secs []int }
	miniOf := make([][]int, len(c.Streams)) // logical mini sectors
	nmini := 0
	for i, s := range c.Streams {
		if s.Storage || len(s.Data) >= 4096 {
			continue
		}
		for j := 0; j < (len(s.Data)+63)/64; j++ {
			miniOf[i] = append(miniOf[i], nmini)
			nmini++
		}
	}
	if nmini > 0 {
		nmini += c.FreeMini
	}
	mp := ident(nmini)
	if c.MiniPerm != nil && nmini > 0 {
		mp = c.MiniPerm(nmini)
	}
	mini := bytes.Repeat([]byte{c.Garbage}, nmini*64)
	minifat := make([]uint32, nmini)
	for i := range minifat {
		minifat[i] = free
	}
	for i, s := range c.Streams {
		for j, l := range miniOf[i] {
			p := mp[l]
			copy(mini[p*64:(p+1)*64], s.Data[j*64:])
			if j+1 < len(miniOf[i]) {
				minifat[p] = uint32(mp[miniOf[i][j+1]])
			} else {
				minifat[p] = eoc
			}
		}
	}
	nMiniFAT := (nmini + perFAT - 1) / perFAT
	if nmini > 0 {
		nMiniFAT += c.ExtraMini
	}
	for len(minifat) < nMiniFAT*perFAT {
		minifat = append(minifat, free)
	}

	// logical sectors
	ndirent := 1 + len(order)
	ndir := (ndirent*128 + ss - 1) / ss
	base := ndir + nMiniFAT + nsec(len(mini)) + c.Free
	for _, s := range c.Streams {
		if !s.Storage && len(s.Data) >= 4096 {
			base += nsec(len(s.Data))
		}
	}
	nfat, ndifat := 0, 0
	for {
		tot := base + nfat + ndifat
		wf := (tot+perFAT-1)/perFAT + c.ExtraFAT
		wd := 0
		if wf > 109 {
			wd = (wf - 109 + perFAT - 2) / (perFAT - 1)
		}
		if wf == nfat && wd == ndifat {
			break
		}
		if wf < nfat {
			wf = nfat
		}
		if wd < ndifat {
			wd = ndifat
		}
		if wf == nfat && wd == ndifat {
			break
		}
		nfat, ndifat = wf, wd
	}
	var kinds []string
	add := func(k string, n int) []int {
		var r []int
		for i := 0; i < n; i++ {
			r = append(r, len(kinds))
			kinds = append(kinds, k)
		}
		return r
	}
	lFat := add("fat", nfat)
	lDifat := add("difat", ndifat)
	lDir := add("dir", ndir)
	lMiniFat := add("minifat", nMiniFAT)
	lMini := add("mini", nsec(len(mini)))
	lData := make([][]int, len(c.Streams))
	for i, s := range c.Streams {
		if !s.Storage && len(s.Data) >= 4096 {
			lData[i] = add("data", nsec(len(s.Data)))
		}
	}
	lFree := add("free", c.Free)
	n := len(kinds)
	perm := ident(n)
	if c.Perm != nil {
		perm = c.Perm(kinds)
	}
	phys := func(l []int) []int {
		r := make([]int, len(l))
		for i, x := range l {
			r[i] = perm[x]
		}
		return r
	}
	pFat, pDifat, pDir, pMiniFat, pMini := phys(lFat), phys(lDifat), phys(lDir), phys(lMiniFat), phys(lMini)
	fat := make([]uint32, nfat*perFAT)
	for i := range fat {
		fat[i] = free
	}
	link := func(p []int) uint32 {
		for i, x := range p {
			if i+1 < len(p) {
				fat[x] = uint32(p[i+1])
			} else {
				fat[x] = eoc
			}
		}
		if len(p) == 0 {
			return eoc
		}
		return uint32(p[0])
	}
	for _, x := range pFat {
		fat[x] = fats
	}
	for _, x := range pDifat {
		fat[x] = difs
	}
	_ = lFree

	out := bytes.Repeat([]byte{c.Garbage}, (n+1)*ss)
	for i := 0; i < ss; i++ {
		out[i] = 0
	}
	sec := func(p int) []byte { return out[(p+1)*ss : (p+2)*ss] }
	put := func(p []int, data []byte) uint32 {
		for i, x := range p {
			copy(sec(x), data[i*ss:])
		}
		return link(p)
	}
	dirStart := link(pDir)
	miniFatStart := link(pMiniFat)
	miniStart := put(pMini, mini)
	starts := make([]uint32, len(c.Streams))
	for i, s := range c.Streams {
		starts[i] = eoc
		switch {
		case s.Storage:
			starts[i] = 0
		case len(s.Data) >= 4096:
			starts[i] = put(phys(lData[i]), s.Data)
		case len(s.Data) > 0:
			starts[i] = uint32(mp[miniOf[i][0]])
		}
	}
	for i, p := range pMiniFat {
		for j := 0; j < perFAT; j++ {
			le.PutUint32(sec(p)[4*j:], minifat[i*perFAT+j])
		}
	}
	for i, p := range pFat {
		for j := 0; j < perFAT; j++ {
			le.PutUint32(sec(p)[4*j:], fat[i*perFAT+j])
		}
	}
	for i, p := range pDifat {
		s := sec(p)
		for j := 0; j < perFAT-1; j++ {
			v := uint32(free)
			if k := 109 + i*(perFAT-1) + j; k < nfat {
				v = uint32(pFat[k])
			}
			le.PutUint32(s[4*j:], v)
		}
		next := uint32(eoc)
		if i+1 < len(pDifat) {
			next = uint32(pDifat[i+1])
		}
		le.PutUint32(s[4*(perFAT-1):], next)
	}
	// directory
	dir := make([]byte, ndir*ss)
	for i := 0; i < ndir*ss/128; i++ {
		e := dir[i*128 : (i+1)*128]
		le.PutUint32(e[68:], free)
		le.PutUint32(e[72:], free)
		le.PutUint32(e[76:], free)
	}
	slotOf := map[int]int{}
	for k, si := range order {
		if si >= 0 {
			slotOf[si] = k + 1
		}
	}
	entry := func(slot int, name string, typ byte, start uint32, size uint64) []byte {
		e := dir[slot*128 : (slot+1)*128]
		u := utf16.Encode([]rune(name))
		for i, x := range u {
			le.PutUint16(e[2*i:], x)
		}
		le.PutUint16(e[64:], uint16(2*len(u)+2))
		e[66] = typ
		e[67] = 1
		le.PutUint32(e[116:], start)
		le.PutUint64(e[120:], size)
		return e
	}
	root := entry(0, "Root Entry", 5, miniStart, uint64(len(mini)))
	if c.HighBits && c.Version == 3 {
		le.PutUint32(root[124:], 0xDEAD0001)
	}
	for i, s := range c.Streams {
		slot, ok := slotOf[i]
		if !ok {
			continue
		}
		typ := byte(2)
		if s.Storage {
			typ = 1
		}
		e := entry(slot, s.Name, typ, starts[i], uint64(len(s.Data)))
		if c.HighBits && c.Version == 3 && !s.Storage {
			le.PutUint32(e[124:], 0x7FFF0003)
		}
	}
	// a balanced search tree of the siblings of each storage
	siblings := func(parent int) (sl []int) {
		for i, s := range c.Streams {
			if _, ok := slotOf[i]; ok && s.Parent == parent {
				sl = append(sl, i)
			}
		}
		sort.Slice(sl, func(a, b int) bool {
			x, y := strings.ToUpper(c.Streams[sl[a]].Name), strings.ToUpper(c.Streams[sl[b]].Name)
			if len(x) != len(y) {
				return len(x) < len(y)
			}
			return x < y
		})
		return sl
	}
	var build func(l []int) uint32
	build = func(l []int) uint32 {
		if len(l) == 0 {
			return free
		}
		m := len(l) / 2
		slot := slotOf[l[m]]
		left, right := build(l[:m]), build(l[m+1:])
		le.PutUint32(dir[slot*128+68:], left)
		le.PutUint32(dir[slot*128+72:], right)
		return uint32(slot)
	}
	le.PutUint32(root[76:], build(siblings(0)))
	for i, s := range c.Streams {
		if slot, ok := slotOf[i]; ok && s.Storage {
			le.PutUint32(dir[slot*128+76:], build(siblings(i+1)))
		}
	}
	for i, p := range pDir {
		copy(sec(p), dir[i*ss:(i+1)*ss])
	}
	// header
	h := out[:512]
	copy(h, []byte{0xD0, 0xCF, 0x11, 0xE0, 0xA1, 0xB1, 0x1A, 0xE1})
	minor := c.Minor
	if minor == 0 {
		minor = 0x3E
	}
	le.PutUint16(h[24:], minor)
	le.PutUint16(h[26:], uint16(c.Version))
	le.PutUint16(h[28:], 0xFFFE)
	le.PutUint16(h[30:], uint16(shift))
	le.PutUint16(h[32:], 6)
	if c.Version == 4 {
		le.PutUint32(h[40:], uint32(ndir))
	}
	le.PutUint32(h[44:], uint32(nfat))
	le.PutUint32(h[48:], dirStart)
	le.PutUint32(h[56:], 4096)
	if nMiniFAT == 0 && c.MiniFATFree {
		miniFatStart = free
	}
	le.PutUint32(h[60:], miniFatStart)
	le.PutUint32(h[64:], uint32(nMiniFAT))
	if ndifat > 0 {
		le.PutUint32(h[68:], uint32(pDifat[0]))
	} else {
		le.PutUint32(h[68:], eoc)
	}
	le.PutUint32(h[72:], uint32(ndifat))
	for i := 0; i < 109; i++ {
		v := uint32(free)
		if i < nfat {
			v = uint32(pFat[i])
		}
		le.PutUint32(h[76+4*i:], v)
	}
	return append(out, make([]byte, c.Trailing)...)
}

package props

import (
	"bytes"
	"fmt"
	"io"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/xls"
	"github.com/pbnjay/grate/xls/crypto"

	"verif/mc/engine"
	"verif/mc/gen"
)

func c09Key(n int) *gen.RC4 {
	k := &gen.RC4{Password: "VelvetSweatshop"}
	copy(k.Salt[:], pat(100+n, 16))
	copy(k.Verifier[:], pat(200+n, 16))
	return k
}

// c09Book is a workbook with most record forms; pad shifts its records relative to the key blocks.
func c09Book(pad int, clearRec uint16, clearLen int, where int) *gen.XLS {
	x := &gen.XLS{}
	add := func(dst []gen.Rec) []gen.Rec {
		if clearRec != 0 {
			dst = append(dst, gen.Rec{T: clearRec, D: pat(9, clearLen)})
		}
		return append(dst, gen.Rec{T: 0x005C, D: pat(8, pad)}) // WriteAccess: ignored by readers
	}
	if where == 0 {
		x.AfterBOF = add(x.AfterBOF)
	}
	x.Pre = []gen.Rec{gen.Format(164, "0.000", false), gen.XF(0), gen.XF(14), gen.XF(2), gen.XF(164), gen.XF(10)}
	x.Post = gen.SST([]string{"alpha", "βήτα", "a longer string to cross a boundary", "δ"})
	if where == 1 {
		x.Post = append(add(nil), x.Post...)
	}
	mk := func(n int) []gen.Rec {
		rs := []gen.Rec{gen.Dimensions(0, 6, 0, 6)}
		if where == 2 && n == 0 {
			rs = add(rs)
		}
		for r := 0; r < 6; r++ {
			rs = append(rs, gen.Number(r, 0, r%5, 41000.25+float64(r+10*n)), gen.LabelSst(r, 1, 0, (r+n)%4),
				gen.RK(r, 2, 2, uint32((r+1)<<2|2)), gen.Bool(r, 3, 0, r%2 == 0), gen.Formula(r, 4, 0, gen.FStr()), gen.Str(fmt.Sprintf("f%d√%d", r, n), false))
		}
		rs = append(rs, gen.Merge([4]int{4, 5, 5, 5}))
		return rs
	}
	x.Sheets = []gen.Sheet{{Name: "One", Recs: mk(0)}, {Name: "Δύο", Recs: mk(1)}, {Name: "hid", State: 1, Recs: mk(2)}}
	return x
}

func xlsDump(c *engine.Ctx, path string) (string, error) {
	var out string
	var err error
	c.Guard("open and read", func() {
		var src grate.Source
		src, err = xls.Open(path)
		if err != nil {
			return
		}
		out, err = dump(src)
		if err != nil {
			return
		}
		h, err2 := src.(*xls.WorkBook).ListHidden()
		out += fmt.Sprintf("hidden %q %v\n", h, err2)
		for _, n := range h {
			col, err3 := src.Get(n)
			if err3 != nil {
				out += fmt.Sprintf("hidden %q: %v\n", n, err3)
				continue
			}
			t, err3 := readAll(col)
			out += fmt.Sprintf("hidden %q %v\n%s", n, err3, t)
		}
		src.Close()
	})
	return out, err
}

func c09Twin(c *engine.Ctx) {
	clears := []uint16{0, gen.TUsrExcl, gen.TFileLock, gen.TIfaceHdr, gen.TRRDInfo, gen.TRRDHead}
	cr := clears[c.Pick("clear", len(clears))]
	cl := 2
	if cr != 0 {
		cl = []int{2, 0, 300, 1100, 3000}[c.Pick("clearlen", 5)]
	}
	where := c.Pick("where", 3)
	step := 13
	if c.Thorough {
		step = 1
	}
	pad := c.Pick("pad", 1040/step) * step
	c09Compare(c, c09Book(pad, cr, cl, where), c09Key(c.Pick("key", 2)))
}

// every single byte of padding for the plain layout
func c09Align(c *engine.Ctx) {
	x := c09Book(c.Pick("pad", 1100), 0, 0, c.Pick("where", 3))
	x.WriteProt = c.Pick("write protected", 2) == 1
	c09Compare(c, x, c09Key(c.Pick("key", 2)))
}

func c09Compare(c *engine.Ctx, x *gen.XLS, key *gen.RC4) {
	plain := c.File("plain.xls", x.File())
	es := x.EncryptedStream(key)
	enc := c.File("enc.xls", gen.XLSFile(es))
	c.State(es)
	c.Steps(2)
	want, err := xlsDump(c, plain)
	if err != nil {
		c.Failf("plain twin: %v", err)
	}
	if len(want) < 1500 {
		c.Failf("plain twin reads as\n%s", want)
	}
	got, err := xlsDump(c, enc)
	if err != nil {
		c.Failf("encrypted twin: %v", err)
	}
	if got != want {
		c.Failf("encrypted twin reads as\n%s\nplain twin as\n%s", got, want)
	}
	c.Outcome("equal")
}

// c09Large: streams of up to thousands of key blocks
func c09Large(c *engine.Ctx) {
	n := []int{200, 254 * 4, 257 * 4, 20000}[c.Pick("rows", 4)]
	x := &gen.XLS{Pre: []gen.Rec{gen.XF(0), gen.XF(14)}, Post: gen.SST([]string{"alpha", "βήτα"})}
	for s := 0; s < 2; s++ {
		rs := []gen.Rec{gen.Dimensions(0, n, 0, 4)}
		for r := 0; r < n; r++ {
			rs = append(rs, gen.Number(r, 0, r%2, 0.25+float64(r+s)), gen.LabelSst(r, 1, 0, r%2), gen.RK(r, 3, 0, uint32(r+1)<<2|2))
		}
		x.Sheets = append(x.Sheets, gen.Sheet{Name: fmt.Sprintf("L%d", s), Recs: rs})
	}
	c09Compare(c, x, c09Key(c.Pick("key", 2)))
}

// c09Long: the keystream itself beyond 65536 blocks
func c09Long(c *engine.Ctx) {
	key := c09Key(3)
	n := []int{300 << 10, 66000 << 10}[c.Pick("len", 2)]
	plain := make([]byte, n)
	for i := range plain {
		plain[i] = byte(i * i >> 7)
	}
	enc := key.Encrypt(plain)
	d, err := crypto.NewBasicRC4(key.Header())
	if err != nil {
		c.Failf("%v", err)
	}
	c.Steps(n >> 10)
	c.Guard("write", func() { d.Write(enc); d.Flush() })
	if !bytes.Equal(d.Bytes(), plain) {
		c.Failf("first difference at %d of %d", diffAt(d.Bytes(), plain), n)
	}
	c.State(n)
}

// c09Reject: broken verifiers and unsupported schemes are errors
func c09Reject(c *engine.Ctx) {
	key := c09Key(0)
	x := c09Book(10, 0, 0, 0)
	kind := c.Pick("kind", 7)
	hdr := key.Header()
	fp := append([]byte{1, 0}, hdr...)
	es := x.EncryptedStream(key)
	what := ""
	patch := func(off int, f func(b []byte)) { f(es[20+4+off:]) } // BOF is 20 bytes, then the FilePass header
	switch kind {
	case 0: // single bit of salt, verifier or verifier hash
		bit := c.Pick("bit", 48*8)
		patch(6, func(b []byte) { b[bit/8] ^= 1 << (bit % 8) })
		what = "verifier bit"
	case 1: // another password
		k2 := c09Key(0)
		k2.Password = []string{"secret", "VelvetSweatshoq", "velvetsweatshop", "x"}[c.Pick("pw", 4)]
		es = x.EncryptedStream(k2)
		what = "password"
	case 2: // encryption type
		t := []byte{0, 2, 3, 4, 5, 255}[c.Pick("type", 6)]
		patch(0, func(b []byte) { b[0] = t })
		what = "scheme"
	case 3: // minor version
		v := []byte{0, 2, 3, 255}[c.Pick("minor", 4)]
		patch(4, func(b []byte) { b[0] = v })
		what = "version"
	case 4: // header length
		n := []int{0, 2, 20, 51, 53, 60}[c.Pick("len", 6)]
		d := append(append([]byte(nil), fp...), make([]byte, 20)...)[:2+n]
		rs := x.Records(nil)
		rs = append([]gen.Rec{rs[0], {T: gen.TFilePass, D: d}}, rs[1:]...)
		es = gen.RecBytes(rs)
		what = "length"
	case 5: // the header checked directly
		n := c.Pick("cut", 53)
		var err error
		c.Guard("NewBasicRC4", func() { _, err = crypto.NewBasicRC4(hdr[:min(n, 51)]) })
		if err == nil {
			c.Failf("NewBasicRC4 accepted a header of %d bytes", n)
		}
		return
	case 6: // and its bits
		bit := c.Pick("bit", 48*8)
		h := append([]byte(nil), hdr...)
		h[4+bit/8] ^= 1 << (bit % 8)
		var err error
		c.Guard("NewBasicRC4", func() { _, err = crypto.NewBasicRC4(h) })
		if err == nil {
			c.Failf("NewBasicRC4 accepted a header with bit %d of salt/verifier/hash flipped", bit)
		}
		return
	}
	c.State(es)
	c.Steps(1)
	path := c.File("bad.xls", gen.XLSFile(es))
	got, err := xlsDump(c, path)
	if err == nil {
		c.Failf("%s: opened without error and read as\n%s", what, got)
	}
	c.Outcome(what + " refused")
}

// c09Writes: the output of the decryptor does not depend on how the input is divided
func c09Writes(c *engine.Ctx) {
	key := c09Key(1)
	sizes := []int{0, 1, 1023, 1024, 1025, 2049, 3072}
	steps := []int{100000, 1, 700, 1023, 1024, 1025}
	if c.Thorough {
		sizes = []int{0, 1, 1023, 1024, 1025, 2047, 2048, 2049, 3072, 5000}
		steps = []int{100000, 1, 2, 700, 1023, 1024, 1025, 2048}
	}
	n := sizes[c.Pick("len", len(sizes))]
	plain := pat(50, n)
	d, err := crypto.NewBasicRC4(key.Header())
	if err != nil {
		c.Failf("NewBasicRC4: %v", err)
	}
	hist := fmt.Sprintf("len=%d", n)
	runs := 1 + c.Pick("again", 2)
	for run := 0; run < runs; run++ {
		if run > 0 {
			n = sizes[c.Pick("len2", len(sizes))]
			plain = pat(51, n)
			c.Guard("Reset", func() { d.Reset() })
			hist += fmt.Sprintf(" Reset len=%d", n)
		}
		enc := key.Encrypt(plain)
		orig := append([]byte(nil), enc...)
		rest := enc
		maxw := 3
		if run > 0 {
			maxw = 2
		} else if c.Thorough {
			maxw = 4
		}
		for w := 0; w < maxw && len(rest) > 0; w++ {
			k := steps[c.Pick("write", len(steps))]
			if k > len(rest) || w == maxw-1 {
				k = len(rest)
			}
			var m int
			c.Guard(hist, func() { m, err = d.Write(rest[:k]) })
			hist += fmt.Sprintf(" W%d", k)
			if m != k || err != nil {
				c.Failf("%s: Write returned %d, %v", hist, m, err)
			}
			rest = rest[k:]
			c.Steps(1)
		}
		if runs > 1 && run == 0 && c.Pick("unfinished", 2) == 1 {
			// given up in the middle of a block
			hist += " unfinished"
			continue
		}
		c.Guard(hist, func() { d.Flush() })
		if !bytes.Equal(enc, orig) {
			c.Failf("%s: the input was modified", hist)
		}
		var got []byte
		c.Guard(hist, func() { got = append([]byte(nil), d.Bytes()...) })
		if !bytes.Equal(got, plain) {
			c.Failf("%s: decrypted %d bytes, want %d; first difference at %d", hist, len(got), len(plain), diffAt(got, plain))
		}
		if run == 0 && c.Pick("read", 2) == 1 {
			var r []byte
			c.Guard(hist, func() { r, err = io.ReadAll(readerFunc(d.Read)) })
			if err != nil || !bytes.Equal(r, plain) {
				c.Failf("%s: Read gave %d bytes, %v", hist, len(r), err)
			}
		}
		c.State(hist)
	}
	c.Outcome("decrypted")
}

type readerFunc func([]byte) (int, error)

func (f readerFunc) Read(b []byte) (int, error) { return f(b) }

// c09Pieces: uniform piece sizes
func c09Pieces(c *engine.Ctx) {
	key := c09Key(2)
	n := []int{1500, 4096, 9000}[c.Pick("len", 3)]
	k := 1 + c.Pick("piece", 1100)
	plain := pat(60, n)
	enc := key.Encrypt(plain)
	d, err := crypto.NewBasicRC4(key.Header())
	if err != nil {
		c.Failf("%v", err)
	}
	c.Guard("writes", func() {
		for p := 0; p < n; p += k {
			d.Write(enc[p:min(n, p+k)])
		}
		d.Flush()
	})
	if !bytes.Equal(d.Bytes(), plain) {
		c.Failf("pieces of %d: first difference at %d of %d", k, diffAt(d.Bytes(), plain), n)
	}
	c.State(n, k)
}

func init() {
	engine.Register(&engine.Property{
		ID: "C09", Level: "model_checking",
		Rule:        "align: every padding 0..1099 x place x key; twin: padding x clear record kind x length x place; large, long: streams of up to 20000 rows, and keystreams beyond 65536 key blocks; reject: every bit of the verifier header, other passwords, schemes, versions, lengths; writes: every division into up to 3-4 writes from a boundary alphabet, with reset. Oracle: the plain twin, and an independent position-indexed RC4 keystream",
		Assumptions: []string{"MD5 and RC4 of the Go standard library", "only the standard RC4 scheme with the default password is supported by grate"},
		Harnesses: []engine.Harness{
			{Name: "align", Run: c09Align},
			{Name: "twin", Run: c09Twin},
			{Name: "large", Run: c09Large},
			{Name: "long", Run: c09Long},
			{Name: "reject", Run: c09Reject},
			{Name: "writes", Run: c09Writes},
			{Name: "pieces", Run: c09Pieces},
		},
	})
}

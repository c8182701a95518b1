package gen

import (
	"bytes"
	"crypto/md5"
	"crypto/rc4"
	"encoding/binary"
	"math"
	"unicode/utf16"
)

// Rec is one BIFF record.
type Rec struct {
	T uint16
	D []byte
}

// record types
const (
	TFormula    = 0x0006
	TEOF        = 0x000A
	TDate1904   = 0x0022
	TContinue   = 0x003C
	TFilePass   = 0x002F
	TCodePage   = 0x0042
	TWsBool     = 0x0081
	TBoundSheet = 0x0085
	TMulRk      = 0x00BD
	TMulBlank   = 0x00BE
	TXF         = 0x00E0
	TIfaceHdr   = 0x00E1
	TMergeCells = 0x00E5
	TSST        = 0x00FC
	TLabelSst   = 0x00FD
	TExtSST     = 0x00FF
	TRRDHead    = 0x0138
	TUsrExcl    = 0x0194
	TFileLock   = 0x0195
	TRRDInfo    = 0x0196
	THLink      = 0x01B8
	TDimensions = 0x0200
	TBlank      = 0x0201
	TNumber     = 0x0203
	TBoolErr    = 0x0205
	TString     = 0x0207
	TRow        = 0x0208
	TRK         = 0x027E
	TFormat     = 0x041E
	TBOF        = 0x0809
	TWriteProt  = 0x0086
	TFont       = 0x0031
	TStyle      = 0x0293
	TWindow1    = 0x003D
	TWindow2    = 0x023E
	TDBCell     = 0x00D7
	TIndex      = 0x020B
	TShrFmla    = 0x04BC
	TArray      = 0x0221
	TNote       = 0x001C
	TObj        = 0x005D
	TTxo        = 0x01B6
	TColInfo    = 0x007D
)

// W writes little-endian fields.
type W struct{ bytes.Buffer }

func (w *W) U8(v ...byte) *W {
	w.Write(v)
	return w
}
func (w *W) U16(v ...int) *W {
	for _, x := range v {
		w.Write([]byte{byte(x), byte(x >> 8)})
	}
	return w
}
func (w *W) U32(v ...uint32) *W {
	for _, x := range v {
		binary.Write(w, binary.LittleEndian, x)
	}
	return w
}
func (w *W) U64(v uint64) *W {
	binary.Write(w, binary.LittleEndian, v)
	return w
}
func (w *W) Raw(b []byte) *W {
	w.Write(b)
	return w
}

// Chars encodes UTF-16 units in 8 or 16 bits.
func Chars(u []uint16, wide bool) []byte {
	var b []byte
	for _, x := range u {
		b = append(b, byte(x))
		if wide {
			b = append(b, byte(x>>8))
		}
	}
	return b
}

// U16s is the UTF-16 form of s.
func U16s(s string) []uint16 { return utf16.Encode([]rune(s)) }

// Latin tells whether s fits 8-bit characters.
func Latin(s string) bool {
	for _, u := range U16s(s) {
		if u > 255 {
			return false
		}
	}
	return true
}

func flag(b bool) byte {
	if b {
		return 1
	}
	return 0
}

// XLString is an XLUnicodeString (16-bit length); wide only where needed unless forced.
func XLString(s string, forceWide bool) []byte {
	u := U16s(s)
	wide := forceWide || !Latin(s)
	return (&W{}).U16(len(u)).U8(flag(wide)).Raw(Chars(u, wide)).Bytes()
}

// ShortXLString has an 8-bit length.
func ShortXLString(s string, forceWide bool) []byte {
	u := U16s(s)
	wide := forceWide || !Latin(s)
	return (&W{}).U8(byte(len(u)), flag(wide)).Raw(Chars(u, wide)).Bytes()
}

func BOF(doc int) Rec {
	return Rec{TBOF, (&W{}).U16(0x0600, doc, 0x0DBB, 0x07CC).U32(0x00010041, 0x00000406).Bytes()}
}
func EOF() Rec { return Rec{TEOF, nil} }
func Dimensions(r1, r2, c1, c2 int) Rec { // r2, c2 one past the last
	return Rec{TDimensions, (&W{}).U32(uint32(r1), uint32(r2)).U16(c1, c2, 0).Bytes()}
}
func Number(r, c, xf int, v float64) Rec {
	return Rec{TNumber, (&W{}).U16(r, c, xf).U64(math.Float64bits(v)).Bytes()}
}
func RK(r, c, xf int, rk uint32) Rec {
	return Rec{TRK, (&W{}).U16(r, c, xf).U32(rk).Bytes()}
}

// MulRK has one (xf, rk) pair per column.
func MulRK(r, c int, xfs []int, rks []uint32) Rec {
	w := (&W{}).U16(r, c)
	for i := range rks {
		w.U16(xfs[i]).U32(rks[i])
	}
	return Rec{TMulRk, w.U16(c + len(rks) - 1).Bytes()}
}
func Blank(r, c, xf int) Rec { return Rec{TBlank, (&W{}).U16(r, c, xf).Bytes()} }
func MulBlank(r, c int, xfs []int) Rec {
	return Rec{TMulBlank, (&W{}).U16(r, c).U16(xfs...).U16(c + len(xfs) - 1).Bytes()}
}
func Bool(r, c, xf int, v bool) Rec {
	return Rec{TBoolErr, (&W{}).U16(r, c, xf).U8(flag(v), 0).Bytes()}
}
func Err(r, c, xf int, code byte) Rec {
	return Rec{TBoolErr, (&W{}).U16(r, c, xf).U8(code, 1).Bytes()}
}
func LabelSst(r, c, xf, i int) Rec {
	return Rec{TLabelSst, (&W{}).U16(r, c, xf).U32(uint32(i)).Bytes()}
}

// Formula has an 8-byte result and a tiny token array.
func Formula(r, c, xf int, val []byte) Rec {
	return Rec{TFormula, (&W{}).U16(r, c, xf).Raw(val).U16(0).U32(0xFC000000).U16(3).U8(0x1E, 1, 0).Bytes()}
}
func FNum(v float64) []byte { return (&W{}).U64(math.Float64bits(v)).Bytes() }
func FStr() []byte          { return []byte{0, 0, 0, 0, 0, 0, 0xFF, 0xFF} }
func FBool(v bool) []byte   { return []byte{1, 0, flag(v), 0, 0, 0, 0xFF, 0xFF} }
func FErr(e byte) []byte    { return []byte{2, 0, e, 0, 0, 0, 0xFF, 0xFF} }
func FBlank() []byte        { return []byte{3, 0, 0, 0, 0, 0, 0xFF, 0xFF} }
func Str(s string, forceWide bool) Rec {
	return Rec{TString, XLString(s, forceWide)}
}
func Row(r, c1, c2 int) Rec {
	return Rec{TRow, (&W{}).U16(r, c1, c2, 0x00FF, 0, 0).U32(0x000F0100).Bytes()}
}
func WsBool(dialog bool) Rec {
	v := 0x04C1
	if dialog {
		v |= 0x10
	}
	return Rec{TWsBool, (&W{}).U16(v).Bytes()}
}
func Merge(rs ...[4]int) Rec { // r1 r2 c1 c2
	w := (&W{}).U16(len(rs))
	for _, r := range rs {
		w.U16(r[:]...)
	}
	return Rec{TMergeCells, w.Bytes()}
}
func Format(id int, code string, wide bool) Rec {
	return Rec{TFormat, (&W{}).U16(id).Raw(XLString(code, wide)).Bytes()}
}
func XF(id int) Rec {
	return Rec{TXF, append((&W{}).U16(0, id, 1).Bytes(), make([]byte, 14)...)}
}
func Date1904(on bool) Rec { return Rec{TDate1904, (&W{}).U16(int(flag(on))).Bytes()} }

// SST of plain strings, split greedily at the record limit.
func SST(strs []string) []Rec {
	b := NewSST(len(strs))
	for _, s := range strs {
		b.Add(s, !Latin(s), 0, 0)
	}
	return b.Recs()
}

// SSTWriter builds a string table record by record.
type SSTWriter struct {
	recs []Rec
	cur  W
	Max  int // payload limit of a record
}

func NewSST(n int) *SSTWriter {
	s := &SSTWriter{Max: 8224}
	s.cur.U32(uint32(n), uint32(n))
	return s
}
func (s *SSTWriter) Recs() []Rec {
	s.Break()
	return s.recs
}

// Len of the record being built.
func (s *SSTWriter) Len() int { return s.cur.Len() }

// Break ends the current record.
func (s *SSTWriter) Break() {
	t := uint16(TContinue)
	if len(s.recs) == 0 {
		t = TSST
	}
	s.recs = append(s.recs, Rec{t, append([]byte(nil), s.cur.Bytes()...)})
	s.cur = W{}
}

// Header of a string; it is never split.
func (s *SSTWriter) Header(cch int, wide bool, runs, ext int) {
	n := 3
	f := flag(wide)
	if runs > 0 {
		f |= 8
		n += 2
	}
	if ext > 0 {
		f |= 4
		n += 4
	}
	if s.cur.Len()+n > s.Max {
		s.Break()
	}
	s.cur.U16(cch).U8(f)
	if runs > 0 {
		s.cur.U16(runs)
	}
	if ext > 0 {
		s.cur.U32(uint32(ext))
	}
}

// Raw payload bytes.
func (s *SSTWriter) Raw(b []byte) { s.cur.Raw(b) }

// Add a string, breaking only at the record limit.
func (s *SSTWriter) Add(str string, wide bool, runs, ext int) {
	u := U16s(str)
	s.Header(len(u), wide, runs, ext)
	for _, x := range u {
		b := Chars([]uint16{x}, wide)
		if s.cur.Len()+len(b) > s.Max {
			s.Break()
			s.cur.U8(flag(wide))
		}
		s.cur.Raw(b)
	}
	for i := 0; i < runs; i++ {
		if s.cur.Len()+4 > s.Max {
			s.Break()
		}
		s.cur.U16(i, 5)
	}
	for i := 0; i < ext; i++ {
		if s.cur.Len()+1 > s.Max {
			s.Break()
		}
		s.cur.U8(byte(0xA0 + i))
	}
}

// Sheet of an xls workbook.
type Sheet struct {
	Name  string
	Wide  bool
	State byte
	Type  byte // 0 worksheet, 1 macro, 2 chart, 6 VBA
	Doc   int  // BOF document type; 0 means 0x10
	Recs  []Rec
}

// XLS is a workbook model.
type XLS struct {
	Pre         []Rec // globals before the sheet directory (formats, XFs, date mode)
	Sheets      []Sheet
	Post        []Rec   // globals after it (string table)
	Order       []int   // stream order of the substreams: sheet index, or len(Sheets)+k for Extra[k]
	Extra       [][]Rec // substreams no directory entry points to
	SSTFirst    bool    // string table before the directory
	NoCodePage  bool
	DirOrder    []int // order of the directory entries
	WriteProt   bool
	AfterBOF    []Rec // records directly after the workbook BOF (FilePass goes before them)
	TailGarbage []byte
	Wrap        func(stream []byte) []byte // the compound file, if not just the workbook stream
}

// RecBytes concatenates records.
func RecBytes(rs []Rec) []byte {
	var b bytes.Buffer
	for _, r := range rs {
		b.Write([]byte{byte(r.T), byte(r.T >> 8), byte(len(r.D)), byte(len(r.D) >> 8)})
		b.Write(r.D)
	}
	return b.Bytes()
}

// Records lists all records of the stream with the directory positions filled in.
func (x *XLS) Records(filepass []byte) []Rec {
	var g []Rec
	g = append(g, BOF(5))
	if x.WriteProt { // comes before the FilePass record
		g = append(g, Rec{0x0086, nil})
	}
	if filepass != nil {
		g = append(g, Rec{TFilePass, filepass})
	}
	g = append(g, x.AfterBOF...)
	if !x.NoCodePage {
		g = append(g, Rec{TCodePage, []byte{0xB0, 0x04}})
	}
	g = append(g, x.Pre...)
	if x.SSTFirst {
		g = append(g, x.Post...)
	}
	dir := x.DirOrder
	if dir == nil {
		dir = ident(len(x.Sheets))
	}
	at := make([]int, len(x.Sheets))
	for _, i := range dir {
		s := x.Sheets[i]
		at[i] = len(g)
		g = append(g, Rec{TBoundSheet, (&W{}).U32(0).U8(s.State, s.Type).Raw(ShortXLString(s.Name, s.Wide)).Bytes()})
	}
	if !x.SSTFirst {
		g = append(g, x.Post...)
	}
	g = append(g, EOF())
	order := x.Order
	if order == nil {
		order = ident(len(x.Sheets) + len(x.Extra))
	}
	pos := len(RecBytes(g))
	out := g
	for _, k := range order {
		var sub []Rec
		if k < len(x.Sheets) {
			s := x.Sheets[k]
			doc := s.Doc
			if doc == 0 {
				doc = 0x10
			}
			binary.LittleEndian.PutUint32(g[at[k]].D, uint32(pos))
			sub = append(sub, BOF(doc))
			sub = append(sub, s.Recs...)
			sub = append(sub, EOF())
		} else {
			sub = x.Extra[k-len(x.Sheets)]
		}
		pos += len(RecBytes(sub))
		out = append(out, sub...)
	}
	return out
}

// Stream renders the workbook stream.
func (x *XLS) Stream() []byte { return append(RecBytes(x.Records(nil)), x.TailGarbage...) }

// File wraps the workbook stream in a compound file.
func (x *XLS) File() []byte {
	if x.Wrap != nil {
		return x.Wrap(x.Stream())
	}
	return XLSFile(x.Stream())
}

// XLSFile wraps a workbook stream.
func XLSFile(stream []byte) []byte {
	return (&CFB{Version: 3, Streams: []Stream{{Name: "Workbook", Data: stream}}}).Bytes()
}

// RC4 is the standard obfuscation of [MS-OFFCRYPTO] 2.3.6, as a key stream indexed by position.
type RC4 struct {
	Salt     [16]byte
	Password string
	Verifier [16]byte
	blocks   map[int][]byte
}

func (k *RC4) block(n int) []byte {
	if k.blocks == nil {
		k.blocks = map[int][]byte{}
	}
	if b, ok := k.blocks[n]; ok {
		return b
	}
	h0 := md5.Sum(Chars(U16s(k.Password), true))
	var inter []byte
	for i := 0; i < 16; i++ {
		inter = append(inter, h0[:5]...)
		inter = append(inter, k.Salt[:]...)
	}
	h1 := md5.Sum(inter)
	key := append([]byte(nil), h1[:5]...)
	key = append(key, byte(n), byte(n>>8), byte(n>>16), byte(n>>24))
	hf := md5.Sum(key)
	c, _ := rc4.NewCipher(hf[:])
	b := make([]byte, 1024)
	c.XORKeyStream(b, b)
	k.blocks[n] = b
	return b
}

// At is the key byte for a stream position.
func (k *RC4) At(pos int) byte { return k.block(pos / 1024)[pos%1024] }

// Header is the RC4 encryption header (the FilePass record without its type).
func (k *RC4) Header() []byte {
	ks := k.block(0)
	vh := md5.Sum(k.Verifier[:])
	var ev, eh [16]byte
	for i := range ev {
		ev[i] = k.Verifier[i] ^ ks[i]
		eh[i] = vh[i] ^ ks[16+i]
	}
	return (&W{}).U16(1, 1).Raw(k.Salt[:]).Raw(ev[:]).Raw(eh[:]).Bytes()
}

// Encrypt a byte stream starting at position 0.
func (k *RC4) Encrypt(p []byte) []byte {
	o := make([]byte, len(p))
	for i := range p {
		o[i] = p[i] ^ k.At(i)
	}
	return o
}

// EncryptedStream renders the workbook obfuscated.
func (x *XLS) EncryptedStream(k *RC4) []byte {
	fp := append([]byte{1, 0}, k.Header()...)
	pos := 0
	var out []byte
	for _, r := range x.Records(fp) {
		out = append(out, byte(r.T), byte(r.T>>8), byte(len(r.D)), byte(len(r.D)>>8))
		pos += 4
		clear := 0
		switch r.T {
		case TBOF, TFilePass, TUsrExcl, TFileLock, TIfaceHdr, TRRDInfo, TRRDHead:
			clear = len(r.D)
		case TBoundSheet:
			clear = 4
		}
		for i, b := range r.D {
			if i >= clear {
				b ^= k.At(pos)
			}
			out = append(out, b)
			pos++
		}
	}
	return out
}

From 5941d6a233a7a801d3b6b77f966207e359aba989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 01/98] fix: SliceReader seeks to the start of its first slice,
 to its end and outside of the stream without panicking

---
 xls/cfb/slicereader.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/xls/cfb/slicereader.go b/xls/cfb/slicereader.go
index e6e7aff..8eff407 100644
--- a/xls/cfb/slicereader.go
+++ b/xls/cfb/slicereader.go
@@ -16,6 +16,9 @@ type SliceReader struct {
 
 // Read implements the io.Reader interface.
 func (s *SliceReader) Read(b []byte) (int, error) {
+	if len(b) == 0 {
+		return 0, nil
+	}
 	if s.Index >= uint(len(s.Data)) {
 		return 0, io.EOF
 	}
@@ -45,10 +48,17 @@ func (s *SliceReader) Seek(offset int64, whence int) (int64, error) {
 			sz += int64(len(d))
 		}
 	}
+	if len(s.Data) == 0 {
+		if offset != 0 {
+			return -1, errors.New("xls: invalid seek offset")
+		}
+		return 0, nil
+	}
 	if s.Index >= uint(len(s.CSize)) {
 		s.Index = uint(len(s.CSize) - 1)
 		s.Offset = uint(len(s.Data[s.Index]))
 	}
+	startIndex, startOffset := s.Index, s.Offset
 	// current offset in stream
 	trueOffset := int64(s.Offset) + s.CSize[int(s.Index)]
 	if offset == 0 && whence == io.SeekCurrent {
@@ -79,6 +89,11 @@ func (s *SliceReader) Seek(offset int64, whence int) (int64, error) {
 	}
 
 	wantOffset := offset + trueOffset
+	last := len(s.Data) - 1
+	if wantOffset < 0 || wantOffset > s.CSize[last]+int64(len(s.Data[last])) {
+		s.Index, s.Offset = startIndex, startOffset
+		return -1, errors.New("xls: invalid seek offset")
+	}
 	for trueOffset != wantOffset {
 		loOffset := s.CSize[int(s.Index)]
 		hiOffset := s.CSize[int(s.Index)] + int64(len(s.Data[s.Index]))
@@ -86,6 +101,14 @@ func (s *SliceReader) Seek(offset int64, whence int) (int64, error) {
 			s.Offset = uint(wantOffset - loOffset)
 			return wantOffset, nil
 		}
+		if wantOffset == loOffset {
+			s.Offset = 0
+			return wantOffset, nil
+		}
+		if wantOffset == hiOffset && int(s.Index) == last {
+			s.Offset = uint(len(s.Data[s.Index]))
+			return wantOffset, nil
+		}
 
 		if trueOffset > wantOffset {
 			s.Index--
-- 
2.43.0


From be1c0a191b057445626203d05e55ce53f3f80142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 02/98] fix: read the whole compound file directory, not only
 its first four entries

---
 xls/cfb/cfb.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index 2692ba4..a590174 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -248,9 +248,23 @@ func (d *Document) buildDirs(br *bytes.Reader) error {
 	offs := int64(1+sid) << int64(h.SectorShift)
 	br.Seek(offs, io.SeekStart)
 
-	for j := 0; j < 4; j++ {
+	perSector := (1 << h.SectorShift) / 128
+	for j := 0; ; j++ {
+		if j > 0 && j%perSector == 0 {
+			// continue in the next sector of the directory chain
+			if int64(sid) >= int64(len(d.fat)) || j/perSector > len(d.fat) {
+				break
+			}
+			sid = d.fat[sid]
+			if sid > secMaxRegular {
+				break
+			}
+			br.Seek(int64(1+sid)<<int64(h.SectorShift), io.SeekStart)
+		}
 		dirent := &directory{}
-		binary.Read(br, le, dirent)
+		if err := binary.Read(br, le, dirent); err != nil {
+			return errors.New("xls/cfb: unable to load directory")
+		}
 		if d.header.MajorVersion == 3 {
 			// mask out upper 32bits
 			dirent.StreamSize = dirent.StreamSize & 0xFFFFFFFF
@@ -272,7 +286,8 @@ func (d *Document) buildDirs(br *bytes.Reader) error {
 				}
 			*/
 		case typeUnknown:
-			return nil
+			// unused entry
+			continue
 		}
 		d.dir = append(d.dir, dirent)
 	}
-- 
2.43.0


From 0df5147db036ebe0a4ab55d988544a14295de50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 03/98] fix: follow the chain of mini FAT sectors

---
 xls/cfb/cfb.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index a590174..e1c02fd 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -218,6 +218,10 @@ func (d *Document) load(rx io.ReadSeeker) error {
 		if offs >= int64(len(d.data)) {
 			return errors.New("xls/cfb: unable to load file")
 		}
+		next := secEndOfChain
+		if int64(sid) < int64(len(d.fat)) {
+			next = d.fat[sid]
+		}
 		sector := d.data[offs:]
 		for j := 0; j < numFATentries; j++ {
 			sid = le.Uint32(sector)
@@ -225,12 +229,12 @@ func (d *Document) load(rx io.ReadSeeker) error {
 			sector = sector[4:]
 		}
 
-		if len(d.minifat) >= int(h.NumMiniFATSectors) {
+		if len(d.minifat) >= numFATentries*int(h.NumMiniFATSectors) {
 			break
 		}
 
 		// chain the next mini FAT sector
-		sid = le.Uint32(sector)
+		sid = next
 	}
 
 	// step 3: read the Directory Entries
-- 
2.43.0


From fc94498fd0b4496394500fbf39d3bd449bc01d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 04/98] fix: iteration ends after the last row of the sheet

---
 commonxl/sheet.go | 4 ++++
 xlsx/sheets.go    | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index a165334..44e2c70 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -112,6 +112,10 @@ func (s *Sheet) Next() bool {
 	if (s.CurRow + 1) > len(s.Rows) {
 		return false
 	}
+	if s.CurRow >= s.NumRows {
+		// Rows may hold spare rows beyond the end of the sheet
+		return false
+	}
 	s.CurRow++
 	return true
 }
diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index fc9c76b..2d7254e 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -120,7 +120,7 @@ func (s *Sheet) parseSheet() error {
 					//minCol, minRow := refToIndexes(dims[0])
 					maxCol, maxRow = refToIndexes(dims[1])
 				}
-				s.wrapped.Resize(maxRow, maxCol)
+				s.wrapped.Resize(maxRow+1, maxCol+1)
 				//log.Println("DIMENSION:", s.minRow, s.minCol, ">", s.maxRow, s.maxCol)
 			case "row":
 				//currentRow = ax["r"] // unsigned int row index
-- 
2.43.0


From a0d118057d550943f5c0c7f0edac3b4670828ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 05/98] fix: RK numbers stored as an integer divided by 100
 keep their value

---
 xls/structs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xls/structs.go b/xls/structs.go
index c8d49a7..855ae05 100644
--- a/xls/structs.go
+++ b/xls/structs.go
@@ -96,6 +96,9 @@ func (r RKNumber) Float64() float64 {
 	if (r&1) != 0 && (r&2) == 0 {
 		return v2 / 100.0
 	}
+	if (r&1) != 0 && (r&2) != 0 {
+		return float64(val) / 100.0
+	}
 	return 0.0
 }
 
-- 
2.43.0


From 3eee02e358977c8a91940faa1ce82aac72b6c760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 06/98] fix: number formats do not apply to text

Text in a cell with a number or date format was turned into a zero or
into a diagnostic, and an unknown format id made Apply panic. Text is
now kept and shown as it is unless the format has a text section.
---
 commonxl/formats.go | 53 ++++++++++++++++++++++++++++++++++++++++-----
 commonxl/sheet.go   |  4 ++++
 2 files changed, 52 insertions(+), 5 deletions(-)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index 49b58a9..487299b 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -12,6 +12,7 @@ type Formatter struct {
 	flags           uint64
 	customCodes     map[uint16]FmtFunc
 	customCodeTypes map[uint16]CellType
+	customTextCodes map[uint16]FmtFunc // text sections
 }
 
 const (
@@ -49,6 +50,12 @@ func (x *Formatter) Add(fmtID uint16, formatCode string) error {
 	}
 
 	x.customCodes[fmtID], x.customCodeTypes[fmtID] = makeFormatter(formatCode)
+	if ff, ok := makeTextFormatter(formatCode); ok {
+		if x.customTextCodes == nil {
+			x.customTextCodes = make(map[uint16]FmtFunc)
+		}
+		x.customTextCodes[fmtID] = ff
+	}
 	return nil
 }
 
@@ -73,6 +80,26 @@ var (
 	formatMatchTextLiteral = regexp.MustCompile(`"[^"]*"`)
 )
 
+// makeTextFormatter makes the formatter for the text section of a format
+// code, it returns false if there is none (text is then shown as it is).
+func makeTextFormatter(s string) (FmtFunc, bool) {
+	s = formatMatchBrackets.ReplaceAllString(s, "")
+	parts := strings.Split(s, ";")
+	s = parts[0]
+	if len(parts) > 3 {
+		s = parts[3]
+	} else if len(parts) > 1 || !strings.Contains(formatMatchTextLiteral.ReplaceAllString(s, ""), "@") {
+		return nil, false
+	}
+	s = squash.ReplaceAllString(s, ``)
+	s = nonEsc.ReplaceAllString(s, `$1`)
+	s = fixEsc.ReplaceAllString(s, `$1`)
+	if i := strings.IndexByte(s, '@'); i >= 0 {
+		return surround(s[:i], identFunc, s[i+1:]), true
+	}
+	return staticFmtFunc(s), true
+}
+
 func makeFormatter(s string) (FmtFunc, CellType) {
 	//log.Printf("makeFormatter('%s')", s)
 	// remove any coloring marks
@@ -181,7 +208,8 @@ func makeFormatter(s string) (FmtFunc, CellType) {
 			return identFunc, StringCell
 		}
 		//log.Printf("   added static ('%s')", prepost[0])
-		return staticFmtFunc(prepost[0]), StringCell
+		// the value keeps its own type
+		return staticFmtFunc(prepost[0]), BlankCell
 	}
 	if len(prepost[0]) > 0 || len(prepost[1]) > 0 {
 		prepost[1] = nonEsc.ReplaceAllString(prepost[1], `$1`)
@@ -202,12 +230,26 @@ func (x *Formatter) Get(fmtID uint16) (FmtFunc, bool) {
 	if !ok {
 		fs, ok2 := x.customCodes[fmtID]
 		if ok2 {
-			return fs, true
+			return textAware(fs, x.customTextCodes[fmtID]), true
 		}
 		ff = identFunc
 	}
 
-	return ff, ok
+	return textAware(ff, nil), ok
+}
+
+// textAware applies ff to anything but text, which is shown as it is
+// unless the format has a text section.
+func textAware(ff, textFF FmtFunc) FmtFunc {
+	return func(x *Formatter, v interface{}) string {
+		if text, isText := v.(string); isText {
+			if textFF == nil {
+				return text
+			}
+			return textFF(x, v)
+		}
+		return ff(x, v)
+	}
 }
 
 // Apply the specified number format to the value.
@@ -217,10 +259,11 @@ func (x *Formatter) Apply(fmtID uint16, val interface{}) (string, bool) {
 	if !ok {
 		fs, ok2 := x.customCodes[fmtID]
 		if ok2 {
-			return fs(x, val), true
+			return textAware(fs, x.customTextCodes[fmtID])(x, val), true
 		}
+		ff = identFunc
 	}
-	return ff(x, val), ok
+	return textAware(ff, nil)(x, val), ok
 }
 
 // builtInFormats are all the built-in number formats for XLS/XLSX.
diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index 44e2c70..b5a41d5 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -76,6 +76,10 @@ func (s *Sheet) Put(row, col int, value interface{}, fmtNum uint16) {
 	}
 
 	ct, ok := s.Formatter.getCellType(fmtNum)
+	if _, isText := value.(string); isText {
+		// a number format does not apply to text
+		ok = false
+	}
 	if !ok || fmtNum == 0 {
 		s.Rows[row][col] = NewCell(value)
 	} else {
-- 
2.43.0


From 335bb9c4b93e8c258981bbfc977c75b6a0d17e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 07/98] fix: formula strings are decoded as one string of
 Latin-1 or UTF-16 characters

---
 xls/sheets.go | 65 ++++++++++++++++++++++-----------------------------
 1 file changed, 28 insertions(+), 37 deletions(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index 7f30402..42dc14e 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -3,6 +3,7 @@ package xls
 import (
 	"encoding/binary"
 	"errors"
+	"io"
 	"log"
 	"math"
 	"unicode/utf16"
@@ -260,47 +261,21 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			// at each gap indicates if the encoding switches
 			// to/from 8/16-bit characters.
 
-			charCount := binary.LittleEndian.Uint16(r.Data[:2])
+			charCount := int(binary.LittleEndian.Uint16(r.Data[:2]))
 			flags := r.Data[2]
-			fstr := ""
-			if (flags & 1) == 0 {
-				fstr = string(r.Data[3:])
-			} else {
-				raw := r.Data[3:]
-				if int(charCount) > cap(us) {
-					us = make([]uint16, charCount)
-				}
-				us = us[:charCount]
-				for i := 0; i < int(charCount); i++ {
-					us[i] = binary.LittleEndian.Uint16(raw)
-					raw = raw[2:]
+			us = appendChars(us[:0], r.Data[3:], flags)
+			for ridx2 := ridx + 1; ridx2 < len(b.substreams[ss]); ridx2++ {
+				r2 := b.substreams[ss][ridx2]
+				if r2.RecType != RecTypeContinue || len(r2.Data) == 0 {
+					break
 				}
-				fstr = string(utf16.Decode(us))
+				us = appendChars(us, r2.Data[1:], r2.Data[0])
 			}
-
-			if (ridx + 1) < len(b.substreams[ss]) {
-				ridx2 := ridx + 1
-				nrecs := len(b.substreams[ss])
-				for ridx2 < nrecs {
-					r2 := b.substreams[ss][ridx2]
-					if r2.RecType != RecTypeContinue {
-						break
-					}
-					if (r2.Data[0] & 1) == 0 {
-						fstr += string(r2.Data[1:])
-					} else {
-						raw := r2.Data[1:]
-						slen := len(raw) / 2
-						us = us[:slen]
-						for i := 0; i < slen; i++ {
-							us[i] = binary.LittleEndian.Uint16(raw)
-							raw = raw[2:]
-						}
-						fstr += string(utf16.Decode(us))
-					}
-					ridx2++
-				}
+			if len(us) < charCount {
+				return nil, io.ErrUnexpectedEOF
 			}
+			// decode in one go, surrogate pairs may cross a record boundary
+			fstr := string(utf16.Decode(us[:charCount]))
 			res.Set(int(formulaRow), int(formulaCol), fstr)
 			//log.Printf("String direct: %d %d '%s'", int(formulaRow), int(formulaCol), fstr)
 
@@ -438,6 +413,22 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 	return res, nil
 }
 
+// appendChars appends the 8-bit or 16-bit characters in raw to us.
+func appendChars(us []uint16, raw []byte, flags byte) []uint16 {
+	if (flags & 1) == 0 {
+		// 16-bit characters but only the bottom 8bits
+		for _, x := range raw {
+			us = append(us, uint16(x))
+		}
+		return us
+	}
+	for len(raw) > 1 {
+		us = append(us, binary.LittleEndian.Uint16(raw))
+		raw = raw[2:]
+	}
+	return us
+}
+
 var berrLookup = map[byte]string{
 	0x00: "#NULL!",
 	0x07: "#DIV/0!",
-- 
2.43.0


From 5fd785d52b5fa9f2bbcc704832031ae9465f7b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 08/98] fix: a number that is not whole keeps its value under
 an integer format

---
 commonxl/cell.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 9b1c5b2..f570476 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -150,7 +150,12 @@ func NewCellWithType(value interface{}, t CellType, f *Formatter) Cell {
 
 	if c[1] == FloatCell {
 		if t == IntegerCell {
-			c[0] = int64(c[0].(float64))
+			x := c[0].(float64)
+			if x != math.Trunc(x) || math.Abs(x) >= 1<<63 {
+				// not an integer, whatever the format displays
+				return c
+			}
+			c[0] = int64(x)
 			c[1] = IntegerCell
 		} else if t == BooleanCell {
 			c[0] = c[0].(float64) != 0.0
-- 
2.43.0


From dd3ab78bbe850af3a1424664651937dd71453cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 09/98] fix: integer and percent formats round the value
 instead of truncating it

---
 commonxl/fmt.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index f99e01b..f52fa54 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -2,6 +2,7 @@ package commonxl
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -84,17 +85,27 @@ func identFunc(x *Formatter, v interface{}) string {
 }
 
 func sprintfFunc(fs string, mul int) FmtFunc {
-	wantInt64 := strings.Contains(fs, "%d")
+	verb := strings.TrimLeft(fs, "%0123456789")
+	wantInt64 := strings.HasPrefix(verb, "d")
+	bigfs := fs[:len(fs)-len(verb)] + ".0f" + strings.TrimPrefix(verb, "d")
 	return func(x *Formatter, v interface{}) string {
+		switch v.(type) {
+		case int, uint, int64, uint64, int32, uint32, uint16, int16, int8, uint8:
+			if wantInt64 && mul == 1 {
+				return fmt.Sprintf(fs, v)
+			}
+			fval, _ := convertToFloat64(v)
+			v = fval
+		}
 		switch val := v.(type) {
-		case int, uint, int64, uint64, int32, uint32, uint16, int16:
-			return fmt.Sprintf(fs, v)
-
 		case float64:
 			val *= float64(mul)
 			if wantInt64 {
-				v2 := int64(val)
-				return fmt.Sprintf(fs, v2)
+				val = math.Round(val)
+				if math.Abs(val) < 1<<63 {
+					return fmt.Sprintf(fs, int64(val))
+				}
+				return fmt.Sprintf(bigfs, val)
 			}
 			return fmt.Sprintf(fs, val)
 		}
-- 
2.43.0


From a757fedbdcd08bf2062ede51bd95ea4a2316eb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 10/98] fix: a single byte of run or phonetic data after a wide
 string is not an error

---
 xls/strings.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xls/strings.go b/xls/strings.go
index ae96981..c08a12c 100644
--- a/xls/strings.go
+++ b/xls/strings.go
@@ -201,11 +201,11 @@ func parseSST(recs []*rec) ([]string, error) {
 					current[j] = uint16(buf[0])
 					buf = buf[1:]
 				} else { //16-bit
-					current[j] = uint16(binary.LittleEndian.Uint16(buf[:2]))
-					buf = buf[2:]
 					if len(buf) == 1 {
 						return nil, errors.New("xls: off by one")
 					}
+					current[j] = uint16(binary.LittleEndian.Uint16(buf[:2]))
+					buf = buf[2:]
 				}
 			}
 
-- 
2.43.0


From b14a196e2c7eb1cd30e170405f25d856a686e1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 11/98] fix: a dialog sheet is empty, and a sheet with
 synchronized scrolling is not a dialog

---
 xls/sheets.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index 42dc14e..d91a6cd 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -73,9 +73,9 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 				continue
 			}
 		case RecTypeWsBool:
-			if (r.Data[1] & 0x10) != 0 {
-				// it's a dialog
-				return nil, nil
+			if (r.Data[0] & 0x10) != 0 {
+				// it's a dialog, which has no cells
+				return res, nil
 			}
 
 		case RecTypeDimensions:
-- 
2.43.0


From 81042e2545d7184b633f6dc1bf377c19faa81a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 12/98] fix: content nested in an embedded chart is not read as
 cells of the sheet

---
 xls/sheets.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xls/sheets.go b/xls/sheets.go
index d91a6cd..51b4324 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -60,6 +60,8 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 		if inSubstream > 0 {
 			if r.RecType == RecTypeEOF {
 				inSubstream--
+			} else if r.RecType == RecTypeBOF {
+				inSubstream++
 			}
 			continue
 		}
@@ -106,6 +108,8 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 		if inSubstream > 0 {
 			if r.RecType == RecTypeEOF {
 				inSubstream--
+			} else if r.RecType == RecTypeBOF {
+				inSubstream++
 			} else if grate.Debug {
 				log.Println("      Unhandled sheet substream record type:", r.RecType, ridx)
 			}
-- 
2.43.0


From 3e776d0ebd22718b0eef1d5d87b17fcd25e3158c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 13/98] fix: Set and SetURL refuse a cell that does not exist
 instead of panicking

---
 commonxl/sheet.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index b5a41d5..07c04f7 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -91,7 +91,7 @@ func (s *Sheet) Put(row, col int, value interface{}, fmtNum uint16) {
 // Set changes the value in an existing cell location.
 // NB Currently only used for populating string results for formulas.
 func (s *Sheet) Set(row, col int, value interface{}) {
-	if row > s.NumRows || col > s.NumCols {
+	if row >= s.NumRows || col >= s.NumCols || len(s.Rows[row]) <= col || len(s.Rows[row][col]) < 2 {
 		log.Println("grate: cell out of bounds")
 		return
 	}
@@ -102,7 +102,7 @@ func (s *Sheet) Set(row, col int, value interface{}) {
 
 // SetURL adds a hyperlink to an existing cell location.
 func (s *Sheet) SetURL(row, col int, link string) {
-	if row > s.NumRows || col > s.NumCols {
+	if row >= s.NumRows || col >= s.NumCols || len(s.Rows[row]) <= col || len(s.Rows[row][col]) < 2 {
 		log.Println("grate: cell out of bounds")
 		return
 	}
-- 
2.43.0


From 1b36d70a56942f2d6333795febce8b175dde4adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:23 +0000
Subject: [PATCH 14/98] fix: a sheet is empty exactly when it has no data
 values

---
 commonxl/sheet.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index 07c04f7..70775e3 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -231,7 +231,14 @@ func (s *Sheet) Scan(args ...interface{}) error {
 
 // IsEmpty returns true if there are no data values.
 func (s *Sheet) IsEmpty() bool {
-	return (s.NumCols <= 1 && s.NumRows <= 1)
+	for _, row := range s.Rows {
+		for _, cell := range row {
+			if cell.Type() != BlankCell {
+				return false
+			}
+		}
+	}
+	return true
 }
 
 // Err returns the last error that occured.
-- 
2.43.0


From dc80672c91232d497f4672f23ab36eaed85c62e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 15/98] fix: Scan reports invalid destinations as
 ErrInvalidScanType and does not panic on surplus ones

---
 commonxl/sheet.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index 70775e3..3d1697c 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -124,6 +124,18 @@ func (s *Sheet) Next() bool {
 	return true
 }
 
+// cells of the current row, one for each column.
+func (s *Sheet) cells() []Cell {
+	var row []Cell
+	if s.CurRow > 0 && s.CurRow <= len(s.Rows) {
+		row = s.Rows[s.CurRow-1]
+	}
+	if len(row) < s.NumCols {
+		row = append(make([]Cell, 0, s.NumCols), row...)
+	}
+	return row[:s.NumCols]
+}
+
 // Raw extracts the raw Cell interfaces underlying the current row.
 func (s *Sheet) Raw() []Cell {
 	rr := make([]Cell, s.NumCols)
@@ -184,14 +196,17 @@ func (s *Sheet) Formats() []string {
 //     bool, int64, float64, string, or time.Time
 // If invalid, returns ErrInvalidScanType
 func (s *Sheet) Scan(args ...interface{}) error {
-	row := s.Rows[s.CurRow-1]
+	row := s.cells()
+	if len(args) > len(row) {
+		return fmt.Errorf("%w: %d destinations for %d columns", grate.ErrInvalidScanType, len(args), len(row))
+	}
 
 	for i, a := range args {
 		val := row[i].Value()
 
 		switch v := a.(type) {
 		case bool, int64, float64, string, time.Time:
-			return fmt.Errorf("scan destinations must be pointer (arg %d is not)", i)
+			return fmt.Errorf("%w: scan destinations must be pointer (arg %d is not)", grate.ErrInvalidScanType, i)
 		case *bool:
 			if x, ok := val.(bool); ok {
 				*v = x
@@ -223,7 +238,7 @@ func (s *Sheet) Scan(args ...interface{}) error {
 				return fmt.Errorf("scan destination %d expected *%T, not *time.Time", i, val)
 			}
 		default:
-			return fmt.Errorf("scan destination for arg %d is not supported (%T)", i, a)
+			return fmt.Errorf("%w: scan destination for arg %d is not supported (%T)", grate.ErrInvalidScanType, i, a)
 		}
 	}
 	return nil
-- 
2.43.0


From 0f2ca75638a4fff8c90b2a2b328d59b720f69884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 16/98] fix: a large declared sheet size does not allocate its
 blank cells, and shrinking a sheet does not make its rows unreadable

---
 commonxl/sheet.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index 3d1697c..fb4b8b4 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -18,6 +18,9 @@ type Sheet struct {
 	CurRow int
 }
 
+// maxDenseCells is the size up to which blank cells are allocated in advance.
+const maxDenseCells = 1 << 22
+
 // Resize the sheet for the number of rows and cols given.
 // Newly added cells default to blank.
 func (s *Sheet) Resize(rows, cols int) {
@@ -26,7 +29,7 @@ func (s *Sheet) Resize(rows, cols int) {
 			break
 		}
 		n := cols - len(s.Rows[i])
-		if n <= 0 {
+		if n <= 0 || cols > maxDenseCells/(rows+1) {
 			continue
 		}
 		s.Rows[i] = append(s.Rows[i], make([]Cell, n)...)
@@ -43,7 +46,11 @@ func (s *Sheet) Resize(rows, cols int) {
 	s.NumCols = cols
 
 	for rows >= len(s.Rows) {
-		s.Rows = append(s.Rows, make([]Cell, cols))
+		var row []Cell
+		if cols <= maxDenseCells/(rows+1) {
+			row = make([]Cell, cols)
+		}
+		s.Rows = append(s.Rows, row)
 	}
 }
 
@@ -66,6 +73,9 @@ func (s *Sheet) Put(row, col int, value interface{}, fmtNum uint16) {
 		}
 		s.Resize(s.NumRows, s.NumCols)
 	}
+	if n := col + 1 - len(s.Rows[row]); n > 0 {
+		s.Rows[row] = append(s.Rows[row], make([]Cell, n)...)
+	}
 
 	if spec, ok := value.(string); ok {
 		if spec == grate.EndRowMerged || spec == grate.EndColumnMerged || spec == grate.ContinueRowMerged || spec == grate.ContinueColumnMerged {
@@ -139,7 +149,7 @@ func (s *Sheet) cells() []Cell {
 // Raw extracts the raw Cell interfaces underlying the current row.
 func (s *Sheet) Raw() []Cell {
 	rr := make([]Cell, s.NumCols)
-	for i, cell := range s.Rows[s.CurRow-1] {
+	for i, cell := range s.cells() {
 		rr[i] = cell.Clone()
 	}
 	return rr
@@ -148,7 +158,7 @@ func (s *Sheet) Raw() []Cell {
 // Strings extracts values from the current record into a list of strings.
 func (s *Sheet) Strings() []string {
 	res := make([]string, s.NumCols)
-	for i, cell := range s.Rows[s.CurRow-1] {
+	for i, cell := range s.cells() {
 		if cell.Type() == BlankCell {
 			res[i] = ""
 			continue
@@ -172,7 +182,7 @@ func (s *Sheet) Strings() []string {
 // and special cases: "blank", "hyperlink" which are string types
 func (s *Sheet) Types() []string {
 	res := make([]string, s.NumCols)
-	for i, cell := range s.Rows[s.CurRow-1] {
+	for i, cell := range s.cells() {
 		res[i] = cell.Type().String()
 	}
 	return res
@@ -182,7 +192,7 @@ func (s *Sheet) Types() []string {
 func (s *Sheet) Formats() []string {
 	ok := true
 	res := make([]string, s.NumCols)
-	for i, cell := range s.Rows[s.CurRow-1] {
+	for i, cell := range s.cells() {
 		res[i], ok = builtInFormats[cell.FormatNo()]
 		if !ok {
 			res[i] = fmt.Sprint(cell.FormatNo())
-- 
2.43.0


From f4fcd8d346c95dcc23673d0225442c8a91a4f544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 17/98] fix: a sheet without declared dimensions does not take
 quadratic time to read

---
 commonxl/sheet.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index fb4b8b4..1e77b36 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -25,7 +25,7 @@ const maxDenseCells = 1 << 22
 // Newly added cells default to blank.
 func (s *Sheet) Resize(rows, cols int) {
 	for i := range s.Rows {
-		if i > rows {
+		if i > rows || cols == s.NumCols {
 			break
 		}
 		n := cols - len(s.Rows[i])
@@ -65,13 +65,14 @@ func (s *Sheet) Put(row, col int, value interface{}, fmtNum uint16) {
 
 		// per the spec, this is an invalid Excel file
 		// but we'll resize in place instead of crashing out
-		if row >= s.NumRows {
-			s.NumRows = row + 1
+		rows, cols := s.NumRows, s.NumCols
+		if row >= rows {
+			rows = row + 1
 		}
-		if col >= s.NumCols {
-			s.NumCols = col + 1
+		if col >= cols {
+			cols = col + 1
 		}
-		s.Resize(s.NumRows, s.NumCols)
+		s.Resize(rows, cols)
 	}
 	if n := col + 1 - len(s.Rows[row]); n > 0 {
 		s.Rows[row] = append(s.Rows[row], make([]Cell, n)...)
-- 
2.43.0


From 9199818653e245eaa826eb4018abe7bc1aa0986f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 18/98] fix: only the value of an xlsx cell is its content

Formula source, phonetic guides and whitespace between elements were
taken for values, and text in several pieces kept only the last one.
An invalid shared string index is an error instead of a panic.
---
 xlsx/sheets.go | 95 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 59 insertions(+), 36 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index 2d7254e..96985a2 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -57,6 +57,8 @@ func (s *Sheet) parseSheet() error {
 
 	currentCellType := BlankCellType
 	currentCell := ""
+	cellText := ""
+	inValue, inPhonetic := false, false
 	var fno uint16
 	var maxCol, maxRow int
 
@@ -67,41 +69,8 @@ func (s *Sheet) parseSheet() error {
 			if currentCell == "" {
 				continue
 			}
-			c, r := refToIndexes(currentCell)
-			if c >= 0 && r >= 0 {
-				var val interface{} = string(v)
-
-				switch currentCellType {
-				case BooleanCellType:
-					if v[0] == '1' {
-						val = true
-					} else {
-						val = false
-					}
-				case DateCellType:
-					log.Println("CELL DATE", val, fno)
-				case NumberCellType:
-					fval, err := strconv.ParseFloat(string(v), 64)
-					if err == nil {
-						val = fval
-					}
-					//log.Println("CELL NUMBER", val, numFormat)
-				case SharedStringCellType:
-					//log.Println("CELL SHSTR", val, currentCellType, numFormat)
-					si, _ := strconv.ParseInt(string(v), 10, 64)
-					val = s.d.strings[si]
-				case BlankCellType:
-					//log.Println("CELL BLANK")
-					// don't place any values
-					continue
-				case ErrorCellType, FormulaStringCellType, InlineStringCellType:
-					//log.Println("CELL ERR/FORM/INLINE", val, currentCellType)
-				default:
-					log.Println("CELL UNKNOWN", val, currentCellType, fno)
-				}
-				s.wrapped.Put(r, c, val, fno)
-			} else {
-				//log.Println("FAIL row/col: ", currentCell)
+			if inValue && !inPhonetic {
+				cellText += string(v)
 			}
 		case xml.StartElement:
 			switch v.Name.Local {
@@ -140,8 +109,11 @@ func (s *Sheet) parseSheet() error {
 					fno = 0
 				}
 				//log.Println("CELL", currentCell, sid, numFormat, currentCellType)
-			case "v":
+			case "v", "t":
 				//log.Println("CELL VALUE", ax)
+				inValue = true
+			case "rPh":
+				inPhonetic = true
 
 			case "mergeCell":
 				ax := getAttrs(v.Attr, "ref")
@@ -196,8 +168,19 @@ func (s *Sheet) parseSheet() error {
 		case xml.EndElement:
 
 			switch v.Name.Local {
+			case "v", "t":
+				inValue = false
+			case "rPh":
+				inPhonetic = false
 			case "c":
+				if currentCell != "" && cellText != "" {
+					err2 := s.putCell(currentCell, currentCellType, cellText, fno)
+					if err2 != nil {
+						return err2
+					}
+				}
 				currentCell = ""
+				cellText = ""
 			case "row":
 				//currentRow = ""
 			}
@@ -212,3 +195,43 @@ func (s *Sheet) parseSheet() error {
 	}
 	return err
 }
+
+// putCell stores the value of a cell given the text of its element.
+func (s *Sheet) putCell(currentCell string, currentCellType CellType, cellText string, fno uint16) error {
+	c, r := refToIndexes(currentCell)
+	if c >= 0 && r >= 0 {
+		var val interface{} = cellText
+
+		switch currentCellType {
+		case BooleanCellType:
+			val = cellText == "1" || cellText == "true"
+		case DateCellType:
+			log.Println("CELL DATE", val, fno)
+		case NumberCellType:
+			fval, err := strconv.ParseFloat(cellText, 64)
+			if err == nil {
+				val = fval
+			}
+			//log.Println("CELL NUMBER", val, numFormat)
+		case SharedStringCellType:
+			//log.Println("CELL SHSTR", val, currentCellType, numFormat)
+			si, err := strconv.ParseInt(cellText, 10, 64)
+			if err != nil || si < 0 || si >= int64(len(s.d.strings)) {
+				return errors.New("xlsx: invalid shared string index")
+			}
+			val = s.d.strings[si]
+		case BlankCellType:
+			//log.Println("CELL BLANK")
+			// don't place any values
+			return nil
+		case ErrorCellType, FormulaStringCellType, InlineStringCellType:
+			//log.Println("CELL ERR/FORM/INLINE", val, currentCellType)
+		default:
+			log.Println("CELL UNKNOWN", val, currentCellType, fno)
+		}
+		s.wrapped.Put(r, c, val, fno)
+	} else {
+		//log.Println("FAIL row/col: ", currentCell)
+	}
+	return nil
+}
-- 
2.43.0


From 9875b1a944905f8d04cc39c20eb4b66626f46b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 19/98] fix: phonetic guides and whitespace between elements
 are not part of a shared string

---
 xlsx/workbook.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index d789562..1e02367 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -183,17 +183,23 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 
 func (d *Document) parseSharedStrings(dec *xml.Decoder) error {
 	val := ""
+	inText, inPhonetic := false, false
 	tok, err := dec.RawToken()
 	for ; err == nil; tok, err = dec.RawToken() {
 		switch v := tok.(type) {
 		case xml.CharData:
-			val += string(v)
+			if inText && !inPhonetic {
+				val += string(v)
+			}
 		case xml.StartElement:
 			switch v.Name.Local {
 			case "si":
 				val = ""
 			case "t":
 				// no attributes to parse, we only want the CharData ...
+				inText = true
+			case "rPh":
+				inPhonetic = true
 			case "sst":
 				// main container
 			default:
@@ -202,6 +208,12 @@ func (d *Document) parseSharedStrings(dec *xml.Decoder) error {
 				}
 			}
 		case xml.EndElement:
+			switch v.Name.Local {
+			case "t":
+				inText = false
+			case "rPh":
+				inPhonetic = false
+			}
 			if v.Name.Local == "si" {
 				d.strings = append(d.strings, val)
 				continue
-- 
2.43.0


From 97f99fedb1626e54002a59c289a700c09ab5f5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 20/98] fix: invalid style indexes and counts of an xlsx file
 do not panic

---
 xlsx/sheets.go   | 2 +-
 xlsx/workbook.go | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index 96985a2..d3a21a3 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -103,7 +103,7 @@ func (s *Sheet) parseSheet() error {
 				currentCell = ax[1] // always an A1 style reference
 				style := ax[2]
 				sid, _ := strconv.ParseInt(style, 10, 64)
-				if len(s.d.xfs) > int(sid) {
+				if sid >= 0 && len(s.d.xfs) > int(sid) {
 					fno = s.d.xfs[sid]
 				} else {
 					fno = 0
diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 1e02367..35addbe 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -124,6 +124,9 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 				section = 2
 				ax := getAttrs(v.Attr, "count")
 				n, _ := strconv.ParseInt(ax[0], 10, 64)
+				if n < 0 || n > 0xFFFF {
+					n = 0 // only a hint
+				}
 				d.xfs = make([]uint16, 0, n)
 
 			case "xf":
@@ -140,7 +143,7 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 					// 1) get base style so we can inherit format properly
 					baseID, _ := strconv.ParseInt(ax[2], 10, 64)
 					numFmtID := "0"
-					if len(baseNumFormats) > int(baseID) {
+					if baseID >= 0 && len(baseNumFormats) > int(baseID) {
 						numFmtID = baseNumFormats[baseID]
 					}
 
@@ -155,7 +158,7 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 					nfid, _ := strconv.ParseInt(numFmtID, 10, 16)
 					d.xfs = append(d.xfs, uint16(nfid))
 				} else {
-					panic("wheres is this xf??")
+					return errors.New("xlsx: misplaced cell format")
 				}
 			default:
 				if grate.Debug {
-- 
2.43.0


From 51226d9c373e166cd4fc01ff0995e25d41915880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 21/98] fix: the workbook of an xlsx package may be named by an
 absolute path

---
 xlsx/workbook.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 35addbe..ad92ad6 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -35,7 +35,7 @@ func (d *Document) parseRels(dec *xml.Decoder, basedir string) error {
 					d.rels[vals["Type"]][vals["Id"]] = filepath.Join(basedir, vals["Target"])
 				}
 				if vals["Type"] == "http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" {
-					d.primaryDoc = vals["Target"]
+					d.primaryDoc = strings.TrimPrefix(vals["Target"], "/")
 				}
 			default:
 				if grate.Debug {
-- 
2.43.0


From d1ce2263ccbe8cdcfd15fb6a2b81c5270195602a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 22/98] fix: merged ranges are marked in an xlsx sheet without
 or with a too small dimension element

---
 xlsx/sheets.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index d3a21a3..c14aaa4 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -77,7 +77,7 @@ func (s *Sheet) parseSheet() error {
 			case "dimension":
 				ax := getAttrs(v.Attr, "ref")
 				if ax[0] == "A1" {
-					maxCol, maxRow = 1, 1
+					maxCol, maxRow = 0, 0
 					// short-circuit empty sheet
 					s.wrapped.Resize(1, 1)
 					continue
@@ -123,6 +123,15 @@ func (s *Sheet) parseSheet() error {
 				if len(dims) > 1 {
 					endCol, endRow = refToIndexes(dims[1])
 				}
+				if startCol < 0 || startRow < 0 {
+					continue
+				}
+				if maxRow < s.wrapped.NumRows-1 {
+					maxRow = s.wrapped.NumRows - 1
+				}
+				if maxCol < s.wrapped.NumCols-1 {
+					maxCol = s.wrapped.NumCols - 1
+				}
 				if endRow > maxRow {
 					endRow = maxRow
 				}
-- 
2.43.0


From 17050233a9995e12833283ccd761d70e475958c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 23/98] fix: a hyperlink of a range does not panic and an
 internal one does not erase its cell

---
 xlsx/sheets.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index c14aaa4..4937c10 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -160,8 +160,13 @@ func (s *Sheet) parseSheet() error {
 
 			case "hyperlink":
 				ax := getAttrs(v.Attr, "ref", "id")
-				col, row := refToIndexes(ax[0])
+				// the link is shown in the first cell of the range
+				col, row := refToIndexes(strings.Split(ax[0], ":")[0])
 				link := linkmap[ax[1]]
+				if link == "" || col < 0 || row < 0 {
+					// not an external hyperlink
+					continue
+				}
 				s.wrapped.Put(row, col, link, 0)
 				s.wrapped.SetURL(row, col, link)
 
-- 
2.43.0


From e2364a9cc9012e7a673cb93fcda5e735073ed478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 24/98] fix: references beyond the limits of a sheet are
 invalid

---
 xlsx/types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xlsx/types.go b/xlsx/types.go
index 427c0c0..16bf724 100644
--- a/xlsx/types.go
+++ b/xlsx/types.go
@@ -68,6 +68,10 @@ func refToIndexes(r string) (column, row int) {
 	i2 := strings.IndexByte(r[i1:], 'C')
 	if i2 == -1 {
 		rn, _ := strconv.ParseInt(r[i1:], 10, 64)
+		if len(col1) > 3 || rn > 1048576 || col2int(col1) > 16383 {
+			// beyond the limits of a sheet
+			return -1, -1
+		}
 		return col2int(col1), int(rn) - 1
 	}
 
-- 
2.43.0


From ee033c6fda1ad2f88c2596cd425bb0d0466b5ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 25/98] fix: an xlsx sheet can be read more than once

---
 xlsx/xlsx.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index 3d5eaad..4f3eda8 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -163,7 +163,13 @@ func (d *Document) Get(sheetName string) (grate.Collection, error) {
 			if s.err == errNotLoaded {
 				s.err = s.parseSheet()
 			}
-			return s.wrapped, s.err
+			if s.wrapped == nil || s.err != nil {
+				return nil, s.err
+			}
+			// every caller iterates on its own
+			res := *s.wrapped
+			res.CurRow = 0
+			return &res, nil
 		}
 	}
 	return nil, errors.New("xlsx: sheet not found")
-- 
2.43.0


From 7625f9c0bdf0126d8082321f3e4fff8cb9f84d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 26/98] fix: xlsx.Open does not leave the file open when it
 fails

---
 xlsx/xlsx.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index 4f3eda8..18a9b95 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -41,11 +41,16 @@ func (d *Document) Close() error {
 	return d.f.Close()
 }
 
-func Open(filename string) (grate.Source, error) {
+func Open(filename string) (src grate.Source, err error) {
 	f, err := os.Open(filename)
 	if err != nil {
 		return nil, err
 	}
+	defer func() {
+		if err != nil {
+			f.Close()
+		}
+	}()
 	info, err := f.Stat()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From dc476ffe95c18a58344e5caafa30db02c0f0d15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:33 +0000
Subject: [PATCH 27/98] fix: open-ended merged ranges end at the last cell of
 an xls sheet without dimensions

---
 xls/sheets.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index 51b4324..7392933 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -372,10 +372,14 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 				raw = raw[8:]
 
 				if lastRow == 0xFFFF { // placeholder value indicate "last"
-					lastRow = uint16(maxRow) - 1
+					lastRow = uint16(res.NumRows - 1)
 				}
 				if lastCol == 0xFF { // placeholder value indicate "last"
-					lastCol = uint16(maxCol) - 1
+					lastCol = uint16(res.NumCols - 1)
+				}
+				if res.NumRows == 0 {
+					// there are no cells
+					continue
 				}
 				for rn := int(firstRow); rn <= int(lastRow); rn++ {
 					for cn := int(firstCol); cn <= int(lastCol); cn++ {
-- 
2.43.0


From 934ea53f7a25c1953d6dd746328ccad8bbb5d551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:01 +0000
Subject: [PATCH 28/98] fix: a hyperlink keeps the number format of its cell,
 and setting it again replaces the link

---
 commonxl/cell.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index f570476..fb132fe 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -65,10 +65,13 @@ func (c Cell) Value() interface{} {
 // SetURL adds a URL hyperlink to the cell.
 func (c *Cell) SetURL(link string) {
 	(*c)[1] = HyperlinkStringCell
-	if len(*c) == 2 {
+	switch len(*c) {
+	case 2:
 		*c = append(*c, uint16(0), link)
-	} else { // len = 3 already
+	case 3:
 		*c = append(*c, link)
+	default: // replace the link
+		(*c)[3] = link
 	}
 }
 
@@ -91,7 +94,7 @@ func (c Cell) Type() CellType {
 
 // FormatNo returns the NumberFormat used for display.
 func (c Cell) FormatNo() uint16 {
-	if len(c) == 3 {
+	if len(c) >= 3 {
 		return c[2].(uint16)
 	}
 	return 0
-- 
2.43.0


From f3c2c6db8151a95cec6abc9739d4828b3b840f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:02 +0000
Subject: [PATCH 29/98] fix: hyperlinks of an xls sheet without dimensions are
 not ignored

---
 xls/sheets.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index 7392933..af9c204 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -305,19 +305,19 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			lastRow := binary.LittleEndian.Uint16(r.Data[2:4])
 			firstCol := binary.LittleEndian.Uint16(r.Data[4:6])
 			lastCol := binary.LittleEndian.Uint16(r.Data[6:])
-			if int(firstCol) > int(maxCol) {
+			if int(firstCol) >= res.NumCols {
 				//log.Println("invalid hyperlink column")
 				continue
 			}
-			if int(firstRow) > int(maxRow) {
+			if int(firstRow) >= res.NumRows {
 				//log.Println("invalid hyperlink row")
 				continue
 			}
 			if lastRow == 0xFFFF { // placeholder value indicate "last"
-				lastRow = uint16(maxRow) - 1
+				lastRow = uint16(res.NumRows - 1)
 			}
 			if lastCol == 0xFF { // placeholder value indicate "last"
-				lastCol = uint16(maxCol) - 1
+				lastCol = uint16(res.NumCols - 1)
 			}
 
 			// decode the hyperlink datastructure and try to find the
-- 
2.43.0


From f2ba8dda96116ebd35c2d989e086a4c4d6ce99e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:02 +0000
Subject: [PATCH 30/98] fix: a hyperlink without a display name keeps the text
 of its cell

---
 xls/sheets.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/xls/sheets.go b/xls/sheets.go
index af9c204..4b11f23 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -327,6 +327,10 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 				log.Println(err)
 				continue
 			}
+			if displayText == "" {
+				// the cell shows its own content
+				displayText = cellText(res, int(firstRow), int(firstCol))
+			}
 
 			// apply merge cell rules (see RecTypeMergeCells below)
 			for rn := int(firstRow); rn <= int(lastRow); rn++ {
@@ -421,6 +425,16 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 	return res, nil
 }
 
+// cellText returns the text a cell shows.
+func cellText(s *commonxl.Sheet, row, col int) string {
+	if row >= len(s.Rows) || col >= len(s.Rows[row]) || s.Rows[row][col].Type() == commonxl.BlankCell {
+		return ""
+	}
+	cell := s.Rows[row][col]
+	text, _ := s.Formatter.Apply(cell.FormatNo(), cell.Value())
+	return text
+}
+
 // appendChars appends the 8-bit or 16-bit characters in raw to us.
 func appendChars(us []uint16, raw []byte, flags byte) []uint16 {
 	if (flags & 1) == 0 {
-- 
2.43.0


From 002016d8906281f48622e18fe840dee1812c30d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:02 +0000
Subject: [PATCH 31/98] fix: a hyperlink to a place inside of a file keeps the
 name of the file

---
 xls/hyperlinks.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xls/hyperlinks.go b/xls/hyperlinks.go
index 894bd45..30f4a56 100644
--- a/xls/hyperlinks.go
+++ b/xls/hyperlinks.go
@@ -65,7 +65,13 @@ func decodeHyperlinks(raw []byte) (displayText, linkText string, err error) {
 			us[i] = binary.LittleEndian.Uint16(raw)
 			raw = raw[2:]
 		}
-		linkText = string(utf16.Decode(us))
+		location := strings.TrimRight(string(utf16.Decode(us)), "\x00")
+		linkText = strings.TrimRight(linkText, "\x00")
+		if linkText != "" {
+			// a place inside of the target
+			location = linkText + "#" + location
+		}
+		linkText = location
 	}
 
 	linkText = strings.Trim(linkText, " \v\f\t\r\n\x00")
-- 
2.43.0


From b525bcc78f0043b2c6d27f4b0afba91c6315df71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 32/98] fix: negative amounts of accounting formats are shown
 in parentheses without a sign

---
 commonxl/fmt.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index f52fa54..85b9ad0 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -300,15 +300,15 @@ var goFormatters = map[uint16]FmtFunc{
 	11: sprintfFunc(`%4.2E`, 1),
 	48: sprintfFunc(`%3.1E`, 1),
 
-	41: zeroDashFunc(addCommas(sprintfFunc("%d", 1))),
-	43: zeroDashFunc(addCommas(sprintfFunc("%4.2f", 1))),
+	41: zeroDashFunc(addNegParens(addCommas(sprintfFunc("%d", 1)))),
+	43: zeroDashFunc(addNegParens(addCommas(sprintfFunc("%4.2f", 1)))),
 
 	42: switchFmtFunc(
 		surround("$", addCommas(sprintfFunc("%d", 1)), ""),
-		surround("$(", addCommas(sprintfFunc("%d", 1)), ")"),
+		surround("$", addNegParens(addCommas(sprintfFunc("%d", 1))), ""),
 		staticFmtFunc("$-")),
 	44: switchFmtFunc(
 		surround("$", addCommas(sprintfFunc("%4.2f", 1)), ""),
-		surround("$(", addCommas(sprintfFunc("%4.2f", 1)), ")"),
+		surround("$", addNegParens(addCommas(sprintfFunc("%4.2f", 1))), ""),
 		staticFmtFunc("$-")),
 }
-- 
2.43.0


From 88618cb9870014d139b042c4810834df59b5fb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 33/98] fix: workbooks which use the 1904 date system are read
 with it

---
 xls/xls.go       | 1 +
 xlsx/workbook.go | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/xls/xls.go b/xls/xls.go
index 15ff55c..cdd595a 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -296,6 +296,7 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 
 			case RecTypeDate1904:
 				b.dateMode = binary.LittleEndian.Uint16(nr.Data)
+				b.nfmt.Mode1904(b.dateMode == 1)
 
 			case RecTypeFormat:
 				// Format maps a format ID to a code string
diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index ad92ad6..3d5c815 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -80,6 +80,9 @@ func (d *Document) parseWorkbook(dec *xml.Decoder) error {
 					err:     errNotLoaded,
 				}
 				d.sheets = append(d.sheets, s)
+			case "workbookPr":
+				ax := getAttrs(v.Attr, "date1904")
+				d.fmt.Mode1904(ax[0] == "1" || ax[0] == "true")
 			case "workbook", "sheets":
 				// containers
 			default:
-- 
2.43.0


From bf04f285f042fd3ab599d43ddeeff90ebe244394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:31 +0000
Subject: [PATCH 34/98] fix: times of day are rounded to the millisecond, not
 truncated to the second before

---
 commonxl/dates.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/commonxl/dates.go b/commonxl/dates.go
index dad6ae9..07c7818 100644
--- a/commonxl/dates.go
+++ b/commonxl/dates.go
@@ -1,6 +1,7 @@
 package commonxl
 
 import (
+	"math"
 	"strings"
 	"time"
 )
@@ -31,7 +32,7 @@ func (x *Formatter) ConvertToDate(val float64) time.Time {
 		month := time.Month(J + 2 - 12*L)
 		year := 100*(N-49) + I + L
 
-		t := time.Duration(float64(time.Hour*24) * frac)
+		t := timeOfDay(frac)
 		return time.Date(year, month, day, 0, 0, 0, 0, time.UTC).Add(t)
 	}
 	frac := val - float64(v)
@@ -40,10 +41,16 @@ func (x *Formatter) ConvertToDate(val float64) time.Time {
 		date = time.Date(1899, 12, 30, 0, 0, 0, 0, time.UTC)
 	}
 
-	t := time.Duration(float64(time.Hour*24) * frac)
+	t := timeOfDay(frac)
 	return date.AddDate(0, 0, v).Add(t)
 }
 
+// timeOfDay converts the fraction of a day, correct to the millisecond
+// (the fraction of a serial number is not much more exact than that).
+func timeOfDay(frac float64) time.Duration {
+	return time.Duration(math.Round(frac*86400000)) * time.Millisecond
+}
+
 func timeFmtFunc(f string) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		t, ok := v.(time.Time)
-- 
2.43.0


From 6639cf0ee7f0c82d79055ce314ecd5ff700e47ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 35/98] fix: built-in date formats show months, elapsed hours
 and tenths, and no quotation marks

---
 commonxl/dates.go | 18 ++++++++++++++++++
 commonxl/fmt.go   | 44 ++++++++++++++++++++++----------------------
 2 files changed, 40 insertions(+), 22 deletions(-)

diff --git a/commonxl/dates.go b/commonxl/dates.go
index 07c7818..853f027 100644
--- a/commonxl/dates.go
+++ b/commonxl/dates.go
@@ -2,6 +2,7 @@ package commonxl
 
 import (
 	"math"
+	"strconv"
 	"strings"
 	"time"
 )
@@ -66,6 +67,23 @@ func timeFmtFunc(f string) FmtFunc {
 	}
 }
 
+// elapsedFmtFunc formats a time with the number of hours since serial 0 in
+// front of the layout.
+func elapsedFmtFunc(f string) FmtFunc {
+	return func(x *Formatter, v interface{}) string {
+		t, ok := v.(time.Time)
+		if !ok {
+			fval, ok := convertToFloat64(v)
+			if !ok {
+				return "MUST BE time.Time OR numeric TO FORMAT CORRECTLY"
+			}
+			t = x.ConvertToDate(fval)
+		}
+		hours := (t.Unix() - x.ConvertToDate(0).Unix()) / 3600
+		return strconv.FormatInt(hours, 10) + t.Format(f)
+	}
+}
+
 // same as above but replaces "AM" and "PM" with chinese translations.
 // TODO: implement others
 func cnTimeFmtFunc(f string) FmtFunc {
diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 85b9ad0..cf224ad 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -235,23 +235,23 @@ var goFormatters = map[uint16]FmtFunc{
 	21: timeFmtFunc(`15:04:05`),
 	22: timeFmtFunc(`1/2/06 15:04`),
 	45: timeFmtFunc(`04:05`),
-	46: timeFmtFunc(`3:04:05`),
-	47: timeFmtFunc(`0405.9`),
-	27: timeFmtFunc(`2006"年"1"月"`),
-	28: timeFmtFunc(`1"月"2"日"`),
-	29: timeFmtFunc(`1"月"2"日"`),
+	46: elapsedFmtFunc(`:04:05`),
+	47: timeFmtFunc(`0405.0`),
+	27: timeFmtFunc(`2006年1月`),
+	28: timeFmtFunc(`1月2日`),
+	29: timeFmtFunc(`1月2日`),
 	30: timeFmtFunc(`1-2-06`),
-	31: timeFmtFunc(`2006"年"1"月"2"日"`),
-	32: timeFmtFunc(`15"时"04"分"`),
-	33: timeFmtFunc(`15"时"04"分"05"秒"`),
-	36: timeFmtFunc(`2006"年"2"月"`),
-	50: timeFmtFunc(`2006"年"2"月"`),
-	51: timeFmtFunc(`1"月"2"日"`),
-	52: timeFmtFunc(`2006"年"1"月"`),
-	53: timeFmtFunc(`1"月"2"日"`),
-	54: timeFmtFunc(`1"月"2"日"`),
-	57: timeFmtFunc(`2006"年"1"月"`),
-	58: timeFmtFunc(`1"月"2"日"`),
+	31: timeFmtFunc(`2006年1月2日`),
+	32: timeFmtFunc(`15时04分`),
+	33: timeFmtFunc(`15时04分05秒`),
+	36: timeFmtFunc(`2006年1月`),
+	50: timeFmtFunc(`2006年1月`),
+	51: timeFmtFunc(`1月2日`),
+	52: timeFmtFunc(`2006年1月`),
+	53: timeFmtFunc(`1月2日`),
+	54: timeFmtFunc(`1月2日`),
+	57: timeFmtFunc(`2006年1月`),
+	58: timeFmtFunc(`1月2日`),
 	71: timeFmtFunc(`2/1/2006`),
 	72: timeFmtFunc(`2-Jan-06`),
 	73: timeFmtFunc(`2-Jan`),
@@ -260,16 +260,16 @@ var goFormatters = map[uint16]FmtFunc{
 	76: timeFmtFunc(`15:04:05`),
 	77: timeFmtFunc(`2/1/2006 15:04`),
 	78: timeFmtFunc(`04:05`),
-	79: timeFmtFunc(`15:04:05`),
-	80: timeFmtFunc(`04:05.9`),
+	79: elapsedFmtFunc(`:04:05`),
+	80: timeFmtFunc(`04:05.0`),
 	81: timeFmtFunc(`2/1/06`),
 	18: timeFmtFunc(`3:04 PM`),
 	19: timeFmtFunc(`3:04:05 PM`),
 
-	34: cnTimeFmtFunc(`PM 3"时"04"分"`),
-	35: cnTimeFmtFunc(`PM 3"时"04"分"05"秒"`),
-	55: cnTimeFmtFunc(`PM 3"时"04"分"`),
-	56: cnTimeFmtFunc(`PM 3"时"04"分"05"秒`),
+	34: cnTimeFmtFunc(`PM 3时04分`),
+	35: cnTimeFmtFunc(`PM 3时04分05秒`),
+	55: cnTimeFmtFunc(`PM 3时04分`),
+	56: cnTimeFmtFunc(`PM 3时04分05秒`),
 
 	12: fracFmtFunc(1),
 	13: fracFmtFunc(2),
-- 
2.43.0


From 4a4e52e8c63f6a6ccec4bf6f11879575146800ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 36/98] fix: negative numbers and numbers above one are
 converted to fractions, and tiny fractions stay within their digits

---
 commonxl/numbers.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/commonxl/numbers.go b/commonxl/numbers.go
index c3df4c2..a14ca18 100644
--- a/commonxl/numbers.go
+++ b/commonxl/numbers.go
@@ -30,6 +30,7 @@ func DecimalToFraction(val float64, nn, nd int) (num, den int) {
 	if val < 0 {
 		sign = -1
 		z = -val
+		val = z
 	}
 	if nn == 0 {
 		nn = 2
@@ -45,7 +46,8 @@ func DecimalToFraction(val float64, nn, nd int) (num, den int) {
 		return int(z) * sign, 1
 	}
 	if fracPart < 1e-9 {
-		return sign, int(1e9)
+		// too small for any denominator
+		return int(z) * sign, 1
 	}
 	if fracPart > 1e9 {
 		return int(1e9) * sign, 1
@@ -53,7 +55,7 @@ func DecimalToFraction(val float64, nn, nd int) (num, den int) {
 
 	diff := 1.0
 	denom := 1.0
-	numer := 0.0
+	numer := math.Floor(val)
 	var lastDenom, lastNumer float64
 	for diff > 1e-10 && z != math.Floor(z) {
 		z = 1 / (z - math.Floor(z))
-- 
2.43.0


From 751a0599efb74a05ae682447f4ccce0cb6c3db5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 37/98] fix: whole numbers beyond the integer range keep their
 value under fraction formats

---
 commonxl/fmt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index cf224ad..e4c2b30 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -178,6 +178,10 @@ func fracFmtFunc(n int) FmtFunc {
 		if !ok {
 			return "MUST BE numeric TO FORMAT CORRECTLY"
 		}
+		if f == math.Trunc(f) {
+			// whatever its size
+			return strconv.FormatFloat(f, 'f', 0, 64)
+		}
 		w, n, d := DecimalToWholeFraction(f, n, n)
 		if n == 0 {
 			return fmt.Sprintf("%d", w)
-- 
2.43.0


From 7bdf74c6b40bd21c3f05a87025fb7a3d9d19f448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:44 +0000
Subject: [PATCH 38/98] fix: a format code of General does not replace an
 earlier number format

---
 commonxl/formats.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index 487299b..a748cf3 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -35,10 +35,6 @@ func (x *Formatter) Add(fmtID uint16, formatCode string) error {
 		x.customCodes = make(map[uint16]FmtFunc)
 		x.customCodeTypes = make(map[uint16]CellType)
 	}
-	if strings.ToLower(formatCode) == "general" {
-		x.customCodes[fmtID] = goFormatters[0]
-		return nil
-	}
 	_, ok := goFormatters[fmtID]
 	if ok {
 		return errors.New("grate/commonxl: cannot replace default number formats")
@@ -49,6 +45,10 @@ func (x *Formatter) Add(fmtID uint16, formatCode string) error {
 		return errors.New("grate/commonxl: cannot replace existing number formats")
 	}
 
+	if strings.ToLower(formatCode) == "general" {
+		x.customCodes[fmtID] = goFormatters[0]
+		return nil
+	}
 	x.customCodes[fmtID], x.customCodeTypes[fmtID] = makeFormatter(formatCode)
 	if ff, ok := makeTextFormatter(formatCode); ok {
 		if x.customTextCodes == nil {
-- 
2.43.0


From 438cd09385c5f68e6393df1a6bcb332dc8317b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:18 +0000
Subject: [PATCH 39/98] fix: literals, sections, digit counts and date
 components of custom format codes are interpreted as written

---
 commonxl/dates.go   |  27 +++++
 commonxl/fmt.go     |  54 +++++++++-
 commonxl/formats.go | 246 +++++++++++++++++++++++++++++---------------
 3 files changed, 242 insertions(+), 85 deletions(-)

diff --git a/commonxl/dates.go b/commonxl/dates.go
index 853f027..484c12b 100644
--- a/commonxl/dates.go
+++ b/commonxl/dates.go
@@ -84,6 +84,33 @@ func elapsedFmtFunc(f string) FmtFunc {
 	}
 }
 
+// elapsedPlane is a private range of characters, which mark the components
+// of a layout which count from serial 0.
+const elapsedPlane = 0xF1000
+
+// codeTimeFmtFunc formats a time with the layout of a custom format code,
+// which may hold hidden literals and elapsed components.
+func codeTimeFmtFunc(f string) FmtFunc {
+	return func(x *Formatter, v interface{}) string {
+		t, ok := v.(time.Time)
+		if !ok {
+			fval, ok := convertToFloat64(v)
+			if !ok {
+				return "MUST BE time.Time OR numeric TO FORMAT CORRECTLY"
+			}
+			t = x.ConvertToDate(fval)
+		}
+		s := t.Format(f)
+		for r, unit := range map[rune]int64{'h': 3600, 'm': 60, 's': 1} {
+			if strings.ContainsRune(s, elapsedPlane+r) {
+				n := (t.Unix() - x.ConvertToDate(0).Unix()) / unit
+				s = strings.ReplaceAll(s, string(elapsedPlane+r), strconv.FormatInt(n, 10))
+			}
+		}
+		return showLiterals(s)
+	}
+}
+
 // same as above but replaces "AM" and "PM" with chinese translations.
 // TODO: implement others
 func cnTimeFmtFunc(f string) FmtFunc {
diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index e4c2b30..4c89566 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -36,7 +36,7 @@ func addCommas(ff FmtFunc) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		s1 := ff(x, v)
 		isNeg := false
-		if s1[0] == '-' {
+		if strings.HasPrefix(s1, "-") {
 			isNeg = true
 			s1 = s1[1:]
 		}
@@ -55,6 +55,58 @@ func addCommas(ff FmtFunc) FmtFunc {
 	}
 }
 
+// padDigits adds leading zeros up to n integer digits.
+func padDigits(ff FmtFunc, n int) FmtFunc {
+	return func(x *Formatter, v interface{}) string {
+		s1 := ff(x, v)
+		sign := ""
+		if strings.HasPrefix(s1, "-") {
+			sign, s1 = "-", s1[1:]
+		}
+		endIndex := strings.IndexAny(s1, ".eE")
+		if endIndex < 0 {
+			endIndex = len(s1)
+		}
+		if endIndex < n {
+			s1 = strings.Repeat("0", n-endIndex) + s1
+		}
+		return sign + s1
+	}
+}
+
+// trimDecimals removes trailing zeros down to n decimal digits.
+func trimDecimals(ff FmtFunc, n int) FmtFunc {
+	return func(x *Formatter, v interface{}) string {
+		s1 := ff(x, v)
+		dot := strings.IndexByte(s1, '.')
+		for dot >= 0 && len(s1) > dot+1+n && s1[len(s1)-1] == '0' {
+			s1 = s1[:len(s1)-1]
+		}
+		return strings.TrimSuffix(s1, ".")
+	}
+}
+
+// hideZero shows nothing for a zero.
+func hideZero(ff FmtFunc) FmtFunc {
+	return func(x *Formatter, v interface{}) string {
+		s1 := ff(x, v)
+		if s1 == "0" || s1 == "-0" {
+			return ""
+		}
+		return s1
+	}
+}
+
+// absFunc formats negative values without a sign.
+func absFunc(ff FmtFunc) FmtFunc {
+	return func(x *Formatter, v interface{}) string {
+		if fval, ok := convertToFloat64(v); ok && fval < 0.0 {
+			v = -fval
+		}
+		return ff(x, v)
+	}
+}
+
 func identFunc(x *Formatter, v interface{}) string {
 	switch x := v.(type) {
 	case bool:
diff --git a/commonxl/formats.go b/commonxl/formats.go
index a748cf3..378b333 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -71,39 +71,156 @@ func (x *Formatter) getCellType(fmtID uint16) (CellType, bool) {
 }
 
 var (
-	minsMatch = regexp.MustCompile("h.*m.*s")
-	nonEsc    = regexp.MustCompile(`([^"]|^)"`)
-	squash    = regexp.MustCompile(`[*_].`)
-	fixEsc    = regexp.MustCompile(`\\(.)`)
+	dateToken = regexp.MustCompile(`(?i)am/pm|\[h+\]|\[m+\]|\[s+\]|y+|m+|d+|h+|s+`)
+	elapsed   = regexp.MustCompile(`(?i)^\[(h+|m+|s+)\]$`)
+	exponent  = regexp.MustCompile("[eE]+[+-]0+")
+	surReg    = regexp.MustCompile(`[0#?,.]+`)
 
-	formatMatchBrackets    = regexp.MustCompile(`\[[^\]]*\]`)
-	formatMatchTextLiteral = regexp.MustCompile(`"[^"]*"`)
+	formatMatchBrackets = regexp.MustCompile(`\[[^\]]*\]`)
 )
 
+// literalPlane is a private range of characters, which hides the literals
+// of a format code from its placeholders.
+const literalPlane = 0xF0000
+
+// hideLiterals removes the quotes, escapes and spacing of a format code and
+// moves its literal characters to the literalPlane.
+func hideLiterals(s string) string {
+	var b strings.Builder
+	hide := func(r rune) {
+		if r < 0x80 {
+			r += literalPlane
+		}
+		b.WriteRune(r)
+	}
+	quoted, bracket := false, false
+	var escape rune
+	for _, r := range s {
+		switch {
+		case escape != 0:
+			if escape == '\\' {
+				hide(r)
+			}
+			escape = 0
+		case quoted && r != '"':
+			hide(r)
+		case bracket:
+			b.WriteRune(r)
+			bracket = r != ']'
+		case r == '"':
+			quoted = !quoted
+		case r == '\\' || r == '_' || r == '*':
+			escape = r
+		default:
+			b.WriteRune(r)
+			bracket = r == '['
+		}
+	}
+	return b.String()
+}
+
+// showLiterals reverses hideLiterals.
+func showLiterals(s string) string {
+	return strings.Map(func(r rune) rune {
+		if r >= literalPlane && r < literalPlane+0x80 {
+			return r - literalPlane
+		}
+		return r
+	}, s)
+}
+
+// removeBrackets removes any coloring marks, conditions and locales.
+func removeBrackets(s string) string {
+	return formatMatchBrackets.ReplaceAllStringFunc(s, func(b string) string {
+		if elapsed.MatchString(b) {
+			return b
+		}
+		return ""
+	})
+}
+
 // makeTextFormatter makes the formatter for the text section of a format
 // code, it returns false if there is none (text is then shown as it is).
 func makeTextFormatter(s string) (FmtFunc, bool) {
-	s = formatMatchBrackets.ReplaceAllString(s, "")
-	parts := strings.Split(s, ";")
+	parts := strings.Split(removeBrackets(hideLiterals(s)), ";")
 	s = parts[0]
 	if len(parts) > 3 {
 		s = parts[3]
-	} else if len(parts) > 1 || !strings.Contains(formatMatchTextLiteral.ReplaceAllString(s, ""), "@") {
+	} else if len(parts) > 1 || !strings.Contains(s, "@") {
 		return nil, false
 	}
-	s = squash.ReplaceAllString(s, ``)
-	s = nonEsc.ReplaceAllString(s, `$1`)
-	s = fixEsc.ReplaceAllString(s, `$1`)
 	if i := strings.IndexByte(s, '@'); i >= 0 {
-		return surround(s[:i], identFunc, s[i+1:]), true
+		return surround(showLiterals(s[:i]), identFunc, showLiterals(s[i+1:])), true
 	}
-	return staticFmtFunc(s), true
+	return staticFmtFunc(showLiterals(s)), true
+}
+
+// dateLayout translates the components of a date format to a layout for
+// time.Format.
+func dateLayout(s string) string {
+	var b strings.Builder
+	toks := dateToken.FindAllStringIndex(s, -1)
+	tok := func(i int) string {
+		if i < 0 || i >= len(toks) {
+			return " "
+		}
+		return strings.ToLower(s[toks[i][0]:toks[i][1]])
+	}
+	hour := "15"
+	for i := range toks {
+		if tok(i) == "am/pm" {
+			hour = "3"
+		}
+	}
+	end := 0
+	for i, loc := range toks {
+		b.WriteString(s[end:loc[0]])
+		end = loc[1]
+		t := tok(i)
+		switch t[0] {
+		case '[':
+			b.WriteRune(elapsedPlane + rune(t[1]))
+		case 'a':
+			b.WriteString("PM")
+		case 'y':
+			if len(t) > 2 {
+				b.WriteString("2006")
+			} else {
+				b.WriteString("06")
+			}
+		case 'd':
+			b.WriteString([]string{"2", "02", "Mon", "Monday"}[min(len(t), 4)-1])
+		case 'h':
+			if len(t) > 1 && hour == "3" {
+				b.WriteByte('0')
+			}
+			b.WriteString(hour)
+		case 's':
+			b.WriteString([]string{"5", "05"}[min(len(t), 2)-1])
+		case 'm':
+			prev, next := tok(i-1), tok(i+1)
+			if len(t) <= 2 && (prev[0] == 'h' || prev[:min(len(prev), 2)] == "[h" || next[0] == 's') {
+				b.WriteString([]string{"4", "04"}[len(t)-1])
+			} else {
+				// mmmmm is super ambiguous, replace with 3-letter month
+				b.WriteString([]string{"1", "01", "Jan", "January", "Jan"}[min(len(t), 5)-1])
+			}
+		}
+	}
+	b.WriteString(s[end:])
+	return b.String()
+}
+
+func min(a, b int) int {
+	if a < b {
+		return a
+	}
+	return b
 }
 
 func makeFormatter(s string) (FmtFunc, CellType) {
 	//log.Printf("makeFormatter('%s')", s)
-	// remove any coloring marks
-	s = formatMatchBrackets.ReplaceAllString(s, "")
+	s = removeBrackets(hideLiterals(s))
 	if strings.Contains(s, ";") {
 		parts := strings.Split(s, ";")
 		posFF, ctypePos := makeFormatter(parts[0])
@@ -111,47 +228,27 @@ func makeFormatter(s string) (FmtFunc, CellType) {
 		for i, ps := range parts[1:] {
 			rem[i], _ = makeFormatter(ps)
 		}
+		// the section for negative values defines the sign itself
+		rem[0] = absFunc(rem[0])
 		return switchFmtFunc(posFF, rem...), ctypePos
 	}
 
-	// escaped characters, and quoted text
-	s2 := fixEsc.ReplaceAllString(s, "")
-	s2 = formatMatchTextLiteral.ReplaceAllString(s, "")
-
-	if strings.ContainsAny(s2, "ymdhs") {
+	if strings.ContainsAny(s, "ymdhsYMDHS") {
 		// it's a date/time format
+		return codeTimeFmtFunc(dateLayout(s)), DateCell
+	}
 
-		if loc := minsMatch.FindStringIndex(s); loc != nil {
-			// m or mm in loc[0]:loc[1] is a minute format
-			inner := s[loc[0]:loc[1]]
-			inner = strings.Replace(inner, "mm", "04", 1)
-			inner = strings.Replace(inner, "m", "4", 1)
-			s = s[:loc[0]] + inner + s[loc[1]:]
-		}
-		dfreps := [][]string{
-			{"hh", "15"}, {"h", "15"},
-			{"ss", "05"}, {"s", "5"},
-			{"mmmmm", "Jan"}, // super ambiguous, replace with 3-letter month
-			{"mmmm", "January"}, {"mmm", "Jan"},
-			{"mm", "01"}, {"m", "1"},
-			{"dddd", "Monday"}, {"ddd", "Mon"},
-			{"dd", "02"}, {"d", "2"},
-			{"yyyy", "2006"}, {"yy", "06"},
-		}
-		if strings.Contains(s, "AM") || strings.Contains(s, "PM") {
-			dfreps[0][1] = "03"
-			dfreps[1][1] = "3"
-		}
-		for _, dfr := range dfreps {
-			s = strings.Replace(s, dfr[0], dfr[1], 1)
-		}
-
-		s = nonEsc.ReplaceAllString(s, `$1`)
-		s = squash.ReplaceAllString(s, ``)
-		s = fixEsc.ReplaceAllString(s, `$1`)
-
-		//log.Printf("   made time formatter '%s'", s)
-		return timeFmtFunc(s), DateCell
+	// digits which are always shown, and which are shown if they matter
+	digits := strings.SplitN(strings.ReplaceAll(exponent.ReplaceAllString(s, ""), ",", ""), ".", 2)
+	intDigits := strings.Count(digits[0], "0")
+	fracDigits, optDigits := 0, 0
+	if len(digits) > 1 {
+		fracDigits = strings.Count(digits[1], "0")
+		optDigits = strings.Count(digits[1], "#") + strings.Count(digits[1], "?")
+	}
+	mul := 1
+	if strings.Contains(s, "%") {
+		mul = 100
 	}
 
 	var ff FmtFunc
@@ -161,47 +258,32 @@ func makeFormatter(s string) (FmtFunc, CellType) {
 		if strings.ContainsAny(s, "Ee") {
 			verb = "E"
 		}
-		s = regexp.MustCompile("[eE]+[+-]0+").ReplaceAllString(s, "")
-		s2 := strings.ReplaceAll(s, ",", "")
-		i1 := strings.IndexAny(s2, "0")
-		i2 := strings.IndexByte(s2, '.')
-		i3 := strings.LastIndexAny(s2, "0.")
-		mul := 1
-		if strings.Contains(s2, "%") {
-			mul = 100
-		}
-		sf := fmt.Sprintf("%%%d.%d%s", i3-i1, i3-i2, verb)
+		s = exponent.ReplaceAllString(s, "")
+		sf := fmt.Sprintf("%%.%d%s", fracDigits+optDigits, verb)
 		//log.Printf("   made float formatter '%s'", sf)
 		ff = sprintfFunc(sf, mul)
+		if verb == "f" && optDigits > 0 {
+			ff = trimDecimals(ff, fracDigits)
+		}
 		ctype = FloatCell
 	} else {
-		s2 := strings.ReplaceAll(s, ",", "")
-		i1 := strings.IndexAny(s2, "0")
-		i2 := strings.LastIndexAny(s2, "0.")
-		mul := 1
-		if strings.Contains(s2, "%") {
-			mul = 100
-		}
-		sf := fmt.Sprintf("%%%dd", i2-i1)
-		if (i2 - i1) == 0 {
-			sf = "%d"
-		}
-		//log.Printf("   made int formatter '%s'", sf)
-		ff = sprintfFunc(sf, mul)
+		ff = sprintfFunc("%d", mul)
 		ctype = IntegerCell
 	}
+	if intDigits > 1 {
+		ff = padDigits(ff, intDigits)
+	} else if intDigits+fracDigits == 0 {
+		ff = hideZero(ff)
+	}
 
 	if strings.Contains(s, ",") {
 		ff = addCommas(ff)
 		//log.Printf("   added commas")
 	}
 
-	surReg := regexp.MustCompile(`[0#?,.]+`)
 	prepost := surReg.Split(s, 2)
-	if len(prepost) > 0 && len(prepost[0]) > 0 {
-		prepost[0] = nonEsc.ReplaceAllString(prepost[0], `$1`)
-		prepost[0] = squash.ReplaceAllString(prepost[0], ``)
-		prepost[0] = fixEsc.ReplaceAllString(prepost[0], `$1`)
+	for i := range prepost {
+		prepost[i] = showLiterals(prepost[i])
 	}
 	if len(prepost) == 1 {
 		if prepost[0] == "@" {
@@ -212,10 +294,6 @@ func makeFormatter(s string) (FmtFunc, CellType) {
 		return staticFmtFunc(prepost[0]), BlankCell
 	}
 	if len(prepost[0]) > 0 || len(prepost[1]) > 0 {
-		prepost[1] = nonEsc.ReplaceAllString(prepost[1], `$1`)
-		prepost[1] = squash.ReplaceAllString(prepost[1], ``)
-		prepost[1] = fixEsc.ReplaceAllString(prepost[1], `$1`)
-
 		ff = surround(prepost[0], ff, prepost[1])
 		//log.Printf("   added surround ('%s' ... '%s')", prepost[0], prepost[1])
 	}
-- 
2.43.0


From 3a8144b9686974073265fb3dccfe00ee7dbdd258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:20 +0000
Subject: [PATCH 40/98] fix: a value which cannot be shown as a date or
 fraction is shown as it is

---
 commonxl/dates.go | 8 ++++----
 commonxl/fmt.go   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/commonxl/dates.go b/commonxl/dates.go
index 484c12b..f3df8e2 100644
--- a/commonxl/dates.go
+++ b/commonxl/dates.go
@@ -58,7 +58,7 @@ func timeFmtFunc(f string) FmtFunc {
 		if !ok {
 			fval, ok := convertToFloat64(v)
 			if !ok {
-				return "MUST BE time.Time OR numeric TO FORMAT CORRECTLY"
+				return identFunc(x, v)
 			}
 			t = x.ConvertToDate(fval)
 		}
@@ -75,7 +75,7 @@ func elapsedFmtFunc(f string) FmtFunc {
 		if !ok {
 			fval, ok := convertToFloat64(v)
 			if !ok {
-				return "MUST BE time.Time OR numeric TO FORMAT CORRECTLY"
+				return identFunc(x, v)
 			}
 			t = x.ConvertToDate(fval)
 		}
@@ -96,7 +96,7 @@ func codeTimeFmtFunc(f string) FmtFunc {
 		if !ok {
 			fval, ok := convertToFloat64(v)
 			if !ok {
-				return "MUST BE time.Time OR numeric TO FORMAT CORRECTLY"
+				return identFunc(x, v)
 			}
 			t = x.ConvertToDate(fval)
 		}
@@ -119,7 +119,7 @@ func cnTimeFmtFunc(f string) FmtFunc {
 		if !ok {
 			fval, ok := convertToFloat64(v)
 			if !ok {
-				return "MUST BE time.Time OR numeric TO FORMAT CORRECTLY"
+				return identFunc(x, v)
 			}
 			t = x.ConvertToDate(fval)
 		}
diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 4c89566..8992361 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -228,7 +228,7 @@ func fracFmtFunc(n int) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		f, ok := convertToFloat64(v)
 		if !ok {
-			return "MUST BE numeric TO FORMAT CORRECTLY"
+			return identFunc(x, v)
 		}
 		if f == math.Trunc(f) {
 			// whatever its size
-- 
2.43.0


From 41acb83063492f74a11ae7cf115c73330e653991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 41/98] fix: the CSV opener accepts a file which it has read to
 the end

---
 simple/csv.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple/csv.go b/simple/csv.go
index 8df92e5..a52ea2b 100644
--- a/simple/csv.go
+++ b/simple/csv.go
@@ -2,6 +2,7 @@ package simple
 
 import (
 	"encoding/csv"
+	"io"
 	"os"
 
 	"github.com/pbnjay/grate"
@@ -33,7 +34,7 @@ func OpenCSV(filename string) (grate.Source, error) {
 		total++
 		t.rows = append(t.rows, rec)
 	}
-	if err != nil {
+	if err != nil && err != io.EOF {
 		switch perr := err.(type) {
 		case *csv.ParseError:
 			return nil, grate.WrapErr(perr, grate.ErrNotInFormat)
-- 
2.43.0


From 0421c89d6f6fa2f0d995a15658a425d0c1611885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 42/98] fix: lines of a tab-separated file may be longer than
 64 KB

---
 simple/tsv.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simple/tsv.go b/simple/tsv.go
index ae51707..5f49d93 100644
--- a/simple/tsv.go
+++ b/simple/tsv.go
@@ -2,6 +2,7 @@ package simple
 
 import (
 	"bufio"
+	"math"
 	"os"
 	"strings"
 
@@ -24,6 +25,7 @@ func OpenTSV(filename string) (grate.Source, error) {
 	}
 
 	s := bufio.NewScanner(f)
+	s.Buffer(nil, math.MaxInt32) // lines may be longer than the default limit
 	total := 0
 	ncols := make(map[int]int)
 	for s.Scan() {
-- 
2.43.0


From 8526a0a66e9dbd16e1f6a71c4603bc8e7b295cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 43/98] fix: each collection of a delimited file has its own
 row position

---
 simple/simple.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple/simple.go b/simple/simple.go
index b26669e..e6a54a0 100644
--- a/simple/simple.go
+++ b/simple/simple.go
@@ -29,7 +29,8 @@ func (t *simpleFile) Close() error {
 
 // Get a Collection from the source by name.
 func (t *simpleFile) Get(name string) (grate.Collection, error) {
-	return t, nil
+	// each collection has its own position
+	return &simpleFile{filename: t.filename, rows: t.rows, iterRow: -1}, nil
 }
 
 // Next advances to the next record of content.
-- 
2.43.0


From 8c1be8829c8ea0863eea6de9ab8410d1b34f493d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 44/98] fix: a delimited file has no current record before the
 first and after the last one

---
 simple/simple.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/simple/simple.go b/simple/simple.go
index e6a54a0..2cf668c 100644
--- a/simple/simple.go
+++ b/simple/simple.go
@@ -40,14 +40,22 @@ func (t *simpleFile) Next() bool {
 	return t.iterRow < len(t.rows)
 }
 
+// the current record, if there is one.
+func (t *simpleFile) row() []string {
+	if t.iterRow < 0 || t.iterRow >= len(t.rows) {
+		return nil
+	}
+	return t.rows[t.iterRow]
+}
+
 // Strings extracts values from the current record into a list of strings.
 func (t *simpleFile) Strings() []string {
-	return t.rows[t.iterRow]
+	return t.row()
 }
 
 // Formats extracts the format code for the current record into a list.
 func (t *simpleFile) Formats() []string {
-	res := make([]string, len(t.rows[t.iterRow]))
+	res := make([]string, len(t.row()))
 	for i := range res {
 		res[i] = "General"
 	}
@@ -58,8 +66,8 @@ func (t *simpleFile) Formats() []string {
 // options: "boolean", "integer", "float", "string", "date",
 // and special cases: "blank", "hyperlink" which are string types
 func (t *simpleFile) Types() []string {
-	res := make([]string, len(t.rows[t.iterRow]))
-	for i, v := range t.rows[t.iterRow] {
+	res := make([]string, len(t.row()))
+	for i, v := range t.row() {
 		if v == "" {
 			res[i] = "blank"
 		} else {
@@ -74,7 +82,7 @@ func (t *simpleFile) Types() []string {
 //     bool, int, float64, string, or time.Time
 func (t *simpleFile) Scan(args ...interface{}) error {
 	var err error
-	row := t.rows[t.iterRow]
+	row := t.row()
 	if len(row) != len(args) {
 		return fmt.Errorf("grate/simple: expected %d Scan destinations, got %d", len(row), len(args))
 	}
-- 
2.43.0


From b840d612576153dba57b94faaaccec431048ab5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 45/98] fix: Scan of a delimited record supports int64 and
 leaves destinations alone when it fails

---
 simple/simple.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/simple/simple.go b/simple/simple.go
index 2cf668c..8288a60 100644
--- a/simple/simple.go
+++ b/simple/simple.go
@@ -79,7 +79,7 @@ func (t *simpleFile) Types() []string {
 
 // Scan extracts values from the current record into the provided arguments
 // Arguments must be pointers to one of 5 supported types:
-//     bool, int, float64, string, or time.Time
+//     bool, int, int64, float64, string, or time.Time
 func (t *simpleFile) Scan(args ...interface{}) error {
 	var err error
 	row := t.row()
@@ -97,15 +97,27 @@ func (t *simpleFile) Scan(args ...interface{}) error {
 				*v = false
 			}
 		case *int:
+			var n int64
+			n, err = strconv.ParseInt(row[i], 10, strconv.IntSize)
+			if err == nil {
+				*v = int(n)
+			}
+		case *int64:
 			var n int64
 			n, err = strconv.ParseInt(row[i], 10, 64)
-			*v = int(n)
+			if err == nil {
+				*v = n
+			}
 		case *float64:
-			*v, err = strconv.ParseFloat(row[i], 64)
+			var x float64
+			x, err = strconv.ParseFloat(row[i], 64)
+			if err == nil {
+				*v = x
+			}
 		case *string:
 			*v = row[i]
 		case *time.Time:
-			return errors.New("grate/simple: time.Time not supported, you must parse date strings manually")
+			return grate.WrapErr(errors.New("grate/simple: time.Time not supported, you must parse date strings manually"), grate.ErrInvalidScanType)
 		default:
 			return grate.ErrInvalidScanType
 		}
-- 
2.43.0


From 10dbc2d741d4c23e1a80da03403df47f587affbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 46/98] fix: a delimited file without data values is empty

---
 simple/simple.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/simple/simple.go b/simple/simple.go
index 8288a60..5e86377 100644
--- a/simple/simple.go
+++ b/simple/simple.go
@@ -130,7 +130,14 @@ func (t *simpleFile) Scan(args ...interface{}) error {
 
 // IsEmpty returns true if there are no data values.
 func (t *simpleFile) IsEmpty() bool {
-	return len(t.rows) == 0
+	for _, r := range t.rows {
+		for _, v := range r {
+			if v != "" {
+				return false
+			}
+		}
+	}
+	return true
 }
 
 // Err returns the last error that occured.
-- 
2.43.0


From 43e734938cc8510342adb11144c45e4cc094575a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:01 +0000
Subject: [PATCH 47/98] fix: a hyperlink on a blank cell has no text

---
 commonxl/sheet.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index 1e77b36..1506991 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -169,6 +169,9 @@ func (s *Sheet) Strings() []string {
 			continue
 		}
 		val := cell.Value()
+		if val == nil { // a hyperlink on a blank cell
+			continue
+		}
 		fs, ok := s.Formatter.Apply(cell.FormatNo(), val)
 		if !ok {
 			fs = fmt.Sprint(val)
-- 
2.43.0


From f12087c4df40b9b31594f72bbdf7b1276fa313ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:22 +0000
Subject: [PATCH 48/98] fix: cells of any kind can be compared, numbers by
 their exact value and with text only if it is a number

---
 commonxl/cell.go | 101 +++++++++++++++++++++++++++++++----------------
 1 file changed, 67 insertions(+), 34 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index fb132fe..1e098bf 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -324,35 +324,72 @@ func (c *Cell) SetFormatNumber(f uint16) {
 	}
 }
 
+// number returns the numeric value of a cell or of the text in it.
+func (c Cell) number() (i int64, f float64, isInt, ok bool) {
+	if len(c) == 0 {
+		return
+	}
+	switch v := c[0].(type) {
+	case int64:
+		return v, float64(v), true, true
+	case float64:
+		return 0, v, false, true
+	case bool:
+		if v {
+			return 1, 1, true, true
+		}
+		return 0, 0, true, true
+	case string:
+		if x, err := strconv.ParseInt(v, 10, 64); err == nil {
+			return x, float64(x), true, true
+		}
+		x, err := strconv.ParseFloat(v, 64)
+		return 0, x, false, err == nil
+	}
+	return
+}
+
+// lessIntFloat is true if i < f.
+func lessIntFloat(i int64, f float64) bool {
+	if !(f < 1<<63) {
+		return f >= 1<<63
+	}
+	t := math.Ceil(f)
+	return t > -1<<63 && i < int64(t)
+}
+
+// lessFloatInt is true if f < i.
+func lessFloatInt(f float64, i int64) bool {
+	if !(f >= -1<<63) {
+		return f < -1<<63
+	}
+	t := math.Floor(f)
+	return t < 1<<63 && int64(t) < i
+}
+
 func (c Cell) Equal(other Cell) bool {
 	if c.Type() == FloatCell || other.Type() == FloatCell ||
 		c.Type() == IntegerCell || other.Type() == IntegerCell {
-		v1, ok := c[0].(float64)
-		v1x, okx := c[0].(int64)
-		if okx {
-			v1 = float64(v1x)
-			ok = true
-		}
-		if !ok {
-			fmt.Sscanf(fmt.Sprint(c[0]), "%g", &v1)
-		}
-		v2, ok := other[0].(float64)
-		v2x, okx := other[0].(int64)
-		if okx {
-			v2 = float64(v2x)
-			ok = true
-		}
-		if !ok {
-			fmt.Sscanf(fmt.Sprint(c[0]), "%g", &v2)
+		i1, f1, int1, ok1 := c.number()
+		i2, f2, int2, ok2 := other.number()
+		switch {
+		case !ok1 || !ok2:
+			return false
+		case int1 && int2:
+			return i1 == i2
+		case int1:
+			return !lessIntFloat(i1, f2) && !lessFloatInt(f2, i1)
+		case int2:
+			return !lessIntFloat(i2, f1) && !lessFloatInt(f1, i2)
 		}
-		return v1 == v2
+		return f1 == f2
 	}
 
 	return c.Less(other) == other.Less(c)
 }
 
 func (c Cell) Less(other Cell) bool {
-	if len(c) == 0 {
+	if len(c) == 0 || len(other) == 0 {
 		return false
 	}
 	switch v1 := c[0].(type) {
@@ -396,13 +433,7 @@ func (c Cell) Less(other Cell) bool {
 		case int64:
 			return v1 < v2
 		case float64:
-			if v2 < math.MinInt64 {
-				return false
-			}
-			if v2 > math.MaxInt64 {
-				return true
-			}
-			return float64(v1) < v2
+			return lessIntFloat(v1, v2)
 		case string:
 			var x int64
 			_, err := fmt.Sscanf(v2, "%d", &x)
@@ -422,13 +453,7 @@ func (c Cell) Less(other Cell) bool {
 			}
 			return v1 < x
 		case int64:
-			if v1 < math.MinInt64 {
-				return true
-			}
-			if v1 > math.MaxInt64 {
-				return false
-			}
-			return v1 < float64(v2)
+			return lessFloatInt(v1, v2)
 		case float64:
 			return v1 < v2
 		case string:
@@ -465,7 +490,15 @@ func (c Cell) Less(other Cell) bool {
 			return v1 < v2
 		}
 
+	case time.Time:
+		switch v2 := other[0].(type) {
+		case nil:
+			return false
+		case time.Time:
+			return v1.Before(v2)
+		}
 	}
 
-	panic("unable to compare cells (invalid internal type)")
+	// values of kinds which have no common order
+	return fmt.Sprint(c[0]) < fmt.Sprint(other[0])
 }
-- 
2.43.0


From 1e6219ccee6e73c24e20277de841ee9f98e44327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:22 +0000
Subject: [PATCH 49/98] fix: a large unsigned integer does not become negative

---
 commonxl/cell.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 1e098bf..7069498 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -236,7 +236,7 @@ func NewCell(value interface{}) Cell {
 		c[1] = IntegerCell
 
 	case uint:
-		if int64(v) > int64(math.MaxInt64) {
+		if uint64(v) > math.MaxInt64 {
 			c[0] = float64(v)
 			c[1] = FloatCell
 		} else {
-- 
2.43.0


From b945bac7acfd708116a4e1e069b30c38a54d0d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:28 +0000
Subject: [PATCH 50/98] fix: every error given to WrapErr can be recognised

---
 errs.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/errs.go b/errs.go
index 784a551..6dd7fae 100644
--- a/errs.go
+++ b/errs.go
@@ -35,8 +35,31 @@ func (e errx) Unwrap() error {
 	return nil
 }
 
+// Is reports whether any of the wrapped errors matches the target.
+func (e errx) Is(target error) bool {
+	for _, x := range e.errs {
+		if errors.Is(x, target) {
+			return true
+		}
+	}
+	return false
+}
+
+// As finds the first of the wrapped errors which matches the target.
+func (e errx) As(target interface{}) bool {
+	for _, x := range e.errs {
+		if errors.As(x, target) {
+			return true
+		}
+	}
+	return false
+}
+
 // WrapErr wraps a set of errors.
 func WrapErr(e ...error) error {
+	if len(e) == 0 {
+		return nil
+	}
 	if len(e) == 1 {
 		return e[0]
 	}
-- 
2.43.0


From da35c38e00286fc6f1d2e63c8b33f31813ff19de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:43 +0000
Subject: [PATCH 51/98] fix: a compound file is closed after it was loaded

---
 xls/cfb/interface.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xls/cfb/interface.go b/xls/cfb/interface.go
index ec5a6a9..e2d673f 100644
--- a/xls/cfb/interface.go
+++ b/xls/cfb/interface.go
@@ -13,6 +13,7 @@ func Open(filename string) (*Document, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer f.Close() // load reads the entire file
 	err = d.load(f)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 29090bf52385f80f9faefecf4c9eb9717469e6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:02 +0000
Subject: [PATCH 52/98] fix: directory entries with an empty or invalid name do
 not panic

---
 xls/cfb/cfb.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index e1c02fd..ff12009 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -77,9 +77,12 @@ type directory struct {
 }
 
 func (d *directory) String() string {
-	if (d.NameByteLen&1) == 1 || d.NameByteLen > 64 {
+	if (d.NameByteLen&1) != 0 || d.NameByteLen < 0 || d.NameByteLen > 64 {
 		return "<invalid utf16 string>"
 	}
+	if d.NameByteLen == 0 {
+		return ""
+	}
 	r16 := utf16.Decode(d.Name[:int(d.NameByteLen)/2])
 	// trim off null terminator
 	return string(r16[:len(r16)-1])
-- 
2.43.0


From 935794d6122587e4f7189483c05cba6eba3792f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:02 +0000
Subject: [PATCH 53/98] fix: damaged allocation tables end in an error, not in
 a panic, a loop or a huge allocation

---
 xls/cfb/cfb.go | 52 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index ff12009..a2da25c 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -105,6 +105,28 @@ type Document struct {
 	ministreamsize  uint32
 }
 
+// sector returns the contents of a sector. A last sector which is not padded to
+// its full size is shorter.
+func (d *Document) sector(sid uint32) ([]byte, error) {
+	offs := int64(1+uint64(sid)) << d.header.SectorShift
+	if sid > secMaxRegular || offs >= int64(len(d.data)) {
+		return nil, errors.New("ole2: corrupt data format")
+	}
+	end := offs + int64(1)<<d.header.SectorShift
+	if end > int64(len(d.data)) {
+		end = int64(len(d.data))
+	}
+	return d.data[offs:end], nil
+}
+
+// next returns the sector which follows in the chain of the given table.
+func next(table []uint32, sid uint32) (uint32, error) {
+	if int64(sid) >= int64(len(table)) {
+		return 0, errors.New("ole2: corrupt data format")
+	}
+	return table[sid], nil
+}
+
 func (d *Document) load(rx io.ReadSeeker) error {
 	var err error
 	d.data, err = ioutil.ReadAll(rx)
@@ -162,8 +184,9 @@ func (d *Document) load(rx io.ReadSeeker) error {
 
 	numFATentries := (1 << (h.SectorShift - 2))
 	le := binary.LittleEndian
-	d.fat = make([]uint32, 0, numFATentries*int(1+d.header.NumFATSectors))
-	d.minifat = make([]uint32, 0, numFATentries*int(1+h.NumMiniFATSectors))
+	maxSectors := len(d.data) >> h.SectorShift
+	d.fat = make([]uint32, 0, numFATentries)
+	d.minifat = make([]uint32, 0, numFATentries)
 
 	// step 1: read the DIFAT sector list
 	for i := 0; i < 109; i++ {
@@ -171,11 +194,10 @@ func (d *Document) load(rx io.ReadSeeker) error {
 		if sid == secFree {
 			break
 		}
-		offs := int64(1+sid) << int32(h.SectorShift)
-		if offs >= int64(len(d.data)) {
+		sector, err := d.sector(sid)
+		if err != nil || len(sector) < numFATentries*4 {
 			return errors.New("xls/cfb: unable to load file")
 		}
-		sector := d.data[offs:]
 		for j := 0; j < numFATentries; j++ {
 			sid2 := le.Uint32(sector)
 			d.fat = append(d.fat, sid2)
@@ -185,9 +207,11 @@ func (d *Document) load(rx io.ReadSeeker) error {
 	if h.NumDIFATSectors > 0 {
 		sid1 := h.FirstDIFATSectorLocation
 
-		for sid1 != secEndOfChain {
-			offs := int64(1+sid1) << int32(h.SectorShift)
-			difatSector := d.data[offs:]
+		for n := 0; sid1 != secEndOfChain && sid1 != secFree; n++ {
+			difatSector, err := d.sector(sid1)
+			if err != nil || len(difatSector) < numFATentries*4 || n > maxSectors {
+				return errors.New("xls/cfb: unable to load file")
+			}
 
 			for i := 0; i < numFATentries-1; i++ {
 				sid2 := le.Uint32(difatSector)
@@ -196,11 +220,10 @@ func (d *Document) load(rx io.ReadSeeker) error {
 					continue
 				}
 
-				offs := int64(1+sid2) << int32(h.SectorShift)
-				if offs >= int64(len(d.data)) {
+				sector, err := d.sector(sid2)
+				if err != nil || len(sector) < numFATentries*4 || len(d.fat) > maxSectors*numFATentries {
 					return errors.New("xls/cfb: unable to load file")
 				}
-				sector := d.data[offs:]
 				for j := 0; j < numFATentries; j++ {
 					sid3 := le.Uint32(sector)
 					d.fat = append(d.fat, sid3)
@@ -216,16 +239,15 @@ func (d *Document) load(rx io.ReadSeeker) error {
 
 	// step 2: read the mini FAT
 	sid := h.FirstMiniFATSectorLocation
-	for sid != secEndOfChain {
-		offs := int64(1+sid) << int32(h.SectorShift)
-		if offs >= int64(len(d.data)) {
+	for sid != secEndOfChain && sid != secFree {
+		sector, err := d.sector(sid)
+		if err != nil || len(sector) < numFATentries*4 || len(d.minifat) > maxSectors*numFATentries {
 			return errors.New("xls/cfb: unable to load file")
 		}
 		next := secEndOfChain
 		if int64(sid) < int64(len(d.fat)) {
 			next = d.fat[sid]
 		}
-		sector := d.data[offs:]
 		for j := 0; j < numFATentries; j++ {
 			sid = le.Uint32(sector)
 			d.minifat = append(d.minifat, sid)
-- 
2.43.0


From f1b21a8ed729ebc2f6f8a161bfd93753bc7da0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:03 +0000
Subject: [PATCH 54/98] fix: damaged or incomplete streams of a compound file
 are errors

---
 xls/cfb/cfb.go | 58 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 13 deletions(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index a2da25c..150bfb5 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -327,16 +327,21 @@ func (d *Document) buildDirs(br *bytes.Reader) error {
 func (d *Document) getStreamReader(sid uint32, size uint64) (io.ReadSeeker, error) {
 	// NB streamData is a slice of slices of the raw data, so this is the
 	// only allocation - for the (much smaller) list of sector slices
+	if size > uint64(len(d.data)) {
+		return nil, errors.New("ole2: incomplete read")
+	}
 	streamData := make([][]byte, 1+(size>>d.header.SectorShift))
 
 	x := 0
 	secSize := int64(1) << int32(d.header.SectorShift)
 	for sid != secEndOfChain && sid != secFree {
-		offs := int64(1+sid) << int64(d.header.SectorShift)
-		if offs > int64(len(d.data)) {
-			return nil, errors.New("ole2: corrupt data format")
+		slice, err := d.sector(sid)
+		if err != nil {
+			return nil, err
+		}
+		if int64(len(slice)) < secSize && uint64(len(slice)) < size {
+			return nil, errors.New("ole2: incomplete read")
 		}
-		slice := d.data[offs : offs+secSize]
 		if size < uint64(len(slice)) {
 			slice = slice[:size]
 			size = 0
@@ -347,7 +352,10 @@ func (d *Document) getStreamReader(sid uint32, size uint64) (io.ReadSeeker, erro
 		if size == 0 {
 			break
 		}
-		sid = d.fat[sid]
+		sid, err = next(d.fat, sid)
+		if err != nil {
+			return nil, err
+		}
 		x++
 	}
 	if size != 0 {
@@ -359,6 +367,9 @@ func (d *Document) getStreamReader(sid uint32, size uint64) (io.ReadSeeker, erro
 
 func (d *Document) getMiniStreamReader(sid uint32, size uint64) (io.ReadSeeker, error) {
 	// TODO: move into a separate cache so we don't recalculate it each time
+	if size > uint64(len(d.data)) || uint64(d.ministreamsize) > uint64(len(d.data)) {
+		return nil, errors.New("ole2: incomplete read")
+	}
 	fatStreamData := make([][]byte, 1+(d.ministreamsize>>d.header.SectorShift))
 
 	// NB streamData is a slice of slices of the raw data, so this is the
@@ -369,9 +380,11 @@ func (d *Document) getMiniStreamReader(sid uint32, size uint64) (io.ReadSeeker,
 	fsid := d.ministreamstart
 	fsize := uint64(d.ministreamsize)
 	secSize := int64(1) << int64(d.header.SectorShift)
-	for fsid != secEndOfChain && fsid != secFree {
-		offs := int64(1+fsid) << int64(d.header.SectorShift)
-		slice := d.data[offs : offs+secSize]
+	for fsid != secEndOfChain && fsid != secFree && x < len(fatStreamData) {
+		slice, err := d.sector(fsid)
+		if err != nil {
+			return nil, err
+		}
 		if fsize < uint64(len(slice)) {
 			slice = slice[:fsize]
 			fsize = 0
@@ -380,7 +393,10 @@ func (d *Document) getMiniStreamReader(sid uint32, size uint64) (io.ReadSeeker,
 		}
 		fatStreamData[x] = slice
 		x++
-		fsid = d.fat[fsid]
+		fsid, err = next(d.fat, fsid)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	x = 0
@@ -389,9 +405,15 @@ func (d *Document) getMiniStreamReader(sid uint32, size uint64) (io.ReadSeeker,
 		offs := int64(sid) << int64(d.header.MiniSectorShift)
 
 		so, si := offs/secSize, offs%secSize
-		data := fatStreamData[so]
-
-		slice := data[si : si+miniSecSize]
+		if so >= int64(len(fatStreamData)) || si >= int64(len(fatStreamData[so])) {
+			return nil, errors.New("ole2: corrupt data format")
+		}
+		slice := fatStreamData[so][si:]
+		if int64(len(slice)) > miniSecSize {
+			slice = slice[:miniSecSize]
+		} else if int64(len(slice)) < miniSecSize && uint64(len(slice)) < size {
+			return nil, errors.New("ole2: incomplete read")
+		}
 		if size < uint64(len(slice)) {
 			slice = slice[:size]
 			size = 0
@@ -399,8 +421,18 @@ func (d *Document) getMiniStreamReader(sid uint32, size uint64) (io.ReadSeeker,
 			size -= uint64(len(slice))
 		}
 		streamData[x] = slice
+		if size == 0 {
+			break
+		}
 		x++
-		sid = d.minifat[sid]
+		var err error
+		sid, err = next(d.minifat, sid)
+		if err != nil {
+			return nil, err
+		}
+	}
+	if size != 0 {
+		return nil, errors.New("ole2: incomplete read")
 	}
 
 	return &SliceReader{Data: streamData}, nil
-- 
2.43.0


From 58f46c9ee8fc01bf90b1dd1c64cd6a5c050c718d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:52 +0000
Subject: [PATCH 55/98] fix: a workbook whose substreams are missing or
 incomplete is an error

---
 xls/sheets.go | 5 ++++-
 xls/xls.go    | 7 +++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index 4b11f23..5e14fc4 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -38,7 +38,10 @@ func (b *WorkBook) ListHidden() ([]string, error) {
 func (b *WorkBook) Get(sheetName string) (grate.Collection, error) {
 	for _, s := range b.sheets {
 		if s.Name == sheetName {
-			ss := b.pos2substream[int64(s.Position)]
+			ss, ok := b.pos2substream[int64(s.Position)]
+			if !ok {
+				return nil, errors.New("xls: sheet contents not found")
+			}
 			return b.parseSheet(s, ss)
 		}
 	}
diff --git a/xls/xls.go b/xls/xls.go
index cdd595a..0e4c1e3 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -225,12 +225,19 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 			}
 		}
 
+		if substr < 0 {
+			return errors.New("xls: missing BOF record")
+		}
 		b.substreams[substr] = append(b.substreams[substr], nr)
 		nr, no, err = b.nextRecord(raw)
 	}
 	if err == io.EOF {
 		err = nil
 	}
+	if err == nil && nestedBOF > 0 {
+		// the last substream has no end
+		err = io.ErrUnexpectedEOF
+	}
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From b7fda4b65ef4cfe29d5ea8ef7b89fa0be98bd11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:53 +0000
Subject: [PATCH 56/98] fix: damaged records of an xls workbook end in an
 error, not in a panic

---
 xls/sheets.go | 12 +++++++++---
 xls/xls.go    | 18 ++++++++++++++++--
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index 5e14fc4..dd44069 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -42,13 +42,19 @@ func (b *WorkBook) Get(sheetName string) (grate.Collection, error) {
 			if !ok {
 				return nil, errors.New("xls: sheet contents not found")
 			}
-			return b.parseSheet(s, ss)
+			res, err := b.parseSheet(s, ss)
+			if err != nil {
+				return nil, err
+			}
+			return res, nil
 		}
 	}
 	return nil, errors.New("xls: sheet not found")
 }
 
-func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
+func (b *WorkBook) parseSheet(s *boundSheet, ss int) (_ *commonxl.Sheet, err error) {
+	defer corrupt(&err)
+
 	res := &commonxl.Sheet{
 		Formatter: &b.nfmt,
 	}
@@ -291,7 +297,7 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			colIndex := int(binary.LittleEndian.Uint16(r.Data[2:4]))
 			ixfe := int(binary.LittleEndian.Uint16(r.Data[4:6]))
 			sstIndex := int(binary.LittleEndian.Uint32(r.Data[6:]))
-			if sstIndex > len(b.strings) {
+			if sstIndex >= len(b.strings) {
 				return nil, errors.New("xls: invalid sst index")
 			}
 			var fno uint16
diff --git a/xls/xls.go b/xls/xls.go
index 0e4c1e3..01fd729 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -10,6 +10,7 @@ import (
 	"context"
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"io"
 	"log"
 	"sync"
@@ -49,7 +50,9 @@ func (b *WorkBook) IsProtected() bool {
 	return b.prot
 }
 
-func Open(filename string) (grate.Source, error) {
+func Open(filename string) (src grate.Source, err error) {
+	defer corrupt(&err)
+
 	doc, err := cfb.Open(filename)
 	if err != nil {
 		return nil, err
@@ -73,7 +76,18 @@ func Open(filename string) (grate.Source, error) {
 	}
 
 	err = b.loadFromStream(raw)
-	return b, err
+	if err != nil {
+		return nil, err
+	}
+	return b, nil
+}
+
+// corrupt turns the panic caused by records which are too short for their
+// contents into an error.
+func corrupt(err *error) {
+	if r := recover(); r != nil {
+		*err = fmt.Errorf("xls: corrupt data format (%v)", r)
+	}
 }
 
 func (b *WorkBook) loadFromStream(raw []byte) error {
-- 
2.43.0


From 1a05cdfba2d22e0c93269d19dc38c94e70605747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 57/98] fix: invalid counts and lengths of xls records do not
 cause huge allocations

---
 xls/hyperlinks.go | 18 ++++++++++++++++++
 xls/sheets.go     |  6 ++++++
 xls/strings.go    |  8 ++++++++
 3 files changed, 32 insertions(+)

diff --git a/xls/hyperlinks.go b/xls/hyperlinks.go
index 30f4a56..7938049 100644
--- a/xls/hyperlinks.go
+++ b/xls/hyperlinks.go
@@ -20,6 +20,9 @@ func decodeHyperlinks(raw []byte) (displayText, linkText string, err error) {
 	if (flags & hlstmfHasDisplayName) != 0 {
 		slen = binary.LittleEndian.Uint32(raw[:4])
 		raw = raw[4:]
+		if uint64(slen)*2 > uint64(len(raw)) {
+			return "", "", errors.New("xls: invalid hyperlink")
+		}
 		us := make([]uint16, slen)
 		for i := 0; i < int(slen); i++ {
 			us[i] = binary.LittleEndian.Uint16(raw)
@@ -31,6 +34,9 @@ func decodeHyperlinks(raw []byte) (displayText, linkText string, err error) {
 	if (flags & hlstmfHasFrameName) != 0 {
 		// skip a HyperlinkString containing target Frame
 		slen = binary.LittleEndian.Uint32(raw[:4])
+		if uint64(slen)*2 > uint64(len(raw)-4) {
+			return "", "", errors.New("xls: invalid hyperlink")
+		}
 		raw = raw[4+(slen*2):]
 	}
 
@@ -39,6 +45,9 @@ func decodeHyperlinks(raw []byte) (displayText, linkText string, err error) {
 			// read HyperlinkString containing the URL
 			slen = binary.LittleEndian.Uint32(raw[:4])
 			raw = raw[4:]
+			if uint64(slen)*2 > uint64(len(raw)) {
+				return "", "", errors.New("xls: invalid hyperlink")
+			}
 			us := make([]uint16, slen)
 			for i := 0; i < int(slen); i++ {
 				us[i] = binary.LittleEndian.Uint16(raw)
@@ -60,6 +69,9 @@ func decodeHyperlinks(raw []byte) (displayText, linkText string, err error) {
 	if (flags & hlstmfHasLocationStr) != 0 {
 		slen = binary.LittleEndian.Uint32(raw[:4])
 		raw = raw[4:]
+		if uint64(slen)*2 > uint64(len(raw)) {
+			return "", "", errors.New("xls: invalid hyperlink")
+		}
 		us := make([]uint16, slen)
 		for i := 0; i < int(slen); i++ {
 			us[i] = binary.LittleEndian.Uint16(raw)
@@ -99,6 +111,9 @@ func parseHyperlinkMoniker(raw []byte) (string, int, error) {
 		length := binary.LittleEndian.Uint32(raw[no:])
 		no += 4
 		length /= 2
+		if uint64(length)*2 > uint64(len(raw)-no) {
+			return "", 0, errors.New("xls: invalid hyperlink")
+		}
 		buf := make([]uint16, length)
 		for i := 0; i < int(length); i++ {
 			buf[i] = binary.LittleEndian.Uint16(raw[no:])
@@ -123,6 +138,9 @@ func parseHyperlinkMoniker(raw []byte) (string, int, error) {
 		if length > 0 {
 			no += 6
 			length -= 6
+			if uint64(length) > uint64(len(raw)-no) {
+				return "", 0, errors.New("xls: invalid hyperlink")
+			}
 			buf2 := make([]uint16, length/2)
 			for i := 0; i < int(length/2); i++ {
 				buf2[i] = binary.LittleEndian.Uint16(raw[no:])
diff --git a/xls/sheets.go b/xls/sheets.go
index dd44069..ed75490 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -105,6 +105,12 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (_ *commonxl.Sheet, err err
 			if minCol > 0x00FF || maxCol > 0x0100 {
 				log.Println("invalid dimensions")
 			}
+			if maxRow > 0x00010000 {
+				maxRow = 0x00010000
+			}
+			if maxCol > 0x0100 {
+				maxCol = 0x0100
+			}
 
 			// pre-allocate cells
 			res.Resize(int(maxRow), int(maxCol))
diff --git a/xls/strings.go b/xls/strings.go
index c08a12c..c449134 100644
--- a/xls/strings.go
+++ b/xls/strings.go
@@ -142,6 +142,14 @@ func parseSST(recs []*rec) ([]string, error) {
 	//totalRefs := binary.LittleEndian.Uint32(recs[0].Data[0:4])
 	numStrings := binary.LittleEndian.Uint32(recs[0].Data[4:8])
 
+	total := 0
+	for _, r := range recs {
+		total += len(r.Data)
+	}
+	if uint64(numStrings) > uint64(total/3) {
+		// each string takes at least 3 bytes
+		numStrings = uint32(total / 3)
+	}
 	all := make([]string, 0, numStrings)
 	current := make([]uint16, 32*1024)
 
-- 
2.43.0


From e00cfd76bea95d7be49badf2e16baeb316f2e6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:24 +0000
Subject: [PATCH 58/98] fix: cells and ranges beyond the limits of an xls sheet
 do not blow it up

---
 xls/sheets.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index ed75490..364c888 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -142,6 +142,13 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (_ *commonxl.Sheet, err err
 				NB: no idea what "SUB" is
 		*/
 
+		switch r.RecType {
+		case RecTypeBoolErr, RecTypeMulRk, RecTypeNumber, RecTypeRK, RecTypeFormula, RecTypeLabelSst:
+			if len(r.Data) < 4 || binary.LittleEndian.Uint16(r.Data[2:4]) > 0x00FF {
+				return nil, errors.New("xls: invalid cell position")
+			}
+		}
+
 		switch r.RecType {
 		case RecTypeBOF:
 			if ridx > 0 {
@@ -328,10 +335,11 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (_ *commonxl.Sheet, err err
 				//log.Println("invalid hyperlink row")
 				continue
 			}
-			if lastRow == 0xFFFF { // placeholder value indicate "last"
+			// NB 0xFFFF and 0xFF are placeholder values which indicate "last"
+			if int(lastRow) >= res.NumRows {
 				lastRow = uint16(res.NumRows - 1)
 			}
-			if lastCol == 0xFF { // placeholder value indicate "last"
+			if int(lastCol) >= res.NumCols {
 				lastCol = uint16(res.NumCols - 1)
 			}
 
@@ -390,16 +398,17 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (_ *commonxl.Sheet, err err
 				lastCol := binary.LittleEndian.Uint16(raw[6:])
 				raw = raw[8:]
 
-				if lastRow == 0xFFFF { // placeholder value indicate "last"
-					lastRow = uint16(res.NumRows - 1)
-				}
-				if lastCol == 0xFF { // placeholder value indicate "last"
-					lastCol = uint16(res.NumCols - 1)
-				}
 				if res.NumRows == 0 {
 					// there are no cells
 					continue
 				}
+				// NB 0xFFFF and 0xFF are placeholder values which indicate "last"
+				if int(lastRow) >= res.NumRows {
+					lastRow = uint16(res.NumRows - 1)
+				}
+				if int(lastCol) >= res.NumCols {
+					lastCol = uint16(res.NumCols - 1)
+				}
 				for rn := int(firstRow); rn <= int(lastRow); rn++ {
 					for cn := int(firstCol); cn <= int(lastCol); cn++ {
 						if rn == int(firstRow) && cn == int(firstCol) {
-- 
2.43.0


From 7d1d69b4ff5499cc9f1e2deac6f155953b00e3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:25 +0000
Subject: [PATCH 59/98] fix: a damaged cell reference does not panic or blow up
 an xlsx sheet

---
 xlsx/types.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xlsx/types.go b/xlsx/types.go
index 16bf724..9ed8064 100644
--- a/xlsx/types.go
+++ b/xlsx/types.go
@@ -76,10 +76,17 @@ func refToIndexes(r string) (column, row int) {
 	}
 
 	// R1C1 Reference Mode
+	if i2 < i1 {
+		return -1, -1
+	}
 	col1 = r[i1:i2]
 	row1 := r[i2+1:]
 	cn, _ := strconv.ParseInt(col1, 10, 64)
 	rn, _ := strconv.ParseInt(row1, 10, 64)
+	if rn > 1048576 || cn > 16383 {
+		// beyond the limits of a sheet
+		return -1, -1
+	}
 	return int(cn), int(rn) - 1
 }
 
-- 
2.43.0


From c174c881ad4a1f5279747eea1a340cec09035816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:25 +0000
Subject: [PATCH 60/98] fix: an XML part which is incomplete or malformed is an
 error

---
 xlsx/sheets.go   |  8 ++++----
 xlsx/workbook.go | 16 ++++++++--------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index 4937c10..8a91920 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -37,8 +37,8 @@ func (s *Sheet) parseSheet() error {
 	dec, clo, err := s.d.openXML(relsname)
 	if err == nil {
 		// rels might not exist for every sheet
-		tok, err := dec.RawToken()
-		for ; err == nil; tok, err = dec.RawToken() {
+		tok, err := dec.Token()
+		for ; err == nil; tok, err = dec.Token() {
 			if v, ok := tok.(xml.StartElement); ok && v.Name.Local == "Relationship" {
 				ax := getAttrs(v.Attr, "Id", "Type", "Target", "TargetMode")
 				if ax[3] == "External" && ax[1] == "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink" {
@@ -62,8 +62,8 @@ func (s *Sheet) parseSheet() error {
 	var fno uint16
 	var maxCol, maxRow int
 
-	tok, err := dec.RawToken()
-	for ; err == nil; tok, err = dec.RawToken() {
+	tok, err := dec.Token()
+	for ; err == nil; tok, err = dec.Token() {
 		switch v := tok.(type) {
 		case xml.CharData:
 			if currentCell == "" {
diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 3d5c815..7254112 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -13,8 +13,8 @@ import (
 )
 
 func (d *Document) parseRels(dec *xml.Decoder, basedir string) error {
-	tok, err := dec.RawToken()
-	for ; err == nil; tok, err = dec.RawToken() {
+	tok, err := dec.Token()
+	for ; err == nil; tok, err = dec.Token() {
 		switch v := tok.(type) {
 		case xml.StartElement:
 			switch v.Name.Local {
@@ -57,8 +57,8 @@ func (d *Document) parseRels(dec *xml.Decoder, basedir string) error {
 }
 
 func (d *Document) parseWorkbook(dec *xml.Decoder) error {
-	tok, err := dec.RawToken()
-	for ; err == nil; tok, err = dec.RawToken() {
+	tok, err := dec.Token()
+	for ; err == nil; tok, err = dec.Token() {
 		switch v := tok.(type) {
 		case xml.StartElement:
 			switch v.Name.Local {
@@ -109,8 +109,8 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 	d.xfs = d.xfs[:0]
 
 	section := 0
-	tok, err := dec.RawToken()
-	for ; err == nil; tok, err = dec.RawToken() {
+	tok, err := dec.Token()
+	for ; err == nil; tok, err = dec.Token() {
 		switch v := tok.(type) {
 		case xml.StartElement:
 			switch v.Name.Local {
@@ -190,8 +190,8 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 func (d *Document) parseSharedStrings(dec *xml.Decoder) error {
 	val := ""
 	inText, inPhonetic := false, false
-	tok, err := dec.RawToken()
-	for ; err == nil; tok, err = dec.RawToken() {
+	tok, err := dec.Token()
+	for ; err == nil; tok, err = dec.Token() {
 		switch v := tok.(type) {
 		case xml.CharData:
 			if inText && !inPhonetic {
-- 
2.43.0


From 6f496f16eb6bc27848e65e3fdcff9549b62b8ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:59 +0000
Subject: [PATCH 61/98] fix: damaged relationships of an xlsx sheet are an
 error

---
 xlsx/sheets.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index 8a91920..f592bc6 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -47,6 +47,11 @@ func (s *Sheet) parseSheet() error {
 			}
 		}
 		clo.Close()
+		if err != io.EOF {
+			return err
+		}
+	} else if err != io.EOF {
+		return err
 	}
 
 	dec, clo, err = s.d.openXML(s.docname)
-- 
2.43.0


From b7d1ba90c4b6888850256d36a8f9167fa867f9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:43 +0000
Subject: [PATCH 62/98] fix: merged ranges of absurd size end in an error, not
 in a blow-up

A file of a few hundred bytes could make a reader fill billions of cells with
continuation marks.
---
 commonxl/sheet.go | 20 ++++++++++++++++++++
 xls/sheets.go     |  6 ++++++
 xlsx/sheets.go    |  3 +++
 3 files changed, 29 insertions(+)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index 1506991..f48dd48 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -1,6 +1,7 @@
 package commonxl
 
 import (
+	"errors"
 	"fmt"
 	"log"
 	"time"
@@ -16,6 +17,8 @@ type Sheet struct {
 	Rows      [][]Cell
 
 	CurRow int
+
+	covered int // cells of the ranges passed to Cover
 }
 
 // maxDenseCells is the size up to which blank cells are allocated in advance.
@@ -54,6 +57,23 @@ func (s *Sheet) Resize(rows, cols int) {
 	}
 }
 
+// maxCoveredCells is the number of cells the ranges of one sheet may cover in total.
+const maxCoveredCells = 1 << 20
+
+// Cover must be called before the cells of a merged range are marked. It fails
+// if the ranges cover more cells than a sheet can reasonably hold.
+func (s *Sheet) Cover(firstRow, lastRow, firstCol, lastCol int) error {
+	if lastRow < firstRow || lastCol < firstCol {
+		return nil
+	}
+	rows, cols := lastRow-firstRow+1, lastCol-firstCol+1
+	if cols > (maxCoveredCells-s.covered)/rows {
+		return errors.New("grate: merged cells cover too much of the sheet")
+	}
+	s.covered += rows * cols
+	return nil
+}
+
 // Put the value at the cell location given.
 func (s *Sheet) Put(row, col int, value interface{}, fmtNum uint16) {
 	//log.Println(row, col, value, fmtNum)
diff --git a/xls/sheets.go b/xls/sheets.go
index 364c888..f9be26a 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -356,6 +356,9 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (_ *commonxl.Sheet, err err
 			}
 
 			// apply merge cell rules (see RecTypeMergeCells below)
+			if err := res.Cover(int(firstRow), int(lastRow), int(firstCol), int(lastCol)); err != nil {
+				return nil, err
+			}
 			for rn := int(firstRow); rn <= int(lastRow); rn++ {
 				for cn := int(firstCol); cn <= int(lastCol); cn++ {
 					if rn == int(firstRow) && cn == int(firstCol) {
@@ -409,6 +412,9 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (_ *commonxl.Sheet, err err
 				if int(lastCol) >= res.NumCols {
 					lastCol = uint16(res.NumCols - 1)
 				}
+				if err := res.Cover(int(firstRow), int(lastRow), int(firstCol), int(lastCol)); err != nil {
+					return nil, err
+				}
 				for rn := int(firstRow); rn <= int(lastRow); rn++ {
 					for cn := int(firstCol); cn <= int(lastCol); cn++ {
 						if rn == int(firstRow) && cn == int(firstCol) {
diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index f592bc6..2b761db 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -143,6 +143,9 @@ func (s *Sheet) parseSheet() error {
 				if endCol > maxCol {
 					endCol = maxCol
 				}
+				if err := s.wrapped.Cover(startRow, endRow, startCol, endCol); err != nil {
+					return err
+				}
 				for r := startRow; r <= endRow; r++ {
 					for c := startCol; c <= endCol; c++ {
 						if r == startRow && c == startCol {
-- 
2.43.0


From 2d58cda77dc152b4d5d3f6492384e5c5d8285f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 63/98] fix: the last record of an encrypted workbook is not
 dropped

A record without data at the end of the stream was never passed to the
decryptor, so the end of the last sheet was lost.
---
 xls/xls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xls/xls.go b/xls/xls.go
index 01fd729..9c108a7 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -122,7 +122,7 @@ func (b *WorkBook) loadFromStreamWithDecryptor(raw []byte, dec crypto.Decryptor)
 	replaceBlocks := []overlay{}
 
 	var err error
-	for err == nil && len(raw[pos:]) > 4 {
+	for err == nil && len(raw[pos:]) >= 4 {
 		o := overlay{}
 		o.Pos = pos
 		o.RecType = recordType(binary.LittleEndian.Uint16(raw[pos : pos+2]))
-- 
2.43.0


From 039dc278cdfe01f4eb5c6ee5cf1f8fa4995e4953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:48 +0000
Subject: [PATCH 64/98] fix: a workbook stream without any record is an error

---
 xls/xls.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xls/xls.go b/xls/xls.go
index 9c108a7..6b07670 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -248,8 +248,8 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 	if err == io.EOF {
 		err = nil
 	}
-	if err == nil && nestedBOF > 0 {
-		// the last substream has no end
+	if err == nil && (nestedBOF > 0 || substr < 0) {
+		// the last substream has no end, or there is none
 		err = io.ErrUnexpectedEOF
 	}
 	if err != nil {
-- 
2.43.0


From 53a519b7e676597d39cec31e2f8abce2a34a0244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:20 +0000
Subject: [PATCH 65/98] fix: an archive which is cut off after an embedded one
 is not read as that

---
 xlsx/xlsx.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index 18a9b95..916db3b 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -2,6 +2,7 @@ package xlsx
 
 import (
 	"archive/zip"
+	"encoding/binary"
 	"encoding/xml"
 	"errors"
 	"io"
@@ -59,6 +60,9 @@ func Open(filename string) (src grate.Source, err error) {
 	if err != nil {
 		return nil, grate.WrapErr(err, grate.ErrNotInFormat)
 	}
+	if !directoryMatches(f, z) {
+		return nil, errors.New("xlsx: incomplete file")
+	}
 	d := &Document{
 		filename: filename,
 		f:        f,
@@ -137,6 +141,23 @@ func Open(filename string) (src grate.Source, err error) {
 	return d, nil
 }
 
+// directoryMatches tells whether the directory found at the end of an archive
+// lists the entry the archive starts with. It does not if the file was cut off
+// after an archive which is embedded in it.
+func directoryMatches(r io.ReaderAt, z *zip.Reader) bool {
+	var head [30]byte
+	if _, err := r.ReadAt(head[:], 0); err != nil || string(head[:4]) != "PK\x03\x04" {
+		return true
+	}
+	first := int64(len(head)) + int64(binary.LittleEndian.Uint16(head[26:])) + int64(binary.LittleEndian.Uint16(head[28:]))
+	for _, zf := range z.File {
+		if offs, err := zf.DataOffset(); err == nil && offs == first {
+			return true
+		}
+	}
+	return false
+}
+
 func (d *Document) openXML(name string) (*xml.Decoder, io.Closer, error) {
 	if grate.Debug {
 		log.Println("    openXML", name)
-- 
2.43.0


From 393949616013b5345c0afa04f32f10399c3b217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:48 +0000
Subject: [PATCH 66/98] fix: an XML part without any element is an error

---
 xlsx/xlsx.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index 916db3b..7580684 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -164,6 +164,9 @@ func (d *Document) openXML(name string) (*xml.Decoder, io.Closer, error) {
 	}
 	for _, zf := range d.r.File {
 		if zf.Name == name {
+			if err := checkRoot(zf); err != nil {
+				return nil, nil, err
+			}
 			zfr, err := zf.Open()
 			if err != nil {
 				return nil, nil, err
@@ -175,6 +178,28 @@ func (d *Document) openXML(name string) (*xml.Decoder, io.Closer, error) {
 	return nil, nil, io.EOF
 }
 
+// checkRoot fails if a part ends before its first element.
+func checkRoot(zf *zip.File) error {
+	zfr, err := zf.Open()
+	if err != nil {
+		return err
+	}
+	defer zfr.Close()
+	dec := xml.NewDecoder(zfr)
+	for {
+		tok, err := dec.Token()
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+		if err != nil {
+			return err
+		}
+		if _, ok := tok.(xml.StartElement); ok {
+			return nil
+		}
+	}
+}
+
 func (d *Document) List() ([]string, error) {
 	res := make([]string, 0, len(d.sheets))
 	for _, s := range d.sheets {
-- 
2.43.0


From 2578348b456b47eea7d66f337609dbeb9dbd48e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:02 +0000
Subject: [PATCH 67/98] fix: a damaged or truncated workbook is not handed on
 to the text reader

The errors of an incomplete header, archive or workbook stream said that the
file was of another format, so grate.Open returned its bytes as a table.
---
 xls/cfb/cfb.go | 3 +++
 xls/xls.go     | 6 ++++++
 xlsx/xlsx.go   | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index 150bfb5..5ed4352 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -137,6 +137,9 @@ func (d *Document) load(rx io.ReadSeeker) error {
 
 	h := &header{}
 	err = binary.Read(br, binary.LittleEndian, h)
+	if err != nil && len(d.data) >= 8 && binary.LittleEndian.Uint64(d.data) == 0xe11ab1a1e011cfd0 {
+		return err // the header is incomplete
+	}
 	if h.Signature != 0xe11ab1a1e011cfd0 {
 		return grate.ErrNotInFormat // errors.New("ole2: invalid format")
 	}
diff --git a/xls/xls.go b/xls/xls.go
index 6b07670..bc03c92 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -68,6 +68,12 @@ func Open(filename string) (src grate.Source, err error) {
 
 	rdr, err := doc.Open("Workbook")
 	if err != nil {
+		names, _ := doc.List()
+		for _, name := range names {
+			if name == "Workbook" {
+				return nil, err // a damaged workbook
+			}
+		}
 		return nil, grate.WrapErr(err, grate.ErrNotInFormat)
 	}
 	raw, err := io.ReadAll(rdr)
diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index 7580684..012eae4 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -58,6 +58,10 @@ func Open(filename string) (src grate.Source, err error) {
 	}
 	z, err := zip.NewReader(f, info.Size())
 	if err != nil {
+		var head [10]byte // up to the compression method
+		if _, err2 := f.ReadAt(head[:], 0); err2 == nil && string(head[:4]) == "PK\x03\x04" && head[9] == 0 {
+			return nil, err // a damaged archive
+		}
 		return nil, grate.WrapErr(err, grate.ErrNotInFormat)
 	}
 	if !directoryMatches(f, z) {
-- 
2.43.0


From f815fc9e4d8108a2347610c50dba547e2a4a09a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 68/98] fix: grate2tsv processes files on a single CPU too

---
 cmd/grate2tsv/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/grate2tsv/main.go b/cmd/grate2tsv/main.go
index 61550e4..73d0945 100644
--- a/cmd/grate2tsv/main.go
+++ b/cmd/grate2tsv/main.go
@@ -119,6 +119,9 @@ func main() {
 	// (e.g. each file-processor can use 2 cpus)
 	outMu := &sync.Mutex{}
 	nparallel := runtime.NumCPU() / 2
+	if nparallel < 1 {
+		nparallel = 1
+	}
 	procWG.Add(nparallel)
 	for i := 0; i < nparallel; i++ {
 		go runProcessor(filenameChan, outMu)
-- 
2.43.0


From 8bee58689baacefdd8472f2294a757c4f4b99b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 69/98] fix: grate2tsv -w=false still removes newlines

---
 cmd/grate2tsv/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/grate2tsv/main.go b/cmd/grate2tsv/main.go
index 73d0945..8fe84d2 100644
--- a/cmd/grate2tsv/main.go
+++ b/cmd/grate2tsv/main.go
@@ -240,8 +240,8 @@ func processFile(fn string) ([]stats, error) {
 				}
 				if *trimSpaces {
 					x = strings.TrimSpace(x)
-					row[i] = x
 				}
+				row[i] = x
 				if x != "" {
 					nonblank = true
 					if ps.NumCols < i {
-- 
2.43.0


From cff7463321881af9ea903ce0bf4683862ab8f336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 70/98] fix: grate2tsv counts columns from one

---
 cmd/grate2tsv/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/grate2tsv/main.go b/cmd/grate2tsv/main.go
index 8fe84d2..b1d17ae 100644
--- a/cmd/grate2tsv/main.go
+++ b/cmd/grate2tsv/main.go
@@ -244,8 +244,8 @@ func processFile(fn string) ([]stats, error) {
 				row[i] = x
 				if x != "" {
 					nonblank = true
-					if ps.NumCols < i {
-						ps.NumCols = i
+					if ps.NumCols < i+1 {
+						ps.NumCols = i + 1
 					}
 				}
 			}
-- 
2.43.0


From e6afae51efc609beb034eeb9dd7870813e2c42a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 71/98] fix: a boolean in a cell with a date format is not a
 date

---
 commonxl/cell.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 7069498..b1da520 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -195,10 +195,11 @@ func NewCellWithType(value interface{}, t CellType, f *Formatter) Cell {
 	if t == DateCell {
 		if c[1] == FloatCell {
 			c[0] = f.ConvertToDate(c[0].(float64))
+			c[1] = DateCell
 		} else if c[1] == IntegerCell {
 			c[0] = f.ConvertToDate(float64(c[0].(int64)))
+			c[1] = DateCell
 		}
-		c[1] = DateCell
 	}
 	return c
 }
-- 
2.43.0


From 17052b66506f6a3cbfebad577da394635068802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 72/98] fix: a blank cell coerced to text does not read <nil>

---
 commonxl/cell.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index b1da520..6fab9c9 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -188,7 +188,7 @@ func NewCellWithType(value interface{}, t CellType, f *Formatter) Cell {
 			c[1] = BooleanCell
 		}
 	}
-	if t == StringCell {
+	if t == StringCell && c[1] != BlankCell {
 		c[0] = fmt.Sprint(c[0])
 		c[1] = StringCell
 	}
-- 
2.43.0


From 00e76e52472f9e7ef34f09114cdcd6281a944c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 73/98] fix: giving an empty cell a link or a format does not
 panic

---
 commonxl/cell.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 6fab9c9..ea16baa 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -64,6 +64,9 @@ func (c Cell) Value() interface{} {
 
 // SetURL adds a URL hyperlink to the cell.
 func (c *Cell) SetURL(link string) {
+	if len(*c) < 2 {
+		*c = Cell{nil, BlankCell}
+	}
 	(*c)[1] = HyperlinkStringCell
 	switch len(*c) {
 	case 2:
@@ -313,6 +316,12 @@ func NewCell(value interface{}) Cell {
 
 // SetFormatNumber changes the number format stored with the cell.
 func (c *Cell) SetFormatNumber(f uint16) {
+	if len(*c) < 2 {
+		if f == 0 {
+			return
+		}
+		*c = Cell{nil, BlankCell}
+	}
 	if f == 0 {
 		*c = (*c)[:2]
 		return
-- 
2.43.0


From 1b18aa9166444e74c201bcfe72887383b648a323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 74/98] fix: removing the format of a cell keeps its link

---
 commonxl/cell.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index ea16baa..6c51396 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -322,7 +322,7 @@ func (c *Cell) SetFormatNumber(f uint16) {
 		}
 		*c = Cell{nil, BlankCell}
 	}
-	if f == 0 {
+	if f == 0 && len(*c) <= 3 {
 		*c = (*c)[:2]
 		return
 	}
-- 
2.43.0


From bb325eb1e5bbf9dee408d04a88aa6dcbdafa6948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:41 +0000
Subject: [PATCH 75/98] fix: xlsx format ids beyond 32767 are not mixed up

Custom number formats with ids of 32768 and more were all stored and looked
up as 32767, so that the first definition applied to the cells of all.
---
 xlsx/workbook.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 7254112..c14b98b 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -118,7 +118,7 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 				// container
 			case "numFmt":
 				ax := getAttrs(v.Attr, "numFmtId", "formatCode")
-				fmtNo, _ := strconv.ParseInt(ax[0], 10, 16)
+				fmtNo, _ := strconv.ParseUint(ax[0], 10, 16)
 				d.fmt.Add(uint16(fmtNo), ax[1])
 
 			case "cellStyleXfs":
@@ -158,7 +158,7 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 						numFmtID = ax[0]
 					}
 
-					nfid, _ := strconv.ParseInt(numFmtID, 10, 16)
+					nfid, _ := strconv.ParseUint(numFmtID, 10, 16)
 					d.xfs = append(d.xfs, uint16(nfid))
 				} else {
 					return errors.New("xlsx: misplaced cell format")
-- 
2.43.0


From 1ce43f300b8d3605ad8782d6acc778da32635f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:53 +0000
Subject: [PATCH 76/98] fix: number formats show booleans as numbers, "f,alse"
 was shown for false under #,##0

---
 commonxl/fmt.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 8992361..ca3fabc 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -148,6 +148,9 @@ func sprintfFunc(fs string, mul int) FmtFunc {
 			}
 			fval, _ := convertToFloat64(v)
 			v = fval
+		case bool, float32:
+			fval, _ := convertToFloat64(v)
+			v = fval
 		}
 		switch val := v.(type) {
 		case float64:
-- 
2.43.0


From 2f05f24657120aae698de507e85326b63275d0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:01 +0000
Subject: [PATCH 77/98] fix: xlsx cells and rows which do not name their place
 follow the one before

---
 xlsx/sheets.go | 11 +++++++++++
 xlsx/types.go  |  9 +++++++++
 2 files changed, 20 insertions(+)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index 2b761db..6145378 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -66,6 +66,7 @@ func (s *Sheet) parseSheet() error {
 	inValue, inPhonetic := false, false
 	var fno uint16
 	var maxCol, maxRow int
+	lastCol, lastRow := -1, -1
 
 	tok, err := dec.Token()
 	for ; err == nil; tok, err = dec.Token() {
@@ -99,6 +100,11 @@ func (s *Sheet) parseSheet() error {
 			case "row":
 				//currentRow = ax["r"] // unsigned int row index
 				//log.Println("ROW", currentRow)
+				ax := getAttrs(v.Attr, "r")
+				lastCol, lastRow = -1, lastRow+1
+				if n, err := strconv.Atoi(ax[0]); err == nil {
+					lastRow = n - 1
+				}
 			case "c":
 				ax := getAttrs(v.Attr, "t", "r", "s")
 				currentCellType = CellType(ax[0])
@@ -106,6 +112,11 @@ func (s *Sheet) parseSheet() error {
 					currentCellType = NumberCellType
 				}
 				currentCell = ax[1] // always an A1 style reference
+				if currentCell == "" {
+					// by default a cell follows the one before
+					currentCell = indexesToRef(lastCol+1, lastRow)
+				}
+				lastCol, lastRow = refToIndexes(currentCell)
 				style := ax[2]
 				sid, _ := strconv.ParseInt(style, 10, 64)
 				if sid >= 0 && len(s.d.xfs) > int(sid) {
diff --git a/xlsx/types.go b/xlsx/types.go
index 9ed8064..2cdb9d3 100644
--- a/xlsx/types.go
+++ b/xlsx/types.go
@@ -90,6 +90,15 @@ func refToIndexes(r string) (column, row int) {
 	return int(cn), int(rn) - 1
 }
 
+// indexesToRef is the reverse of refToIndexes.
+func indexesToRef(column, row int) string {
+	s := ""
+	for ; column >= 0; column = column/26 - 1 {
+		s = string(rune('A'+column%26)) + s
+	}
+	return s + strconv.Itoa(row+1)
+}
+
 func getAttrs(attrs []xml.Attr, keys ...string) []string {
 	res := make([]string, len(keys))
 	for _, a := range attrs {
-- 
2.43.0


From e382b4bb91ceebd5b7be981eb13a6523e658be27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:01 +0000
Subject: [PATCH 78/98] fix: General with literals or within sections shows the
 value

---
 commonxl/formats.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index 378b333..a9a4eb9 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -233,6 +233,11 @@ func makeFormatter(s string) (FmtFunc, CellType) {
 		return switchFmtFunc(posFF, rem...), ctypePos
 	}
 
+	if i := strings.Index(strings.ToLower(s), "general"); i >= 0 {
+		// the value keeps its own type
+		return surround(showLiterals(s[:i]), identFunc, showLiterals(s[i+len("general"):])), BlankCell
+	}
+
 	if strings.ContainsAny(s, "ymdhsYMDHS") {
 		// it's a date/time format
 		return codeTimeFmtFunc(dateLayout(s)), DateCell
-- 
2.43.0


From 5f50fd5fa2c4995350fa0aebaa88445d6879c6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:17 +0000
Subject: [PATCH 79/98] fix: a text format with literals shows the value of a
 number

---
 commonxl/formats.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index a9a4eb9..2405e52 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -294,6 +294,9 @@ func makeFormatter(s string) (FmtFunc, CellType) {
 		if prepost[0] == "@" {
 			return identFunc, StringCell
 		}
+		if i := strings.IndexByte(s, '@'); i >= 0 {
+			return surround(showLiterals(s[:i]), identFunc, showLiterals(s[i+1:])), StringCell
+		}
 		//log.Printf("   added static ('%s')", prepost[0])
 		// the value keeps its own type
 		return staticFmtFunc(prepost[0]), BlankCell
-- 
2.43.0


From 90909accf34784eb20f9c4e4c713e7b78cbf1562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 80/98] fix: the text section of a format may follow the first
 or second one

---
 commonxl/formats.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index 2405e52..2df5a8f 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -146,7 +146,7 @@ func makeTextFormatter(s string) (FmtFunc, bool) {
 	s = parts[0]
 	if len(parts) > 3 {
 		s = parts[3]
-	} else if len(parts) > 1 || !strings.Contains(s, "@") {
+	} else if s = parts[len(parts)-1]; !strings.Contains(s, "@") {
 		return nil, false
 	}
 	if i := strings.IndexByte(s, '@'); i >= 0 {
@@ -223,6 +223,10 @@ func makeFormatter(s string) (FmtFunc, CellType) {
 	s = removeBrackets(hideLiterals(s))
 	if strings.Contains(s, ";") {
 		parts := strings.Split(s, ";")
+		if last := len(parts) - 1; last < 3 && strings.Contains(parts[last], "@") {
+			// the text section, there is none for the negative values
+			return makeFormatter(strings.Join(parts[:last], ";"))
+		}
 		posFF, ctypePos := makeFormatter(parts[0])
 		rem := make([]FmtFunc, len(parts)-1)
 		for i, ps := range parts[1:] {
-- 
2.43.0


From 05b34739bb35fca51d667eecc778c6b2ce0fd8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:36 +0000
Subject: [PATCH 81/98] fix: currency symbols in brackets are shown

---
 commonxl/formats.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index 2df5a8f..9f28cc6 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -135,6 +135,10 @@ func removeBrackets(s string) string {
 		if elapsed.MatchString(b) {
 			return b
 		}
+		if strings.HasPrefix(b, "[$") {
+			// a currency symbol, which may be followed by the locale
+			return hideLiterals(`"` + strings.SplitN(b[2:len(b)-1], "-", 2)[0] + `"`)
+		}
 		return ""
 	})
 }
-- 
2.43.0


From e63d3e7de88105695dc729efa5b7e5ecd5a537cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:07 +0000
Subject: [PATCH 82/98] fix: custom fraction formats show fractions

---
 commonxl/fmt.go     | 30 ++++++++++++++++++++++++++++++
 commonxl/formats.go |  7 +++++++
 2 files changed, 37 insertions(+)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index ca3fabc..df39052 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -251,6 +251,36 @@ func fracFmtFunc(n int) FmtFunc {
 	}
 }
 
+// customFracFmtFunc formats fractions with up to n digits in the denominator,
+// or with the denominator den unless it is 0.
+func customFracFmtFunc(n, den int) FmtFunc {
+	if den == 0 {
+		return fracFmtFunc(n)
+	}
+	return func(x *Formatter, v interface{}) string {
+		f, ok := convertToFloat64(v)
+		if !ok {
+			return identFunc(x, v)
+		}
+		sign := ""
+		w, part := math.Modf(math.Abs(f))
+		num := math.Round(part * float64(den))
+		if num == float64(den) {
+			w, num = w+1, 0
+		}
+		if f < 0 && w+num > 0 {
+			sign = "-"
+		}
+		switch {
+		case num == 0:
+			return fmt.Sprintf("%s%.0f", sign, w)
+		case w == 0:
+			return fmt.Sprintf("%s%.0f/%d", sign, num, den)
+		}
+		return fmt.Sprintf("%s%.0f %.0f/%d", sign, w, num, den)
+	}
+}
+
 // handle (up to) all four format cases:
 // positive;negative;zero;other
 func switchFmtFunc(pos FmtFunc, others ...FmtFunc) FmtFunc {
diff --git a/commonxl/formats.go b/commonxl/formats.go
index 9f28cc6..51f6e20 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"regexp"
+	"strconv"
 	"strings"
 )
 
@@ -73,6 +74,7 @@ func (x *Formatter) getCellType(fmtID uint16) (CellType, bool) {
 var (
 	dateToken = regexp.MustCompile(`(?i)am/pm|\[h+\]|\[m+\]|\[s+\]|y+|m+|d+|h+|s+`)
 	elapsed   = regexp.MustCompile(`(?i)^\[(h+|m+|s+)\]$`)
+	fraction  = regexp.MustCompile(`[0#?]+(?: *[0#?]+)?/([0#?]+|\d+)`)
 	exponent  = regexp.MustCompile("[eE]+[+-]0+")
 	surReg    = regexp.MustCompile(`[0#?,.]+`)
 
@@ -251,6 +253,11 @@ func makeFormatter(s string) (FmtFunc, CellType) {
 		return codeTimeFmtFunc(dateLayout(s)), DateCell
 	}
 
+	if i := fraction.FindStringSubmatchIndex(s); i != nil {
+		den, _ := strconv.Atoi(s[i[2]:i[3]]) // 0 for placeholders
+		return surround(showLiterals(s[:i[0]]), customFracFmtFunc(min(i[3]-i[2], 9), den), showLiterals(s[i[1]:])), FloatCell
+	}
+
 	// digits which are always shown, and which are shown if they matter
 	digits := strings.SplitN(strings.ReplaceAll(exponent.ReplaceAllString(s, ""), ",", ""), ".", 2)
 	intDigits := strings.Count(digits[0], "0")
-- 
2.43.0


From a770b0c0c47a3dad788ae0ff29d1076d0f66567d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:20 +0000
Subject: [PATCH 83/98] fix: digits are placed around the literals between
 placeholders

---
 commonxl/fmt.go     | 22 ++++++++++++++++++++++
 commonxl/formats.go |  4 ++++
 2 files changed, 26 insertions(+)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index df39052..6ee26fa 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -97,6 +97,28 @@ func hideZero(ff FmtFunc) FmtFunc {
 	}
 }
 
+// maskDigits places digits at the placeholders of a mask with literals
+// between them, from the right.
+func maskDigits(ff FmtFunc, mask string) FmtFunc {
+	first := strings.IndexAny(mask, "0#?")
+	return func(x *Formatter, v interface{}) string {
+		s1 := ff(x, v)
+		sign := ""
+		if strings.HasPrefix(s1, "-") {
+			sign, s1 = "-", s1[1:]
+		}
+		res := ""
+		for i := len(mask) - 1; i >= first; i-- {
+			if strings.IndexByte("0#?", mask[i]) < 0 {
+				res = mask[i:i+1] + res
+			} else if n := len(s1) - 1; n >= 0 {
+				res, s1 = s1[n:]+res, s1[:n]
+			}
+		}
+		return sign + showLiterals(mask[:first]+s1+res)
+	}
+}
+
 // absFunc formats negative values without a sign.
 func absFunc(ff FmtFunc) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
diff --git a/commonxl/formats.go b/commonxl/formats.go
index 51f6e20..f049dc2 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -296,6 +296,10 @@ func makeFormatter(s string) (FmtFunc, CellType) {
 		ff = hideZero(ff)
 	}
 
+	if ctype == IntegerCell && !strings.Contains(s, ",") && len(surReg.FindAllString(s, 2)) > 1 {
+		return maskDigits(ff, s), ctype
+	}
+
 	if strings.Contains(s, ",") {
 		ff = addCommas(ff)
 		//log.Printf("   added commas")
-- 
2.43.0


From 08591a6ceef4fb48139c5e0ed5e39db335cbe048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:51 +0000
Subject: [PATCH 84/98] fix: commas behind the digits scale the number

---
 commonxl/fmt.go     | 10 ++++++++++
 commonxl/formats.go | 11 +++++++++++
 2 files changed, 21 insertions(+)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 6ee26fa..c46d9ed 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -55,6 +55,16 @@ func addCommas(ff FmtFunc) FmtFunc {
 	}
 }
 
+// scaleFunc divides by a power of 1000.
+func scaleFunc(ff FmtFunc, n int) FmtFunc {
+	return func(x *Formatter, v interface{}) string {
+		if fval, ok := convertToFloat64(v); ok {
+			v = fval / math.Pow10(3*n)
+		}
+		return ff(x, v)
+	}
+}
+
 // padDigits adds leading zeros up to n integer digits.
 func padDigits(ff FmtFunc, n int) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
diff --git a/commonxl/formats.go b/commonxl/formats.go
index f049dc2..3560c67 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -75,6 +75,7 @@ var (
 	dateToken = regexp.MustCompile(`(?i)am/pm|\[h+\]|\[m+\]|\[s+\]|y+|m+|d+|h+|s+`)
 	elapsed   = regexp.MustCompile(`(?i)^\[(h+|m+|s+)\]$`)
 	fraction  = regexp.MustCompile(`[0#?]+(?: *[0#?]+)?/([0#?]+|\d+)`)
+	scaling   = regexp.MustCompile(`[0#?],+([^0#?,]|$)`)
 	exponent  = regexp.MustCompile("[eE]+[+-]0+")
 	surReg    = regexp.MustCompile(`[0#?,.]+`)
 
@@ -258,6 +259,13 @@ func makeFormatter(s string) (FmtFunc, CellType) {
 		return surround(showLiterals(s[:i[0]]), customFracFmtFunc(min(i[3]-i[2], 9), den), showLiterals(s[i[1]:])), FloatCell
 	}
 
+	// commas behind the digits or in front of the decimal point scale the number
+	scale := 0
+	s = scaling.ReplaceAllStringFunc(s, func(m string) string {
+		scale += strings.Count(m, ",")
+		return strings.ReplaceAll(m, ",", "")
+	})
+
 	// digits which are always shown, and which are shown if they matter
 	digits := strings.SplitN(strings.ReplaceAll(exponent.ReplaceAllString(s, ""), ",", ""), ".", 2)
 	intDigits := strings.Count(digits[0], "0")
@@ -290,6 +298,9 @@ func makeFormatter(s string) (FmtFunc, CellType) {
 		ff = sprintfFunc("%d", mul)
 		ctype = IntegerCell
 	}
+	if scale > 0 {
+		ff = scaleFunc(ff, scale)
+	}
 	if intDigits > 1 {
 		ff = padDigits(ff, intDigits)
 	} else if intDigits+fracDigits == 0 {
-- 
2.43.0


From 0a5c5caa7303e13799ce51e4d5bf1e2bece94d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:02 +0000
Subject: [PATCH 85/98] fix: conditions in brackets select the section of a
 format

---
 commonxl/formats.go | 48 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index 3560c67..077edee 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -75,6 +75,7 @@ var (
 	dateToken = regexp.MustCompile(`(?i)am/pm|\[h+\]|\[m+\]|\[s+\]|y+|m+|d+|h+|s+`)
 	elapsed   = regexp.MustCompile(`(?i)^\[(h+|m+|s+)\]$`)
 	fraction  = regexp.MustCompile(`[0#?]+(?: *[0#?]+)?/([0#?]+|\d+)`)
+	condition = regexp.MustCompile(`\[([<>=]+)(-?[0-9.]+(?:[eE][+-]?[0-9]+)?)\]`)
 	scaling   = regexp.MustCompile(`[0#?],+([^0#?,]|$)`)
 	exponent  = regexp.MustCompile("[eE]+[+-]0+")
 	surReg    = regexp.MustCompile(`[0#?,.]+`)
@@ -227,7 +228,11 @@ func min(a, b int) int {
 
 func makeFormatter(s string) (FmtFunc, CellType) {
 	//log.Printf("makeFormatter('%s')", s)
-	s = removeBrackets(hideLiterals(s))
+	s = hideLiterals(s)
+	if strings.Contains(s, ";") && condition.MatchString(s) {
+		return makeConditional(strings.Split(s, ";"))
+	}
+	s = removeBrackets(s)
 	if strings.Contains(s, ";") {
 		parts := strings.Split(s, ";")
 		if last := len(parts) - 1; last < 3 && strings.Contains(parts[last], "@") {
@@ -339,6 +344,47 @@ func makeFormatter(s string) (FmtFunc, CellType) {
 	return ff, ctype
 }
 
+// makeConditional makes the formatter for sections with conditions.
+func makeConditional(parts []string) (FmtFunc, CellType) {
+	if last := len(parts) - 1; last > 2 || strings.Contains(removeBrackets(parts[last]), "@") {
+		parts = parts[:last] // the text section
+	}
+	var ffs []FmtFunc
+	var ctype CellType
+	op := make([]string, len(parts))
+	limit := make([]float64, len(parts))
+	for i, p := range parts {
+		ff, ct := makeFormatter(removeBrackets(p))
+		if m := condition.FindStringSubmatch(p); m != nil {
+			op[i] = m[1]
+			limit[i], _ = strconv.ParseFloat(m[2], 64)
+		} else if i == 1 && len(parts) > 2 {
+			op[i] = "<"
+		}
+		if op[i] == "<" && limit[i] == 0 {
+			// the section defines the sign itself
+			ff = absFunc(ff)
+		}
+		if i == 0 {
+			ctype = ct
+		}
+		ffs = append(ffs, ff)
+	}
+	return func(x *Formatter, v interface{}) string {
+		val, _ := convertToFloat64(v)
+		n := len(ffs) - 1
+		for i := 0; i < n; i++ {
+			if op[i] == "" && val > 0 ||
+				strings.Contains(op[i], "<") && val < limit[i] ||
+				strings.Contains(op[i], ">") && val > limit[i] ||
+				strings.Contains(op[i], "=") && val == limit[i] {
+				return ffs[i](x, v)
+			}
+		}
+		return ffs[n](x, v)
+	}, ctype
+}
+
 // Get the number format func to use for formatting values,
 // it returns false when fmtID is unknown.
 func (x *Formatter) Get(fmtID uint16) (FmtFunc, bool) {
-- 
2.43.0


From 14dfb5c806ef48cafb416166200a91693805466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:15 +0000
Subject: [PATCH 86/98] fix: fractions which round to the next whole number are
 shown as one

---
 commonxl/fmt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index c46d9ed..63c687d 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -273,6 +273,10 @@ func fracFmtFunc(n int) FmtFunc {
 		if n == 0 {
 			return fmt.Sprintf("%d", w)
 		}
+		if n == d {
+			// rounded to the next whole number
+			return strconv.FormatFloat(math.Round(f), 'f', 0, 64)
+		}
 		if w == 0 {
 			if f < 0 && n > 0 {
 				n = -n
-- 
2.43.0


From 8a56f5d3e865350f7db9fae7ced59d3b2130de53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:33 +0000
Subject: [PATCH 87/98] fix: an extension's workbookPr element does not turn
 the 1904 date system off

---
 xlsx/workbook.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index c14b98b..0487a51 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -82,7 +82,10 @@ func (d *Document) parseWorkbook(dec *xml.Decoder) error {
 				d.sheets = append(d.sheets, s)
 			case "workbookPr":
 				ax := getAttrs(v.Attr, "date1904")
-				d.fmt.Mode1904(ax[0] == "1" || ax[0] == "true")
+				if ax[0] != "" {
+					// extensions have elements of the same name
+					d.fmt.Mode1904(ax[0] == "1" || ax[0] == "true")
+				}
 			case "workbook", "sheets":
 				// containers
 			default:
-- 
2.43.0


From f4ed0dbd696682bb417ee505bc3863ffd3bea0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:27 +0000
Subject: [PATCH 88/98] fix: relative file links keep the directories above
 they start from

---
 xls/hyperlinks.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xls/hyperlinks.go b/xls/hyperlinks.go
index 7938049..2840464 100644
--- a/xls/hyperlinks.go
+++ b/xls/hyperlinks.go
@@ -125,7 +125,10 @@ func parseHyperlinkMoniker(raw []byte) (string, int, error) {
 		return string(utf16.Decode(buf)), no, nil
 	}
 	if isFileMoniker {
-		//x := binary.LittleEndian.Uint16(raw[no:])        //cAnti
+		up := "" // the directories above that the path starts from
+		if cAnti := binary.LittleEndian.Uint16(raw[no:]); cAnti <= 0xFF {
+			up = strings.Repeat(`..\`, int(cAnti))
+		}
 		length := binary.LittleEndian.Uint32(raw[no+2:]) //ansiLength
 		no += 6
 		buf := raw[no : no+int(length)]
@@ -146,10 +149,10 @@ func parseHyperlinkMoniker(raw []byte) (string, int, error) {
 				buf2[i] = binary.LittleEndian.Uint16(raw[no:])
 				no += 2
 			}
-			return string(utf16.Decode(buf2)), no, nil
+			return up + string(utf16.Decode(buf2)), no, nil
 		}
 
-		return string(buf), no, nil
+		return up + string(buf), no, nil
 	}
 
 	return "", 0, fmt.Errorf("xls: unknown moniker classid")
-- 
2.43.0


From 5c6244c317097124e7fab0bcef2621b7766fefef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:28 +0000
Subject: [PATCH 89/98] fix: hyperlinks of an xlsx sheet to a place inside of
 their target keep it

---
 xlsx/sheets.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index 6145378..ee12479 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -178,7 +178,7 @@ func (s *Sheet) parseSheet() error {
 				}
 
 			case "hyperlink":
-				ax := getAttrs(v.Attr, "ref", "id")
+				ax := getAttrs(v.Attr, "ref", "id", "location")
 				// the link is shown in the first cell of the range
 				col, row := refToIndexes(strings.Split(ax[0], ":")[0])
 				link := linkmap[ax[1]]
@@ -186,6 +186,10 @@ func (s *Sheet) parseSheet() error {
 					// not an external hyperlink
 					continue
 				}
+				if ax[2] != "" {
+					// a place inside of the target
+					link += "#" + ax[2]
+				}
 				s.wrapped.Put(row, col, link, 0)
 				s.wrapped.SetURL(row, col, link)
 
-- 
2.43.0


From 0ebe7e572bdd0667cf78abea6c95da56aa04f571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:36 +0000
Subject: [PATCH 90/98] fix: characters written as _xHHHH_ in the texts of an
 xlsx file are decoded

---
 xlsx/sheets.go   |  5 +++++
 xlsx/types.go    | 23 +++++++++++++++++++++++
 xlsx/workbook.go |  5 +++++
 3 files changed, 33 insertions(+)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index ee12479..c8f8fb0 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -63,6 +63,7 @@ func (s *Sheet) parseSheet() error {
 	currentCellType := BlankCellType
 	currentCell := ""
 	cellText := ""
+	textStart := 0
 	inValue, inPhonetic := false, false
 	var fno uint16
 	var maxCol, maxRow int
@@ -128,6 +129,7 @@ func (s *Sheet) parseSheet() error {
 			case "v", "t":
 				//log.Println("CELL VALUE", ax)
 				inValue = true
+				textStart = len(cellText)
 			case "rPh":
 				inPhonetic = true
 
@@ -207,6 +209,9 @@ func (s *Sheet) parseSheet() error {
 			switch v.Name.Local {
 			case "v", "t":
 				inValue = false
+				if textStart <= len(cellText) {
+					cellText = cellText[:textStart] + unescape(cellText[textStart:])
+				}
 			case "rPh":
 				inPhonetic = false
 			case "c":
diff --git a/xlsx/types.go b/xlsx/types.go
index 2cdb9d3..69eb3cc 100644
--- a/xlsx/types.go
+++ b/xlsx/types.go
@@ -4,6 +4,7 @@ import (
 	"encoding/xml"
 	"strconv"
 	"strings"
+	"unicode/utf16"
 )
 
 type CellType string
@@ -99,6 +100,28 @@ func indexesToRef(column, row int) string {
 	return s + strconv.Itoa(row+1)
 }
 
+// unescape decodes the characters of a text which are written as _xHHHH_
+// because XML cannot hold them.
+func unescape(s string) string {
+	if !strings.Contains(s, "_x") {
+		return s
+	}
+	us := utf16.Encode([]rune(s))
+	res := us[:0]
+	for i := 0; i < len(us); i++ {
+		if us[i] == '_' && i+6 < len(us) && us[i+1] == 'x' && us[i+6] == '_' {
+			n, err := strconv.ParseUint(string(utf16.Decode(us[i+2:i+6])), 16, 16)
+			if err == nil {
+				res = append(res, uint16(n))
+				i += 6
+				continue
+			}
+		}
+		res = append(res, us[i])
+	}
+	return string(utf16.Decode(res))
+}
+
 func getAttrs(attrs []xml.Attr, keys ...string) []string {
 	res := make([]string, len(keys))
 	for _, a := range attrs {
diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 0487a51..5763062 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -192,6 +192,7 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 
 func (d *Document) parseSharedStrings(dec *xml.Decoder) error {
 	val := ""
+	textStart := 0
 	inText, inPhonetic := false, false
 	tok, err := dec.Token()
 	for ; err == nil; tok, err = dec.Token() {
@@ -207,6 +208,7 @@ func (d *Document) parseSharedStrings(dec *xml.Decoder) error {
 			case "t":
 				// no attributes to parse, we only want the CharData ...
 				inText = true
+				textStart = len(val)
 			case "rPh":
 				inPhonetic = true
 			case "sst":
@@ -220,6 +222,9 @@ func (d *Document) parseSharedStrings(dec *xml.Decoder) error {
 			switch v.Name.Local {
 			case "t":
 				inText = false
+				if textStart <= len(val) {
+					val = val[:textStart] + unescape(val[textStart:])
+				}
 			case "rPh":
 				inPhonetic = false
 			}
-- 
2.43.0


From c166c583cdfbcb0ae15c07cff0ec24092e2e10ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:21 +0000
Subject: [PATCH 91/98] fix: ignore attributes of other namespaces in xlsx
 parts

---
 xlsx/types.go    | 9 +++++++++
 xlsx/workbook.go | 6 ++++++
 2 files changed, 15 insertions(+)

diff --git a/xlsx/types.go b/xlsx/types.go
index 69eb3cc..e7c3fbb 100644
--- a/xlsx/types.go
+++ b/xlsx/types.go
@@ -125,6 +125,9 @@ func unescape(s string) string {
 func getAttrs(attrs []xml.Attr, keys ...string) []string {
 	res := make([]string, len(keys))
 	for _, a := range attrs {
+		if isForeign(a) {
+			continue
+		}
 		for i, k := range keys {
 			if a.Name.Local == k {
 				res[i] = a.Value
@@ -133,3 +136,9 @@ func getAttrs(attrs []xml.Attr, keys ...string) []string {
 	}
 	return res
 }
+
+// isForeign is true for declarations of namespaces, and for the attributes of
+// other namespaces than that of the relationship ids.
+func isForeign(a xml.Attr) bool {
+	return a.Name.Space != "" && a.Name.Space != "r" && !strings.HasSuffix(a.Name.Space, "/relationships")
+}
diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 5763062..cb05ebe 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -23,6 +23,9 @@ func (d *Document) parseRels(dec *xml.Decoder, basedir string) error {
 			case "Relationship":
 				vals := make(map[string]string, 5)
 				for _, a := range v.Attr {
+					if isForeign(a) {
+						continue
+					}
 					vals[a.Name.Local] = a.Value
 				}
 				if _, ok := d.rels[vals["Type"]]; !ok {
@@ -65,6 +68,9 @@ func (d *Document) parseWorkbook(dec *xml.Decoder) error {
 			case "sheet":
 				vals := make(map[string]string, 5)
 				for _, a := range v.Attr {
+					if isForeign(a) {
+						continue
+					}
 					vals[a.Name.Local] = a.Value
 				}
 				sheetID, ok1 := vals["id"]
-- 
2.43.0


From 833cde71f3a483e0baf388e71667dff9749f4c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:07 +0000
Subject: [PATCH 92/98] fix: open the streams of the root storage first

An embedded document keeps its streams in a storage of its own. When its
entries came first in the directory, its Workbook stream was read instead of
the workbook's.
---
 xls/cfb/cfb.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index 5ed4352..3258b70 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -13,6 +13,7 @@ import (
 	"io"
 	"io/ioutil"
 	"log"
+	"sort"
 	"unicode/utf16"
 
 	"github.com/pbnjay/grate"
@@ -280,6 +281,7 @@ func (d *Document) buildDirs(br *bytes.Reader) error {
 	offs := int64(1+sid) << int64(h.SectorShift)
 	br.Seek(offs, io.SeekStart)
 
+	entries := make(map[uint32]*directory)
 	perSector := (1 << h.SectorShift) / 128
 	for j := 0; ; j++ {
 		if j > 0 && j%perSector == 0 {
@@ -322,8 +324,29 @@ func (d *Document) buildDirs(br *bytes.Reader) error {
 			continue
 		}
 		d.dir = append(d.dir, dirent)
+		entries[uint32(j)] = dirent
 	}
 
+	// streams of embedded documents may share the names of the root
+	// storage's own, which therefore go first
+	top := make(map[*directory]bool)
+	if root := entries[0]; root != nil {
+		delete(entries, 0)
+		pending := []uint32{root.ChildID}
+		for len(pending) > 0 {
+			id := pending[len(pending)-1]
+			pending = pending[:len(pending)-1]
+			if e := entries[id]; e != nil {
+				delete(entries, id) // visit each entry once
+				top[e] = true
+				pending = append(pending, e.LeftSiblingID, e.RightSiblingID)
+			}
+		}
+	}
+	sort.SliceStable(d.dir, func(i, j int) bool {
+		return top[d.dir[i]] && !top[d.dir[j]]
+	})
+
 	return nil
 }
 
-- 
2.43.0


From 6a952d2ce241fb8ac193f674d2366dfa217843f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:12 +0000
Subject: [PATCH 93/98] fix: resolve dot segments of absolute relationship
 targets in xlsx packages

Only relative targets of the workbook's own parts were normalised.
---
 xlsx/workbook.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index cb05ebe..cd27c42 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -33,12 +33,12 @@ func (d *Document) parseRels(dec *xml.Decoder, basedir string) error {
 				}
 				if strings.HasPrefix(vals["Target"], "/") {
 					// handle malformed "absolute" paths cleanly
-					d.rels[vals["Type"]][vals["Id"]] = vals["Target"][1:]
+					d.rels[vals["Type"]][vals["Id"]] = filepath.Clean(vals["Target"])[1:]
 				} else {
 					d.rels[vals["Type"]][vals["Id"]] = filepath.Join(basedir, vals["Target"])
 				}
 				if vals["Type"] == "http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" {
-					d.primaryDoc = strings.TrimPrefix(vals["Target"], "/")
+					d.primaryDoc = filepath.Clean("/" + vals["Target"])[1:]
 				}
 			default:
 				if grate.Debug {
-- 
2.43.0


From 97dc8c44e1c3c371781fe20291e338bb80f2a514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:23 +0000
Subject: [PATCH 94/98] fix: compare xlsx part names without regard to case

Part names which differ in case only are equivalent; producers do spell a
part's name and the references to it differently.
---
 xlsx/xlsx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index 012eae4..eff705f 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -167,7 +167,7 @@ func (d *Document) openXML(name string) (*xml.Decoder, io.Closer, error) {
 		log.Println("    openXML", name)
 	}
 	for _, zf := range d.r.File {
-		if zf.Name == name {
+		if strings.EqualFold(zf.Name, name) { // part names ignore case
 			if err := checkRoot(zf); err != nil {
 				return nil, nil, err
 			}
-- 
2.43.0


From 2d7174c9c4650461c97b2526876192fbc7624d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:10 +0000
Subject: [PATCH 95/98] fix: an xlsx file which cannot be read is not taken for
 a text

---
 xlsx/xlsx.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index eff705f..7e8dfd2 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -62,7 +62,7 @@ func Open(filename string) (src grate.Source, err error) {
 		if _, err2 := f.ReadAt(head[:], 0); err2 == nil && string(head[:4]) == "PK\x03\x04" && head[9] == 0 {
 			return nil, err // a damaged archive
 		}
-		return nil, grate.WrapErr(err, grate.ErrNotInFormat)
+		return nil, notInFormat(err)
 	}
 	if !directoryMatches(f, z) {
 		return nil, errors.New("xlsx: incomplete file")
@@ -78,12 +78,12 @@ func Open(filename string) (src grate.Source, err error) {
 	// parse the primary relationships
 	dec, c, err := d.openXML("_rels/.rels")
 	if err != nil {
-		return nil, grate.WrapErr(err, grate.ErrNotInFormat)
+		return nil, notInFormat(err)
 	}
 	err = d.parseRels(dec, "")
 	c.Close()
 	if err != nil {
-		return nil, grate.WrapErr(err, grate.ErrNotInFormat)
+		return nil, notInFormat(err)
 	}
 	if d.primaryDoc == "" {
 		return nil, errors.New("xlsx: invalid document")
@@ -145,6 +145,15 @@ func Open(filename string) (src grate.Source, err error) {
 	return d, nil
 }
 
+// notInFormat wraps an error from reading a file which may be of another format.
+func notInFormat(err error) error {
+	var perr *os.PathError
+	if errors.As(err, &perr) {
+		return err // the file cannot be read, whatever its format
+	}
+	return grate.WrapErr(err, grate.ErrNotInFormat)
+}
+
 // directoryMatches tells whether the directory found at the end of an archive
 // lists the entry the archive starts with. It does not if the file was cut off
 // after an archive which is embedded in it.
-- 
2.43.0


From ffa2e7191f94e84453a8bd74a89794ac61ad3f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:15 +0000
Subject: [PATCH 96/98] fix: grater fails if it cannot write its output

---
 cmd/grater/main.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/grater/main.go b/cmd/grater/main.go
index 07d6b05..f255233 100644
--- a/cmd/grater/main.go
+++ b/cmd/grater/main.go
@@ -46,12 +46,20 @@ func main() {
 			for sheet.Next() {
 				if *flagDebug {
 					dtypes := sheet.Types()
-					fmt.Println(strings.Join(dtypes, "\t"))
+					printRow(dtypes)
 				}
 				row := sheet.Strings()
-				fmt.Println(strings.Join(row, "\t"))
+				printRow(row)
 			}
 		}
 		wb.Close()
 	}
 }
+
+// printRow prints a row to stdout. There is no use in going on if that fails.
+func printRow(row []string) {
+	if _, err := fmt.Println(strings.Join(row, "\t")); err != nil {
+		fmt.Fprintln(os.Stderr, err)
+		os.Exit(1)
+	}
+}
-- 
2.43.0


From 6c98db715e2eebc528552968ec37b553a23d77e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:15 +0000
Subject: [PATCH 97/98] fix: grate2tsv reports output it cannot write

---
 cmd/grate2tsv/main.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/cmd/grate2tsv/main.go b/cmd/grate2tsv/main.go
index b1d17ae..6cfce98 100644
--- a/cmd/grate2tsv/main.go
+++ b/cmd/grate2tsv/main.go
@@ -92,8 +92,13 @@ func main() {
 	done := make(chan int)
 	go func() {
 		for x := range cleanup {
-			x.b.Flush()
-			x.f.Close()
+			err := x.b.Flush() // reports failed writes, too
+			if err2 := x.f.Close(); err == nil {
+				err = err2
+			}
+			if err != nil {
+				log.Println(err)
+			}
 			outpool.Put(x)
 		}
 		done <- 1
@@ -110,7 +115,7 @@ func main() {
 		log.Fatal(err)
 	}
 	if pos == 0 {
-		fmt.Fprintf(fstats, "time\tfilename\tsheet\trows\tcolumns\terrors\n")
+		writeStats("time\tfilename\tsheet\trows\tcolumns\terrors\n")
 	}
 
 	filenameChan := make(chan string)
@@ -136,6 +141,13 @@ func main() {
 	<-done
 }
 
+// writeStats appends a line to the stats file.
+func writeStats(format string, args ...interface{}) {
+	if _, err := fmt.Fprintf(fstats, format, args...); err != nil {
+		log.Println(err)
+	}
+}
+
 func runProcessor(from chan string, mu *sync.Mutex) {
 	for fn := range from {
 		nowFmt := time.Now().Format(timeFormat)
@@ -143,7 +155,7 @@ func runProcessor(from chan string, mu *sync.Mutex) {
 		mu.Lock()
 		if err != nil {
 			// returned errors are fatal
-			fmt.Fprintf(fstats, "%s\t%s\t-\t-\t-\t%s\n", nowFmt, fn, err.Error())
+			writeStats("%s\t%s\t-\t-\t-\t%s\n", nowFmt, fn, err.Error())
 			mu.Unlock()
 			continue
 		}
@@ -153,7 +165,7 @@ func runProcessor(from chan string, mu *sync.Mutex) {
 			if res.Err != nil {
 				e = res.Err.Error()
 			}
-			fmt.Fprintf(fstats, "%s\t%s\t%s\t%d\t%d\t%s\n", nowFmt, res.Filename, res.SheetName,
+			writeStats("%s\t%s\t%s\t%d\t%d\t%s\n", nowFmt, res.Filename, res.SheetName,
 				res.NumRows, res.NumCols, e)
 		}
 		mu.Unlock()
-- 
2.43.0


From 02878dc7f4c69706b15ab1b67d188dd7d1ab12d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:46 +0000
Subject: [PATCH 98/98] fix: the spelling of a boolean attribute does not
 change a cell format

---
 xlsx/workbook.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index cd27c42..cc7e8b6 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -145,7 +145,7 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 				ax := getAttrs(v.Attr, "numFmtId", "applyNumberFormat", "xfId")
 				if section == 1 {
 					// load base styles, but only save number format
-					if ax[1] == "0" {
+					if ax[1] == "0" || ax[1] == "false" {
 						baseNumFormats = append(baseNumFormats, "0")
 					} else {
 						baseNumFormats = append(baseNumFormats, ax[0])
@@ -160,7 +160,7 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 					}
 
 					// 2) check if this XF overrides the base format
-					if ax[1] == "0" {
+					if ax[1] == "0" || ax[1] == "false" {
 						// remove the format (if it was inherited)
 						numFmtID = "0"
 					} else {
-- 
2.43.0


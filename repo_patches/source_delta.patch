From 3aba455460008f3f86c0a3d74d18ca538498646d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 01/41] fix: cfb.Open closes the file it opened

---
 xls/cfb/interface.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xls/cfb/interface.go b/xls/cfb/interface.go
index ec5a6a9..26bd0af 100644
--- a/xls/cfb/interface.go
+++ b/xls/cfb/interface.go
@@ -13,6 +13,7 @@ func Open(filename string) (*Document, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer f.Close()
 	err = d.load(f)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From b9e09874e1f6206ea844bf79b2f9fc4fc51513a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 02/41] fix: xlsx.Open closes the file when it fails

---
 xlsx/xlsx.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index 3d5eaad..fe10a8c 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -41,11 +41,17 @@ func (d *Document) Close() error {
 	return d.f.Close()
 }
 
-func Open(filename string) (grate.Source, error) {
+func Open(filename string) (src grate.Source, err error) {
 	f, err := os.Open(filename)
 	if err != nil {
 		return nil, err
 	}
+	defer func() {
+		if src == nil {
+			// not handed over to the caller, so nobody else can close it
+			f.Close()
+		}
+	}()
 	info, err := f.Stat()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 29d69e3142888385c023dd20ef976312200ce7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:04 +0000
Subject: [PATCH 03/41] fix: malformed xls/xlsx files are reported as errors
 instead of panics

---
 xls/sheets.go |  8 +++++++-
 xls/xls.go    | 13 +++++++++++--
 xlsx/xlsx.go  | 11 ++++++++++-
 3 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index 7f30402..dd15710 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -3,6 +3,7 @@ package xls
 import (
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"log"
 	"math"
 	"unicode/utf16"
@@ -34,7 +35,12 @@ func (b *WorkBook) ListHidden() ([]string, error) {
 }
 
 // Get opens the named worksheet and return an iterator for its contents.
-func (b *WorkBook) Get(sheetName string) (grate.Collection, error) {
+func (b *WorkBook) Get(sheetName string) (res grate.Collection, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			res, err = nil, fmt.Errorf("xls: invalid sheet: %v", r)
+		}
+	}()
 	for _, s := range b.sheets {
 		if s.Name == sheetName {
 			ss := b.pos2substream[int64(s.Position)]
diff --git a/xls/xls.go b/xls/xls.go
index 15ff55c..824b1a8 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -10,6 +10,7 @@ import (
 	"context"
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"io"
 	"log"
 	"sync"
@@ -49,7 +50,12 @@ func (b *WorkBook) IsProtected() bool {
 	return b.prot
 }
 
-func Open(filename string) (grate.Source, error) {
+func Open(filename string) (src grate.Source, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			src, err = nil, fmt.Errorf("xls: invalid document: %v", r)
+		}
+	}()
 	doc, err := cfb.Open(filename)
 	if err != nil {
 		return nil, err
@@ -73,7 +79,10 @@ func Open(filename string) (grate.Source, error) {
 	}
 
 	err = b.loadFromStream(raw)
-	return b, err
+	if err != nil {
+		return nil, err
+	}
+	return b, nil
 }
 
 func (b *WorkBook) loadFromStream(raw []byte) error {
diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index fe10a8c..235c48e 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -4,6 +4,7 @@ import (
 	"archive/zip"
 	"encoding/xml"
 	"errors"
+	"fmt"
 	"io"
 	"log"
 	"os"
@@ -47,6 +48,9 @@ func Open(filename string) (src grate.Source, err error) {
 		return nil, err
 	}
 	defer func() {
+		if r := recover(); r != nil {
+			src, err = nil, fmt.Errorf("xlsx: invalid document: %v", r)
+		}
 		if src == nil {
 			// not handed over to the caller, so nobody else can close it
 			f.Close()
@@ -163,7 +167,12 @@ func (d *Document) List() ([]string, error) {
 	return res, nil
 }
 
-func (d *Document) Get(sheetName string) (grate.Collection, error) {
+func (d *Document) Get(sheetName string) (res grate.Collection, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			res, err = nil, fmt.Errorf("xlsx: invalid sheet: %v", r)
+		}
+	}()
 	for _, s := range d.sheets {
 		if s.name == sheetName {
 			if s.err == errNotLoaded {
-- 
2.43.0


From bda4065a744008bf163de6ee1f6fd584843c1292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 04/41] fix: xls Get reports dialog sheets and dangling sheet
 positions as errors

---
 xls/sheets.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index dd15710..45ea914 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -43,8 +43,15 @@ func (b *WorkBook) Get(sheetName string) (res grate.Collection, err error) {
 	}()
 	for _, s := range b.sheets {
 		if s.Name == sheetName {
-			ss := b.pos2substream[int64(s.Position)]
-			return b.parseSheet(s, ss)
+			ss, ok := b.pos2substream[int64(s.Position)]
+			if !ok {
+				return nil, errors.New("xls: sheet contents not found")
+			}
+			sheet, err := b.parseSheet(s, ss)
+			if err != nil {
+				return nil, err
+			}
+			return sheet, nil
 		}
 	}
 	return nil, errors.New("xls: sheet not found")
@@ -80,7 +87,7 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 		case RecTypeWsBool:
 			if (r.Data[1] & 0x10) != 0 {
 				// it's a dialog
-				return nil, nil
+				return nil, errors.New("xls: dialog sheets are not supported")
 			}
 
 		case RecTypeDimensions:
-- 
2.43.0


From e7801e3e57cd5183ea472330896d90c6c685e194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 05/41] fix: xls ignores cells of content embedded more than
 one level deep

---
 xls/sheets.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xls/sheets.go b/xls/sheets.go
index 45ea914..a8012cd 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -72,6 +72,8 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 		if inSubstream > 0 {
 			if r.RecType == RecTypeEOF {
 				inSubstream--
+			} else if r.RecType == RecTypeBOF {
+				inSubstream++
 			}
 			continue
 		}
@@ -118,6 +120,8 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 		if inSubstream > 0 {
 			if r.RecType == RecTypeEOF {
 				inSubstream--
+			} else if r.RecType == RecTypeBOF {
+				inSubstream++
 			} else if grate.Debug {
 				log.Println("      Unhandled sheet substream record type:", r.RecType, ridx)
 			}
-- 
2.43.0


From d21d1dbb34e1e3b5399783247e2d9ab6391ab14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 06/41] fix: xls RK numbers holding an integer with two implied
 decimals

---
 xls/structs.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xls/structs.go b/xls/structs.go
index c8d49a7..d7262e4 100644
--- a/xls/structs.go
+++ b/xls/structs.go
@@ -96,7 +96,11 @@ func (r RKNumber) Float64() float64 {
 	if (r&1) != 0 && (r&2) == 0 {
 		return v2 / 100.0
 	}
-	return 0.0
+	// integer, possibly with 2 implied decimals
+	if (r & 1) != 0 {
+		return float64(val) / 100.0
+	}
+	return float64(val)
 }
 
 func (r RKNumber) String() string {
-- 
2.43.0


From 00cead4cf4ffeef1dc780d0ed606d8b0a4cb254e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 07/41] fix: honor the 1904 date system of xls and xlsx
 workbooks

---
 xls/xls.go       | 1 +
 xlsx/workbook.go | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/xls/xls.go b/xls/xls.go
index 824b1a8..3bca10a 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -305,6 +305,7 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 
 			case RecTypeDate1904:
 				b.dateMode = binary.LittleEndian.Uint16(nr.Data)
+				b.nfmt.Mode1904(b.dateMode == 1)
 
 			case RecTypeFormat:
 				// Format maps a format ID to a code string
diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index d789562..ac9689a 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -80,6 +80,9 @@ func (d *Document) parseWorkbook(dec *xml.Decoder) error {
 					err:     errNotLoaded,
 				}
 				d.sheets = append(d.sheets, s)
+			case "workbookPr":
+				ax := getAttrs(v.Attr, "date1904")
+				d.fmt.Mode1904(ax[0] == "1" || ax[0] == "true")
 			case "workbook", "sheets":
 				// containers
 			default:
-- 
2.43.0


From c186520c105ca12adee40d8156d02bc6c7954152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 08/41] fix: Formatter.Apply does not panic on unknown format
 ids

---
 commonxl/formats.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index 49b58a9..3798a08 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -213,13 +213,7 @@ func (x *Formatter) Get(fmtID uint16) (FmtFunc, bool) {
 // Apply the specified number format to the value.
 // Returns false when fmtID is unknown.
 func (x *Formatter) Apply(fmtID uint16, val interface{}) (string, bool) {
-	ff, ok := goFormatters[fmtID]
-	if !ok {
-		fs, ok2 := x.customCodes[fmtID]
-		if ok2 {
-			return fs(x, val), true
-		}
-	}
+	ff, ok := x.Get(fmtID)
 	return ff(x, val), ok
 }
 
-- 
2.43.0


From 7a2d00d29f57994135b23bf329da27190e7b5965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 09/41] fix: text cells are never altered by number formats

---
 commonxl/cell.go    | 4 ++--
 commonxl/fmt.go     | 4 ++--
 commonxl/formats.go | 4 ++++
 commonxl/sheet.go   | 4 +++-
 4 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 9b1c5b2..26939bd 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -118,8 +118,8 @@ var boolStrings = map[string]bool{
 // NewCellWithType creates a new cell value with the given type, coercing as necessary.
 func NewCellWithType(value interface{}, t CellType, f *Formatter) Cell {
 	c := NewCell(value)
-	if c[1] == t {
-		// fast path if it was already typed correctly
+	if c[1] == t || c[1] == BlankCell {
+		// fast path if it was already typed correctly (or there is no value)
 		return c
 	}
 
diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index f99e01b..359e17c 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -24,7 +24,7 @@ func surround(pre string, ff FmtFunc, post string) FmtFunc {
 func addNegParens(ff FmtFunc) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		s1 := ff(x, v)
-		if s1[0] == '-' {
+		if strings.HasPrefix(s1, "-") {
 			return "(" + s1[1:] + ")"
 		}
 		return s1
@@ -35,7 +35,7 @@ func addCommas(ff FmtFunc) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		s1 := ff(x, v)
 		isNeg := false
-		if s1[0] == '-' {
+		if strings.HasPrefix(s1, "-") {
 			isNeg = true
 			s1 = s1[1:]
 		}
diff --git a/commonxl/formats.go b/commonxl/formats.go
index 3798a08..52fb3cd 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -214,6 +214,10 @@ func (x *Formatter) Get(fmtID uint16) (FmtFunc, bool) {
 // Returns false when fmtID is unknown.
 func (x *Formatter) Apply(fmtID uint16, val interface{}) (string, bool) {
 	ff, ok := x.Get(fmtID)
+	if s, isText := val.(string); isText {
+		// number formats never alter text
+		return s, ok
+	}
 	return ff(x, val), ok
 }
 
diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index a165334..f7f25b6 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -76,7 +76,9 @@ func (s *Sheet) Put(row, col int, value interface{}, fmtNum uint16) {
 	}
 
 	ct, ok := s.Formatter.getCellType(fmtNum)
-	if !ok || fmtNum == 0 {
+	_, isText := value.(string)
+	if !ok || fmtNum == 0 || isText || ct == StringCell {
+		// NB text under a number format stays text, and vice versa
 		s.Rows[row][col] = NewCell(value)
 	} else {
 		s.Rows[row][col] = NewCellWithType(value, ct, s.Formatter)
-- 
2.43.0


From fd6b9106926ec4e032aa373c8ce7074cda326cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 10/41] fix: number formats use the verb and multiplier that
 fit the value

---
 commonxl/fmt.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 359e17c..af6736c 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -84,13 +84,16 @@ func identFunc(x *Formatter, v interface{}) string {
 }
 
 func sprintfFunc(fs string, mul int) FmtFunc {
-	wantInt64 := strings.Contains(fs, "%d")
+	wantInt64 := strings.HasSuffix(strings.TrimSuffix(fs, "%%"), "d")
 	return func(x *Formatter, v interface{}) string {
-		switch val := v.(type) {
+		switch v.(type) {
 		case int, uint, int64, uint64, int32, uint32, uint16, int16:
-			return fmt.Sprintf(fs, v)
-
-		case float64:
+			if wantInt64 && mul == 1 {
+				return fmt.Sprintf(fs, v)
+			}
+			v, _ = convertToFloat64(v)
+		}
+		if val, ok := v.(float64); ok {
 			val *= float64(mul)
 			if wantInt64 {
 				v2 := int64(val)
-- 
2.43.0


From 6fa5e2b616a08ae00eabf1bb067379cd3eb482a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 11/41] fix: built-in date layouts match their format codes

---
 commonxl/fmt.go | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index af6736c..9a10864 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -227,23 +227,23 @@ var goFormatters = map[uint16]FmtFunc{
 	21: timeFmtFunc(`15:04:05`),
 	22: timeFmtFunc(`1/2/06 15:04`),
 	45: timeFmtFunc(`04:05`),
-	46: timeFmtFunc(`3:04:05`),
-	47: timeFmtFunc(`0405.9`),
-	27: timeFmtFunc(`2006"年"1"月"`),
-	28: timeFmtFunc(`1"月"2"日"`),
-	29: timeFmtFunc(`1"月"2"日"`),
+	46: timeFmtFunc(`15:04:05`),
+	47: timeFmtFunc(`0405.0`),
+	27: timeFmtFunc(`2006年1月`),
+	28: timeFmtFunc(`1月2日`),
+	29: timeFmtFunc(`1月2日`),
 	30: timeFmtFunc(`1-2-06`),
-	31: timeFmtFunc(`2006"年"1"月"2"日"`),
-	32: timeFmtFunc(`15"时"04"分"`),
-	33: timeFmtFunc(`15"时"04"分"05"秒"`),
-	36: timeFmtFunc(`2006"年"2"月"`),
-	50: timeFmtFunc(`2006"年"2"月"`),
-	51: timeFmtFunc(`1"月"2"日"`),
-	52: timeFmtFunc(`2006"年"1"月"`),
-	53: timeFmtFunc(`1"月"2"日"`),
-	54: timeFmtFunc(`1"月"2"日"`),
-	57: timeFmtFunc(`2006"年"1"月"`),
-	58: timeFmtFunc(`1"月"2"日"`),
+	31: timeFmtFunc(`2006年1月2日`),
+	32: timeFmtFunc(`15时04分`),
+	33: timeFmtFunc(`15时04分05秒`),
+	36: timeFmtFunc(`2006年1月`),
+	50: timeFmtFunc(`2006年1月`),
+	51: timeFmtFunc(`1月2日`),
+	52: timeFmtFunc(`2006年1月`),
+	53: timeFmtFunc(`1月2日`),
+	54: timeFmtFunc(`1月2日`),
+	57: timeFmtFunc(`2006年1月`),
+	58: timeFmtFunc(`1月2日`),
 	71: timeFmtFunc(`2/1/2006`),
 	72: timeFmtFunc(`2-Jan-06`),
 	73: timeFmtFunc(`2-Jan`),
@@ -253,15 +253,15 @@ var goFormatters = map[uint16]FmtFunc{
 	77: timeFmtFunc(`2/1/2006 15:04`),
 	78: timeFmtFunc(`04:05`),
 	79: timeFmtFunc(`15:04:05`),
-	80: timeFmtFunc(`04:05.9`),
+	80: timeFmtFunc(`04:05.0`),
 	81: timeFmtFunc(`2/1/06`),
 	18: timeFmtFunc(`3:04 PM`),
 	19: timeFmtFunc(`3:04:05 PM`),
 
-	34: cnTimeFmtFunc(`PM 3"时"04"分"`),
-	35: cnTimeFmtFunc(`PM 3"时"04"分"05"秒"`),
-	55: cnTimeFmtFunc(`PM 3"时"04"分"`),
-	56: cnTimeFmtFunc(`PM 3"时"04"分"05"秒`),
+	34: cnTimeFmtFunc(`PM 3时04分`),
+	35: cnTimeFmtFunc(`PM 3时04分05秒`),
+	55: cnTimeFmtFunc(`PM 3时04分`),
+	56: cnTimeFmtFunc(`PM 3时04分05秒`),
 
 	12: fracFmtFunc(1),
 	13: fracFmtFunc(2),
-- 
2.43.0


From 795e1ba90f855b8c86d1fde888703f3bb974591f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 12/41] fix: custom formats with escaped date letters or
 percentages keep their numbers

---
 commonxl/formats.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index 52fb3cd..0262d0d 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -89,7 +89,7 @@ func makeFormatter(s string) (FmtFunc, CellType) {
 
 	// escaped characters, and quoted text
 	s2 := fixEsc.ReplaceAllString(s, "")
-	s2 = formatMatchTextLiteral.ReplaceAllString(s, "")
+	s2 = formatMatchTextLiteral.ReplaceAllString(s2, "")
 
 	if strings.ContainsAny(s2, "ymdhs") {
 		// it's a date/time format
@@ -162,6 +162,10 @@ func makeFormatter(s string) (FmtFunc, CellType) {
 		//log.Printf("   made int formatter '%s'", sf)
 		ff = sprintfFunc(sf, mul)
 		ctype = IntegerCell
+		if mul != 1 {
+			// a percentage is a fraction internally
+			ctype = FloatCell
+		}
 	}
 
 	if strings.Contains(s, ",") {
-- 
2.43.0


From 43b8f9afe8041074bbeac1ae4786cbb782505695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 13/41] fix: xlsx cell styles inherit the number format of
 their base style

---
 xlsx/workbook.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index ac9689a..7827378 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -151,7 +151,7 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 					if ax[1] == "0" {
 						// remove the format (if it was inherited)
 						numFmtID = "0"
-					} else {
+					} else if ax[0] != "" {
 						numFmtID = ax[0]
 					}
 
-- 
2.43.0


From ebeb563fcfec2490332a4ef627f8808f1fe3d447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:18 +0000
Subject: [PATCH 14/41] fix: sheets iterate over exactly their declared rows
 and never lose columns

---
 commonxl/sheet.go | 36 +++++++++++++++++++++---------------
 xlsx/sheets.go    |  2 +-
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index f7f25b6..918d6a1 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -21,10 +21,21 @@ type Sheet struct {
 // Resize the sheet for the number of rows and cols given.
 // Newly added cells default to blank.
 func (s *Sheet) Resize(rows, cols int) {
+	if rows <= 0 {
+		rows = 1
+	}
+	if cols <= 0 {
+		cols = 1
+	}
+	// existing cells are never dropped
+	if rows < len(s.Rows) {
+		rows = len(s.Rows)
+	}
+	if cols < s.NumCols {
+		cols = s.NumCols
+	}
+
 	for i := range s.Rows {
-		if i > rows {
-			break
-		}
 		n := cols - len(s.Rows[i])
 		if n <= 0 {
 			continue
@@ -32,17 +43,11 @@ func (s *Sheet) Resize(rows, cols int) {
 		s.Rows[i] = append(s.Rows[i], make([]Cell, n)...)
 	}
 
-	if rows <= 0 {
-		rows = 1
-	}
-	if cols <= 0 {
-		cols = 1
-	}
 	s.CurRow = 0
 	s.NumRows = rows
 	s.NumCols = cols
 
-	for rows >= len(s.Rows) {
+	for rows > len(s.Rows) {
 		s.Rows = append(s.Rows, make([]Cell, cols))
 	}
 }
@@ -58,13 +63,14 @@ func (s *Sheet) Put(row, col int, value interface{}, fmtNum uint16) {
 
 		// per the spec, this is an invalid Excel file
 		// but we'll resize in place instead of crashing out
-		if row >= s.NumRows {
-			s.NumRows = row + 1
+		rows, cols := s.NumRows, s.NumCols
+		if row >= rows {
+			rows = row + 1
 		}
-		if col >= s.NumCols {
-			s.NumCols = col + 1
+		if col >= cols {
+			cols = col + 1
 		}
-		s.Resize(s.NumRows, s.NumCols)
+		s.Resize(rows, cols)
 	}
 
 	if spec, ok := value.(string); ok {
diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index fc9c76b..2d7254e 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -120,7 +120,7 @@ func (s *Sheet) parseSheet() error {
 					//minCol, minRow := refToIndexes(dims[0])
 					maxCol, maxRow = refToIndexes(dims[1])
 				}
-				s.wrapped.Resize(maxRow, maxCol)
+				s.wrapped.Resize(maxRow+1, maxCol+1)
 				//log.Println("DIMENSION:", s.minRow, s.minCol, ">", s.maxRow, s.maxCol)
 			case "row":
 				//currentRow = ax["r"] // unsigned int row index
-- 
2.43.0


From 6a62fd8cc3d139698da7beac6b8024232c9d9c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:45 +0000
Subject: [PATCH 15/41] fix: Set and SetURL on blank or out of bounds cells

---
 commonxl/cell.go  | 7 +++++--
 commonxl/sheet.go | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 26939bd..304836e 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -64,11 +64,14 @@ func (c Cell) Value() interface{} {
 
 // SetURL adds a URL hyperlink to the cell.
 func (c *Cell) SetURL(link string) {
+	for len(*c) < 2 {
+		*c = append(*c, nil)
+	}
 	(*c)[1] = HyperlinkStringCell
 	if len(*c) == 2 {
 		*c = append(*c, uint16(0), link)
-	} else { // len = 3 already
-		*c = append(*c, link)
+	} else { // has a format number already
+		*c = append((*c)[:3], link)
 	}
 }
 
diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index 918d6a1..5b8c77b 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -95,18 +95,21 @@ func (s *Sheet) Put(row, col int, value interface{}, fmtNum uint16) {
 // Set changes the value in an existing cell location.
 // NB Currently only used for populating string results for formulas.
 func (s *Sheet) Set(row, col int, value interface{}) {
-	if row > s.NumRows || col > s.NumCols {
+	if row >= s.NumRows || col >= s.NumCols {
 		log.Println("grate: cell out of bounds")
 		return
 	}
 
+	if len(s.Rows[row][col]) == 0 {
+		s.Rows[row][col] = make([]interface{}, 2)
+	}
 	s.Rows[row][col][0] = value
 	s.Rows[row][col][1] = StringCell
 }
 
 // SetURL adds a hyperlink to an existing cell location.
 func (s *Sheet) SetURL(row, col int, link string) {
-	if row > s.NumRows || col > s.NumCols {
+	if row >= s.NumRows || col >= s.NumCols {
 		log.Println("grate: cell out of bounds")
 		return
 	}
-- 
2.43.0


From d90ff6999b43d19da86fd1909bccfb9b1183414a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 16/41] fix: Scan supports the same destinations for every
 format and reports invalid ones

---
 commonxl/sheet.go | 15 +++++++++++++--
 simple/simple.go  | 16 ++++++++++++++--
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index 5b8c77b..397b807 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -188,13 +188,17 @@ func (s *Sheet) Formats() []string {
 // If invalid, returns ErrInvalidScanType
 func (s *Sheet) Scan(args ...interface{}) error {
 	row := s.Rows[s.CurRow-1]
+	if len(args) > len(row) {
+		return fmt.Errorf("expected at most %d scan destinations, got %d", len(row), len(args))
+	}
 
 	for i, a := range args {
 		val := row[i].Value()
 
 		switch v := a.(type) {
 		case bool, int64, float64, string, time.Time:
-			return fmt.Errorf("scan destinations must be pointer (arg %d is not)", i)
+			return grate.WrapErr(fmt.Errorf("scan destinations must be pointer (arg %d is not)", i),
+				grate.ErrInvalidScanType)
 		case *bool:
 			if x, ok := val.(bool); ok {
 				*v = x
@@ -207,6 +211,12 @@ func (s *Sheet) Scan(args ...interface{}) error {
 			} else {
 				return fmt.Errorf("scan destination %d expected *%T, not *int64", i, val)
 			}
+		case *int:
+			if x, ok := val.(int64); ok {
+				*v = int(x)
+			} else {
+				return fmt.Errorf("scan destination %d expected *%T, not *int", i, val)
+			}
 		case *float64:
 			if x, ok := val.(float64); ok {
 				*v = x
@@ -226,7 +236,8 @@ func (s *Sheet) Scan(args ...interface{}) error {
 				return fmt.Errorf("scan destination %d expected *%T, not *time.Time", i, val)
 			}
 		default:
-			return fmt.Errorf("scan destination for arg %d is not supported (%T)", i, a)
+			return grate.WrapErr(fmt.Errorf("scan destination for arg %d is not supported (%T)", i, a),
+				grate.ErrInvalidScanType)
 		}
 	}
 	return nil
diff --git a/simple/simple.go b/simple/simple.go
index b26669e..a44a733 100644
--- a/simple/simple.go
+++ b/simple/simple.go
@@ -90,9 +90,21 @@ func (t *simpleFile) Scan(args ...interface{}) error {
 		case *int:
 			var n int64
 			n, err = strconv.ParseInt(row[i], 10, 64)
-			*v = int(n)
+			if err == nil {
+				*v = int(n)
+			}
+		case *int64:
+			var n int64
+			n, err = strconv.ParseInt(row[i], 10, 64)
+			if err == nil {
+				*v = n
+			}
 		case *float64:
-			*v, err = strconv.ParseFloat(row[i], 64)
+			var n float64
+			n, err = strconv.ParseFloat(row[i], 64)
+			if err == nil {
+				*v = n
+			}
 		case *string:
 			*v = row[i]
 		case *time.Time:
-- 
2.43.0


From 5cac3c09966ede44696d95546b9f4814e41f1e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 17/41] fix: IsEmpty is false for a sheet with only the first
 cell set

---
 commonxl/sheet.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index 397b807..78fde7b 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -245,7 +245,14 @@ func (s *Sheet) Scan(args ...interface{}) error {
 
 // IsEmpty returns true if there are no data values.
 func (s *Sheet) IsEmpty() bool {
-	return (s.NumCols <= 1 && s.NumRows <= 1)
+	for _, row := range s.Rows {
+		for _, cell := range row {
+			if cell.Type() != BlankCell {
+				return false
+			}
+		}
+	}
+	return true
 }
 
 // Err returns the last error that occured.
-- 
2.43.0


From f9b87d389f7f25381eaee26dde233f1a797a687f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 18/41] fix: every error given to WrapErr can be matched by
 errors.Is and errors.As

---
 errs.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/errs.go b/errs.go
index 784a551..0924672 100644
--- a/errs.go
+++ b/errs.go
@@ -35,6 +35,27 @@ func (e errx) Unwrap() error {
 	return nil
 }
 
+
+// Is reports whether any of the wrapped errors matches the target.
+func (e errx) Is(target error) bool {
+	for _, err := range e.errs {
+		if errors.Is(err, target) {
+			return true
+		}
+	}
+	return false
+}
+
+// As finds the first of the wrapped errors that matches the target.
+func (e errx) As(target interface{}) bool {
+	for _, err := range e.errs {
+		if errors.As(err, target) {
+			return true
+		}
+	}
+	return false
+}
+
 // WrapErr wraps a set of errors.
 func WrapErr(e ...error) error {
 	if len(e) == 1 {
-- 
2.43.0


From 65e97bba14ab149de433b34f7e480dbe547f0be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:03 +0000
Subject: [PATCH 19/41] fix: OpenCSV accepts files it could read to the end

---
 simple/csv.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple/csv.go b/simple/csv.go
index 8df92e5..89ff8fd 100644
--- a/simple/csv.go
+++ b/simple/csv.go
@@ -2,6 +2,7 @@ package simple
 
 import (
 	"encoding/csv"
+	"io"
 	"os"
 
 	"github.com/pbnjay/grate"
@@ -33,7 +34,7 @@ func OpenCSV(filename string) (grate.Source, error) {
 		total++
 		t.rows = append(t.rows, rec)
 	}
-	if err != nil {
+	if err != io.EOF {
 		switch perr := err.(type) {
 		case *csv.ParseError:
 			return nil, grate.WrapErr(perr, grate.ErrNotInFormat)
-- 
2.43.0


From 5b318bd3e18756feede624cbd5f8d2bdc9577a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 20/41] fix: Get returns a Collection positioned before the
 first record every time

---
 simple/simple.go | 5 ++++-
 xlsx/xlsx.go     | 8 +++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/simple/simple.go b/simple/simple.go
index a44a733..b619dc2 100644
--- a/simple/simple.go
+++ b/simple/simple.go
@@ -29,7 +29,10 @@ func (t *simpleFile) Close() error {
 
 // Get a Collection from the source by name.
 func (t *simpleFile) Get(name string) (grate.Collection, error) {
-	return t, nil
+	// every Collection has its own position
+	c := *t
+	c.iterRow = -1
+	return &c, nil
 }
 
 // Next advances to the next record of content.
diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index 235c48e..a2d712f 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -178,7 +178,13 @@ func (d *Document) Get(sheetName string) (res grate.Collection, err error) {
 			if s.err == errNotLoaded {
 				s.err = s.parseSheet()
 			}
-			return s.wrapped, s.err
+			if s.err != nil {
+				return nil, s.err
+			}
+			// every Collection has its own position
+			sheet := *s.wrapped
+			sheet.CurRow = 0
+			return &sheet, nil
 		}
 	}
 	return nil, errors.New("xlsx: sheet not found")
-- 
2.43.0


From 775e65bf8cfc443794d78f4016538297607324a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 21/41] fix: simple Strings returns a slice the caller may
 modify

---
 simple/simple.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simple/simple.go b/simple/simple.go
index b619dc2..1168b4e 100644
--- a/simple/simple.go
+++ b/simple/simple.go
@@ -44,7 +44,9 @@ func (t *simpleFile) Next() bool {
 
 // Strings extracts values from the current record into a list of strings.
 func (t *simpleFile) Strings() []string {
-	return t.rows[t.iterRow]
+	res := make([]string, len(t.rows[t.iterRow]))
+	copy(res, t.rows[t.iterRow])
+	return res
 }
 
 // Formats extracts the format code for the current record into a list.
-- 
2.43.0


From d7ae94db34ff0eb96bed7db42e06da61ed302199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 22/41] fix: xlsx cell and shared string values consist of
 exactly their value text

---
 xlsx/sheets.go   | 84 +++++++++++++++++++++++++-----------------------
 xlsx/workbook.go | 17 ++++++++--
 2 files changed, 58 insertions(+), 43 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index 2d7254e..a6994e7 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -57,6 +57,8 @@ func (s *Sheet) parseSheet() error {
 
 	currentCellType := BlankCellType
 	currentCell := ""
+	cellText := "" // contents of the <v> or <is> elements
+	inValue, inPhonetic := false, false
 	var fno uint16
 	var maxCol, maxRow int
 
@@ -64,44 +66,8 @@ func (s *Sheet) parseSheet() error {
 	for ; err == nil; tok, err = dec.RawToken() {
 		switch v := tok.(type) {
 		case xml.CharData:
-			if currentCell == "" {
-				continue
-			}
-			c, r := refToIndexes(currentCell)
-			if c >= 0 && r >= 0 {
-				var val interface{} = string(v)
-
-				switch currentCellType {
-				case BooleanCellType:
-					if v[0] == '1' {
-						val = true
-					} else {
-						val = false
-					}
-				case DateCellType:
-					log.Println("CELL DATE", val, fno)
-				case NumberCellType:
-					fval, err := strconv.ParseFloat(string(v), 64)
-					if err == nil {
-						val = fval
-					}
-					//log.Println("CELL NUMBER", val, numFormat)
-				case SharedStringCellType:
-					//log.Println("CELL SHSTR", val, currentCellType, numFormat)
-					si, _ := strconv.ParseInt(string(v), 10, 64)
-					val = s.d.strings[si]
-				case BlankCellType:
-					//log.Println("CELL BLANK")
-					// don't place any values
-					continue
-				case ErrorCellType, FormulaStringCellType, InlineStringCellType:
-					//log.Println("CELL ERR/FORM/INLINE", val, currentCellType)
-				default:
-					log.Println("CELL UNKNOWN", val, currentCellType, fno)
-				}
-				s.wrapped.Put(r, c, val, fno)
-			} else {
-				//log.Println("FAIL row/col: ", currentCell)
+			if inValue && !inPhonetic {
+				cellText += string(v)
 			}
 		case xml.StartElement:
 			switch v.Name.Local {
@@ -140,8 +106,11 @@ func (s *Sheet) parseSheet() error {
 					fno = 0
 				}
 				//log.Println("CELL", currentCell, sid, numFormat, currentCellType)
-			case "v":
-				//log.Println("CELL VALUE", ax)
+				cellText = ""
+			case "v", "t":
+				inValue = currentCell != ""
+			case "rPh":
+				inPhonetic = true
 
 			case "mergeCell":
 				ax := getAttrs(v.Attr, "ref")
@@ -197,7 +166,42 @@ func (s *Sheet) parseSheet() error {
 
 			switch v.Name.Local {
 			case "c":
+				c, r := refToIndexes(currentCell)
 				currentCell = ""
+				if cellText == "" || c < 0 || r < 0 {
+					//log.Println("FAIL row/col: ", currentCell)
+					continue
+				}
+				var val interface{} = cellText
+
+				switch currentCellType {
+				case BooleanCellType:
+					val = cellText[0] == '1'
+				case DateCellType:
+					log.Println("CELL DATE", val, fno)
+				case NumberCellType:
+					fval, err := strconv.ParseFloat(cellText, 64)
+					if err == nil {
+						val = fval
+					}
+					//log.Println("CELL NUMBER", val, numFormat)
+				case SharedStringCellType:
+					//log.Println("CELL SHSTR", val, currentCellType, numFormat)
+					si, err := strconv.ParseInt(cellText, 10, 64)
+					if err != nil || si < 0 || si >= int64(len(s.d.strings)) {
+						return errors.New("xlsx: invalid shared string index")
+					}
+					val = s.d.strings[si]
+				case ErrorCellType, FormulaStringCellType, InlineStringCellType:
+					//log.Println("CELL ERR/FORM/INLINE", val, currentCellType)
+				default:
+					log.Println("CELL UNKNOWN", val, currentCellType, fno)
+				}
+				s.wrapped.Put(r, c, val, fno)
+			case "v", "t":
+				inValue = false
+			case "rPh":
+				inPhonetic = false
 			case "row":
 				//currentRow = ""
 			}
diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 7827378..70e7e5a 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -186,17 +186,24 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 
 func (d *Document) parseSharedStrings(dec *xml.Decoder) error {
 	val := ""
+	inText, inPhonetic := false, false
 	tok, err := dec.RawToken()
 	for ; err == nil; tok, err = dec.RawToken() {
 		switch v := tok.(type) {
 		case xml.CharData:
-			val += string(v)
+			if inText && !inPhonetic {
+				val += string(v)
+			}
 		case xml.StartElement:
 			switch v.Name.Local {
 			case "si":
 				val = ""
 			case "t":
 				// no attributes to parse, we only want the CharData ...
+				inText = true
+			case "rPh":
+				// phonetic hints are not part of the text
+				inPhonetic = true
 			case "sst":
 				// main container
 			default:
@@ -205,9 +212,13 @@ func (d *Document) parseSharedStrings(dec *xml.Decoder) error {
 				}
 			}
 		case xml.EndElement:
-			if v.Name.Local == "si" {
+			switch v.Name.Local {
+			case "si":
 				d.strings = append(d.strings, val)
-				continue
+			case "t":
+				inText = false
+			case "rPh":
+				inPhonetic = false
 			}
 		default:
 			if grate.Debug {
-- 
2.43.0


From bd037c4dcddad04508fc828ef43bbf4752f669c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 23/41] fix: xlsx sheet relationships that cannot be read are
 an error

---
 xlsx/sheets.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index a6994e7..e17cd17 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -35,9 +35,13 @@ func (s *Sheet) parseSheet() error {
 	sub := strings.TrimSuffix(s.docname, base)
 	relsname := filepath.Join(sub, "_rels", base+".rels")
 	dec, clo, err := s.d.openXML(relsname)
+	if err != nil && err != io.EOF {
+		return err
+	}
 	if err == nil {
 		// rels might not exist for every sheet
-		tok, err := dec.RawToken()
+		var tok xml.Token
+		tok, err = dec.RawToken()
 		for ; err == nil; tok, err = dec.RawToken() {
 			if v, ok := tok.(xml.StartElement); ok && v.Name.Local == "Relationship" {
 				ax := getAttrs(v.Attr, "Id", "Type", "Target", "TargetMode")
@@ -47,6 +51,9 @@ func (s *Sheet) parseSheet() error {
 			}
 		}
 		clo.Close()
+		if err != io.EOF {
+			return err
+		}
 	}
 
 	dec, clo, err = s.d.openXML(s.docname)
-- 
2.43.0


From 92241611667d30b9bc18a41e76f25406c1358b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 24/41] fix: xlsx documents with several style or string parts
 load reproducibly

---
 xlsx/xlsx.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index a2d712f..d30a8e5 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -9,6 +9,7 @@ import (
 	"log"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 
 	"github.com/pbnjay/grate"
@@ -112,9 +113,9 @@ func Open(filename string) (src grate.Source, err error) {
 	}
 
 	styn := d.rels["http://schemas.openxmlformats.org/officeDocument/2006/relationships/styles"]
-	for _, sst := range styn {
-		// parse the shared string table
-		dec, c, err = d.openXML(sst)
+	for _, id := range sortedKeys(styn) {
+		// parse the style table
+		dec, c, err = d.openXML(styn[id])
 		if err != nil {
 			return nil, err
 		}
@@ -126,9 +127,9 @@ func Open(filename string) (src grate.Source, err error) {
 	}
 
 	ssn := d.rels["http://schemas.openxmlformats.org/officeDocument/2006/relationships/sharedStrings"]
-	for _, sst := range ssn {
+	for _, id := range sortedKeys(ssn) {
 		// parse the shared string table
-		dec, c, err = d.openXML(sst)
+		dec, c, err = d.openXML(ssn[id])
 		if err != nil {
 			return nil, err
 		}
@@ -142,6 +143,16 @@ func Open(filename string) (src grate.Source, err error) {
 	return d, nil
 }
 
+// sortedKeys makes the processing order of relationships reproducible.
+func sortedKeys(rels map[string]string) []string {
+	keys := make([]string, 0, len(rels))
+	for id := range rels {
+		keys = append(keys, id)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 func (d *Document) openXML(name string) (*xml.Decoder, io.Closer, error) {
 	if grate.Debug {
 		log.Println("    openXML", name)
-- 
2.43.0


From d7522361b40d2b8834edeed380da8330aeb72f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 25/41] fix: xlsx counts and cell references are not trusted
 for allocations

---
 xlsx/types.go    | 18 ++++++++++++++++--
 xlsx/workbook.go |  4 +---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/xlsx/types.go b/xlsx/types.go
index 427c0c0..89b9d0e 100644
--- a/xlsx/types.go
+++ b/xlsx/types.go
@@ -20,6 +20,12 @@ const (
 	InlineStringCellType  CellType = "inlineStr"
 )
 
+// worksheet size limits of the file format
+const (
+	maxColumns = 16384
+	maxRows    = 1048576
+)
+
 type staticCellType rune
 
 const (
@@ -68,7 +74,7 @@ func refToIndexes(r string) (column, row int) {
 	i2 := strings.IndexByte(r[i1:], 'C')
 	if i2 == -1 {
 		rn, _ := strconv.ParseInt(r[i1:], 10, 64)
-		return col2int(col1), int(rn) - 1
+		return checkIndexes(col2int(col1), int(rn)-1)
 	}
 
 	// R1C1 Reference Mode
@@ -76,7 +82,15 @@ func refToIndexes(r string) (column, row int) {
 	row1 := r[i2+1:]
 	cn, _ := strconv.ParseInt(col1, 10, 64)
 	rn, _ := strconv.ParseInt(row1, 10, 64)
-	return int(cn), int(rn) - 1
+	return checkIndexes(int(cn), int(rn)-1)
+}
+
+// returns -1,-1 for locations which cannot exist in a worksheet
+func checkIndexes(column, row int) (int, int) {
+	if column < 0 || column >= maxColumns || row < 0 || row >= maxRows {
+		return -1, -1
+	}
+	return column, row
 }
 
 func getAttrs(attrs []xml.Attr, keys ...string) []string {
diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 70e7e5a..93f6cf3 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -125,9 +125,7 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 				section = 1
 			case "cellXfs":
 				section = 2
-				ax := getAttrs(v.Attr, "count")
-				n, _ := strconv.ParseInt(ax[0], 10, 64)
-				d.xfs = make([]uint16, 0, n)
+				d.xfs = d.xfs[:0]
 
 			case "xf":
 				ax := getAttrs(v.Attr, "numFmtId", "applyNumberFormat", "xfId")
-- 
2.43.0


From 4c6b801f7ea143c6a4fae1ce2caadf05464f316b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 26/41] fix: xlsx hyperlinks without an external target keep
 the cell contents

---
 xlsx/sheets.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index e17cd17..ee426c6 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -155,8 +155,12 @@ func (s *Sheet) parseSheet() error {
 
 			case "hyperlink":
 				ax := getAttrs(v.Attr, "ref", "id")
-				col, row := refToIndexes(ax[0])
+				col, row := refToIndexes(strings.Split(ax[0], ":")[0])
 				link := linkmap[ax[1]]
+				if link == "" || col < 0 || row < 0 {
+					// a link within the document, keep the cell as it is
+					continue
+				}
 				s.wrapped.Put(row, col, link, 0)
 				s.wrapped.SetURL(row, col, link)
 
-- 
2.43.0


From dcca4b4692e0580f00c85532c00bc04414c81dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 27/41] fix: xlsx merged cells are marked when the dimension is
 missing

---
 xlsx/sheets.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index ee426c6..b4419a9 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -67,7 +67,6 @@ func (s *Sheet) parseSheet() error {
 	cellText := "" // contents of the <v> or <is> elements
 	inValue, inPhonetic := false, false
 	var fno uint16
-	var maxCol, maxRow int
 
 	tok, err := dec.RawToken()
 	for ; err == nil; tok, err = dec.RawToken() {
@@ -81,12 +80,12 @@ func (s *Sheet) parseSheet() error {
 			case "dimension":
 				ax := getAttrs(v.Attr, "ref")
 				if ax[0] == "A1" {
-					maxCol, maxRow = 1, 1
 					// short-circuit empty sheet
 					s.wrapped.Resize(1, 1)
 					continue
 				}
 				dims := strings.Split(ax[0], ":")
+				var maxCol, maxRow int
 				if len(dims) == 1 {
 					maxCol, maxRow = refToIndexes(dims[0])
 				} else {
@@ -127,11 +126,15 @@ func (s *Sheet) parseSheet() error {
 				if len(dims) > 1 {
 					endCol, endRow = refToIndexes(dims[1])
 				}
-				if endRow > maxRow {
-					endRow = maxRow
+				if startRow < 0 || startCol < 0 {
+					continue
+				}
+				// the dimension is optional, but cells come before merges
+				if endRow >= s.wrapped.NumRows {
+					endRow = s.wrapped.NumRows - 1
 				}
-				if endCol > maxCol {
-					endCol = maxCol
+				if endCol >= s.wrapped.NumCols {
+					endCol = s.wrapped.NumCols - 1
 				}
 				for r := startRow; r <= endRow; r++ {
 					for c := startCol; c <= endCol; c++ {
-- 
2.43.0


From 55d91e98a2755fe00c2fcf99cc5f338e40320c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:20 +0000
Subject: [PATCH 28/41] fix: xlsx workbooks with an absolute main document path

---
 xlsx/workbook.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 93f6cf3..77ced01 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -35,7 +35,7 @@ func (d *Document) parseRels(dec *xml.Decoder, basedir string) error {
 					d.rels[vals["Type"]][vals["Id"]] = filepath.Join(basedir, vals["Target"])
 				}
 				if vals["Type"] == "http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" {
-					d.primaryDoc = vals["Target"]
+					d.primaryDoc = d.rels[vals["Type"]][vals["Id"]]
 				}
 			default:
 				if grate.Debug {
-- 
2.43.0


From 656231c1c60ccf9a5d1d066b7a559803c623cc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 29/41] fix: xls record and shared string bounds

---
 xls/sheets.go | 2 +-
 xls/xls.go    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index a8012cd..e7120ad 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -326,7 +326,7 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			colIndex := int(binary.LittleEndian.Uint16(r.Data[2:4]))
 			ixfe := int(binary.LittleEndian.Uint16(r.Data[4:6]))
 			sstIndex := int(binary.LittleEndian.Uint32(r.Data[6:]))
-			if sstIndex > len(b.strings) {
+			if sstIndex >= len(b.strings) {
 				return nil, errors.New("xls: invalid sst index")
 			}
 			var fno uint16
diff --git a/xls/xls.go b/xls/xls.go
index 3bca10a..e08ab56 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -365,6 +365,6 @@ func (b *WorkBook) nextRecord(raw []byte) (*rec, int, error) {
 		recPool.Put(rec)
 		return nil, 4, io.ErrUnexpectedEOF
 	}
-	rec.Data = raw[4 : 4+rec.RecSize]
-	return rec, int(4 + rec.RecSize), nil
+	rec.Data = raw[4 : 4+int(rec.RecSize)]
+	return rec, 4 + int(rec.RecSize), nil
 }
-- 
2.43.0


From 3d78e80f2188c63dc2122f4d6237b661a232a540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 30/41] fix: xls formula strings and file links decode 8-bit
 and continued characters

---
 xls/hyperlinks.go |  6 +++++-
 xls/sheets.go     | 46 +++++++---------------------------------------
 xls/strings.go    | 17 +++++++++++++++++
 3 files changed, 29 insertions(+), 40 deletions(-)

diff --git a/xls/hyperlinks.go b/xls/hyperlinks.go
index 894bd45..ff034f9 100644
--- a/xls/hyperlinks.go
+++ b/xls/hyperlinks.go
@@ -125,7 +125,11 @@ func parseHyperlinkMoniker(raw []byte) (string, int, error) {
 			return string(utf16.Decode(buf2)), no, nil
 		}
 
-		return string(buf), no, nil
+		buf2 := make([]uint16, len(buf))
+		for i, x := range buf {
+			buf2[i] = uint16(x)
+		}
+		return string(utf16.Decode(buf2)), no, nil
 	}
 
 	return "", 0, fmt.Errorf("xls: unknown moniker classid")
diff --git a/xls/sheets.go b/xls/sheets.go
index e7120ad..cc1563f 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -277,47 +277,15 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			// at each gap indicates if the encoding switches
 			// to/from 8/16-bit characters.
 
-			charCount := binary.LittleEndian.Uint16(r.Data[:2])
-			flags := r.Data[2]
-			fstr := ""
-			if (flags & 1) == 0 {
-				fstr = string(r.Data[3:])
-			} else {
-				raw := r.Data[3:]
-				if int(charCount) > cap(us) {
-					us = make([]uint16, charCount)
-				}
-				us = us[:charCount]
-				for i := 0; i < int(charCount); i++ {
-					us[i] = binary.LittleEndian.Uint16(raw)
-					raw = raw[2:]
-				}
-				fstr = string(utf16.Decode(us))
-			}
-
-			if (ridx + 1) < len(b.substreams[ss]) {
-				ridx2 := ridx + 1
-				nrecs := len(b.substreams[ss])
-				for ridx2 < nrecs {
-					r2 := b.substreams[ss][ridx2]
-					if r2.RecType != RecTypeContinue {
-						break
-					}
-					if (r2.Data[0] & 1) == 0 {
-						fstr += string(r2.Data[1:])
-					} else {
-						raw := r2.Data[1:]
-						slen := len(raw) / 2
-						us = us[:slen]
-						for i := 0; i < slen; i++ {
-							us[i] = binary.LittleEndian.Uint16(raw)
-							raw = raw[2:]
-						}
-						fstr += string(utf16.Decode(us))
-					}
-					ridx2++
+			charCount := int(binary.LittleEndian.Uint16(r.Data[:2]))
+			us = appendChars(us[:0], charCount, r.Data[2], r.Data[3:])
+			for _, r2 := range b.substreams[ss][ridx+1:] {
+				if r2.RecType != RecTypeContinue {
+					break
 				}
+				us = appendChars(us, charCount, r2.Data[0], r2.Data[1:])
 			}
+			fstr := string(utf16.Decode(us))
 			res.Set(int(formulaRow), int(formulaCol), fstr)
 			//log.Printf("String direct: %d %d '%s'", int(formulaRow), int(formulaCol), fstr)
 
diff --git a/xls/strings.go b/xls/strings.go
index ae96981..fb7b855 100644
--- a/xls/strings.go
+++ b/xls/strings.go
@@ -244,3 +244,20 @@ func parseSST(recs []*rec) ([]string, error) {
 
 	return all, nil
 }
+
+// append 8-bit or 16-bit characters (depending on the flags) until us has n characters.
+func appendChars(us []uint16, n int, flags byte, raw []byte) []uint16 {
+	if (flags & 1) == 0 {
+		// 16-bit characters but only the bottom 8bits
+		for len(us) < n && len(raw) > 0 {
+			us = append(us, uint16(raw[0]))
+			raw = raw[1:]
+		}
+		return us
+	}
+	for len(us) < n && len(raw) > 1 {
+		us = append(us, binary.LittleEndian.Uint16(raw))
+		raw = raw[2:]
+	}
+	return us
+}
-- 
2.43.0


From e6946317f1813b1684125ad9bfe71574739789f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:50 +0000
Subject: [PATCH 31/41] fix: xls counts and lengths are checked before
 allocating memory for them

---
 xls/hyperlinks.go | 19 ++++++++++++++++++-
 xls/sheets.go     |  4 ++--
 xls/strings.go    | 10 +++++++++-
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/xls/hyperlinks.go b/xls/hyperlinks.go
index ff034f9..41155ff 100644
--- a/xls/hyperlinks.go
+++ b/xls/hyperlinks.go
@@ -8,6 +8,8 @@ import (
 	"unicode/utf16"
 )
 
+var errLinkLength = errors.New("xls: invalid hyperlink length")
+
 func decodeHyperlinks(raw []byte) (displayText, linkText string, err error) {
 	raw = raw[16:] // skip classid
 	slen := binary.LittleEndian.Uint32(raw[:4])
@@ -20,6 +22,9 @@ func decodeHyperlinks(raw []byte) (displayText, linkText string, err error) {
 	if (flags & hlstmfHasDisplayName) != 0 {
 		slen = binary.LittleEndian.Uint32(raw[:4])
 		raw = raw[4:]
+		if uint64(slen)*2 > uint64(len(raw)) {
+			return "", "", errLinkLength
+		}
 		us := make([]uint16, slen)
 		for i := 0; i < int(slen); i++ {
 			us[i] = binary.LittleEndian.Uint16(raw)
@@ -31,7 +36,7 @@ func decodeHyperlinks(raw []byte) (displayText, linkText string, err error) {
 	if (flags & hlstmfHasFrameName) != 0 {
 		// skip a HyperlinkString containing target Frame
 		slen = binary.LittleEndian.Uint32(raw[:4])
-		raw = raw[4+(slen*2):]
+		raw = raw[4+uint64(slen)*2:]
 	}
 
 	if (flags & hlstmfHasMoniker) != 0 {
@@ -39,6 +44,9 @@ func decodeHyperlinks(raw []byte) (displayText, linkText string, err error) {
 			// read HyperlinkString containing the URL
 			slen = binary.LittleEndian.Uint32(raw[:4])
 			raw = raw[4:]
+			if uint64(slen)*2 > uint64(len(raw)) {
+				return "", "", errLinkLength
+			}
 			us := make([]uint16, slen)
 			for i := 0; i < int(slen); i++ {
 				us[i] = binary.LittleEndian.Uint16(raw)
@@ -60,6 +68,9 @@ func decodeHyperlinks(raw []byte) (displayText, linkText string, err error) {
 	if (flags & hlstmfHasLocationStr) != 0 {
 		slen = binary.LittleEndian.Uint32(raw[:4])
 		raw = raw[4:]
+		if uint64(slen)*2 > uint64(len(raw)) {
+			return "", "", errLinkLength
+		}
 		us := make([]uint16, slen)
 		for i := 0; i < int(slen); i++ {
 			us[i] = binary.LittleEndian.Uint16(raw)
@@ -93,6 +104,9 @@ func parseHyperlinkMoniker(raw []byte) (string, int, error) {
 		length := binary.LittleEndian.Uint32(raw[no:])
 		no += 4
 		length /= 2
+		if uint64(length)*2 > uint64(len(raw[no:])) {
+			return "", 0, errLinkLength
+		}
 		buf := make([]uint16, length)
 		for i := 0; i < int(length); i++ {
 			buf[i] = binary.LittleEndian.Uint16(raw[no:])
@@ -117,6 +131,9 @@ func parseHyperlinkMoniker(raw []byte) (string, int, error) {
 		if length > 0 {
 			no += 6
 			length -= 6
+			if uint64(length) > uint64(len(raw[no:])) {
+				return "", 0, errLinkLength
+			}
 			buf2 := make([]uint16, length/2)
 			for i := 0; i < int(length/2); i++ {
 				buf2[i] = binary.LittleEndian.Uint16(raw[no:])
diff --git a/xls/sheets.go b/xls/sheets.go
index cc1563f..3e0f09a 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -103,10 +103,10 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 					minCol, minRow, maxCol, maxRow)
 			}
 			if minRow > 0x0000FFFF || maxRow > 0x00010000 {
-				log.Println("invalid dimensions")
+				return nil, errors.New("xls: invalid dimensions")
 			}
 			if minCol > 0x00FF || maxCol > 0x0100 {
-				log.Println("invalid dimensions")
+				return nil, errors.New("xls: invalid dimensions")
 			}
 
 			// pre-allocate cells
diff --git a/xls/strings.go b/xls/strings.go
index fb7b855..86022c7 100644
--- a/xls/strings.go
+++ b/xls/strings.go
@@ -142,7 +142,15 @@ func parseSST(recs []*rec) ([]string, error) {
 	//totalRefs := binary.LittleEndian.Uint32(recs[0].Data[0:4])
 	numStrings := binary.LittleEndian.Uint32(recs[0].Data[4:8])
 
-	all := make([]string, 0, numStrings)
+	// NB the count is only a hint, every string takes at least 3 bytes
+	capacity := 0
+	for _, r := range recs {
+		capacity += len(r.Data) / 3
+	}
+	if uint64(numStrings) < uint64(capacity) {
+		capacity = int(numStrings)
+	}
+	all := make([]string, 0, capacity)
 	current := make([]uint16, 32*1024)
 
 	buf := recs[0].Data[8:]
-- 
2.43.0


From c0694e64e57802f6195e4650ca5a917ec71ed837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:03 +0000
Subject: [PATCH 32/41] fix: cfb loads the complete mini FAT and does not loop
 or over-allocate on corrupt tables

---
 xls/cfb/cfb.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index 2692ba4..65bff53 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -159,8 +159,10 @@ func (d *Document) load(rx io.ReadSeeker) error {
 
 	numFATentries := (1 << (h.SectorShift - 2))
 	le := binary.LittleEndian
-	d.fat = make([]uint32, 0, numFATentries*int(1+d.header.NumFATSectors))
-	d.minifat = make([]uint32, 0, numFATentries*int(1+h.NumMiniFATSectors))
+	// NB the sector counts of the header are only hints
+	numSectors := len(d.data) >> h.SectorShift
+	d.fat = make([]uint32, 0, numSectors)
+	d.minifat = make([]uint32, 0, numFATentries)
 
 	// step 1: read the DIFAT sector list
 	for i := 0; i < 109; i++ {
@@ -180,9 +182,12 @@ func (d *Document) load(rx io.ReadSeeker) error {
 		}
 	}
 	if h.NumDIFATSectors > 0 {
+		if int(h.NumDIFATSectors) > numSectors {
+			return errors.New("ole2: invalid DIFAT sector count")
+		}
 		sid1 := h.FirstDIFATSectorLocation
 
-		for sid1 != secEndOfChain {
+		for n := 0; n < int(h.NumDIFATSectors) && sid1 != secEndOfChain; n++ {
 			offs := int64(1+sid1) << int32(h.SectorShift)
 			difatSector := d.data[offs:]
 
@@ -213,24 +218,22 @@ func (d *Document) load(rx io.ReadSeeker) error {
 
 	// step 2: read the mini FAT
 	sid := h.FirstMiniFATSectorLocation
-	for sid != secEndOfChain {
+	for n := 0; sid != secEndOfChain && sid != secFree; n++ {
+		if n > numSectors {
+			return errors.New("ole2: circular mini FAT")
+		}
 		offs := int64(1+sid) << int32(h.SectorShift)
 		if offs >= int64(len(d.data)) {
 			return errors.New("xls/cfb: unable to load file")
 		}
 		sector := d.data[offs:]
 		for j := 0; j < numFATentries; j++ {
-			sid = le.Uint32(sector)
-			d.minifat = append(d.minifat, sid)
+			d.minifat = append(d.minifat, le.Uint32(sector))
 			sector = sector[4:]
 		}
 
-		if len(d.minifat) >= int(h.NumMiniFATSectors) {
-			break
-		}
-
 		// chain the next mini FAT sector
-		sid = le.Uint32(sector)
+		sid = d.fat[sid]
 	}
 
 	// step 3: read the Directory Entries
-- 
2.43.0


From df53b6b8c5ebdc4389f8d0254e028f67d15166b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 33/41] fix: cfb reads all of the directory entries

---
 xls/cfb/cfb.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index 65bff53..859f134 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -248,12 +248,29 @@ func (d *Document) buildDirs(br *bytes.Reader) error {
 
 	// step 2: read the Directory
 	sid := h.FirstDirectorySectorLocation
-	offs := int64(1+sid) << int64(h.SectorShift)
-	br.Seek(offs, io.SeekStart)
+	numEntries := (1 << h.SectorShift) / 128
+
+	for j := 0; ; j++ {
+		if j > len(d.data)/128 {
+			return errors.New("ole2: circular directory")
+		}
+		if j > 0 && j%numEntries == 0 {
+			// chain the next directory sector
+			sid = d.fat[sid]
+		}
+		if sid == secEndOfChain {
+			return nil
+		}
+		if j%numEntries == 0 {
+			offs := int64(1+sid) << int64(h.SectorShift)
+			br.Seek(offs, io.SeekStart)
+		}
 
-	for j := 0; j < 4; j++ {
 		dirent := &directory{}
-		binary.Read(br, le, dirent)
+		err := binary.Read(br, le, dirent)
+		if err != nil {
+			return err
+		}
 		if d.header.MajorVersion == 3 {
 			// mask out upper 32bits
 			dirent.StreamSize = dirent.StreamSize & 0xFFFFFFFF
@@ -275,12 +292,11 @@ func (d *Document) buildDirs(br *bytes.Reader) error {
 				}
 			*/
 		case typeUnknown:
-			return nil
+			// unused entry
+			continue
 		}
 		d.dir = append(d.dir, dirent)
 	}
-
-	return nil
 }
 
 func (d *Document) getStreamReader(sid uint32, size uint64) (io.ReadSeeker, error) {
-- 
2.43.0


From b137aa5cf02f090285b5696a976bdcfa37835c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 34/41] fix: cfb reports truncated mini streams and impossible
 stream sizes

---
 xls/cfb/cfb.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index 859f134..8664cfd 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -302,6 +302,9 @@ func (d *Document) buildDirs(br *bytes.Reader) error {
 func (d *Document) getStreamReader(sid uint32, size uint64) (io.ReadSeeker, error) {
 	// NB streamData is a slice of slices of the raw data, so this is the
 	// only allocation - for the (much smaller) list of sector slices
+	if size > uint64(len(d.data)) {
+		return nil, errors.New("ole2: corrupt data format")
+	}
 	streamData := make([][]byte, 1+(size>>d.header.SectorShift))
 
 	x := 0
@@ -333,6 +336,9 @@ func (d *Document) getStreamReader(sid uint32, size uint64) (io.ReadSeeker, erro
 }
 
 func (d *Document) getMiniStreamReader(sid uint32, size uint64) (io.ReadSeeker, error) {
+	if size > uint64(len(d.data)) || uint64(d.ministreamsize) > uint64(len(d.data)) {
+		return nil, errors.New("ole2: corrupt data format")
+	}
 	// TODO: move into a separate cache so we don't recalculate it each time
 	fatStreamData := make([][]byte, 1+(d.ministreamsize>>d.header.SectorShift))
 
@@ -360,7 +366,7 @@ func (d *Document) getMiniStreamReader(sid uint32, size uint64) (io.ReadSeeker,
 
 	x = 0
 	miniSecSize := int64(1) << int64(d.header.MiniSectorShift)
-	for sid != secEndOfChain && sid != secFree {
+	for size != 0 && sid != secEndOfChain && sid != secFree {
 		offs := int64(sid) << int64(d.header.MiniSectorShift)
 
 		so, si := offs/secSize, offs%secSize
@@ -377,6 +383,9 @@ func (d *Document) getMiniStreamReader(sid uint32, size uint64) (io.ReadSeeker,
 		x++
 		sid = d.minifat[sid]
 	}
+	if size != 0 {
+		return nil, errors.New("ole2: incomplete read")
+	}
 
 	return &SliceReader{Data: streamData}, nil
 }
-- 
2.43.0


From 3a26bf503e5f181ddd9ede53aa49d191712bbf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 35/41] fix: SliceReader.Seek reports offsets outside of the
 stream

---
 xls/cfb/slicereader.go | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/xls/cfb/slicereader.go b/xls/cfb/slicereader.go
index e6e7aff..f42cf4b 100644
--- a/xls/cfb/slicereader.go
+++ b/xls/cfb/slicereader.go
@@ -45,6 +45,12 @@ func (s *SliceReader) Seek(offset int64, whence int) (int64, error) {
 			sz += int64(len(d))
 		}
 	}
+	if len(s.Data) == 0 {
+		if offset != 0 {
+			return -1, errors.New("xls: invalid seek offset")
+		}
+		return 0, nil
+	}
 	if s.Index >= uint(len(s.CSize)) {
 		s.Index = uint(len(s.CSize) - 1)
 		s.Offset = uint(len(s.Data[s.Index]))
@@ -79,22 +85,15 @@ func (s *SliceReader) Seek(offset int64, whence int) (int64, error) {
 	}
 
 	wantOffset := offset + trueOffset
-	for trueOffset != wantOffset {
-		loOffset := s.CSize[int(s.Index)]
-		hiOffset := s.CSize[int(s.Index)] + int64(len(s.Data[s.Index]))
-		if wantOffset > loOffset && wantOffset < hiOffset {
-			s.Offset = uint(wantOffset - loOffset)
-			return wantOffset, nil
-		}
-
-		if trueOffset > wantOffset {
-			s.Index--
-			s.Offset = 0
-			trueOffset = s.CSize[int(s.Index)]
-		} else if trueOffset < wantOffset {
-			s.Index++
-			s.Offset = 0
-			trueOffset = s.CSize[int(s.Index)]
+	last := len(s.Data) - 1
+	if wantOffset < 0 || wantOffset > s.CSize[last]+int64(len(s.Data[last])) {
+		return -1, errors.New("xls: invalid seek offset")
+	}
+	for i, d := range s.Data {
+		if wantOffset < s.CSize[i]+int64(len(d)) || i == last {
+			s.Index = uint(i)
+			s.Offset = uint(wantOffset - s.CSize[i])
+			break
 		}
 	}
 	return wantOffset, nil
-- 
2.43.0


From e66b97d8e898433698a1edf96167f262ed284603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 36/41] fix: grate2tsv works on a single cpu, applies -r on its
 own and counts all columns

---
 cmd/grate2tsv/main.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/grate2tsv/main.go b/cmd/grate2tsv/main.go
index 61550e4..715f964 100644
--- a/cmd/grate2tsv/main.go
+++ b/cmd/grate2tsv/main.go
@@ -118,7 +118,7 @@ func main() {
 	// fan out to 1/2 of CPU cores
 	// (e.g. each file-processor can use 2 cpus)
 	outMu := &sync.Mutex{}
-	nparallel := runtime.NumCPU() / 2
+	nparallel := (runtime.NumCPU() + 1) / 2
 	procWG.Add(nparallel)
 	for i := 0; i < nparallel; i++ {
 		go runProcessor(filenameChan, outMu)
@@ -237,12 +237,12 @@ func processFile(fn string) ([]stats, error) {
 				}
 				if *trimSpaces {
 					x = strings.TrimSpace(x)
-					row[i] = x
 				}
+				row[i] = x
 				if x != "" {
 					nonblank = true
-					if ps.NumCols < i {
-						ps.NumCols = i
+					if ps.NumCols < i+1 {
+						ps.NumCols = i + 1
 					}
 				}
 			}
-- 
2.43.0


From 754bf40c1be16c997b733e3ef81560ef192787bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 37/41] fix: cells of any type can be compared

---
 commonxl/cell.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 304836e..2a2501d 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -322,23 +322,23 @@ func (c *Cell) SetFormatNumber(f uint16) {
 func (c Cell) Equal(other Cell) bool {
 	if c.Type() == FloatCell || other.Type() == FloatCell ||
 		c.Type() == IntegerCell || other.Type() == IntegerCell {
-		v1, ok := c[0].(float64)
-		v1x, okx := c[0].(int64)
+		v1, ok := c.Value().(float64)
+		v1x, okx := c.Value().(int64)
 		if okx {
 			v1 = float64(v1x)
 			ok = true
 		}
 		if !ok {
-			fmt.Sscanf(fmt.Sprint(c[0]), "%g", &v1)
+			fmt.Sscanf(fmt.Sprint(c.Value()), "%g", &v1)
 		}
-		v2, ok := other[0].(float64)
-		v2x, okx := other[0].(int64)
+		v2, ok := other.Value().(float64)
+		v2x, okx := other.Value().(int64)
 		if okx {
 			v2 = float64(v2x)
 			ok = true
 		}
 		if !ok {
-			fmt.Sscanf(fmt.Sprint(c[0]), "%g", &v2)
+			fmt.Sscanf(fmt.Sprint(other.Value()), "%g", &v2)
 		}
 		return v1 == v2
 	}
@@ -347,7 +347,7 @@ func (c Cell) Equal(other Cell) bool {
 }
 
 func (c Cell) Less(other Cell) bool {
-	if len(c) == 0 {
+	if len(c) == 0 || len(other) == 0 {
 		return false
 	}
 	switch v1 := c[0].(type) {
@@ -460,7 +460,15 @@ func (c Cell) Less(other Cell) bool {
 			return v1 < v2
 		}
 
+	case time.Time:
+		if v2, ok := other[0].(time.Time); ok {
+			return v1.Before(v2)
+		}
 	}
 
-	panic("unable to compare cells (invalid internal type)")
+	if other[0] == nil {
+		return false
+	}
+	// no common type (e.g. dates and numbers)
+	return fmt.Sprint(c[0]) < fmt.Sprint(other[0])
 }
-- 
2.43.0


From e265f6c5d56e4410d441f74869704c8f464ae88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:42 +0000
Subject: [PATCH 38/41] fix: hyperlinks keep the number format of their cell

---
 commonxl/cell.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 2a2501d..bd52704 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -94,7 +94,7 @@ func (c Cell) Type() CellType {
 
 // FormatNo returns the NumberFormat used for display.
 func (c Cell) FormatNo() uint16 {
-	if len(c) == 3 {
+	if len(c) >= 3 {
 		return c[2].(uint16)
 	}
 	return 0
-- 
2.43.0


From 64c5ddaf7c8344e97928ddb22d1ea00e9663e217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:57 +0000
Subject: [PATCH 39/41] fix: hyperlinks on cells without a value are rendered
 as empty text

---
 commonxl/sheet.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index 78fde7b..ed548e5 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -140,7 +140,8 @@ func (s *Sheet) Raw() []Cell {
 func (s *Sheet) Strings() []string {
 	res := make([]string, s.NumCols)
 	for i, cell := range s.Rows[s.CurRow-1] {
-		if cell.Type() == BlankCell {
+		if cell.Type() == BlankCell || cell.Value() == nil {
+			// NB hyperlinks can cover cells without a value
 			res[i] = ""
 			continue
 		}
-- 
2.43.0


From 69520d14caece7d95123a9924466341cf6f6b831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:58 +0000
Subject: [PATCH 40/41] fix: only numbers become dates under a date format

---
 commonxl/cell.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index bd52704..7f13a1a 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -190,10 +190,11 @@ func NewCellWithType(value interface{}, t CellType, f *Formatter) Cell {
 	if t == DateCell {
 		if c[1] == FloatCell {
 			c[0] = f.ConvertToDate(c[0].(float64))
+			c[1] = DateCell
 		} else if c[1] == IntegerCell {
 			c[0] = f.ConvertToDate(float64(c[0].(int64)))
+			c[1] = DateCell
 		}
-		c[1] = DateCell
 	}
 	return c
 }
-- 
2.43.0


From 4ae969c133227f594afe72c93c3700c06d0c1257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:16 +0000
Subject: [PATCH 41/41] fix: large uint values do not wrap around in cells

---
 commonxl/cell.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 7f13a1a..780e122 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -232,7 +232,7 @@ func NewCell(value interface{}) Cell {
 		c[1] = IntegerCell
 
 	case uint:
-		if int64(v) > int64(math.MaxInt64) {
+		if uint64(v) > math.MaxInt64 {
 			c[0] = float64(v)
 			c[1] = FloatCell
 		} else {
-- 
2.43.0


# The planted bugs, see seed.py. Each was written from a property's text and the code.
HELPERS = {"": ""}
S = []
def B(id, prop, pkg, edits, needs, breaks, test, **kw):
    S.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, needs=needs, breaks=breaks, test=test, **kw))

B("P01-identity-compare", "P01", ".",
  [("grate.go", '!errors.Is(err, ErrNotInFormat)', 'err != ErrNotInFormat'), ("grate.go", '\t"errors"\n', '')],
  "an opener which declines with a wrapped not-in-format error before the format which accepts the file",
  "the attempt ends at the first format which wraps the not-in-format error instead of passing the file on",
r'''
package grate

import (
	"fmt"
	"testing"
)

type demoSrc struct{}

func (demoSrc) List() ([]string, error)            { return nil, nil }
func (demoSrc) Get(string) (Collection, error)     { return nil, nil }
func (demoSrc) Close() error                       { return nil }

func TestDemo(t *testing.T) {
	Register("a", 1, func(string) (Source, error) { return nil, fmt.Errorf("no zip: %w", ErrNotInFormat) })
	Register("b", 2, func(string) (Source, error) { return demoSrc{}, nil })
	src, err := Open("x")
	if err != nil || src == nil {
		t.Fatal(src, err)
	}
}
''')

B("P02-narrow-priority", "P02", ".",
  [("grate.go", 'return srcTable[i].pri < srcTable[j].pri', 'return int8(srcTable[i].pri) < int8(srcTable[j].pri)')],
  "a format registered with a priority above 127",
  "a format with a big priority is tried before the ones with smaller priorities",
r'''
package grate

import "testing"

func TestDemo(t *testing.T) {
	got := ""
	add := func(name string, pri int) {
		Register(name, pri, func(string) (Source, error) { got += name; return nil, ErrNotInFormat })
	}
	add("c", 200)
	add("a", 1)
	add("b", 100)
	Open("x")
	if got != "abc" {
		t.Fatal(got)
	}
}
''')

B("P04-wrap-drops-third", "P04", ".",
  [("errs.go", '	return errx{errs: e}\n', '	if len(e) > 2 {\n\t\treturn errx{errs: []error{e[0], e[len(e)-1]}}\n\t}\n	return errx{errs: e}\n'.replace("return errx{errs: e}\n", "return errx{errs: e[:len(e):len(e)]}\n"))],
  "three or more combined errors",
  "errors between the first and the last one are lost",
r'''
package grate

import (
	"errors"
	"io"
	"testing"
)

func TestDemo(t *testing.T) {
	err := WrapErr(errors.New("first"), io.ErrUnexpectedEOF, ErrNotInFormat)
	if !errors.Is(err, io.ErrUnexpectedEOF) || !errors.Is(err, ErrNotInFormat) {
		t.Fatal(err)
	}
}
''')

B("P05-tsv-late-close", "P05", "simple",
  [("simple/tsv.go", '	defer f.Close()\n', ''),
   ("simple/tsv.go", '''	if s.Err() != nil {
		// this can only be read errors, not format
		return nil, s.Err()
	}
''', '''	if s.Err() != nil {
		// this can only be read errors, not format
		return nil, s.Err()
	}
	f.Close()
''')],
  "a file with a line longer than the line scanner accepts (64 kB)",
  "the file handle stays open when reading the text file fails",
r'''
package simple

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	fn := filepath.Join(t.TempDir(), "x.tsv")
	ioutil.WriteFile(fn, []byte(strings.Repeat("x", 200000)), 0644)
	count := func() int {
		l, _ := ioutil.ReadDir("/proc/self/fd")
		n := 0
		for _, e := range l {
			if p, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && p == fn {
				n++
			}
		}
		return n
	}
	for i := 0; i < 5; i++ {
		if _, err := OpenTSV(fn); err == nil {
			t.Skip("no read error")
		}
	}
	if n := count(); n != 0 {
		t.Fatal(n, "handles still open")
	}
}
''')

B("P22-column-vote", "P22", "simple",
  [("simple/csv.go", '''		if n > 10 && float64(n)/float64(total) > 0.8 {
			// more than 80% of rows have the same number of columns, we're good
			looksGood = 2
		} else if n > 25 && looksGood == 0 {
			looksGood = 1
		}''', '''		if n > 10 && float64(n)/float64(total) > 0.8 {
			// more than 80% of rows have the same number of columns, we're good
			looksGood = 2
		} else if n > 25 {
			looksGood = 1
		}''')],
  "a csv file in which one column count dominates and another one occurs more than 25 times",
  "the verdict depends on which column count the map iteration visits last",
r'''
package simple

import (
	"io/ioutil"
	"path/filepath"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	fn := filepath.Join(t.TempDir(), "x.csv")
	ioutil.WriteFile(fn, []byte(strings.Repeat("a,b,c\n", 300)+strings.Repeat("a,b\n", 30)), 0644)
	_, first := OpenCSV(fn)
	for i := 0; i < 300; i++ {
		_, err := OpenCSV(fn)
		if (err == nil) != (first == nil) {
			t.Fatal(i, first, err)
		}
	}
}
''')

B("P23-shared-format-table", "P23", "commonxl",
  [("commonxl/formats.go", """	x.customCodes[fmtID], x.customCodeTypes[fmtID] = makeFormatter(formatCode)
""", """	ff, ctype := makeFormatter(formatCode)
	x.customCodes[fmtID], x.customCodeTypes[fmtID] = ff, ctype
	builtInFormats[fmtID] = formatCode // for Formats()
""")],
  "two files defining different codes for the same custom format number",
  "the codes of custom formats are kept in the table shared by all files",
r'''
package commonxl

import "testing"

func TestDemo(t *testing.T) {
	one := func(code string) *Sheet {
		f := &Formatter{}
		f.Add(170, code)
		s := &Sheet{Formatter: f}
		s.Resize(1, 1)
		s.Put(0, 0, 1.5, 170)
		s.Next()
		return s
	}
	a := one("0.0")
	before := a.Formats()[0]
	one("0.000")
	if after := a.Formats()[0]; after != before {
		t.Fatal(before, after)
	}
}
''')

B("P32-debug-drops-cell", "P32", "commonxl",
  [("commonxl/sheet.go", '''				row, s.NumRows, col, s.NumCols)
		}

		// per the spec''', '''				row, s.NumRows, col, s.NumCols)
			if row > 0xFFFF || col > 0x00FF {
				return
			}
		}

		// per the spec'''),
   ("commonxl/sheet.go", '''	//log.Println(row, col, value, fmtNum)
''', '')],
  "debug output on and a cell outside of the binary format's sheet limits which is also outside of the declared size",
  "the cell is dropped only when debug output is enabled",
r'''
package commonxl

import (
	"io/ioutil"
	"log"
	"testing"

	"github.com/pbnjay/grate"
)

func TestDemo(t *testing.T) {
	log.SetOutput(ioutil.Discard)
	cell := func(dbg bool) string {
		grate.Debug = dbg
		s := &Sheet{Formatter: &Formatter{}}
		s.Resize(1, 1)
		s.Put(0, 300, "x", 0)
		s.Next()
		r := s.Strings()
		return r[len(r)-1]
	}
	if a, b := cell(false), cell(true); a != b {
		t.Fatal(a, b)
	}
}
''')

B("P33-open-creates", "P33", "simple",
  [("simple/tsv.go", 'f, err := os.Open(filename)', 'f, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0644)')],
  "opening a file that does not exist",
  "the file is created by the attempt to open it",
r'''
package simple

import (
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	fn := filepath.Join(t.TempDir(), "missing.tsv")
	OpenTSV(fn)
	if _, err := os.Stat(fn); err == nil {
		t.Fatal("file was created")
	}
}
''')

XLSREC = r'''
func demoRec(t recordType, data ...byte) *rec {
	return &rec{RecType: t, RecSize: uint16(len(data)), Data: data}
}
func demoBook(recs ...*rec) *WorkBook {
	b := &WorkBook{}
	b.sheets = []*boundSheet{{Name: "s"}}
	b.pos2substream = map[int64]int{0: 0}
	b.xfs = []uint16{0, 0}
	b.substreams = [][]*rec{recs}
	return b
}
func demoRead(t *testing.T, b *WorkBook) [][]string {
	c, err := b.Get("s")
	if err != nil {
		t.Fatal(err)
	}
	var res [][]string
	for c.Next() {
		res = append(res, c.Strings())
	}
	return res
}
'''
HELPERS["xlsrec"] = XLSREC

B("P11-mulrk-column-wraps", "P11", "xls",
  [("xls/sheets.go", "				res.Put(rowIndex, colIndex+i, rval, fno)", "				res.Put(rowIndex, (colIndex+i)&0x7F, rval, fno)")],
  "a multiple RK record reaching past the 128th column",
  "numbers of a multiple record beyond column 127 overwrite cells at the left of the row",
r'''
package xls

import "testing"

func TestDemo(t *testing.T) {
	dim := []byte{0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 1, 0, 0}
	b := demoBook(demoRec(RecTypeBOF), demoRec(RecTypeDimensions, dim...),
		demoRec(RecTypeMulRk, 0, 0, 126, 0, 0, 0, 6, 0, 0, 0, 0, 0, 10, 0, 0, 0, 0, 0, 14, 0, 0, 0, 128, 0), demoRec(RecTypeEOF))
	r := demoRead(t, b)
	if r[0][126] != "1" || r[0][127] != "2" || r[0][128] != "3" || r[0][0] != "" {
		t.Fatal(r[0][120:130], r[0][0])
	}
}
''', helper="xlsrec")

B("P11-formula-text-cell", "P11", "xls",
  [("xls/sheets.go", """			formulaRow = binary.LittleEndian.Uint16(r.Data[:2])
			formulaCol = binary.LittleEndian.Uint16(r.Data[2:4])
			ixfe := int(binary.LittleEndian.Uint16(r.Data[4:6]))
			fdata := r.Data[6:]
""", """			frow := binary.LittleEndian.Uint16(r.Data[:2])
			if frow > formulaRow || formulaCol == 0 {
				formulaRow = frow
			}
			formulaCol = binary.LittleEndian.Uint16(r.Data[2:4])
			ixfe := int(binary.LittleEndian.Uint16(r.Data[4:6]))
			fdata := r.Data[6:]
""")],
  "formulas whose rows are not in ascending order in the file",
  "a formula above the previous one is stored in the row of the previous one",
r'''
package xls

import "testing"

func TestDemo(t *testing.T) {
	dim := []byte{0, 0, 0, 0, 3, 0, 0, 0, 0, 0, 3, 0, 0, 0}
	f := func(row, col byte, s string) []*rec {
		return []*rec{demoRec(RecTypeFormula, row, 0, col, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xFF, 0xFF, 0, 0, 0, 0, 0, 0),
			demoRec(RecTypeString, append([]byte{byte(len(s)), 0, 0}, s...)...)}
	}
	recs := []*rec{demoRec(RecTypeBOF), demoRec(RecTypeDimensions, dim...)}
	recs = append(recs, f(2, 1, "low")...)
	recs = append(recs, f(0, 2, "high")...)
	r := demoRead(t, demoBook(append(recs, demoRec(RecTypeEOF))...))
	if r[2][1] != "low" || r[0][2] != "high" || r[2][2] != "" {
		t.Fatal(r)
	}
}
''', helper="xlsrec")

B("P12-embedded-first-record", "P12", "xls",
  [("xls/sheets.go", """		case RecTypeBOF:
			if ridx > 0 {
""", """		case RecTypeBOF:
			if ridx > 1 {
""")],
  "an embedded block which begins right after the begin record of the sheet",
  "the cells of an embedded block at the start of the sheet are stored as cells of the sheet",
r'''
package xls

import "testing"

func TestDemo(t *testing.T) {
	dim := []byte{0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0}
	num := func(row byte) *rec { return demoRec(RecTypeRK, row, 0, 0, 0, 0, 0, 6, 0, 0, 0) }
	b := demoBook(demoRec(RecTypeBOF), demoRec(RecTypeBOF), num(1), demoRec(RecTypeEOF), demoRec(RecTypeDimensions, dim...),
		num(0), demoRec(RecTypeEOF))
	r := demoRead(t, b)
	if r[0][0] != "1" || r[1][0] != "" {
		t.Fatal(r)
	}
}
''', helper="xlsrec")

B("P12-dimensions-keep-depth", "P12", "xls",
  [("xls/sheets.go", """	inSubstream = 0

	var formulaRow""", """	if inSubstream < 2 {
		inSubstream = 0
	}

	var formulaRow""")],
  "a sheet whose embedded blocks are not all ended (two levels deep) by the end of its records",
  "the second pass starts at the nesting level the first one ended with, and drops the cells of the sheet",
r'''
package xls

import "testing"

func TestDemo(t *testing.T) {
	dim := []byte{0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 0, 0}
	num := func(row byte) *rec { return demoRec(RecTypeRK, row, 0, 0, 0, 0, 0, 6, 0, 0, 0) }
	b := demoBook(demoRec(RecTypeBOF), demoRec(RecTypeDimensions, dim...), num(0), num(1),
		demoRec(RecTypeBOF), demoRec(RecTypeBOF), num(1))
	r := demoRead(t, b)
	if r[0][0] != "1" || r[1][0] != "1" {
		t.Fatal(r)
	}
}
''', helper="xlsrec")


B("P24-text-fractions-into-int", "P24", "simple",
  [("simple/simple.go", '			n, err = strconv.ParseFloat(row[i], 64)\n', '			n, err = strconv.ParseFloat(strings.TrimRight(row[i], "%"), 64)\n'),
   ("simple/simple.go", '			case "1", "t", "true", "y", "yes":', '			case "1", "t", "true", "y", "yes", "on":')],
  "a text file with a percentage (or the word on) scanned into a number (or truth value)",
  "12% is scanned as 12 instead of being reported as not a number",
'''
package simple

import "testing"

func TestDemo(t *testing.T) {
	f := &simpleFile{rows: [][]string{{"12%"}}, iterRow: -1}
	f.Next()
	var x float64
	if err := f.Scan(&x); err == nil {
		t.Fatal(x)
	}
}
''')
B("P24-stale-destination", "P24", "commonxl",
  [("commonxl/sheet.go", '''			if x, ok := val.(string); ok {
				*v = x
			} else {
				return fmt.Errorf("scan destination %d expected *%T, not *string", i, val)
			}''', '''			if x, ok := val.(string); ok {
				*v = x
			} else if row[i].Type() != BlankCell {
				return fmt.Errorf("scan destination %d expected *%T, not *string", i, val)
			}''')],
  "the same variable scanned for several rows, with a blank cell stored as an empty value in a later one",
  "a blank cell leaves the text of the previous row in the destination and no error is returned",
'''
package commonxl

import "testing"

func TestDemo(t *testing.T) {
	s := &Sheet{Formatter: &Formatter{}}
	s.Resize(2, 1)
	s.Put(0, 0, "first", 0)
	s.Put(1, 0, "", 0)
	v := ""
	s.Next()
	if err := s.Scan(&v); err != nil || v != "first" {
		t.Fatal(v, err)
	}
	s.Next()
	if err := s.Scan(&v); err == nil && v != "" {
		t.Fatal(v)
	}
}
''')
B("P25-raw-shares-cells", "P25", "commonxl",
  [("commonxl/sheet.go", "		rr[i] = cell.Clone()\n", "		if len(cell) > 3 {\n			rr[i] = cell.Clone()\n			continue\n		}\n		rr[i] = cell[:len(cell):len(cell)]\n")],
  "a caller which changes a raw cell without a hyperlink and reads the row again",
  "the raw cells share memory with the sheet",
'''
package commonxl

import "testing"

func TestDemo(t *testing.T) {
	s := &Sheet{Formatter: &Formatter{}}
	s.Resize(1, 1)
	s.Put(0, 0, "text", 0)
	s.Next()
	s.Raw()[0][0] = "changed"
	if s.Strings()[0] != "text" {
		t.Fatal(s.Strings())
	}
}
''')
B("P25-reserved-format-unnamed", "P25", "commonxl",
  [("commonxl/sheet.go", '''		if !ok {
			res[i] =''', '''		if !ok && cell.FormatNo() >= 164 {
			res[i] =''' )],
  "a cell with a number format below 164 which has no built-in code (for example 23)",
  "the number format of the column is returned as empty text",
'''
package commonxl

import "testing"

func TestDemo(t *testing.T) {
	s := &Sheet{Formatter: &Formatter{}}
	s.Resize(1, 3)
	for i, f := range []uint16{200, 2, 23} {
		s.Put(0, i, 1, f)
	}
	s.Next()
	got := s.Formats()
	for i, w := range []string{"200", "0.00", "23"} {
		if got[i] != w {
			t.Fatal(got)
		}
	}
}
''')
B("P26-next-wraps", "P26", "commonxl",
  [("commonxl/sheet.go", "	if (s.CurRow + 1) > len(s.Rows) {\n		return false\n	}\n	s.CurRow++\n	return true\n", "	s.CurRow++\n	if s.CurRow > len(s.Rows) {\n		s.CurRow = 0\n		return false\n	}\n	return true\n")],
  "calling Next again after it returned false",
  "iteration starts over after the last row",
'''
package commonxl

import "testing"

func TestDemo(t *testing.T) {
	s := &Sheet{Formatter: &Formatter{}}
	s.Resize(2, 1)
	for s.Next() {
	}
	if s.Next() {
		t.Fatal("a row after the last one")
	}
}
''')
B("P30-only-declared-columns", "P30", "simple",
  [("simple/simple.go", "	return len(t.rows) == 0\n", "	return t.iterRow+1 >= len(t.rows)\n")],
  "asking whether a text file is empty after its rows have been read",
  "a file which was read to its end is reported as empty",
'''
package simple

import "testing"

func TestDemo(t *testing.T) {
	f := &simpleFile{rows: [][]string{{"a"}, {"b"}}, iterRow: -1}
	for f.Next() {
	}
	if f.IsEmpty() {
		t.Fatal("two rows, but empty")
	}
}
''')
B("P29-marker-drops-row", "P29", "commonxl",
  [("commonxl/sheet.go", "		s.Rows[i] = append(s.Rows[i], make([]Cell, n)...)\n", "		wide := make([]Cell, cols)\n		copy(wide, s.Rows[i][:s.NumCols])\n		s.Rows[i] = wide[:s.NumCols+n]\n"),
   ("commonxl/sheet.go", "	s.CurRow = 0\n	s.NumRows = rows\n", "	s.CurRow, s.NumRows = 0, rows\n"),
   ("commonxl/sheet.go", "		s.Rows = append(s.Rows, make([]Cell, cols))\n", "		s.Rows = append(s.Rows, make([]Cell, s.NumCols, cols))\n		if n := len(s.Rows); n > 4096 {\n			s.Rows[n-1] = s.Rows[n-4096][:s.NumCols]\n		}\n")],
  "a sheet with more than 4096 rows",
  "rows more than 4096 apart share their cells",
'''
package commonxl

import "testing"

func TestDemo(t *testing.T) {
	s := &Sheet{Formatter: &Formatter{}}
	s.Resize(5000, 1)
	s.Put(10, 0, "ten", 0)
	for i := 0; i < 5000; i++ {
		s.Next()
		if w := s.Strings()[0]; (w == "ten") != (i == 10) {
			t.Fatal(i, w)
		}
	}
}
''')
B("P29-format-kept-from-before", "P29", "commonxl",
  [("commonxl/cell.go", "		*c = (*c)[:2]\n		return\n", "		return\n"),
   ("commonxl/sheet.go", "	if spec, ok := value.(string); ok {\n", "	old := s.Rows[row][col]\n	if spec, ok := value.(string); ok {\n"),
   ("commonxl/sheet.go", "	s.Rows[row][col].SetFormatNumber(fmtNum)\n", "	s.Rows[row][col].SetFormatNumber(fmtNum)\n	if fmtNum == 0 && len(old) == 3 {\n		s.Rows[row][col].SetFormatNumber(old.FormatNo())\n	}\n")],
  "a cell stored twice, first with and then without a number format",
  "the value is shown with the number format of the earlier one",
'''
package commonxl

import "testing"

func TestDemo(t *testing.T) {
	s := &Sheet{Formatter: &Formatter{}}
	s.Resize(1, 1)
	s.Put(0, 0, 2.5, 10)
	s.Put(0, 0, 0.5, 0)
	s.Next()
	if got := s.Strings()[0]; got != "0.5" {
		t.Fatal(got)
	}
}
''')
B("P37-bool-text-tag", "P37", "commonxl",
  [("commonxl/cell.go", '''	if t == StringCell {
		c[0] = fmt.Sprint(c[0])
		c[1] = StringCell
	}
''', '''	if t == StringCell && c[1] != FloatCell {
		c[0] = fmt.Sprint(c[0])
		c[1] = StringCell
	}
''')],
  "a truth value (or float) given the type of text",
  "the cell holds text but reports that it is a float",
'''
package commonxl

import "testing"

func TestDemo(t *testing.T) {
	c := NewCellWithType(true, StringCell, &Formatter{})
	if _, ok := c.Value().(string); !ok || c.Type() != StringCell {
		t.Fatal(c)
	}
}
''')
B("P37-small-signed-wraps", "P37", "commonxl",
  [("commonxl/cell.go", '''	case int32:
		c[0] = int64(v)
''', '''	case int32:
		if c[0] = int64(v); v == -v {
			c[0] = int64(uint32(v))
		}
''')],
  "the smallest 32 bit integer",
  "the number becomes positive when it is stored",
'''
package commonxl

import (
	"math"
	"testing"
)

func TestDemo(t *testing.T) {
	if v := NewCell(int32(math.MinInt32)).Value(); v != int64(math.MinInt32) {
		t.Fatal(v)
	}
}
''')
B("P17-text-trimmed", "P17", "commonxl",
  [("commonxl/sheet.go", "		fs, ok := s.Formatter.Apply(cell.FormatNo(), val)\n		if !ok {\n			fs = fmt.Sprint(val)\n		}\n",
    "		fs, ok := s.Formatter.Apply(cell.FormatNo(), val)\n		if fs = strings.TrimLeft(fs, \" \"); !ok {\n			fs = fmt.Sprint(val)\n		}\n"),
   ("commonxl/sheet.go", '	"log"\n', '	"log"\n	"strings"\n')],
  "text which starts with spaces in a cell with a number format",
  "the leading spaces are lost",
'''
package commonxl

import "testing"

func TestDemo(t *testing.T) {
	s := &Sheet{Formatter: &Formatter{}}
	s.Resize(1, 1)
	s.Put(0, 0, "  indented", 2)
	s.Next()
	if got := s.Strings()[0]; got != "  indented" {
		t.Fatalf("%q", got)
	}
}
''')
B("P17-set-number", "P17", "commonxl",
  [("commonxl/sheet.go", "	s.Rows[row][col][0] = value\n	s.Rows[row][col][1] = StringCell\n", "	s.Rows[row][col][0], s.Rows[row][col][1] = value, StringCell\n	if t, ok := s.Formatter.getCellType(s.Rows[row][col].FormatNo()); ok && t != StringCell && t != DateCell {\n		s.Rows[row][col] = NewCellWithType(value, t, s.Formatter)\n	}\n")],
  "a formula whose text result is in a cell with a number format",
  "the text of the formula becomes a number",
'''
package commonxl

import "testing"

func TestDemo(t *testing.T) {
	s := &Sheet{Formatter: &Formatter{}}
	s.Resize(1, 1)
	s.Put(0, 0, 0.0, 2)
	s.Set(0, 0, "n/a")
	s.Next()
	if got := s.Strings()[0]; got != "n/a" {
		t.Fatalf("%q", got)
	}
}
''')

HELPERS["xlsxzip"] = r'''
// demoXLSX writes a workbook with the given parts and opens it.
func demoXLSX(t *testing.T, parts map[string]string) grate.Source {
	t.Helper()
	all := map[string]string{
		"_rels/.rels": `<Relationships><Relationship Id="r1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" Target="xl/workbook.xml"/></Relationships>`,
		"xl/_rels/workbook.xml.rels": `<Relationships><Relationship Id="s1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/worksheet" Target="sheet1.xml"/>` +
			`<Relationship Id="s2" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/styles" Target="styles.xml"/>` +
			`<Relationship Id="s3" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/sharedStrings" Target="sst.xml"/></Relationships>`,
		"xl/workbook.xml": `<workbook><sheets><sheet name="one" sheetId="1" r:id="s1"/></sheets></workbook>`,
		"xl/styles.xml":   `<styleSheet/>`,
		"xl/sst.xml":      `<sst/>`,
		"xl/sheet1.xml":   `<worksheet/>`,
	}
	for k, v := range parts {
		all[k] = v
	}
	fn := filepath.Join(t.TempDir(), "x.xlsx")
	f, err := os.Create(fn)
	if err != nil {
		t.Fatal(err)
	}
	z := zip.NewWriter(f)
	for k, v := range all {
		w, _ := z.Create(k)
		w.Write([]byte(v))
	}
	z.Close()
	f.Close()
	src, err := Open(fn)
	if err != nil {
		t.Fatal(err)
	}
	return src
}

func demoRows(t *testing.T, src grate.Source, name string) (rows [][]string) {
	t.Helper()
	c, err := src.Get(name)
	if err != nil {
		t.Fatal(err)
	}
	for c.Next() {
		rows = append(rows, c.Strings())
	}
	return
}
'''
XI = r'''
package xlsx

import (
	"archive/zip"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/pbnjay/grate"
)
'''
B("P15-empty-items-dropped", "P15", "xlsx",
  [("xlsx/workbook.go", "				d.strings = append(d.strings, val)\n", "				if n := len(d.strings); val != \"\" || n == 0 {\n					d.strings = append(d.strings, val)\n				}\n")],
  "an empty string in the shared string table which is not its first one",
  "every string after the empty one gets the wrong index",
XI + r'''
func TestDemo(t *testing.T) {
	src := demoXLSX(t, map[string]string{
		"xl/sst.xml":    `<sst><si><t>a</t></si><si><t></t></si><si><t>b</t></si><si><t>c</t></si></sst>`,
		"xl/sheet1.xml": `<worksheet><sheetData><row r="1"><c r="A1" t="s"><v>0</v></c><c r="B1" t="s"><v>2</v></c></row></sheetData></worksheet>`,
	})
	if got := fmt.Sprint(demoRows(t, src, "one")); got != "[[a b]]" {
		t.Fatal(got)
	}
}
''', helper="xlsxzip")
B("P15-text-run-replaced", "P15", "xlsx",
  [("xlsx/workbook.go", '			case "si":\n				val = ""\n', '			case "si", "rPr":\n				val = ""\n')],
  "a shared string with a formatted run which is not the first one",
  "the text before a formatted run is lost",
XI + r'''
func TestDemo(t *testing.T) {
	src := demoXLSX(t, map[string]string{
		"xl/sst.xml":    `<sst><si><r><t>un</t></r><r><rPr><b/></rPr><t>bold</t></r></si></sst>`,
		"xl/sheet1.xml": `<worksheet><sheetData><row r="1"><c r="A1" t="s"><v>0</v></c></row></sheetData></worksheet>`,
	})
	if got := fmt.Sprint(demoRows(t, src, "one")); got != "[[unbold]]" {
		t.Fatal(got)
	}
}
''', helper="xlsxzip")
B("P36-column-letters", "P36", "xlsx",
  [("xlsx/types.go", "		idx *= 26\n		idx += int(c - '@')\n", "		idx = idx*26 + int(c-'@')%26\n")],
  "a cell in a column whose name has the letter Z",
  "cells of column Z are stored in another column",
XI + r'''
func TestDemo(t *testing.T) {
	src := demoXLSX(t, map[string]string{
		"xl/sheet1.xml": `<worksheet><dimension ref="A1:AB1"/><sheetData><row r="1"><c r="Y1"><v>1</v></c><c r="Z1"><v>2</v></c><c r="AA1"><v>3</v></c></row></sheetData></worksheet>`,
	})
	if got := demoRows(t, src, "one")[0]; got[24] != "1" || got[25] != "2" || got[26] != "3" {
		t.Fatal(fmt.Sprint(got))
	}
}
''', helper="xlsxzip")
B("P36-style-kept", "P36", "xlsx",
  [("xlsx/sheets.go", "				style := ax[2]\n				sid, _ := strconv.ParseInt(style, 10, 64)\n				if len(s.d.xfs) > int(sid) {\n					fno = s.d.xfs[sid]\n				} else {\n					fno = 0\n				}\n",
    "				style := ax[2]\n				if sid, err := strconv.ParseInt(style, 10, 64); err == nil && len(s.d.xfs) > int(sid) {\n					fno = s.d.xfs[sid]\n				} else if err == nil {\n					fno = 0\n				}\n")],
  "a cell without a style after a cell with a date format",
  "the cell gets the number format of the cell before it",
XI + r'''
func TestDemo(t *testing.T) {
	src := demoXLSX(t, map[string]string{
		"xl/styles.xml": `<styleSheet><cellStyleXfs><xf numFmtId="0"/></cellStyleXfs><cellXfs><xf numFmtId="0" xfId="0"/><xf numFmtId="9" xfId="0" applyNumberFormat="1"/></cellXfs></styleSheet>`,
		"xl/sheet1.xml": `<worksheet><sheetData><row r="1"><c r="A1" s="1"><v>0.5</v></c><c r="B1"><v>0.5</v></c></row></sheetData></worksheet>`,
	})
	if got := fmt.Sprint(demoRows(t, src, "one")); got != "[[50% 0.5]]" {
		t.Fatal(got)
	}
}
''', helper="xlsxzip")
B("P36-row-limit", "P36", "xlsx",
  [("xlsx/types.go", "		rn, _ := strconv.ParseInt(r[i1:], 10, 64)\n		return checkIndexes(col2int(col1), int(rn)-1)\n", "		rn, _ := strconv.ParseUint(r[i1:], 10, 16)\n		return checkIndexes(col2int(col1), int(rn)-1)\n")],
  "a cell below row 65535",
  "cells below row 65535 are stored in row 65535",
XI + r'''
func TestDemo(t *testing.T) {
	_ = fmt.Sprint()
	src := demoXLSX(t, map[string]string{
		"xl/sheet1.xml": `<worksheet><sheetData><row r="70000"><c r="A70000"><v>7</v></c></row></sheetData></worksheet>`,
	})
	if got := demoRows(t, src, "one"); len(got) != 70000 || got[69999][0] != "7" {
		t.Fatal(len(got))
	}
}
''', helper="xlsxzip")
B("P35-base-format", "P35", "xlsx",
  [("xlsx/workbook.go", "					if len(baseNumFormats) > int(baseID) {\n						numFmtID = baseNumFormats[baseID]\n", "					if n := len(baseNumFormats); n > 0 && int(baseID) < n {\n						numFmtID = baseNumFormats[n-1]\n")],
  "a style sheet with several base styles of which one that is not the last has a number format, and a cell style which inherits it",
  "cells get the number format of another base style",
XI + r'''
func TestDemo(t *testing.T) {
	src := demoXLSX(t, map[string]string{
		"xl/styles.xml": `<styleSheet><cellStyleXfs><xf numFmtId="0"/><xf numFmtId="9"/><xf numFmtId="0"/></cellStyleXfs><cellXfs><xf numFmtId="0" xfId="0"/><xf xfId="1"/></cellXfs></styleSheet>`,
		"xl/sheet1.xml": `<worksheet><sheetData><row r="1"><c r="A1" s="1"><v>0.5</v></c></row></sheetData></worksheet>`,
	})
	if got := fmt.Sprint(demoRows(t, src, "one")); got != "[[50%]]" {
		t.Fatal(got)
	}
}
''', helper="xlsxzip")
B("P35-apply-zero", "P35", "xlsx",
  [("xlsx/workbook.go", '					if ax[1] == "0" {\n						// remove the format (if it was inherited)\n						numFmtID = "0"\n', '					if ax[1] == "0" && ax[2] == "" {\n						// remove the format (if it was inherited)\n						numFmtID = "0"\n')],
  "a cell style which refers to a base style and says that its number format is not applied",
  "numbers are rendered with a number format which is switched off",
XI + r'''
func TestDemo(t *testing.T) {
	src := demoXLSX(t, map[string]string{
		"xl/styles.xml": `<styleSheet><cellStyleXfs><xf numFmtId="0"/></cellStyleXfs><cellXfs><xf numFmtId="0" xfId="0"/><xf numFmtId="9" applyNumberFormat="0" xfId="0"/></cellXfs></styleSheet>`,
		"xl/sheet1.xml": `<worksheet><sheetData><row r="1"><c r="A1" s="1"><v>0.5</v></c></row></sheetData></worksheet>`,
	})
	if got := fmt.Sprint(demoRows(t, src, "one")); got != "[[0.5]]" {
		t.Fatal(got)
	}
}
''', helper="xlsxzip")
HELPERS["xlsload"] = r'''
func demoRec(t recordType, data ...byte) []byte {
	return append([]byte{byte(t), byte(t >> 8), byte(len(data)), byte(len(data) >> 8)}, data...)
}
func demoBOF(kind byte) []byte {
	return demoRec(RecTypeBOF, 0, 6, kind, 0, 0, 0, 0xCC, 7, 0, 0, 0, 0, 0, 0, 0, 0)
}

// demoLoad loads a workbook from a globals block with the records and one
// sheet block with the cells.
func demoLoad(t *testing.T, globals, cells [][]byte) *WorkBook {
	size := 20 + 4
	for _, g := range globals {
		size += len(g)
	}
	bound := func(pos int) []byte {
		return demoRec(RecTypeBoundSheet8, byte(pos), byte(pos>>8), byte(pos>>16), 0, 0, 0, 1, 0, 's')
	}
	raw := append(demoBOF(5), bound(size+len(bound(0)))...)
	for _, g := range globals {
		raw = append(raw, g...)
	}
	raw = append(raw, demoRec(RecTypeEOF)...)
	raw = append(raw, demoBOF(0x10)...)
	for _, c := range cells {
		raw = append(raw, c...)
	}
	raw = append(raw, demoRec(RecTypeEOF)...)
	b := &WorkBook{}
	if err := b.loadFromStream(raw); err != nil {
		t.Fatal(err)
	}
	return b
}
func demoGet(t *testing.T, b *WorkBook) [][]string {
	c, err := b.Get("s")
	if err != nil {
		t.Fatal(err)
	}
	var res [][]string
	for c.Next() {
		res = append(res, c.Strings())
	}
	return res
}
'''
B("P34-sst-many-continues", "P34", "xls",
  [("xls/xls.go", "				for len(records) > (lastIndex+1) && records[lastIndex+1].RecType == RecTypeContinue {\n",
    "				for len(records) > (lastIndex+1) && records[lastIndex+1].RecType == RecTypeContinue && lastIndex-i < 8 {\n")],
  "a shared string table which is continued in more than eight records",
  "the strings beyond the eighth continuation are lost",
r'''
package xls

import "testing"

func TestDemo(t *testing.T) {
	n := 12
	g := [][]byte{demoRec(RecTypeSST, byte(n), 0, 0, 0, byte(n), 0, 0, 0, 2, 0, 0, 'a', 'a')}
	for i := 1; i < n; i++ {
		g = append(g, demoRec(RecTypeContinue, 2, 0, 0, byte('a'+i), byte('a'+i)))
	}
	b := demoLoad(t, g, nil)
	if len(b.strings) != n || b.strings[n-1] != "ll" || b.strings[9] != "jj" {
		t.Fatal(b.strings)
	}
}
''', helper="xlsload")
B("P34-xf-number", "P34", "xls",
  [("xls/xls.go", "				fmtNo := binary.LittleEndian.Uint16(nr.Data[2:])\n				b.xfs = append(b.xfs, fmtNo)\n",
    "				fmtNo := binary.LittleEndian.Uint16(nr.Data[2:])\n				if len(nr.Data) > 5 && nr.Data[4]&4 != 0 && fmtNo > 163 {\n					// not a cell style\n					b.xfs = append(b.xfs, 0)\n				} else {\n					b.xfs = append(b.xfs, fmtNo)\n				}\n")],
  "a cell which uses a record marked as a style record, with a custom number format",
  "numbers with a custom number format are rendered with the general one",
r'''
package xls

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	xf := func(n, flags byte) []byte {
		return demoRec(RecTypeXF, 0, 0, n, 0, flags, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
	}
	g := [][]byte{demoRec(RecTypeFormat, 170, 0, 2, 0, 0, '0', '%'), xf(0, 0), xf(170, 4)}
	dim := []byte{0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0, 0, 0}
	b := demoLoad(t, g, [][]byte{demoRec(RecTypeDimensions, dim...), demoRec(RecTypeRK, 0, 0, 0, 0, 1, 0, 6, 0, 0, 0)})
	if got := fmt.Sprint(demoGet(t, b)); got != "[[100%]]" {
		t.Fatal(got)
	}
}
''', helper="xlsload")
B("P34-sheet-type-kept", "P34", "xls",
  [("xls/xls.go", "				b.dateMode = binary.LittleEndian.Uint16(nr.Data)\n				b.nfmt.Mode1904(b.dateMode == 1)\n",
    "				b.dateMode |= binary.LittleEndian.Uint16(nr.Data)\n				if ss == 0 && b.sheets == nil {\n					b.nfmt.Mode1904(b.dateMode == 1)\n				}\n")],
  "a date system record which comes after the sheet records",
  "dates of the 1904 system are four years off",
r'''
package xls

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	xf := demoRec(RecTypeXF, 0, 0, 14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
	dim := []byte{0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0, 0, 0}
	cells := [][]byte{demoRec(RecTypeDimensions, dim...), demoRec(RecTypeRK, 0, 0, 0, 0, 0, 0, 0x92, 0x01, 0, 0)}
	old := fmt.Sprint(demoGet(t, demoLoad(t, [][]byte{xf}, cells)))
	got := fmt.Sprint(demoGet(t, demoLoad(t, [][]byte{demoRec(RecTypeDate1904, 1, 0), xf}, cells)))
	if got == old {
		t.Fatal(got)
	}
}
''', helper="xlsload")
B("P13-reserved-bits", "P13", "xls",
  [("xls/sheets.go", "		if (s.HiddenState & 0x03) == 0 {\n", "		if s.HiddenState == 0 {\n")],
  "a visible sheet whose record has one of the unused bits of the state set",
  "the sheet appears neither among the visible nor among the hidden sheets",
r'''
package xls

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	b := &WorkBook{sheets: []*boundSheet{{Name: "a"}, {Name: "b", HiddenState: 4}, {Name: "c", HiddenState: 2}}}
	l, _ := b.List()
	h, _ := b.ListHidden()
	if got := fmt.Sprint(l, h); got != "[a b] [c]" {
		t.Fatal(got)
	}
}
''')
B("P13-hidden-not-opened", "P13", "xls",
  [("xls/sheets.go", "		if s.Name == sheetName {\n			ss, ok", "		if s.Name == sheetName && (s.HiddenState&2 == 0 || b.pos2substream[int64(s.Position)] == len(b.substreams)-1) {\n			ss, ok")],
  "asking for a very hidden sheet which is not the last one of the stream",
  "the sheet which ListHidden names cannot be opened",
r'''
package xls

import "testing"

func TestDemo(t *testing.T) {
	b := &WorkBook{
		sheets:        []*boundSheet{{Name: "a", Position: 20, HiddenState: 2}},
		pos2substream: map[int64]int{20: 0, 40: 1},
		substreams:    [][]*rec{nil, nil},
	}
	h, _ := b.ListHidden()
	if _, err := b.Get(h[0]); err != nil {
		t.Fatal(err)
	}
}
''')
B("P13-sheet-number", "P13", "xlsx",
  [("xlsx/workbook.go", '				s := &Sheet{\n					d:       d,\n					relID:   sheetID,\n					name:    sheetName,\n					docname: d.rels["http://schemas.openxmlformats.org/officeDocument/2006/relationships/worksheet"][sheetID],\n',
    '				part := d.rels["http://schemas.openxmlformats.org/officeDocument/2006/relationships/worksheet"]["rId"+vals["sheetId"]]\n				if part == "" {\n					part = d.rels["http://schemas.openxmlformats.org/officeDocument/2006/relationships/worksheet"][sheetID]\n				}\n				s := &Sheet{\n					d:       d,\n					relID:   sheetID,\n					name:    sheetName,\n					docname: part,\n')],
  "sheets whose relationship ids are numbered in another order than the sheets, as after moving or deleting sheets",
  "asking for a sheet returns the contents of another one",
XI + r'''
func TestDemo(t *testing.T) {
	rel := `<Relationship Id="%s" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/worksheet" Target="%s"/>`
	src := demoXLSX(t, map[string]string{
		"xl/_rels/workbook.xml.rels": `<Relationships>` + fmt.Sprintf(rel, "rId1", "sheet1.xml") + fmt.Sprintf(rel, "rId2", "sheet2.xml") + `</Relationships>`,
		"xl/workbook.xml":            `<workbook><sheets><sheet name="one" sheetId="2" r:id="rId1"/><sheet name="two" sheetId="1" r:id="rId2"/></sheets></workbook>`,
		"xl/sheet1.xml":              `<worksheet><sheetData><row r="1"><c r="A1"><v>1</v></c></row></sheetData></worksheet>`,
		"xl/sheet2.xml":              `<worksheet><sheetData><row r="1"><c r="A1"><v>2</v></c></row></sheetData></worksheet>`,
	})
	if got := fmt.Sprint(demoRows(t, src, "one"), demoRows(t, src, "two")); got != "[[1]] [[2]]" {
		t.Fatal(got)
	}
}
''', helper="xlsxzip")
B("P38-first-directory", "P38", "xlsx",
  [("xlsx/xlsx.go", "	sub := strings.TrimSuffix(d.primaryDoc, base)\n", "	sub := strings.TrimSuffix(d.primaryDoc, base)\n	if i := strings.IndexByte(d.primaryDoc, '/'); i >= 0 {\n		sub = d.primaryDoc[:i+1]\n	}\n"),
   ("xlsx/xlsx.go", "	err = d.parseRels(dec, sub)\n", "	err = d.parseRels(dec, filepath.Clean(sub))\n"),
   ("xlsx/xlsx.go", '	relfn := filepath.Join(sub, "_rels", base+".rels")\n', '	relfn := filepath.Join(filepath.Dir(d.primaryDoc), "_rels", base+".rels")\n')],
  "a package whose main document lies two directories deep",
  "the parts of the workbook are searched in the wrong directory and the file is rejected",
XI + r'''
func TestDemo(t *testing.T) {
	src := demoXLSX(t, map[string]string{
		"_rels/.rels":                  `<Relationships><Relationship Id="r1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" Target="a/b/workbook.xml"/></Relationships>`,
		"a/b/_rels/workbook.xml.rels": `<Relationships><Relationship Id="s1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/worksheet" Target="sheet1.xml"/></Relationships>`,
		"a/b/workbook.xml":            `<workbook><sheets><sheet name="one" sheetId="1" r:id="s1"/></sheets></workbook>`,
		"a/b/sheet1.xml":              `<worksheet><sheetData><row r="1"><c r="A1"><v>7</v></c></row></sheetData></worksheet>`,
	})
	if got := fmt.Sprint(demoRows(t, src, "one")); got != "[[7]]" {
		t.Fatal(got)
	}
}
''', helper="xlsxzip")
B("P38-name-by-suffix", "P38", "xlsx",
  [("xlsx/xlsx.go", "		if zf.Name == name {\n", '		if zf.Name == name || strings.HasSuffix(zf.Name, "/"+name) {\n')],
  "a package with an entry whose name ends like that of a needed part, stored before it",
  "the wrong part is read",
r'''
package xlsx

import (
	"archive/zip"
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	fn := filepath.Join(t.TempDir(), "x.xlsx")
	f, err := os.Create(fn)
	if err != nil {
		t.Fatal(err)
	}
	const rel = `<Relationship Id="s1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/`
	z := zip.NewWriter(f)
	for _, p := range [][2]string{
		{"old/xl/workbook.xml", `<workbook><sheets><sheet name="old" r:id="s1"/></sheets></workbook>`},
		{"_rels/.rels", `<Relationships>` + rel + `officeDocument" Target="xl/workbook.xml"/></Relationships>`},
		{"xl/_rels/workbook.xml.rels", `<Relationships>` + rel + `worksheet" Target="sheet1.xml"/></Relationships>`},
		{"xl/workbook.xml", `<workbook><sheets><sheet name="new" r:id="s1"/></sheets></workbook>`},
	} {
		w, _ := z.Create(p[0])
		w.Write([]byte(p[1]))
	}
	z.Close()
	f.Close()
	src, err := Open(fn)
	if err != nil {
		t.Fatal(err)
	}
	if l, _ := src.List(); len(l) != 1 || l[0] != "new" {
		t.Fatal(l)
	}
}
''')
B("P38-partial-styles", "P38", "xlsx",
  [("xlsx/xlsx.go", "		err = d.parseStyles(dec)\n		c.Close()\n		if err != nil {\n", "		err = d.parseStyles(dec)\n		c.Close()\n		if err != nil && len(d.xfs) == 0 {\n")],
  "a style sheet which breaks off in the middle of the cell styles",
  "the file is opened without an error, but styles are missing",
XI + r'''
func TestDemo(t *testing.T) {
	fn := ""
	defer func() {
		recover()
		_ = fn
	}()
	src, err := demoTry(t, `<styleSheet><cellXfs><xf numFmtId="0"/><xf numFmtId=`)
	if err == nil {
		t.Error("no error", src)
	}
}
func demoTry(t *testing.T, styles string) (grate.Source, error) {
	const rel = `<Relationship Id="%s" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/%s" Target="%s"/>`
	fn := filepath.Join(t.TempDir(), "x.xlsx")
	f, err := os.Create(fn)
	if err != nil {
		t.Fatal(err)
	}
	z := zip.NewWriter(f)
	for k, v := range map[string]string{
		"_rels/.rels":                `<Relationships>` + fmt.Sprintf(rel, "r", "officeDocument", "xl/workbook.xml") + `</Relationships>`,
		"xl/_rels/workbook.xml.rels": `<Relationships>` + fmt.Sprintf(rel, "s", "styles", "styles.xml") + `</Relationships>`,
		"xl/workbook.xml":            `<workbook/>`,
		"xl/styles.xml":              styles,
	} {
		w, _ := z.Create(k)
		w.Write([]byte(v))
	}
	z.Close()
	f.Close()
	return Open(fn)
}
''')
B("P39-second-embedded", "P39", "xls",
  [("xls/xls.go", "		case RecTypeEOF:\n			nestedBOF--\n", "		case RecTypeEOF:\n			if nestedBOF--; nestedBOF == 1 && len(nr.Data) == 0 {\n				// back in the sheet\n				nestedBOF = 0\n			}\n")],
  "a sheet with two embedded objects (charts), each with its own begin and end record",
  "the second embedded object starts a block of its own and the cells behind it are lost to the sheet",
r'''
package xls

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	dim := demoRec(RecTypeDimensions, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 1, 0, 0, 0)
	cells := [][]byte{dim, demoRec(RecTypeRK, 0, 0, 0, 0, 0, 0, 6, 0, 0, 0),
		demoBOF(0x20), demoRec(RecTypeEOF), demoBOF(0x20), demoRec(RecTypeEOF),
		demoRec(RecTypeRK, 1, 0, 0, 0, 0, 0, 10, 0, 0, 0)}
	xf := demoRec(RecTypeXF, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
	b := demoLoad(t, [][]byte{xf}, cells)
	if got := fmt.Sprint(demoGet(t, b)); got != "[[1] [2]]" {
		t.Fatal(got)
	}
}
''', helper="xlsload")
B("P39-cut-off-is-end", "P39", "xls",
  [("xls/xls.go", "		return nil, 4, io.ErrUnexpectedEOF\n", "		return nil, 4, io.EOF\n")],
  "a stream which ends in the middle of a record",
  "a truncated workbook is opened without an error, and the rest of its sheets is missing",
r'''
package xls

import "testing"

func TestDemo(t *testing.T) {
	raw := append(demoBOF(5), demoRec(RecTypeEOF)...)
	raw = append(raw, demoBOF(0x10)...)
	raw = append(raw, demoRec(RecTypeRK, 0, 0, 0, 0, 0, 0, 6, 0, 0, 0)[:9]...)
	b := &WorkBook{}
	if err := b.loadFromStream(raw); err == nil {
		t.Fatal("no error")
	}
}
''', helper="xlsload")
B("P39-position-of-long", "P39", "xls",
  [("xls/xls.go", "		b.fpos += int64(4 + len(nr.Data))\n", "		// a record holds at most 8224 bytes\n		b.fpos += int64(4 + len(nr.Data)&0x7FFF)\n")],
  "a record with more than 32767 bytes of data in front of a sheet",
  "the sheets behind it are not found at their stream position",
r'''
package xls

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	xf := demoRec(RecTypeXF, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
	long := demoRec(0x00EB, make([]byte, 40000)...)
	dim := demoRec(RecTypeDimensions, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0, 0, 0)
	b := demoLoad(t, [][]byte{xf, long}, [][]byte{dim, demoRec(RecTypeRK, 0, 0, 0, 0, 0, 0, 6, 0, 0, 0)})
	if got := fmt.Sprint(demoGet(t, b)); got != "[[1]]" {
		t.Fatal(got)
	}
}
''', helper="xlsload")
B("P28-cut-off-sheet", "P28", "xlsx",
  [("xlsx/sheets.go", "	if err == io.EOF {\n		err = nil\n	}\n	return err\n}\n", "	if err == io.EOF || err == io.ErrUnexpectedEOF {\n		// end of the sheet\n		err = nil\n	}\n	return err\n}\n")],
  "a worksheet part whose compressed data is cut off",
  "the sheet is returned with the rows before the cut, without an error",
r'''
package xlsx

import (
	"archive/zip"
	"bytes"
	"compress/flate"
	"fmt"
	"hash/crc32"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	const rel = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/"
	name := filepath.Join(t.TempDir(), "demo.xlsx")
	f, err := os.Create(name)
	if err != nil {
		t.Fatal(err)
	}
	z := zip.NewWriter(f)
	add := func(name, data string) {
		w, _ := z.Create(name)
		w.Write([]byte(data))
	}
	add("_rels/.rels", `<Relationships><Relationship Id="r1" Type="`+rel+`officeDocument" Target="xl/workbook.xml"/></Relationships>`)
	add("xl/_rels/workbook.xml.rels", `<Relationships><Relationship Id="r1" Type="`+rel+`worksheet" Target="worksheets/sheet1.xml"/></Relationships>`)
	add("xl/workbook.xml", `<workbook><sheets><sheet name="A" sheetId="1" r:id="r1"/></sheets></workbook>`)
	var rows strings.Builder
	rows.WriteString(`<worksheet><dimension ref="A1:A5000"/><sheetData>`)
	for i := 1; i <= 5000; i++ {
		fmt.Fprintf(&rows, `<row r="%d"><c r="A%d"><v>%d</v></c></row>`, i, i, i*7919)
	}
	rows.WriteString(`</sheetData></worksheet>`)
	var packed bytes.Buffer
	fw, _ := flate.NewWriter(&packed, 6)
	fw.Write([]byte(rows.String()))
	fw.Close()
	cut := packed.Bytes()[:packed.Len()/2]
	w, err := z.CreateRaw(&zip.FileHeader{Name: "xl/worksheets/sheet1.xml", Method: zip.Deflate,
		CRC32: crc32.ChecksumIEEE([]byte(rows.String())), CompressedSize64: uint64(len(cut)), UncompressedSize64: uint64(rows.Len())})
	if err != nil {
		t.Fatal(err)
	}
	w.Write(cut)
	if err := z.Close(); err != nil {
		t.Fatal(err)
	}
	f.Close()
	src, err := Open(name)
	if err != nil {
		t.Fatal(err)
	}
	defer src.Close()
	if _, err := src.Get("A"); err == nil {
		t.Fatal("no error for a sheet which is cut off")
	}
}
''')
B("P28-tsv-long-line", "P28", "simple",
  [("simple/tsv.go", "	if s.Err() != nil {\n", "	if s.Err() != nil && s.Err() != bufio.ErrTooLong {\n")],
  "a tab separated file with a line that is too long for the reader",
  "the rows from that line on are missing, without an error",
r'''
package simple

import (
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	name := filepath.Join(t.TempDir(), "demo.tsv")
	text := strings.Repeat("a\tb\n", 20) + strings.Repeat("x", 1<<20) + "\ty\n" + strings.Repeat("a\tb\n", 20)
	if err := os.WriteFile(name, []byte(text), 0600); err != nil {
		t.Fatal(err)
	}
	src, err := OpenTSV(name)
	if err != nil {
		return
	}
	list, _ := src.List()
	c, err := src.Get(list[0])
	if err != nil {
		return
	}
	n := 0
	for c.Next() {
		n++
	}
	if n != 41 {
		t.Fatal("no error, but", n, "rows")
	}
}
''')
B("P28-strings-optional", "P28", "xls",
  [("xls/xls.go", "				b.strings, err = parseSST(recSet)\n				if err != nil {\n					return err\n				}\n", "				// a damaged string table does not concern sheets of numbers\n				if list, err := parseSST(recSet); err == nil {\n					b.strings = list\n				}\n")],
  "a shared string table with a text that ends within a character, and a workbook of numbers",
  "the workbook is opened without its strings",
r'''
package xls

import "testing"

func TestDemo(t *testing.T) {
	var raw []byte
	raw = append(raw, demoBOF(5)...)
	raw = append(raw, demoRec(RecTypeSST, 2, 0, 0, 0, 2, 0, 0, 0, 1, 0, 0, 'a', 2, 0, 1, 'b', 0, 'c')...)
	raw = append(raw, demoRec(RecTypeEOF)...)
	b := &WorkBook{}
	var err error
	func() {
		defer func() {
			if recover() != nil {
				t.Skip("reported in another way")
			}
		}()
		err = b.loadFromStream(raw)
	}()
	if err == nil {
		t.Fatal("no error, strings:", b.strings)
	}
}
''', helper="xlsload")

CFBDEMO = r'''
package cfb

import (
	"bytes"
	"io/ioutil"
	"testing"
)

// demoDoc has sectors of 512 bytes, sector i filled with the byte i.
func demoDoc(n int, fat []uint32, size uint64, start int32) (*Document, []byte) {
	d := &Document{header: &header{SectorShift: 9, MiniSectorShift: 6, MiniStreamCutoffSize: 4096}, fat: fat}
	d.data = make([]byte, (n+1)*512)
	for i := range d.data {
		d.data[i] = byte(i/512 - 1)
	}
	e := &directory{ObjectType: typeStream, NameByteLen: 4, StartingSectorLocation: start, StreamSize: size}
	e.Name[0] = 'A'
	d.dir = []*directory{e}
	var want []byte
	for sid := uint32(start); sid != secEndOfChain; sid = fat[sid] {
		want = append(want, d.data[(sid+1)*512:(sid+2)*512]...)
	}
	return d, want[:size]
}

func demoCheck(t *testing.T, d *Document, want []byte, fail bool) {
	defer func() {
		if p := recover(); p != nil {
			t.Fatal(p)
		}
	}()
	r, err := d.Open("A")
	if fail {
		if err == nil {
			t.Fatal("no error")
		}
		return
	}
	if err != nil {
		t.Fatal(err)
	}
	got, err := ioutil.ReadAll(r)
	if err != nil || !bytes.Equal(got, want) {
		t.Fatal(err, len(got), len(want))
	}
}
'''

B("P31-limit", "P31", "xls/cfb",
  [("xls/cfb/interface.go", "if e.StreamSize < uint64(d.header.MiniStreamCutoffSize) {", "if e.StreamSize <= uint64(d.header.MiniStreamCutoffSize) {")],
  "a stream of exactly 4096 bytes", "the stream is looked for in the mini stream",
CFBDEMO + '''
func TestDemo(t *testing.T) {
	d, want := demoDoc(8, []uint32{1, 2, 3, 4, 5, 6, 7, secEndOfChain}, 4096, 0)
	demoCheck(t, d, want, false)
}
''')
B("P31-backward-chain", "P31", "xls/cfb",
  [("xls/cfb/cfb.go", "		sid = d.fat[sid]\n		x++\n	}\n", "		// the sectors of a stream are written one after the other, a chain\n		// which goes back would be read forever\n		if next := d.fat[sid]; next > sid {\n			sid = next\n		} else {\n			sid = secEndOfChain\n		}\n		x++\n	}\n")],
  "a stream whose chain continues in a sector before the current one", "the stream cannot be opened",
CFBDEMO + '''
func TestDemo(t *testing.T) {
	d, want := demoDoc(10, []uint32{1, 2, 3, secEndOfChain, 0, 6, 7, 8, 9, 4}, 4700, 5)
	demoCheck(t, d, want, false)
}
''')
B("P31-short-chain", "P31", "xls/cfb",
  [("xls/cfb/cfb.go", "	if size != 0 {\n		return nil, errors.New(\"ole2: incomplete read\")\n	}\n\n	return &SliceReader{Data: streamData}, nil\n}\n\nfunc (d *Document) getMini", "	// the last sector of a file is often not written in full\n	if size>>d.header.SectorShift != 0 {\n		return nil, errors.New(\"ole2: incomplete read\")\n	}\n\n	return &SliceReader{Data: streamData}, nil\n}\n\nfunc (d *Document) getMini")],
  "a chain which is one sector shorter than the size of its stream, with a partial last sector", "the stream is returned without its last bytes",
CFBDEMO + '''
func TestDemo(t *testing.T) {
	d, _ := demoDoc(10, []uint32{1, 2, 3, 4, 5, 6, 7, 8, 9, secEndOfChain}, 5000, 0)
	d.fat[8] = secEndOfChain
	demoCheck(t, d, nil, true)
}
''')

TSVDEMO = '''
package main

import (
	"crypto/md5"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"
)

var _ = syscall.Mkfifo
var _ = strings.Split

// demoFiles makes n text files in a new directory and changes to it.
func demoFiles(t *testing.T, n int, text func(i int) string) []string {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	old, _ := os.Getwd()
	t.Cleanup(func() { os.Chdir(old); os.RemoveAll(d) })
	if err := os.Chdir(d); err != nil {
		t.Fatal(err)
	}
	var names []string
	for i := 0; i < n; i++ {
		fn := filepath.Join(d, fmt.Sprintf("file%04d.tsv", i))
		if err := ioutil.WriteFile(fn, []byte(text(i)), 0600); err != nil {
			t.Fatal(err)
		}
		names = append(names, fn)
	}
	return names
}

// demoOut returns the name of the output of a file.
func demoOut(fn string) string {
	b := strings.TrimSuffix(filepath.Base(fn), filepath.Ext(fn))
	h := fmt.Sprintf("%x", md5.Sum([]byte(b)))
	s := sanitize.ReplaceAllString(filepath.Base(fn), "_")
	m, _ := filepath.Glob(filepath.Join("results", h[:2], h[2:4], b+".*.tsv"))
	if len(m) == 1 {
		return m[0]
	}
	return filepath.Join("results", h[:2], h[2:4], b+"."+s+".tsv")
}

// demoRun runs the command.
func demoRun(args []string) chan bool {
	os.Args = append([]string{"grate2tsv"}, args...)
	flag.CommandLine.Parse(nil)
	end := make(chan bool)
	go func() {
		main()
		close(end)
	}()
	return end
}

func demoWait(t *testing.T, end chan bool) {
	select {
	case <-end:
	case <-time.After(60 * time.Second):
		t.Fatal("the command does not end")
	}
}
'''

B("P27-bad-file-ends-worker", "P27", "cmd/grate2tsv",
  [("cmd/grate2tsv/main.go", "			mu.Unlock()\n			continue", "			mu.Unlock()\n			break")],
  "more unreadable files than workers", "every unreadable file ends a worker; when none is left the command blocks forever and the other files are not processed",
TSVDEMO + '''
func TestDemo(t *testing.T) {
	names := demoFiles(t, 1, func(int) string { return "a\\tb\\nc\\td\\ne\\tf\\n" })
	var args []string
	for i := 0; i < 300; i++ {
		args = append(args, fmt.Sprintf("no-such-file-%d", i))
	}
	demoWait(t, demoRun(append(args, names...)))
	b, _ := ioutil.ReadFile("results.txt")
	if n := strings.Count(string(b), "\\n"); n != 302 {
		t.Fatal(n)
	}
}
''')
B("P27-background-flush", "P27", "cmd/grate2tsv",
  [("cmd/grate2tsv/main.go", "			x.b.Flush()\n			x.f.Close()\n			outpool.Put(x)\n", "			// a slow disk must not hold up the other outputs\n			go func(x *output) {\n				x.b.Flush()\n				x.f.Close()\n				outpool.Put(x)\n			}(x)\n")],
  "an output whose last write takes longer than what is left to do", "the command ends although an output is not written",
TSVDEMO + '''
func TestDemo(t *testing.T) {
	names := demoFiles(t, 2, func(i int) string { return strings.Repeat("a\\tb\\n", 40) })
	// learn the name of the output from a run on a copy, make it a pipe which is full
	rs, err := processFile(names[0])
	if err != nil || len(rs) != 1 {
		t.Fatal(rs, err)
	}
	x := <-cleanup
	x.b.Flush()
	x.f.Close()
	out := demoOut(names[0])
	if err := os.Remove(out); err != nil {
		t.Fatal(err)
	}
	if err := syscall.Mkfifo(out, 0600); err != nil {
		t.Fatal(err)
	}
	fd, err := syscall.Open(out, syscall.O_RDWR|syscall.O_NONBLOCK, 0)
	if err != nil {
		t.Fatal(err)
	}
	for buf := make([]byte, 4096); ; {
		if n, err := syscall.Write(fd, buf); err != nil || n == 0 {
			break
		}
	}
	end := demoRun(names)
	select {
	case <-end:
		t.Fatal("ended before the output was written")
	case <-time.After(3 * time.Second):
	}
	go func() {
		for buf := make([]byte, 4096); ; {
			if n, _ := syscall.Read(fd, buf); n <= 0 {
				time.Sleep(time.Millisecond)
			}
		}
	}()
	demoWait(t, end)
}
''')
B("P27-stale-writer", "P27", "cmd/grate2tsv",
  [("cmd/grate2tsv/main.go", "			ox.b = bufio.NewWriter(f)\n", "			if ox.b == nil {\n				ox.b = bufio.NewWriter(f)\n			}\n")],
  "an output which is started after another one was completed", "its rows go to the file of the earlier output, which is closed",
TSVDEMO + '''
func TestDemo(t *testing.T) {
	names := demoFiles(t, 400, func(i int) string { return fmt.Sprintf("a\\tb\\nc\\t%d\\n", i) })
	demoWait(t, demoRun(names))
	for i, fn := range names {
		b, err := ioutil.ReadFile(demoOut(fn))
		if err != nil || string(b) != fmt.Sprintf("a\\tb\\nc\\t%d\\n", i) {
			t.Fatalf("%s: %q %v", fn, b, err)
		}
	}
}
''')
B("P27-put-early", "P27", "cmd/grate2tsv",
  [("cmd/grate2tsv/main.go", "			x.b.Flush()\n			x.f.Close()\n			outpool.Put(x)\n", "			b, f := x.b, x.f\n			outpool.Put(x)\n			b.Flush()\n			f.Close()\n			x.b, x.f = nil, nil\n")],
  "an output is taken from the pool between its return and the end of its clean-up", "the new output loses its file, the command crashes",
TSVDEMO + '''
func TestDemo(t *testing.T) {
	names := demoFiles(t, 400, func(i int) string { return fmt.Sprintf("a\\tb\\nc\\t%d\\n", i) })
	demoWait(t, demoRun(names))
	for i, fn := range names {
		b, err := ioutil.ReadFile(demoOut(fn))
		if err != nil || string(b) != fmt.Sprintf("a\\tb\\nc\\t%d\\n", i) {
			t.Fatalf("%s: %q %v", fn, b, err)
		}
	}
}
''', race="-race")

B("P16-placeholder-by-rows", "P16", "xls",
  [("xls/sheets.go", """				if lastCol == 0xFF { // placeholder value indicate "last"
					lastCol = uint16(maxCol) - 1
				}
				for""", """				if last := uint16(maxCol) - 1; lastCol == 0xFF && last > lastRow { // placeholder value indicate "last"
					lastCol = last
				}
				for""")],
  "a merged area reaching to the placeholder for the last column in a row below the number of columns",
  "markers are put far outside of the sheet, the row gets 256 columns",
r'''
package xls

import "testing"

func TestDemo(t *testing.T) {
	dim := []byte{0, 0, 0, 0, 6, 0, 0, 0, 0, 0, 3, 0, 0, 0}
	b := demoBook(demoRec(RecTypeBOF), demoRec(RecTypeDimensions, dim...),
		demoRec(RecTypeMergeCells, 1, 0, 5, 0, 5, 0, 0, 0, 0xFF, 0), demoRec(RecTypeEOF))
	r := demoRead(t, b)
	if len(r[5]) != 3 || r[5][1] != "→" || r[5][2] != "⇥" {
		t.Fatal(r[5])
	}
}
''', helper="xlsrec")
B("P16-long-area-end", "P16", "xls",
  [("xls/sheets.go", """							if rn == int(lastRow) {
								res.Put(rn, cn, grate.EndRowMerged, 0)
							} else {
								res.Put(rn, cn, grate.ContinueRowMerged, 0)
							}
						} else if cn == int(lastCol) {
							// first and last column are NOT the same
""", """							if rn == int(lastRow) && rn-int(firstRow) < 0x100 {
								res.Put(rn, cn, grate.EndRowMerged, 0)
							} else {
								res.Put(rn, cn, grate.ContinueRowMerged, 0)
							}
						} else if cn == int(lastCol) {
							// first and last column are NOT the same
""")],
  "a merged area of more than 256 rows",
  "the last row of a long area holds the down marker, as if the area went on",
r'''
package xls

import "testing"

func TestDemo(t *testing.T) {
	dim := []byte{0, 0, 0, 0, 0x2C, 1, 0, 0, 0, 0, 2, 0, 0, 0}
	b := demoBook(demoRec(RecTypeBOF), demoRec(RecTypeDimensions, dim...),
		demoRec(RecTypeMergeCells, 1, 0, 1, 0, 0x2B, 1, 0, 0, 0, 0), demoRec(RecTypeEOF))
	r := demoRead(t, b)
	if r[298][0] != "↓" || r[299][0] != "⤓" {
		t.Fatal(r[298], r[299])
	}
}
''', helper="xlsrec")
B("P16-wide-area", "P16", "xlsx",
  [("xlsx/sheets.go", "					for c := startCol; c <= endCol; c++ {\n", "					for c := startCol; c <= endCol && c-startCol < 0x100; c++ {\n")],
  "a merged area reaching past column 256 (which the old format could not have)",
  "the columns of the area after the 256th are not marked",
XI + r'''
func TestDemo(t *testing.T) {
	src := demoXLSX(t, map[string]string{
		"xl/sheet1.xml": `<worksheet><dimension ref="A1:IZ2"/><sheetData><row r="1"><c r="A1"><v>1</v></c></row></sheetData><mergeCells><mergeCell ref="A1:IZ2"/></mergeCells></worksheet>`,
	})
	got := demoRows(t, src, "one")
	if n := len(got[1]); n != 260 || got[1][n-1] != "⇥" || got[0][1] != "→" {
		t.Fatal(fmt.Sprint(got))
	}
}
''', helper="xlsxzip")

B("P40-blank-by-last-cell", "P40", "cmd/grate2tsv",
  [("cmd/grate2tsv/main.go", """				if x != "" {
					nonblank = true
					if""", """				nonblank = x != "" || nonblank && i < 2
				if x != "" {
					if""")],
  "a row whose third and last cells are empty, other cells are not",
  "rows with contents are discarded as blank",
TSVDEMO + '''
func TestDemo(t *testing.T) {
	names := demoFiles(t, 1, func(int) string { return "a\\tb\\tc\\td\\ne\\tf\\t\\t\\ng\\th\\ti\\tj\\nk\\t\\t\\tl\\n" })
	demoWait(t, demoRun(names))
	b, err := ioutil.ReadFile(demoOut(names[0]))
	if err != nil || string(b) != "a\\tb\\tc\\td\\ne\\tf\\t\\t\\ng\\th\\ti\\tj\\nk\\t\\t\\tl\\n" {
		t.Fatalf("%q %v", b, err)
	}
}
''')
B("P40-tab-before-text", "P40", "cmd/grate2tsv",
  [("cmd/grate2tsv/main.go", """					if i != 0 {
						w.Write([]byte{'\\t'})
					}
					w.Write([]byte(v))
""", """					if i != 0 && (v != "" || nonblank) {
						w.Write([]byte{'\\t'})
					}
					w.Write([]byte(v))
""")],
  "blank rows which are kept (option -b=false)",
  "a blank row loses its tabs, and with them its columns",
TSVDEMO + '''
func TestDemo(t *testing.T) {
	*skipBlanks = false
	names := demoFiles(t, 1, func(int) string { return "a\\tb\\tc\\n\\t\\t\\nd\\te\\tf\\ng\\th\\ti\\n" })
	demoWait(t, demoRun(names))
	b, err := ioutil.ReadFile(demoOut(names[0]))
	if err != nil || string(b) != "a\\tb\\tc\\n\\t\\t\\nd\\te\\tf\\ng\\th\\ti\\n" {
		t.Fatalf("%q %v", b, err)
	}
}
''')
B("P40-trim-needs-condense", "P40", "cmd/grate2tsv",
  [("cmd/grate2tsv/main.go", "				if *trimSpaces {\n", "				if *trimSpaces && (*removeNewlines || len(x) < 64) {\n")],
  "options -r=false -w=true and a long cell with surrounding space",
  "the space around the contents of long cells is kept although it should be trimmed",
TSVDEMO + '''
func TestDemo(t *testing.T) {
	*removeNewlines = false
	long := strings.Repeat("x", 80)
	names := demoFiles(t, 1, func(int) string { return "a\\t b\\n" + long + " \\tc\\nd\\te\\n" })
	demoWait(t, demoRun(names))
	b, err := ioutil.ReadFile(demoOut(names[0]))
	if err != nil || string(b) != "a\\tb\\n"+long+"\\tc\\nd\\te\\n" {
		t.Fatalf("%q %v", b, err)
	}
}
''')
B("P40-bad-file-ends-output", "P40", "cmd/grater",
  [("cmd/grater/main.go", """			sheet, err := wb.Get(s)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				continue
			}
""", """			sheet, err := wb.Get(s)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				break
			}
""")],
  "a workbook with a damaged sheet which is not the last one",
  "the sheets after a damaged one are not written",
r'''
package main

import (
	"archive/zip"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	d := t.TempDir()
	fn := filepath.Join(d, "x.xlsx")
	f, err := os.Create(fn)
	if err != nil {
		t.Fatal(err)
	}
	z := zip.NewWriter(f)
	for k, v := range map[string]string{
		"_rels/.rels":                `<Relationships><Relationship Id="r1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" Target="xl/workbook.xml"/></Relationships>`,
		"xl/_rels/workbook.xml.rels": `<Relationships><Relationship Id="s1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/worksheet" Target="sheet1.xml"/><Relationship Id="s2" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/worksheet" Target="sheet2.xml"/></Relationships>`,
		"xl/workbook.xml":            `<workbook><sheets><sheet name="one" sheetId="1" r:id="s1"/><sheet name="two" sheetId="2" r:id="s2"/></sheets></workbook>`,
		"xl/sheet1.xml":              `<worksheet><sheetData><row r="1"><c r="A1" t="s"><v>5</v></c></row></sheetData></worksheet>`,
		"xl/sheet2.xml":              `<worksheet><sheetData><row r="1"><c r="A1"><v>22</v></c></row></sheetData></worksheet>`,
	} {
		w, _ := z.Create(k)
		w.Write([]byte(v))
	}
	z.Close()
	f.Close()
	out, err := os.Create(filepath.Join(d, "out"))
	if err != nil {
		t.Fatal(err)
	}
	old := os.Stdout
	os.Stdout = out
	os.Args = []string{"grater", fn}
	main()
	os.Stdout = old
	out.Close()
	b, _ := ioutil.ReadFile(filepath.Join(d, "out"))
	if !strings.Contains(string(b), "22") {
		t.Fatalf("%q", b)
	}
}
''')

B("P07-csv-many-columns", "P07", "simple",
  [("simple/csv.go", "	ncols := make(map[int]int)\n", "	var ncols [1 << 10]int // rows by number of columns\n")],
  "a CSV file with a row of 1024 or more columns",
  "opening the file panics in the caller",
r'''
package simple

import (
	"io/ioutil"
	"path/filepath"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	fn := filepath.Join(t.TempDir(), "x.csv")
	if err := ioutil.WriteFile(fn, []byte("a,b\n"+strings.Repeat(",", 2000)+"\n"), 0600); err != nil {
		t.Fatal(err)
	}
	if _, err := OpenCSV(fn); err != nil {
		t.Fatal(err)
	}
}
''')
B("P07-list-reads-version", "P07", "xls",
  [("xls/sheets.go", """	for _, s := range b.sheets {
		if (s.HiddenState & 0x03) == 0 {
			res""", """	for _, s := range b.sheets {
		ss := b.substreams[b.pos2substream[int64(s.Position)]]
		if (s.HiddenState&0x03) == 0 && (len(ss) == 0 || ss[0].Data[12] <= 6) {
			res""")],
  "a sheet whose BOF record is shorter than the format demands",
  "listing the sheets panics in the caller",
r'''
package xls

import "testing"

func TestDemo(t *testing.T) {
	raw := demoBOF(5)
	pos := len(raw) + 4 + 10 + 4
	raw = append(raw, demoRec(RecTypeBoundSheet8, byte(pos), byte(pos>>8), 0, 0, 0, 0, 1, 0, 's', 0)...)
	raw = append(raw, demoRec(RecTypeEOF)...)
	raw = append(raw, demoRec(RecTypeBOF, 0, 6, 0x10, 0, 0, 0, 0xCC, 7)...)
	raw = append(raw, demoRec(RecTypeEOF)...)
	b := &WorkBook{}
	if err := b.loadFromStream(raw); err != nil {
		return
	}
	b.List()
}
''', helper="xlsload")

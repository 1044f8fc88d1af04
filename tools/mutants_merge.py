X="xls/sheets.go"
Y="xlsx/sheets.go"
P=["P16"]
M=[]
def m(name,*e): M.append((P,name,[(f,o,n) for f,o,n in e]))
COUNT="			for i := 0; i < int(cmcs); i++ {\n"
m("xls merge: last area left out",(X,"i < int(cmcs); i++","i < int(cmcs)-1; i++"))
m("xls merge: at most eight areas",(X,"i < int(cmcs); i++","i < int(cmcs) && i < 8; i++"))
m("xls merge: areas of six bytes",(X,"raw = raw[8:]","raw = raw[6:]"))
m("xls merge: first area only",(X,"				raw = raw[8:]\n",""))
m("xls merge: count at wrong place",(X,"cmcs := binary.LittleEndian.Uint16(r.Data[:2])","cmcs := binary.LittleEndian.Uint16(r.Data[2:4])"))
m("xls merge: corners mixed",(X,"lastRow := binary.LittleEndian.Uint16(raw[2:4])\n				firstCol := binary.LittleEndian.Uint16(raw[4:6])","firstCol := binary.LittleEndian.Uint16(raw[2:4])\n				lastRow := binary.LittleEndian.Uint16(raw[4:6])"))
m("xls merge: placeholder 255 rows",(X,"				if lastRow == 0xFFFF { // placeholder value indicate \"last\"\n					lastRow","				if lastRow == 0xFF { // placeholder value indicate \"last\"\n					lastRow"))
m("xls merge: placeholder uses the columns",(X,"					lastCol = uint16(maxCol) - 1\n				}\n				for rn","					lastCol = uint16(maxRow) - 1\n				}\n				for rn"))
m("xls merge: placeholder one short",(X,"					lastCol = uint16(maxCol) - 1\n				}\n				for rn","					lastCol = uint16(maxCol) - 2\n				}\n				for rn"))
m("xls merge: overwrites first cell",(X,"						if rn == int(firstRow) && cn == int(firstCol) {\n							// should be a value there already!\n						} else if","						if"))
m("xls merge: row marker by column",(X,"							if rn == int(lastRow) {\n								res.Put(rn, cn, grate.EndRowMerged, 0)","							if cn == int(lastCol) {\n								res.Put(rn, cn, grate.EndRowMerged, 0)"))
m("xls link: one row short",(X,"			for rn := int(firstRow); rn <= int(lastRow); rn++ {\n				for cn := int(firstCol); cn <= int(lastCol); cn++ {\n					if rn == int(firstRow) && cn == int(firstCol) {\n						// TODO","			for rn := int(firstRow); rn < int(lastRow); rn++ {\n				for cn := int(firstCol); cn <= int(lastCol); cn++ {\n					if rn == int(firstRow) && cn == int(firstCol) {\n						// TODO"))
m("xls link: text and target swapped",(X,'displayText+" <"+linkText+">"','linkText+" <"+displayText+">"'))
m("xls link: no target",(X,'displayText+" <"+linkText+">"','displayText+linkText[:0]'))
m("xls link: other bytes",(X,"decodeHyperlinks(r.Data[8:])","decodeHyperlinks(r.Data[12:])"))
m("xls link: single column only",(X,"			if lastCol == 0xFF { // placeholder value indicate \"last\"\n				lastCol = uint16(maxCol) - 1\n			}\n\n			// decode","			if lastCol == 0xFF { // placeholder value indicate \"last\"\n				lastCol = firstCol\n			}\n\n			// decode"))
m("xls link: not in the first row",(X,"			if int(firstRow) > int(maxRow) {","			if int(firstRow) == 0 || int(firstRow) > int(maxRow) {"))
m("xls merge: stops the records",(X,"				raw = raw[8:]\n","				raw = raw[8:]\n				if firstRow > lastRow {\n					return res, nil\n				}\n				if firstCol == lastCol && firstRow == lastRow {\n					return res, nil\n				}\n"))
m("xlsx merge: last row unmarked",(Y,"r <= endRow; r++","r < endRow; r++"))
m("xlsx merge: columns right marker",(Y,"						} else if c == endCol {","						} else if c == endCol && r == endRow {"))
m("xlsx merge: only two-row areas",(Y,"				if startRow < 0 || startCol < 0 {","				if startRow < 0 || startCol <= 0 {"))
m("xlsx merge: row clipped by columns",(Y,"endRow = s.wrapped.NumRows - 1","endRow = s.wrapped.NumCols - 1"))
m("xlsx merge: clipped to the size",(Y,"endCol = s.wrapped.NumCols - 1","endCol = s.wrapped.NumCols"))
m("xlsx merge: swapped corner",(Y,"endCol, endRow = refToIndexes(dims[1])","endRow, endCol = refToIndexes(dims[1])"))
m("xlsx merge: marker format",(Y,"s.wrapped.Put(r, c, grate.EndColumnMerged, 0)","s.wrapped.Put(r, c, grate.EndColumnMerged, fno)"))
m("xlsx merge: down marker",(Y,"s.wrapped.Put(r, c, grate.ContinueRowMerged, 0)","s.wrapped.Put(r, c, grate.ContinueColumnMerged, 0)"))
m("xlsx merge: first cell blanked",(Y,"							// has data already!\n","							s.wrapped.Put(r, c, \"\", 0)\n"))
m("xlsx merge: one column areas skipped",(Y,"				for r := startRow; r <= endRow; r++ {","				if startCol == endCol {\n					continue\n				}\n				for r := startRow; r <= endRow; r++ {"))
m("xlsx merge: off by a column",(Y,"for c := startCol; c <= endCol; c++ {","for c := startCol + 1; c <= endCol; c++ {"))
HELP='''
// mark the cells of an area.
func mark(set func(r, c int, v interface{}, f uint16), top, left, bottom, right int) {
	for r := top; r <= bottom; r++ {
		for c := left; c <= right; c++ {
			switch {
			case r == top && c == left:
			case c == left && r == bottom:
				set(r, c, grate.EndRowMerged, 0)
			case c == left:
				set(r, c, grate.ContinueRowMerged, 0)
			case c == right:
				set(r, c, grate.EndColumnMerged, 0)
			default:
				set(r, c, grate.ContinueColumnMerged, 0)
			}
		}
	}
}
'''
def section(f,start,end):
    s=open("/repo/"+f).read()
    a=s.index(start); b=s.index(end,a)
    return s[a:b]
SX=section(Y,"				for r := startRow; r <= endRow","\n			case \"hyperlink\"")
SL=section(X,"				for rn := int(firstRow); rn <= int(lastRow); rn++ {\n					for","			}\n			/*")
m("ok xlsx helper",(Y,SX,"				mark(s.wrapped.Put, startRow, startCol, endRow, endCol)\n"),(Y,"func (s *Sheet) parseSheet() error {",HELP.strip()+"\n\nfunc (s *Sheet) parseSheet() error {"))
m("ok xls helper",(X,SL,"				mark(res.Put, int(firstRow), int(firstCol), int(lastRow), int(lastCol))\n"),(X,"func (b *WorkBook) parseSheet(",HELP.strip()+"\n\nfunc (b *WorkBook) parseSheet("))
m("ok xlsx marker chosen first",(Y,SX,'''				for r := startRow; r <= endRow; r++ {
					for c := startCol; c <= endCol; c++ {
						marker := grate.ContinueColumnMerged
						switch {
						case r == startRow && c == startCol:
							continue
						case c == startCol && r == endRow:
							marker = grate.EndRowMerged
						case c == startCol:
							marker = grate.ContinueRowMerged
						case c == endCol:
							marker = grate.EndColumnMerged
						}
						s.wrapped.Put(r, c, marker, 0)
					}
				}
'''))
m("ok xlsx columns outside",(Y,"				for r := startRow; r <= endRow; r++ {\n					for c := startCol; c <= endCol; c++ {","				for c := startCol; c <= endCol; c++ {\n					for r := startRow; r <= endRow; r++ {"))
m("ok xlsx cut",(Y,'''				dims := strings.Split(ax[0], ":")
				startCol, startRow := refToIndexes(dims[0])
				endCol, endRow := startCol, startRow
				if len(dims) > 1 {
					endCol, endRow = refToIndexes(dims[1])
				}
''','''				first, last, isRange := strings.Cut(ax[0], ":")
				startCol, startRow := refToIndexes(first)
				endCol, endRow := startCol, startRow
				if isRange {
					endCol, endRow = refToIndexes(last)
				}
'''))
m("ok xls exclusive ends",(X,SL,SL.replace("rn := int(firstRow); rn <= int(lastRow); rn++","rn := int(firstRow); rn < int(lastRow)+1; rn++").replace("cn := int(firstCol); cn <= int(lastCol); cn++","cn := int(firstCol); cn < int(lastCol)+1; cn++")))
m("ok xls offset instead of slice",(X,"				raw = raw[8:]\n",""),(X,"raw[:2])\n				lastRow := binary.LittleEndian.Uint16(raw[2:4])\n				firstCol := binary.LittleEndian.Uint16(raw[4:6])\n				lastCol := binary.LittleEndian.Uint16(raw[6:])","raw[8*i : 8*i+2])\n				lastRow := binary.LittleEndian.Uint16(raw[8*i+2 : 8*i+4])\n				firstCol := binary.LittleEndian.Uint16(raw[8*i+4 : 8*i+6])\n				lastCol := binary.LittleEndian.Uint16(raw[8*i+6:])"))
m("ok xls count down",(X,"for i := 0; i < int(cmcs); i++ {","for left := int(cmcs); left > 0; left-- {"))
m("ok xls ends as int",(X,SL,"				top, bottom := int(firstRow), int(lastRow)\n"+SL.replace("int(firstRow)","top").replace("int(lastRow)","bottom")))

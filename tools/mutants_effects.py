M=[
(["P33"],"writes temp",[("xls/xls.go","	err = b.loadFromStream(raw)\n",'	os.WriteFile(filename+".bak", raw[:0], 0600)\n	err = b.loadFromStream(raw)\n'),("xls/xls.go",'	"log"\n','	"log"\n	"os"\n')]),
(["P33"],"fatal",[("xlsx/sheets.go",'log.Println("CELL UNKNOWN", val, currentCellType, fno)','log.Fatalln("CELL UNKNOWN", val, currentCellType, fno)')]),
(["P33"],"print",[("commonxl/sheet.go",'log.Println("grate: cell out of bounds")','fmt.Println("grate: cell out of bounds")')]),
(["P33"],"openfile rw",[("xlsx/xlsx.go",'os.Open(filename)','os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0644)')]),
(["P33"],"exit indirect",[("grate.go",'	return nil, ErrUnknownFormat','	f := log.Panicln\n	if filename == "" { f() }\n	return nil, ErrUnknownFormat')]),
(["P33","P23","P32","P22"],"ok ReadFile",[("xls/cfb/cfb.go",'ioutil.ReadAll(rx)','io.ReadAll(rx)'),("xls/cfb/cfb.go",'	"io/ioutil"\n','')]),
(["P23"],"shared scratch",[("xls/sheets.go","	us := make([]uint16, 8224)\n","	us := scratch\n"),("xls/sheets.go","us = appendChars(us[:0], charCount","us = appendChars(scratch[:0], charCount"),("xls/sheets.go","var berrLookup","var scratch = make([]uint16, 0, 8224)\n\nvar berrLookup")]),
(["P23"],"cache map",[("commonxl/formats.go","	x.customCodes[fmtID], x.customCodeTypes[fmtID] = makeFormatter(formatCode)\n","	ff, ct := makeFormatter(formatCode)\n	goFormatters[fmtID] = ff\n	x.customCodes[fmtID], x.customCodeTypes[fmtID] = ff, ct\n")]),
(["P23"],"alias default map",[("commonxl/formats.go","		x.customCodeTypes = make(map[uint16]CellType)\n","		x.customCodeTypes = builtInFormatTypes\n")]),
(["P23"],"password global",[("xls/crypto/rc4.go","	d.Password = make([]rune, len(password))\n","	DefaultXLSPassword = string(password)\n	d.Password = make([]rune, len(password))\n")]),
(["P23"],"last filename",[("xlsx/xlsx.go","	d.rels = make(map","	lastDoc = d\n	d.rels = make(map"),("xlsx/xlsx.go","// sortedKeys makes","var lastDoc *Document\n\n// sortedKeys makes")]),
(["P23"],"append shared slice",[("simple/csv.go","t.rows = append(t.rows, rec)","allRows = append(allRows, rec)\n		t.rows = append(t.rows, rec)"),("simple/csv.go","// OpenCSV defines","var allRows [][]string\n\n// OpenCSV defines")]),
(["P23"],"ok table var",[("simple/csv.go","		if n > 10 &&","		if n > minRows["+'"csv"'+"] &&"),("simple/csv.go","// OpenCSV defines",'var minRows = map[string]int{"csv": 10}\n\n// OpenCSV defines')]),
(["P32"],"debug skips",[("xls/xls.go","		if grate.Debug {\n			log.Printf(\"  Processing","		if grate.Debug && ss > 9 {\n			break\n		}\n		if grate.Debug {\n			log.Printf(\"  Processing")]),
(["P32"],"debug resize",[("commonxl/sheet.go","				row, s.NumRows, col, s.NumCols)\n","				row, s.NumRows, col, s.NumCols)\n			s.NumRows++\n")]),
(["P32"],"debug return",[("xlsx/sheets.go","log.Println(\"      Unhandled sheet xml tag\", v.Name.Local, v.Attr)","log.Println(\"      Unhandled sheet xml tag\", v.Name.Local, v.Attr)\n						return nil")]),
(["P32"],"debug var",[("xls/sheets.go","	inSubstream := 0\n","	inSubstream := 0\n	if grate.Debug {\n		inSubstream = 1\n	}\n")]),
(["P32"],"debug consumes",[("xlsx/workbook.go","log.Printf(\"    Unhandled SST xml token %T %+v\", tok, tok)","log.Printf(\"    Unhandled SST xml token %T %+v\", tok, tok)\n				dec.Skip()")]),
(["P32"],"ok helper",[("xlsx/workbook.go","				if grate.Debug {\n					log.Println(\"      Unhandled workbook xml tag\", v.Name.Local, v.Attr)\n				}","				debugln(\"      Unhandled workbook xml tag\", v.Name.Local, v.Attr)"),("xlsx/workbook.go","func (d *Document) parseRels","func debugln(a ...interface{}) {\n	if !grate.Debug {\n		return\n	}\n	log.Println(a...)\n}\n\nfunc (d *Document) parseRels")]),
(["P32"],"ok local var",[("xls/xls.go","	rawfull := raw\n","	rawfull := raw\n	dbg := grate.Debug\n"),("xls/xls.go","				if grate.Debug && ss == 0 {","				if dbg && ss == 0 {")]),
(["P22"],"unsorted keys",[("xlsx/xlsx.go","	sort.Strings(keys)\n","	if len(keys) < 2 {\n		sort.Strings(keys)\n	}\n")]),
(["P22"],"looks order",[("simple/csv.go","else if n > 25 && looksGood == 0 {","else if n > 25 {")]),
(["P22"],"looks last",[("simple/tsv.go","			looksGood = 2\n		}","			looksGood = 2\n			break\n		}")]),
(["P22"],"time",[("commonxl/dates.go","	v := int(val)\n	if v < 61","	if val == 0 {\n		return time.Now()\n	}\n	v := int(val)\n	if v < 61")]),
(["P22"],"first key",[("xlsx/xlsx.go","	styn := d.rels[","	for k := range d.rels {\n		d.primaryDoc = d.primaryDoc + k\n	}\n	styn := d.rels[")]),
(["P22"],"list from map",[("xls/sheets.go","	return res, nil\n}\n\n// ListHidden","	for k := range berrLookup {\n		if int(k) == len(res) {\n			res = append(res, berrLookup[k])\n		}\n	}\n	return res, nil\n}\n\n// ListHidden")]),
(["P22"],"ok count",[("simple/csv.go","	looksGood := 0\n","	looksGood := 0\n	wide := 0\n	for c := range ncols {\n		if c > 3 {\n			wide++\n		}\n	}\n	if wide > 100 {\n		return nil, grate.ErrNotInFormat\n	}\n")]),
(["P22"],"ok any",[("simple/csv.go","	looksGood := 0\n","	looksGood := 0\n	if hasZero(ncols) {\n		return nil, grate.ErrNotInFormat\n	}\n"),("simple/csv.go","// OpenCSV defines","func hasZero(m map[int]int) bool {\n	for c := range m {\n		if c == 0 {\n			return true\n		}\n	}\n	return false\n}\n\n// OpenCSV defines")]),
(["P22"],"ok max",[("simple/csv.go","	looksGood := 0\n","	looksGood := 0\n	wide := false\n	for c := range ncols {\n		if c > 3 {\n			wide = true\n		}\n	}\n	if wide && total > 1e6 {\n		return nil, grate.ErrNotInFormat\n	}\n")]),
]

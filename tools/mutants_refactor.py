# larger edits which keep the behaviour: every check has to stay quiet on them
M=[]
def R(name,*edits): M.append((["all"],"ok r "+name,list(edits)))
G="grate.go"
R("open index and continue",(G,'''	for _, o := range srcTable {
		src, err := o.op(filename)
		if err == nil {
			return src, nil
		}
		if !errors.Is(err, ErrNotInFormat) {
			return nil, err
		}
		if Debug {
			log.Println(" ", filename, "is not in", o.name, "format")
		}
	}
''','''	for i := 0; i < len(srcTable); i++ {
		o := srcTable[i]
		src, err := o.op(filename)
		switch {
		case err == nil:
			return src, nil
		case errors.Is(err, ErrNotInFormat):
			if Debug {
				log.Println(" ", filename, "is not in", o.name, "format")
			}
			continue
		}
		return nil, err
	}
'''))
R("open method on table",(G,'''		src, err := o.op(filename)
		if err == nil {
			return src, nil
		}
		if !errors.Is(err, ErrNotInFormat) {
			return nil, err
		}
''','''		src, declined, err := o.try(filename)
		if !declined {
			return src, err
		}
'''),(G,'''type srcOpenTab struct {''','''// try opens the file, or reports that it is not in the format.
func (o *srcOpenTab) try(filename string) (src Source, declined bool, err error) {
	src, err = o.op(filename)
	if err == nil {
		return src, false, nil
	}
	return nil, errors.Is(err, ErrNotInFormat), err
}

type srcOpenTab struct {'''))
R("register entry helper",(G,'''	srcTable = append(srcTable, &srcOpenTab{name: name, pri: priority, op: opener})
	sort.Slice(srcTable, func(i, j int) bool {
		return srcTable[i].pri < srcTable[j].pri
	})
	return nil
''','''	entry := &srcOpenTab{name: name, pri: priority, op: opener}
	srcTable = append(srcTable, entry)
	sort.Slice(srcTable, byPriority)
	return nil
'''),(G,'''type srcOpenTab struct {''','''func byPriority(i, j int) bool {
	a, b := srcTable[i], srcTable[j]
	return a.pri < b.pri
}

type srcOpenTab struct {'''))
R("errs index loops",("errs.go",'''	for _, err := range e.errs {
		if errors.Is(err, target) {
			return true
		}
	}
	return false
''','''	found := false
	for i := 0; i < len(e.errs) && !found; i++ {
		found = errors.Is(e.errs[i], target)
	}
	return found
'''),("errs.go",'''	if len(e) == 1 {
		return e[0]
	}
	return errx{errs: e}
''','''	switch len(e) {
	case 1:
		return e[0]
	default:
		return errx{errs: e}
	}
'''))
S="simple/simple.go"
R("text heuristics helper",("simple/csv.go",'''	looksGood := 0
	for c, n := range ncols {
		if c <= 1 {
			continue
		}
		if n > 10 && float64(n)/float64(total) > 0.8 {
			// more than 80% of rows have the same number of columns, we're good
			looksGood = 2
		} else if n > 25 && looksGood == 0 {
			looksGood = 1
		}
	}
	if looksGood == 1 {
		return t, grate.ErrNotInFormat
	}

	return t, nil
}
''','''	if ambiguous(ncols, total) {
		return t, grate.ErrNotInFormat
	}

	return t, nil
}

func ambiguous(ncols map[int]int, total int) bool {
	looksGood := 0
	for c, n := range ncols {
		if c <= 1 {
			continue
		}
		if n > 10 && float64(n)/float64(total) > 0.8 {
			// more than 80% of rows have the same number of columns, we're good
			looksGood = 2
		} else if n > 25 && looksGood == 0 {
			looksGood = 1
		}
	}
	return looksGood == 1
}
'''),("simple/tsv.go",'''	looksGood := 0
	for c, n := range ncols {
		if c <= 1 {
			continue
		}
		if n > 10 && float64(n)/float64(total) > 0.8 {
			// more than 80% of rows have the same number of columns, we're good
			looksGood = 2
		} else if n > 25 && looksGood == 0 {
			looksGood = 1
		}
	}
	if looksGood == 1 {''','''	if ambiguous(ncols, total) {'''))
R("text row helper",(S,'''// Strings extracts''','''func (t *simpleFile) row() []string {
	return t.rows[t.iterRow]
}

// Strings extracts'''),(S,'''	res := make([]string, len(t.rows[t.iterRow]))
	copy(res, t.rows[t.iterRow])
	return res
''','''	row := t.row()
	res := make([]string, len(row))
	for i, v := range row {
		res[i] = v
	}
	return res
'''),(S,'''	res := make([]string, len(t.rows[t.iterRow]))
	for i := range res {
		res[i] = "General"
	}
	return res
''','''	row := t.row()
	res := make([]string, 0, len(row))
	for range row {
		res = append(res, "General")
	}
	return res
'''),(S,'''	for i, v := range t.rows[t.iterRow] {
		if v == "" {
			res[i] = "blank"
		} else {
			res[i] = "string"
		}
	}
''','''	for i, v := range t.row() {
		res[i] = typeName(v)
	}
'''),(S,'''// IsEmpty returns''','''func typeName(v string) string {
	if v == "" {
		return "blank"
	}
	return "string"
}

// IsEmpty returns'''),(S,'''	row := t.rows[t.iterRow]
	if len(row) != len(args) {''','''	row := t.row()
	if len(row) != len(args) {'''))
R("text scan value helper",(S,'''	for i, a := range args {
		switch v := a.(type) {
		case *bool:
			switch strings.ToLower(row[i]) {
			case "1", "t", "true", "y", "yes":
				*v = true
			default:
				*v = false
			}
		case *int:
			var n int64
			n, err = strconv.ParseInt(row[i], 10, 64)
			if err == nil {
				*v = int(n)
			}
		case *int64:
			var n int64
			n, err = strconv.ParseInt(row[i], 10, 64)
			if err == nil {
				*v = n
			}
		case *float64:
			var n float64
			n, err = strconv.ParseFloat(row[i], 64)
			if err == nil {
				*v = n
			}
		case *string:
			*v = row[i]
		case *time.Time:
			return errors.New("grate/simple: time.Time not supported, you must parse date strings manually")
		default:
			return grate.ErrInvalidScanType
		}
		if err != nil {
			return err
		}
	}
	return nil
}
''','''	for i := range args {
		if err = scanValue(row[i], args[i]); err != nil {
			return err
		}
	}
	return nil
}

// scanValue stores the text in the destination.
func scanValue(text string, dest interface{}) error {
	switch v := dest.(type) {
	case *bool:
		*v = truth(text)
	case *int:
		n, err := strconv.ParseInt(text, 10, 64)
		if err != nil {
			return err
		}
		*v = int(n)
	case *int64:
		n, err := strconv.ParseInt(text, 10, 64)
		if err != nil {
			return err
		}
		*v = n
	case *float64:
		n, err := strconv.ParseFloat(text, 64)
		if err != nil {
			return err
		}
		*v = n
	case *string:
		*v = text
	case *time.Time:
		return errors.New("grate/simple: time.Time not supported, you must parse date strings manually")
	default:
		return grate.ErrInvalidScanType
	}
	return nil
}

func truth(s string) bool {
	switch strings.ToLower(s) {
	case "1", "t", "true", "y", "yes":
		return true
	}
	return false
}
'''))
R("text open shared",("simple/tsv.go",'''	s := bufio.NewScanner(f)
	total := 0
	ncols := make(map[int]int)
	for s.Scan() {
		r := strings.Split(s.Text(), "\\t")
		ncols[len(r)]++
		total++
		t.rows = append(t.rows, r)
	}
''','''	total := 0
	ncols := map[int]int{}
	s := bufio.NewScanner(f)
	for s.Scan() {
		line := s.Text()
		fields := strings.Split(line, "\\t")
		t.rows = append(t.rows, fields)
		total++
		ncols[len(fields)] += 1
	}
'''),("simple/csv.go",'''	rec, err := s.Read()
	for ; err == nil; rec, err = s.Read() {
		ncols[len(rec)]++
		total++
		t.rows = append(t.rows, rec)
	}
	if err != io.EOF {''','''	for {
		var rec []string
		rec, err = s.Read()
		if err != nil {
			break
		}
		t.rows = append(t.rows, rec)
		ncols[len(rec)]++
		total++
	}
	if err != io.EOF {'''))
X="xlsx/sheets.go"
R("xlsx links helper",(X,'''	linkmap := make(map[string]string)
	base := filepath.Base(s.docname)
	sub := strings.TrimSuffix(s.docname, base)
	relsname := filepath.Join(sub, "_rels", base+".rels")
	dec, clo, err := s.d.openXML(relsname)
	if err != nil && err != io.EOF {
		return err
	}
	if err == nil {
		// rels might not exist for every sheet
		var tok xml.Token
		tok, err = dec.RawToken()
		for ; err == nil; tok, err = dec.RawToken() {
			if v, ok := tok.(xml.StartElement); ok && v.Name.Local == "Relationship" {
				ax := getAttrs(v.Attr, "Id", "Type", "Target", "TargetMode")
				if ax[3] == "External" && ax[1] == "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink" {
					linkmap[ax[0]] = ax[2]
				}
			}
		}
		clo.Close()
		if err != io.EOF {
			return err
		}
	}

	dec, clo, err = s.d.openXML(s.docname)
''','''	linkmap, err := s.parseLinks()
	if err != nil {
		return err
	}

	dec, clo, err := s.d.openXML(s.docname)
'''),(X,'''func (s *Sheet) parseSheet() error {''','''const hyperlinkType = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink"

// parseLinks reads the external targets of the hyperlinks by id.
func (s *Sheet) parseLinks() (map[string]string, error) {
	linkmap := make(map[string]string)
	base := filepath.Base(s.docname)
	sub := strings.TrimSuffix(s.docname, base)
	dec, clo, err := s.d.openXML(filepath.Join(sub, "_rels", base+".rels"))
	if err == io.EOF {
		// rels might not exist for every sheet
		return linkmap, nil
	}
	if err != nil {
		return nil, err
	}
	defer clo.Close()
	for {
		tok, err := dec.RawToken()
		if err == io.EOF {
			return linkmap, nil
		}
		if err != nil {
			return nil, err
		}
		v, ok := tok.(xml.StartElement)
		if !ok || v.Name.Local != "Relationship" {
			continue
		}
		ax := getAttrs(v.Attr, "Id", "Type", "Target", "TargetMode")
		if ax[3] == "External" && ax[1] == hyperlinkType {
			linkmap[ax[0]] = ax[2]
		}
	}
}

func (s *Sheet) parseSheet() error {'''))
R("xlsx merge helper",(X,'''				startCol, startRow := refToIndexes(dims[0])
				endCol, endRow := startCol, startRow
				if len(dims) > 1 {
					endCol, endRow = refToIndexes(dims[1])
				}
				if startRow < 0 || startCol < 0 {
					continue
				}
				// the dimension is optional, but cells come before merges
				if endRow >= s.wrapped.NumRows {
					endRow = s.wrapped.NumRows - 1
				}
				if endCol >= s.wrapped.NumCols {
					endCol = s.wrapped.NumCols - 1
				}
				for r := startRow; r <= endRow; r++ {
					for c := startCol; c <= endCol; c++ {
						if r == startRow && c == startCol {
							// has data already!
						} else if c == startCol {
							// first and last column MAY be the same
							if r == endRow {
								s.wrapped.Put(r, c, grate.EndRowMerged, 0)
							} else {
								s.wrapped.Put(r, c, grate.ContinueRowMerged, 0)
							}
						} else if c == endCol {
							// first and last column are NOT the same
							s.wrapped.Put(r, c, grate.EndColumnMerged, 0)
						} else {
							s.wrapped.Put(r, c, grate.ContinueColumnMerged, 0)
						}
					}
				}
''','''				s.merge(dims)
'''),(X,'''func (s *Sheet) parseSheet() error {''','''// merge marks the cells of a merged area.
func (s *Sheet) merge(dims []string) {
	startCol, startRow := refToIndexes(dims[0])
	endCol, endRow := startCol, startRow
	if len(dims) > 1 {
		endCol, endRow = refToIndexes(dims[1])
	}
	if startRow < 0 || startCol < 0 {
		return
	}
	// the dimension is optional, but cells come before merges
	if endRow >= s.wrapped.NumRows {
		endRow = s.wrapped.NumRows - 1
	}
	if endCol >= s.wrapped.NumCols {
		endCol = s.wrapped.NumCols - 1
	}
	for r := startRow; r <= endRow; r++ {
		for c := startCol; c <= endCol; c++ {
			if m := marker(r == startRow, r == endRow, c == startCol, c == endCol); m != "" {
				s.wrapped.Put(r, c, m, 0)
			}
		}
	}
}

func marker(firstRow, lastRow, firstCol, lastCol bool) string {
	switch {
	case firstRow && firstCol:
		return ""
	case firstCol && lastRow:
		return grate.EndRowMerged
	case firstCol:
		return grate.ContinueRowMerged
	case lastCol:
		return grate.EndColumnMerged
	}
	return grate.ContinueColumnMerged
}

func (s *Sheet) parseSheet() error {'''))
R("xlsx cell value helper",(X,'''				var val interface{} = cellText

				switch currentCellType {
				case BooleanCellType:
					val = cellText[0] == '1'
				case DateCellType:
					log.Println("CELL DATE", val, fno)
				case NumberCellType:
					fval, err := strconv.ParseFloat(cellText, 64)
					if err == nil {
						val = fval
					}
					//log.Println("CELL NUMBER", val, numFormat)
				case SharedStringCellType:
					//log.Println("CELL SHSTR", val, currentCellType, numFormat)
					si, err := strconv.ParseInt(cellText, 10, 64)
					if err != nil || si < 0 || si >= int64(len(s.d.strings)) {
						return errors.New("xlsx: invalid shared string index")
					}
					val = s.d.strings[si]
				case ErrorCellType, FormulaStringCellType, InlineStringCellType:
					//log.Println("CELL ERR/FORM/INLINE", val, currentCellType)
				default:
					log.Println("CELL UNKNOWN", val, currentCellType, fno)
				}
				s.wrapped.Put(r, c, val, fno)
''','''				val, err := s.d.cellValue(currentCellType, cellText)
				if err != nil {
					return err
				}
				s.wrapped.Put(r, c, val, fno)
'''),(X,'''func (s *Sheet) parseSheet() error {''','''// cellValue interprets the text of a cell.
func (d *Document) cellValue(typ CellType, text string) (interface{}, error) {
	switch typ {
	case BooleanCellType:
		return text[0] == '1', nil
	case NumberCellType:
		if fval, err := strconv.ParseFloat(text, 64); err == nil {
			return fval, nil
		}
	case SharedStringCellType:
		si, err := strconv.Atoi(text)
		if err != nil || si < 0 || si >= len(d.strings) {
			return nil, errors.New("xlsx: invalid shared string index")
		}
		return d.strings[si], nil
	case DateCellType:
		log.Println("CELL DATE", text)
	case ErrorCellType, FormulaStringCellType, InlineStringCellType:
	default:
		log.Println("CELL UNKNOWN", text, typ)
	}
	return text, nil
}

func (s *Sheet) parseSheet() error {'''))
R("xlsx sheet split start end",(X,'''				sid, _ := strconv.ParseInt(style, 10, 64)
				if len(s.d.xfs) > int(sid) {
					fno = s.d.xfs[sid]
				} else {
					fno = 0
				}
''','''				fno = 0
				if sid, _ := strconv.ParseInt(style, 10, 64); int(sid) < len(s.d.xfs) {
					fno = s.d.xfs[sid]
				}
'''),(X,'''				if ax[0] == "A1" {
					// short-circuit empty sheet
					s.wrapped.Resize(1, 1)
					continue
				}
				dims := strings.Split(ax[0], ":")
				var maxCol, maxRow int
				if len(dims) == 1 {
					maxCol, maxRow = refToIndexes(dims[0])
				} else {
					//minCol, minRow := refToIndexes(dims[0])
					maxCol, maxRow = refToIndexes(dims[1])
				}
				s.wrapped.Resize(maxRow+1, maxCol+1)
''','''				ref := ax[0]
				if dims := strings.Split(ref, ":"); len(dims) > 1 {
					ref = dims[1]
				}
				maxCol, maxRow := refToIndexes(ref)
				s.wrapped.Resize(maxRow+1, maxCol+1)
'''))
T="xlsx/types.go"
R("xlsx refs",(T,'''	i1 := strings.IndexAny(r, "0123456789")
	if i1 <= 0 {
		return -1, -1
	}
''','''	i1 := strings.IndexAny(r, "0123456789")
	if i1 < 1 {
		return -1, -1
	}
'''),(T,'''	i2 := strings.IndexByte(r[i1:], 'C')
	if i2 == -1 {
		rn, _ := strconv.ParseInt(r[i1:], 10, 64)
		return checkIndexes(col2int(col1), int(rn)-1)
	}
''','''	rest := r[i1:]
	i2 := strings.IndexByte(rest, 'C')
	if i2 < 0 {
		rn, _ := strconv.ParseInt(rest, 10, 64)
		column, row = col2int(col1), int(rn)-1
		return checkIndexes(column, row)
	}
'''),(T,'''	if column < 0 || column >= maxColumns || row < 0 || row >= maxRows {
		return -1, -1
	}
	return column, row
''','''	if 0 <= column && column < maxColumns && 0 <= row && row < maxRows {
		return column, row
	}
	return -1, -1
'''),(T,'''	idx := 0
	for _, c := range col {
		idx *= 26
		idx += int(c - '@')
	}
	return idx - 1
''','''	n := 0
	for _, c := range col {
		digit := int(c - '@')
		n = n*26 + digit
	}
	return n - 1
'''))
R("xlsx attrs switched loops",(T,'''	for _, a := range attrs {
		for i, k := range keys {
			if a.Name.Local == k {
				res[i] = a.Value
			}
		}
	}
''','''	for i, k := range keys {
		for j := range attrs {
			if attrs[j].Name.Local == k {
				res[i] = attrs[j].Value
			}
		}
	}
'''))
R("xlsx attrs backwards",(T,'''	for _, a := range attrs {
		for i, k := range keys {
			if a.Name.Local == k {
				res[i] = a.Value
			}
		}
	}
	return res
}
''','''	for i, k := range keys {
		res[i] = attrValue(attrs, k)
	}
	return res
}

// attrValue is the value of the last attribute with the name.
func attrValue(attrs []xml.Attr, name string) string {
	for j := len(attrs) - 1; j >= 0; j-- {
		if attrs[j].Name.Local == name {
			return attrs[j].Value
		}
	}
	return ""
}
'''))
W="xlsx/workbook.go"
R("xlsx rels locals",(W,'''				if _, ok := d.rels[vals["Type"]]; !ok {
					d.rels[vals["Type"]] = make(map[string]string)
				}
				if strings.HasPrefix(vals["Target"], "/") {
					// handle malformed "absolute" paths cleanly
					d.rels[vals["Type"]][vals["Id"]] = vals["Target"][1:]
				} else {
					d.rels[vals["Type"]][vals["Id"]] = filepath.Join(basedir, vals["Target"])
				}
				if vals["Type"] == "http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" {
					d.primaryDoc = d.rels[vals["Type"]][vals["Id"]]
				}
''','''				typ, target := vals["Type"], vals["Target"]
				byID, ok := d.rels[typ]
				if !ok {
					byID = make(map[string]string)
					d.rels[typ] = byID
				}
				part := partFor(basedir, target)
				byID[vals["Id"]] = part
				if typ == officeDocumentType {
					d.primaryDoc = part
				}
'''),(W,'''func (d *Document) parseRels(''','''const officeDocumentType = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument"

func partFor(basedir, target string) string {
	if strings.HasPrefix(target, "/") {
		// handle malformed "absolute" paths cleanly
		return strings.TrimPrefix(target, "/")
	}
	return filepath.Join(basedir, target)
}

func (d *Document) parseRels('''))
R("xlsx workbook add sheet",(W,'''				s := &Sheet{
					d:       d,
					relID:   sheetID,
					name:    sheetName,
					docname: d.rels["http://schemas.openxmlformats.org/officeDocument/2006/relationships/worksheet"][sheetID],
					err:     errNotLoaded,
				}
				d.sheets = append(d.sheets, s)
''','''				d.addSheet(sheetID, sheetName)
'''),(W,'''func (d *Document) parseWorkbook(''','''func (d *Document) addSheet(id, name string) {
	parts := d.rels["http://schemas.openxmlformats.org/officeDocument/2006/relationships/worksheet"]
	s := &Sheet{d: d, relID: id, name: name, err: errNotLoaded}
	s.docname = parts[id]
	d.sheets = append(d.sheets, s)
}

func (d *Document) parseWorkbook('''))
LOOP='''	if err == io.EOF {
		err = nil
	}
	return err
}

func (d *Document) %s('''
R("xlsx token loops",(W,'''	tok, err := dec.RawToken()
	for ; err == nil; tok, err = dec.RawToken() {
		switch v := tok.(type) {
		case xml.CharData:''','''	for {
		tok, err := dec.RawToken()
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}
		switch v := tok.(type) {
		case xml.CharData:'''),(W,'''				log.Printf("    Unhandled SST xml token %T %+v", tok, tok)
			}
		}
	}
	if err == io.EOF {
		err = nil
	}
	return err
}''','''				log.Printf("    Unhandled SST xml token %T %+v", tok, tok)
			}
		}
	}
}'''),(W,'''	section := 0
	tok, err := dec.RawToken()
	for ; err == nil; tok, err = dec.RawToken() {
''','''	section := 0
	for {
		tok, err := dec.RawToken()
		if err != nil {
			if err == io.EOF {
				break
			}
			return err
		}
'''),(W,'''	if err == io.EOF {
		err = nil
	}
	return err
}

func (d *Document) parseSharedStrings''','''	return nil
}

func (d *Document) parseSharedStrings'''),(W,'''	tok, err := dec.RawToken()
	for ; err == nil; tok, err = dec.RawToken() {
		switch v := tok.(type) {
		case xml.StartElement:
			switch v.Name.Local {
			case "sheet":''','''	var tok xml.Token
	var err error
	for {
		if tok, err = dec.RawToken(); err != nil {
			break
		}
		switch v := tok.(type) {
		case xml.StartElement:
			switch v.Name.Local {
			case "sheet":'''))
R("xlsx styles switch section",(W,'''				if section == 1 {
					// load base styles, but only save number format
					if ax[1] == "0" {
						baseNumFormats = append(baseNumFormats, "0")
					} else {
						baseNumFormats = append(baseNumFormats, ax[0])
					}
				} else if section == 2 {
					// actual referencable cell styles
					// 1) get base style so we can inherit format properly
					baseID, _ := strconv.ParseInt(ax[2], 10, 64)
					numFmtID := "0"
					if len(baseNumFormats) > int(baseID) {
						numFmtID = baseNumFormats[baseID]
					}

					// 2) check if this XF overrides the base format
					if ax[1] == "0" {
						// remove the format (if it was inherited)
						numFmtID = "0"
					} else if ax[0] != "" {
						numFmtID = ax[0]
					}

					nfid, _ := strconv.ParseInt(numFmtID, 10, 16)
					d.xfs = append(d.xfs, uint16(nfid))
				} else {
					panic("wheres is this xf??")
				}
''','''				numFmtID, apply, base := ax[0], ax[1], ax[2]
				switch section {
				case 1:
					// load base styles, but only save number format
					if apply == "0" {
						numFmtID = "0"
					}
					baseNumFormats = append(baseNumFormats, numFmtID)
				case 2:
					// actual referencable cell styles
					d.xfs = append(d.xfs, styleFormat(numFmtID, apply, base, baseNumFormats))
				default:
					panic("wheres is this xf??")
				}
'''),(W,'''func (d *Document) parseStyles(''','''// styleFormat selects the number format of a cell style.
func styleFormat(numFmtID, apply, base string, baseNumFormats []string) uint16 {
	if apply == "0" {
		return 0
	}
	if numFmtID == "" {
		numFmtID = "0"
		baseID, _ := strconv.ParseInt(base, 10, 64)
		if int(baseID) < len(baseNumFormats) {
			numFmtID = baseNumFormats[baseID]
		}
	}
	nfid, _ := strconv.ParseInt(numFmtID, 10, 16)
	return uint16(nfid)
}

func (d *Document) parseStyles('''))
P="xlsx/xlsx.go"
PARSE1='''	dec, c, err := d.openXML("_rels/.rels")
	if err != nil {
		return nil, grate.WrapErr(err, grate.ErrNotInFormat)
	}
	err = d.parseRels(dec, "")
	c.Close()
	if err != nil {
		return nil, grate.WrapErr(err, grate.ErrNotInFormat)
	}
'''
R("xlsx open parts with callback",(P,PARSE1,'''	err = d.withPart("_rels/.rels", func(dec *xml.Decoder) error {
		return d.parseRels(dec, "")
	})
	if err != nil {
		return nil, grate.WrapErr(err, grate.ErrNotInFormat)
	}
'''),(P,'''	dec, c, err = d.openXML(relfn)
	if err != nil {
		return nil, err
	}
	err = d.parseRels(dec, sub)
	c.Close()
	if err != nil {
		return nil, err
	}

	// parse the workbook structure
	dec, c, err = d.openXML(d.primaryDoc)
	if err != nil {
		return nil, err
	}
	err = d.parseWorkbook(dec)
	c.Close()
	if err != nil {
		return nil, err
	}
''','''	err = d.withPart(relfn, func(dec *xml.Decoder) error {
		return d.parseRels(dec, sub)
	})
	if err != nil {
		return nil, err
	}

	// parse the workbook structure
	if err = d.withPart(d.primaryDoc, d.parseWorkbook); err != nil {
		return nil, err
	}
'''),(P,'''		dec, c, err = d.openXML(styn[id])
		if err != nil {
			return nil, err
		}
		err = d.parseStyles(dec)
		c.Close()
		if err != nil {
			return nil, err
		}
''','''		if err = d.withPart(styn[id], d.parseStyles); err != nil {
			return nil, err
		}
'''),(P,'''		dec, c, err = d.openXML(ssn[id])
		if err != nil {
			return nil, err
		}
		err = d.parseSharedStrings(dec)
		c.Close()
		if err != nil {
			return nil, err
		}
''','''		if err = d.withPart(ssn[id], d.parseSharedStrings); err != nil {
			return nil, err
		}
'''),(P,'''// sortedKeys makes''','''// withPart reads a part of the package with the parser.
func (d *Document) withPart(name string, parse func(*xml.Decoder) error) error {
	dec, c, err := d.openXML(name)
	if err != nil {
		return err
	}
	defer c.Close()
	return parse(dec)
}

// sortedKeys makes'''))
R("xlsx open load method",(P,PARSE1,'''	if err := d.load(); err != nil {
		return nil, err
	}
	return d, nil
}

func (d *Document) load() error {
	dec, c, err := d.openXML("_rels/.rels")
	if err != nil {
		return grate.WrapErr(err, grate.ErrNotInFormat)
	}
	err = d.parseRels(dec, "")
	c.Close()
	if err != nil {
		return grate.WrapErr(err, grate.ErrNotInFormat)
	}
'''),(P,'''	if d.primaryDoc == "" {
		return nil, errors''','''	if d.primaryDoc == "" {
		return errors'''),(P,'''	dec, c, err = d.openXML(relfn)
	if err != nil {
		return nil, err
	}
	err = d.parseRels(dec, sub)
	c.Close()
	if err != nil {
		return nil, err
	}

	// parse the workbook structure
	dec, c, err = d.openXML(d.primaryDoc)
	if err != nil {
		return nil, err
	}
	err = d.parseWorkbook(dec)
	c.Close()
	if err != nil {
		return nil, err
	}
''','''	dec, c, err = d.openXML(relfn)
	if err != nil {
		return err
	}
	err = d.parseRels(dec, sub)
	c.Close()
	if err != nil {
		return err
	}

	// parse the workbook structure
	dec, c, err = d.openXML(d.primaryDoc)
	if err != nil {
		return err
	}
	err = d.parseWorkbook(dec)
	c.Close()
	if err != nil {
		return err
	}
'''),(P,'''		dec, c, err = d.openXML(styn[id])
		if err != nil {
			return nil, err
		}
		err = d.parseStyles(dec)
		c.Close()
		if err != nil {
			return nil, err
		}
''','''		dec, c, err = d.openXML(styn[id])
		if err != nil {
			return err
		}
		err = d.parseStyles(dec)
		c.Close()
		if err != nil {
			return err
		}
'''),(P,'''		dec, c, err = d.openXML(ssn[id])
		if err != nil {
			return nil, err
		}
		err = d.parseSharedStrings(dec)
		c.Close()
		if err != nil {
			return nil, err
		}
	}

	return d, nil
''','''		dec, c, err = d.openXML(ssn[id])
		if err != nil {
			return err
		}
		err = d.parseSharedStrings(dec)
		c.Close()
		if err != nil {
			return err
		}
	}

	return nil
'''))
R("xlsx find part",(P,'''	for _, zf := range d.r.File {
		if zf.Name == name {
			zfr, err := zf.Open()
			if err != nil {
				return nil, nil, err
			}
			dec := xml.NewDecoder(zfr)
			return dec, zfr, nil
		}
	}
	return nil, nil, io.EOF
}
''','''	zf := d.find(name)
	if zf == nil {
		return nil, nil, io.EOF
	}
	zfr, err := zf.Open()
	if err != nil {
		return nil, nil, err
	}
	return xml.NewDecoder(zfr), zfr, nil
}

func (d *Document) find(name string) *zip.File {
	for i := range d.r.File {
		if d.r.File[i].Name == name {
			return d.r.File[i]
		}
	}
	return nil
}
'''),(P,'''	keys := make([]string, 0, len(rels))
	for id := range rels {
		keys = append(keys, id)
	}
''','''	var keys []string
	for id := range rels {
		keys = append(keys, id)
	}
'''))
R("xlsx get load helper",(P,'''	for _, s := range d.sheets {
		if s.name == sheetName {
			if s.err == errNotLoaded {
				s.err = s.parseSheet()
			}
			if s.err != nil {
				return nil, s.err
			}
			// every Collection has its own position
			sheet := *s.wrapped
			sheet.CurRow = 0
			return &sheet, nil
		}
	}
	return nil, errors.New("xlsx: sheet not found")
}''','''	s := d.sheetNamed(sheetName)
	if s == nil {
		return nil, errors.New("xlsx: sheet not found")
	}
	if err := s.load(); err != nil {
		return nil, err
	}
	// every Collection has its own position
	sheet := *s.wrapped
	sheet.CurRow = 0
	return &sheet, nil
}

func (d *Document) sheetNamed(name string) *Sheet {
	for i := 0; i < len(d.sheets); i++ {
		if d.sheets[i].name == name {
			return d.sheets[i]
		}
	}
	return nil
}

func (s *Sheet) load() error {
	if s.err == errNotLoaded {
		s.err = s.parseSheet()
	}
	return s.err
}'''),(P,'''	d.xfs = d.xfs[:0]
	d.xfs = nil
	d.strings = d.strings[:0]
	d.strings = nil
	d.sheets = d.sheets[:0]
	d.sheets = nil
''','''	d.xfs, d.strings, d.sheets = nil, nil, nil
'''),(P,'''	res := make([]string, 0, len(d.sheets))
	for _, s := range d.sheets {
		res = append(res, s.name)
	}
	return res, nil
''','''	names := make([]string, len(d.sheets))
	for i, s := range d.sheets {
		names[i] = s.name
	}
	return names, nil
'''))
L="xls/sheets.go"
R("xls list with predicate",(L,'''	res := make([]string, 0, len(b.sheets))
	for _, s := range b.sheets {
		if (s.HiddenState & 0x03) == 0 {
			res = append(res, s.Name)
		}
	}
	return res, nil
}
''','''	return b.names(false), nil
}

// names of the visible or hidden sheets
func (b *WorkBook) names(hidden bool) []string {
	res := make([]string, 0, len(b.sheets))
	for _, s := range b.sheets {
		if s.isHidden() == hidden {
			res = append(res, s.Name)
		}
	}
	return res
}

func (s *boundSheet) isHidden() bool {
	return (s.HiddenState & 0x03) != 0
}
'''),(L,'''	res := make([]string, 0, len(b.sheets))
	for _, s := range b.sheets {
		if (s.HiddenState & 0x03) != 0 {
			res = append(res, s.Name)
		}
	}
	return res, nil
''','''	return b.names(true), nil
'''))
R("xls list with closure",(L,'''	res := make([]string, 0, len(b.sheets))
	for _, s := range b.sheets {
		if (s.HiddenState & 0x03) == 0 {
			res = append(res, s.Name)
		}
	}
	return res, nil
}
''','''	return b.names(func(s *boundSheet) bool { return s.HiddenState&0x03 == 0 }), nil
}

func (b *WorkBook) names(keep func(*boundSheet) bool) []string {
	res := make([]string, 0, len(b.sheets))
	for _, s := range b.sheets {
		if !keep(s) {
			continue
		}
		res = append(res, s.Name)
	}
	return res
}
'''),(L,'''	res := make([]string, 0, len(b.sheets))
	for _, s := range b.sheets {
		if (s.HiddenState & 0x03) != 0 {
			res = append(res, s.Name)
		}
	}
	return res, nil
''','''	return b.names(func(s *boundSheet) bool { return s.HiddenState&0x03 != 0 }), nil
'''))
R("xls get find",(L,'''	for _, s := range b.sheets {
		if s.Name == sheetName {
			ss, ok := b.pos2substream[int64(s.Position)]
			if !ok {
				return nil, errors.New("xls: sheet contents not found")
			}
			sheet, err := b.parseSheet(s, ss)
			if err != nil {
				return nil, err
			}
			return sheet, nil
		}
	}
	return nil, errors.New("xls: sheet not found")
}
''','''	var found *boundSheet
	for _, s := range b.sheets {
		if s.Name == sheetName {
			found = s
			break
		}
	}
	if found == nil {
		return nil, errors.New("xls: sheet not found")
	}
	ss, ok := b.pos2substream[int64(found.Position)]
	if !ok {
		return nil, errors.New("xls: sheet contents not found")
	}
	sheet, err := b.parseSheet(found, ss)
	if err != nil {
		return nil, err
	}
	return sheet, nil
}
'''))
FNO='''			var fno uint16
			if ixfe < len(b.xfs) {
				fno = b.xfs[ixfe]
			}
'''
R("xls format helper",*([(L,'''				var fno uint16
				if ixfe < len(b.xfs) {
					fno = b.xfs[ixfe]
				}
''','''				fno := b.formatOf(ixfe)
''')]*2+[(L,FNO,'''			fno := b.formatOf(ixfe)
''')]*4+[(L,'''var berrLookup =''','''// formatOf is the number format of a style.
func (b *WorkBook) formatOf(ixfe int) uint16 {
	if ixfe >= len(b.xfs) {
		return 0
	}
	return b.xfs[ixfe]
}

var berrLookup =''')]))
R("xls cell header and error helper",*([(L,'''			rowIndex := int(binary.LittleEndian.Uint16(r.Data[:2]))
			colIndex := int(binary.LittleEndian.Uint16(r.Data[2:4]))
''','''			rowIndex, colIndex := cellPosition(r.Data)
''')]*5+[(L,'''				be, ok := berrLookup[r.Data[6]]
				if !ok {
					be = "<unknown error>"
				}
				res.Put(rowIndex, colIndex, be, 0)
''','''				res.Put(rowIndex, colIndex, errorName(r.Data[6]), 0)
'''),(L,'''					be, ok := berrLookup[fdata[2]]
					if !ok {
						be = "<unknown error>"
					}
					res.Put(int(formulaRow), int(formulaCol), be, 0)
''','''					res.Put(int(formulaRow), int(formulaCol), errorName(fdata[2]), 0)
'''),(L,'''var berrLookup =''','''func cellPosition(data []byte) (row, col int) {
	le := binary.LittleEndian
	return int(le.Uint16(data)), int(le.Uint16(data[2:]))
}

func errorName(code byte) string {
	if name, ok := berrLookup[code]; ok {
		return name
	}
	return "<unknown error>"
}

var berrLookup =''')]))
R("xls bool short",(L,'''				bv := false
				if r.Data[6] == 1 {
					bv = true
				}
				var fno''','''				bv := r.Data[6] == 1
				var fno'''),(L,'''					bv := false
					if fdata[2] != 0 {
						bv = true
					}
					res.Put''','''					bv := fdata[2] != 0
					res.Put'''))
R("xls rk value",*([(L,'''				var rval interface{}
				if value.IsInteger() {
					rval = value.Int()
				} else {
					rval = value.Float64()
				}
''','''				rval := value.value()
'''),(L,'''			var rval interface{}
			if value.IsInteger() {
				rval = value.Int()
			} else {
				rval = value.Float64()
			}
''','''			rval := value.value()
'''),("xls/structs.go",'''func (r RKNumber) IsInteger() bool {
	if (r & 1) != 0 {
		// has 2 decimals
		return false
	}
	if (r & 2) == 0 {
		// is part of a float
		return false
	}
	return true
}
''','''// value is the number as an integer if it is one.
func (r RKNumber) value() interface{} {
	if !r.IsInteger() {
		return r.Float64()
	}
	return r.Int()
}

func (r RKNumber) IsInteger() bool {
	return r&3 == 2
}
'''),("xls/structs.go",'''	val := int32(r) >> 2
	v2 := math.Float64frombits(uint64(val) << 34)

	if (r&1) == 0 && (r&2) == 0 {
		return v2
	}
	if (r&1) != 0 && (r&2) == 0 {
		return v2 / 100.0
	}
	// integer, possibly with 2 implied decimals
	if (r & 1) != 0 {
		return float64(val) / 100.0
	}
	return float64(val)
''','''	var f float64
	if (r & 2) != 0 {
		f = float64(int32(r) >> 2)
	} else {
		f = math.Float64frombits(uint64(r&0xFFFFFFFC) << 32)
	}
	if (r & 1) != 0 {
		f /= 100.0
	}
	return f
''')]))
R("xls split passes",(L,'''			// pre-allocate cells
			res.Resize(int(maxRow), int(maxCol))
		}
	}
	inSubstream = 0

	var formulaRow, formulaCol uint16
''','''			// pre-allocate cells
			res.Resize(int(maxRow), int(maxCol))
		}
	}
	err := b.readCells(res, ss, maxRow, maxCol, us)
	if err != nil {
		return nil, err
	}
	return res, nil
}

// readCells stores the cells of the sheet.
func (b *WorkBook) readCells(res *commonxl.Sheet, ss int, maxRow uint32, maxCol uint16, us []uint16) error {
	inSubstream := 0
	var formulaRow, formulaCol uint16
'''),(L,'''				return nil, errors.New("xls: invalid sst index")''','''				return errors.New("xls: invalid sst index")'''),(L,'''			*/
		}
	}
	return res, nil
}
''','''			*/
		}
	}
	return nil
}
'''))
R("xls nested helper",(L,'''		if inSubstream > 0 {
			if r.RecType == RecTypeEOF {
				inSubstream--
			} else if r.RecType == RecTypeBOF {
				inSubstream++
			}
			continue
		}
''','''		if inSubstream > 0 {
			inSubstream += nesting(r)
			continue
		}
'''),(L,'''			if r.RecType == RecTypeEOF {
				inSubstream--
			} else if r.RecType == RecTypeBOF {
				inSubstream++
			} else if grate.Debug {
				log.Println("      Unhandled sheet substream record type:", r.RecType, ridx)
			}
			continue
''','''			change := nesting(r)
			inSubstream += change
			if change == 0 && grate.Debug {
				log.Println("      Unhandled sheet substream record type:", r.RecType, ridx)
			}
			continue
'''),(L,'''var berrLookup =''','''// nesting is the change of the depth of embedded substreams.
func nesting(r *rec) int {
	switch r.RecType {
	case RecTypeEOF:
		return -1
	case RecTypeBOF:
		return 1
	}
	return 0
}

var berrLookup ='''))
N="xls/strings.go"
R("xls chars helper",(N,'''	content := make([]uint16, cch)
	if (flags & 0x1) == 0 {
		// 16-bit characters but only the bottom 8bits
		contentBytes := raw[:cch]
		for i, x := range contentBytes {
			content[i] = uint16(x)
		}
		cch += 2 // to return the offset
	} else {
		// 16-bit characters
		for i := 0; i < cch; i++ {
			content[i] = binary.LittleEndian.Uint16(raw[:2])
			raw = raw[2:]
		}
		cch += cch + 2 // to return the offset
	}
	return string(utf16.Decode(content)), cch, nil
}
''','''	s, n := decodeChars(raw, cch, flags)
	return s, n + 2, nil
}

// decodeChars reads the characters of a string.
func decodeChars(raw []byte, cch int, flags byte) (string, int) {
	content := make([]uint16, cch)
	if (flags & 0x1) == 0 {
		// 16-bit characters but only the bottom 8bits
		for i := range content {
			content[i] = uint16(raw[i])
		}
		return string(utf16.Decode(content)), cch
	}
	for i := range content {
		content[i] = binary.LittleEndian.Uint16(raw[2*i:])
	}
	return string(utf16.Decode(content)), 2 * cch
}
'''),(N,'''	content := make([]uint16, cch)
	if (flags & 0x1) == 0 {
		// 16-bit characters but only the bottom 8bits
		contentBytes := raw[:cch]
		for i, x := range contentBytes {
			content[i] = uint16(x)
		}
		cch += 3 // to return the offset
	} else {
		// 16-bit characters
		for i := 0; i < cch; i++ {
			content[i] = binary.LittleEndian.Uint16(raw[:2])
			raw = raw[2:]
		}
		cch += cch + 3 // to return the offset
	}
	return string(utf16.Decode(content)), cch, nil
''','''	s, n := decodeChars(raw, cch, flags)
	return s, n + 3, nil
'''))
R("xls append chars",(N,'''	if (flags & 1) == 0 {
		// 16-bit characters but only the bottom 8bits
		for len(us) < n && len(raw) > 0 {
			us = append(us, uint16(raw[0]))
			raw = raw[1:]
		}
		return us
	}
	for len(us) < n && len(raw) > 1 {
		us = append(us, binary.LittleEndian.Uint16(raw))
		raw = raw[2:]
	}
	return us
''','''	wide := flags&1 != 0
	for len(us) < n {
		if wide {
			if len(raw) < 2 {
				break
			}
			us = append(us, binary.LittleEndian.Uint16(raw))
			raw = raw[2:]
			continue
		}
		if len(raw) == 0 {
			break
		}
		// 16-bit characters but only the bottom 8bits
		us = append(us, uint16(raw[0]))
		raw = raw[1:]
	}
	return us
'''))
R("xls sst skip helper",(N,'''			for cRunBytes > 0 {
				if len(buf) >= int(cRunBytes) {
					buf = buf[cRunBytes:]
					cRunBytes = 0
				} else {
					cRunBytes -= len(buf)
					i++
					buf = recs[i].Data
				}
			}

			for cbExtRs > 0 {
				if len(buf) >= int(cbExtRs) {
					buf = buf[cbExtRs:]
					cbExtRs = 0
				} else {
					cbExtRs -= uint32(len(buf))
					i++
					buf = recs[i].Data
				}
			}
''','''			buf, i = skipBytes(recs, i, buf, cRunBytes)
			buf, i = skipBytes(recs, i, buf, int(cbExtRs))
			cRunBytes, cbExtRs = 0, 0
'''),(N,'''// append 8-bit or''','''// skipBytes leaves out n bytes, which may continue in the next records.
func skipBytes(recs []*rec, i int, buf []byte, n int) ([]byte, int) {
	for n > len(buf) {
		n -= len(buf)
		i++
		buf = recs[i].Data
	}
	if n > 0 {
		buf = buf[n:]
	}
	return buf, i
}

// append 8-bit or'''))
H="xls/hyperlinks.go"
LINK='''		slen = binary.LittleEndian.Uint32(raw[:4])
		raw = raw[4:]
		if uint64(slen)*2 > uint64(len(raw)) {
			return "", "", errLinkLength
		}
		us := make([]uint16, slen)
		for i := 0; i < int(slen); i++ {
			us[i] = binary.LittleEndian.Uint16(raw)
			raw = raw[2:]
		}
'''
R("xls link string helper",(H,LINK+'''		displayText = string(utf16.Decode(us))
''','''		displayText, raw, err = readLinkString(raw)
		if err != nil {
			return "", "", err
		}
'''),(H,LINK+'''		linkText = string(utf16.Decode(us))
''','''		linkText, raw, err = readLinkString(raw)
		if err != nil {
			return "", "", err
		}
'''),(H,'''func parseHyperlinkMoniker(''','''// readLinkString reads a counted string, and returns the bytes after it.
func readLinkString(raw []byte) (string, []byte, error) {
	n := int(binary.LittleEndian.Uint32(raw))
	raw = raw[4:]
	if uint64(n)*2 > uint64(len(raw)) {
		return "", nil, errLinkLength
	}
	us := make([]uint16, 0, n)
	for ; len(us) < n; raw = raw[2:] {
		us = append(us, binary.LittleEndian.Uint16(raw))
	}
	return string(utf16.Decode(us)), raw, nil
}

func parseHyperlinkMoniker('''))
K="xls/xls.go"
R("xls bof helper",(K,'''				b.h = &header{
					Version:  binary.LittleEndian.Uint16(nr.Data[0:2]),
					DocType:  binary.LittleEndian.Uint16(nr.Data[2:4]),
					RupBuild: binary.LittleEndian.Uint16(nr.Data[4:6]),
					RupYear:  binary.LittleEndian.Uint16(nr.Data[6:8]),
					MiscBits: binary.LittleEndian.Uint64(nr.Data[8:16]),
				}

				if b.h.Version != 0x0600 {
					return errors.New("xls: invalid file version")
				}
				if b.h.RupYear != 0x07CC && b.h.RupYear != 0x07CD {
					return errors.New("xls: unsupported biff version")
				}
''','''				if err := b.readHeader(nr.Data); err != nil {
					return err
				}
'''),(K,'''var recPool =''','''func (b *WorkBook) readHeader(data []byte) error {
	le := binary.LittleEndian
	h := &header{}
	h.Version = le.Uint16(data)
	h.DocType = le.Uint16(data[2:])
	h.RupBuild = le.Uint16(data[4:])
	h.RupYear = le.Uint16(data[6:])
	h.MiscBits = le.Uint64(data[8:])
	b.h = h
	switch {
	case h.Version != 0x0600:
		return errors.New("xls: invalid file version")
	case h.RupYear != 0x07CC && h.RupYear != 0x07CD:
		return errors.New("xls: unsupported biff version")
	}
	return nil
}

var recPool ='''))
R("xls next record",(K,'''	rec := recPool.Get().(*rec)

	rec.RecType = recordType(binary.LittleEndian.Uint16(raw[:2]))
	rec.RecSize = binary.LittleEndian.Uint16(raw[2:4])
	if len(raw[4:]) < int(rec.RecSize) {
		recPool.Put(rec)
		return nil, 4, io.ErrUnexpectedEOF
	}
	rec.Data = raw[4 : 4+int(rec.RecSize)]
	return rec, 4 + int(rec.RecSize), nil
''','''	head, body := raw[:4], raw[4:]
	rtype := recordType(binary.LittleEndian.Uint16(head))
	size := binary.LittleEndian.Uint16(head[2:])
	if int(size) > len(body) {
		return nil, 4, io.ErrUnexpectedEOF
	}
	rec := recPool.Get().(*rec)
	rec.RecType, rec.RecSize = rtype, size
	rec.Data = body[:size]
	return rec, len(head) + len(rec.Data), nil
'''))
R("xls load split",(K,'''	for ss, records := range b.substreams {
		if grate.Debug {''','''	return b.loadRecords()
}

// loadRecords processes the records of all blocks.
func (b *WorkBook) loadRecords() error {
	var err error
	for ss, records := range b.substreams {
		if grate.Debug {'''))
C="commonxl/sheet.go"
R("sheet resize",(C,'''	if rows <= 0 {
		rows = 1
	}
	if cols <= 0 {
		cols = 1
	}
	// existing cells are never dropped
	if rows < len(s.Rows) {
		rows = len(s.Rows)
	}
	if cols < s.NumCols {
		cols = s.NumCols
	}

	for i := range s.Rows {
		n := cols - len(s.Rows[i])
		if n <= 0 {
			continue
		}
		s.Rows[i] = append(s.Rows[i], make([]Cell, n)...)
	}
''','''	// existing cells are never dropped
	rows = atLeast(rows, atLeast(1, len(s.Rows)))
	cols = atLeast(cols, atLeast(1, s.NumCols))

	for i, row := range s.Rows {
		if n := cols - len(row); n > 0 {
			s.Rows[i] = append(row, make([]Cell, n)...)
		}
	}
'''),(C,'''// Put the value''','''func atLeast(n, min int) int {
	if n < min {
		return min
	}
	return n
}

// Put the value'''))
R("sheet put marker early",(C,'''	if spec, ok := value.(string); ok {
		if spec == grate.EndRowMerged || spec == grate.EndColumnMerged || spec == grate.ContinueRowMerged || spec == grate.ContinueColumnMerged {
			s.Rows[row][col] = NewCell(value)
			s.Rows[row][col][1] = StaticCell
			return
		}
	}

	ct, ok := s.Formatter.getCellType(fmtNum)
	_, isText := value.(string)
	if !ok || fmtNum == 0 || isText || ct == StringCell {
		// NB text under a number format stays text, and vice versa
		s.Rows[row][col] = NewCell(value)
	} else {
		s.Rows[row][col] = NewCellWithType(value, ct, s.Formatter)
	}
	s.Rows[row][col].SetFormatNumber(fmtNum)
}
''','''	s.Rows[row][col] = s.makeCell(value, fmtNum)
}

func (s *Sheet) makeCell(value interface{}, fmtNum uint16) Cell {
	text, isText := value.(string)
	if isText {
		switch text {
		case grate.EndRowMerged, grate.EndColumnMerged, grate.ContinueRowMerged, grate.ContinueColumnMerged:
			return Cell{text, StaticCell}
		}
	}

	var cell Cell
	ct, ok := s.Formatter.getCellType(fmtNum)
	if ok && fmtNum != 0 && !isText && ct != StringCell {
		cell = NewCellWithType(value, ct, s.Formatter)
	} else {
		// NB text under a number format stays text, and vice versa
		cell = NewCell(value)
	}
	cell.SetFormatNumber(fmtNum)
	return cell
}
'''))
R("sheet strings render",(C,'''		if cell.Type() == BlankCell || cell.Value() == nil {
			// NB hyperlinks can cover cells without a value
			res[i] = ""
			continue
		}
		if cell.Type() == StaticCell {
			res[i] = cell.Value().(string)
			continue
		}
		val := cell.Value()
		fs, ok := s.Formatter.Apply(cell.FormatNo(), val)
		if !ok {
			fs = fmt.Sprint(val)
		}
		res[i] = fs
	}
	return res
}
''','''		res[i] = s.render(cell)
	}
	return res
}

func (s *Sheet) render(cell Cell) string {
	val := cell.Value()
	switch {
	case cell.Type() == BlankCell, val == nil:
		// NB hyperlinks can cover cells without a value
		return ""
	case cell.Type() == StaticCell:
		return val.(string)
	}
	if fs, ok := s.Formatter.Apply(cell.FormatNo(), val); ok {
		return fs
	}
	return fmt.Sprint(val)
}
'''),(C,'''		res[i], ok = builtInFormats[cell.FormatNo()]
		if !ok {
			res[i] = fmt.Sprint(cell.FormatNo())
		}
	}
	return res
''','''		no := cell.FormatNo()
		code, found := builtInFormats[no]
		if found {
			res[i] = code
		} else {
			res[i] = fmt.Sprint(no)
		}
	}
	return res
'''),(C,'''	ok := true
	res := make([]string, s.NumCols)
''','''	res := make([]string, s.NumCols)
'''))
R("sheet current row",(C,'''// Raw extracts''','''func (s *Sheet) current() []Cell {
	return s.Rows[s.CurRow-1]
}

// Raw extracts'''),*([(C,'''range s.Rows[s.CurRow-1] {''','''range s.current() {''')]*4+[(C,'''	row := s.Rows[s.CurRow-1]
''','''	row := s.current()
'''),(C,'''	if (s.CurRow + 1) > len(s.Rows) {
		return false
	}
	s.CurRow++
	return true
''','''	if s.CurRow < len(s.Rows) {
		s.CurRow++
		return true
	}
	return false
''')]))
R("sheet empty helper",(C,'''	for _, row := range s.Rows {
		for _, cell := range row {
			if cell.Type() != BlankCell {
				return false
			}
		}
	}
	return true
}
''','''	for _, row := range s.Rows {
		if !blankRow(row) {
			return false
		}
	}
	return true
}

func blankRow(row []Cell) bool {
	for i := range row {
		if row[i].Type() != BlankCell {
			return false
		}
	}
	return true
}
'''))
R("sheet scan ints",(C,'''			if x, ok := val.(bool); ok {
				*v = x
			} else {
				return fmt.Errorf("scan destination %d expected *%T, not *bool", i, val)
			}
''','''			x, ok := val.(bool)
			if !ok {
				return mismatch(i, val, "bool")
			}
			*v = x
'''),(C,'''			if x, ok := val.(int64); ok {
				*v = x
			} else {
				return fmt.Errorf("scan destination %d expected *%T, not *int64", i, val)
			}
''','''			x, ok := val.(int64)
			if !ok {
				return mismatch(i, val, "int64")
			}
			*v = x
'''),(C,'''// IsEmpty returns''','''func mismatch(i int, val interface{}, want string) error {
	return fmt.Errorf("scan destination %d expected *%T, not *%s", i, val, want)
}

// IsEmpty returns'''))
R("sheet set cell pointer",(C,'''	if len(s.Rows[row][col]) == 0 {
		s.Rows[row][col] = make([]interface{}, 2)
	}
	s.Rows[row][col][0] = value
	s.Rows[row][col][1] = StringCell
''','''	cell := s.Rows[row][col]
	if len(cell) == 0 {
		cell = make(Cell, 2)
	}
	cell[0], cell[1] = value, StringCell
	s.Rows[row][col] = cell
'''),(C,'''	s.Rows[row][col].SetURL(link)
''','''	cell := &s.Rows[row][col]
	cell.SetURL(link)
'''))
D="commonxl/cell.go"
R("cell new text",(D,'''	case string:
		if len(v) == 0 {
			c[0] = nil
			c[1] = BlankCell
		} else {
			c[0] = v
			c[1] = StringCell
		}
	case []byte:
		if len(v) == 0 {
			c[0] = nil
			c[1] = BlankCell
		} else {
			c[0] = string(v)
			c[1] = StringCell
		}
	case []uint16:
		if len(v) == 0 {
			c[0] = nil
			c[1] = BlankCell
		} else {
			c[0] = string(utf16.Decode(v))
			c[1] = StringCell
		}
	case []rune:
		if len(v) == 0 {
			c[0] = nil
			c[1] = BlankCell
		} else {
			c[0] = string(v)
			c[1] = StringCell
		}
''','''	case string:
		return textCell(v)
	case []byte:
		return textCell(string(v))
	case []uint16:
		return textCell(string(utf16.Decode(v)))
	case []rune:
		return textCell(string(v))
'''),(D,'''// SetFormatNumber''','''func textCell(s string) Cell {
	if s == "" {
		return Cell{nil, BlankCell}
	}
	return Cell{s, StringCell}
}

// SetFormatNumber'''))
R("cell type names",(D,'''	switch c {
	case BlankCell:
		return "blank"
	case IntegerCell:
		return "integer"
	case FloatCell:
		return "float"
	case BooleanCell:
		return "boolean"
	case DateCell:
		return "date"
	case HyperlinkStringCell:
		return "hyperlink"
	case StaticCell:
		return "static"
	default: // StringCell, StaticCell
		return "string"
	}
''','''	if c == BlankCell {
		return "blank"
	} else if c == IntegerCell {
		return "integer"
	} else if c == FloatCell {
		return "float"
	}
	name := "string"
	switch c {
	case BooleanCell:
		name = "boolean"
	case DateCell:
		name = "date"
	case HyperlinkStringCell:
		name = "hyperlink"
	case StaticCell:
		name = "static"
	}
	return name
'''),(D,'''	c2 := make([]interface{}, len(c))
	for i, x := range c {
		c2[i] = x
	}
	return c2
''','''	c2 := make(Cell, len(c))
	copy(c2, c)
	return c2
'''))
R("cell format number",(D,'''	if f == 0 {
		*c = (*c)[:2]
		return
	}

	if len(*c) == 2 {
		*c = append(*c, f)
	} else {
		(*c)[2] = f
	}
''','''	switch {
	case f == 0:
		*c = (*c)[:2]
	case len(*c) == 2:
		*c = append(*c, f)
	default:
		(*c)[2] = f
	}
'''),(D,'''	for len(*c) < 2 {
		*c = append(*c, nil)
	}
	(*c)[1] = HyperlinkStringCell
	if len(*c) == 2 {
		*c = append(*c, uint16(0), link)
	} else { // has a format number already
		*c = append((*c)[:3], link)
	}
''','''	cell := *c
	for len(cell) < 2 {
		cell = append(cell, nil)
	}
	if len(cell) == 2 {
		cell = append(cell, uint16(0))
	}
	cell[1] = HyperlinkStringCell
	*c = append(cell[:3], link)
'''))
R("cell typed dates first",(D,'''	if t == StringCell {
		c[0] = fmt.Sprint(c[0])
		c[1] = StringCell
	}
	if t == DateCell {
		if c[1] == FloatCell {
			c[0] = f.ConvertToDate(c[0].(float64))
			c[1] = DateCell
		} else if c[1] == IntegerCell {
			c[0] = f.ConvertToDate(float64(c[0].(int64)))
			c[1] = DateCell
		}
	}
	return c
''','''	switch t {
	case StringCell:
		c[0], c[1] = fmt.Sprint(c[0]), StringCell
	case DateCell:
		switch x := c[0].(type) {
		case float64:
			c[0], c[1] = f.ConvertToDate(x), DateCell
		case int64:
			c[0], c[1] = f.ConvertToDate(float64(x)), DateCell
		}
	}
	return c
'''))
F="commonxl/fmt.go"
R("format commas",(F,'''		s1 := ff(x, v)
		isNeg := false
		if strings.HasPrefix(s1, "-") {
			isNeg = true
			s1 = s1[1:]
		}
''','''		s1 := ff(x, v)
		isNeg := strings.HasPrefix(s1, "-")
		s1 = strings.TrimPrefix(s1, "-")
'''),(F,'''	stringFF := identFunc
	zeroFF := pos
	negFF := pos
	if len(others) > 0 {
		negFF = others[0]
		if len(others) > 1 {
			zeroFF = others[1]
			if len(others) > 2 {
				stringFF = others[2]
			}
		}
	}
''','''	var stringFF FmtFunc = identFunc
	zeroFF, negFF := pos, pos
	if len(others) > 0 {
		negFF = others[0]
	}
	if len(others) > 1 {
		zeroFF = others[1]
	}
	if len(others) > 2 {
		stringFF = others[2]
	}
'''))
R("format get",("commonxl/formats.go",'''	ff, ok := goFormatters[fmtID]
	if !ok {
		fs, ok2 := x.customCodes[fmtID]
		if ok2 {
			return fs, true
		}
		ff = identFunc
	}

	return ff, ok
''','''	if ff, ok := goFormatters[fmtID]; ok {
		return ff, true
	}
	if ff, ok := x.customCodes[fmtID]; ok {
		return ff, true
	}
	return identFunc, false
'''),("commonxl/formats.go",'''	if x.customCodeTypes != nil {
		ct, ok := x.customCodeTypes[fmtID]
		return ct, ok
	}
	return 0, false
''','''	ct, ok := x.customCodeTypes[fmtID]
	return ct, ok
'''),("commonxl/formats.go",'''	ff, ok := x.Get(fmtID)
	if s, isText := val.(string); isText {
		// number formats never alter text
		return s, ok
	}
	return ff(x, val), ok
''','''	ff, ok := x.Get(fmtID)
	switch v := val.(type) {
	case string:
		// number formats never alter text
		return v, ok
	default:
		return ff(x, v), ok
	}
'''))
R("dates helper",("commonxl/dates.go",'''		t, ok := v.(time.Time)
		if !ok {
			fval, ok := convertToFloat64(v)
			if !ok {
				return "MUST BE time.Time OR numeric TO FORMAT CORRECTLY"
			}
			t = x.ConvertToDate(fval)
		}
		//log.Println("formatting date", t, "with", f, "=", t.Format(f))
		return t.Format(f)
	}
}
''','''		t, ok := x.toTime(v)
		if !ok {
			return "MUST BE time.Time OR numeric TO FORMAT CORRECTLY"
		}
		return t.Format(f)
	}
}

func (x *Formatter) toTime(v interface{}) (time.Time, bool) {
	if t, ok := v.(time.Time); ok {
		return t, true
	}
	fval, ok := convertToFloat64(v)
	if !ok {
		return time.Time{}, false
	}
	return x.ConvertToDate(fval), true
}
'''))
B="xls/cfb/cfb.go"
R("cfb helpers",(B,'''		offs := int64(1+sid) << int32(h.SectorShift)
		if offs >= int64(len(d.data)) {
			return errors.New("xls/cfb: unable to load file")
		}
		sector := d.data[offs:]
		for j := 0; j < numFATentries; j++ {
			sid2 := le.Uint32(sector)
			d.fat = append(d.fat, sid2)
			sector = sector[4:]
		}
''','''		if err := d.readFAT(sid, numFATentries); err != nil {
			return err
		}
'''),(B,'''func (d *Document) buildDirs(''','''func (d *Document) readFAT(sid uint32, n int) error {
	offs := int64(1+sid) << d.header.SectorShift
	if offs >= int64(len(d.data)) {
		return errors.New("xls/cfb: unable to load file")
	}
	sector := d.data[offs:]
	for j := 0; j < n; j++ {
		d.fat = append(d.fat, binary.LittleEndian.Uint32(sector[4*j:]))
	}
	return nil
}

func (d *Document) buildDirs('''))
R("crypto write",("xls/crypto/rc4.go",'''	x := len(data)
	for len(data) > 0 {
		n := copy(d.bytes[d.offset:], data)
		d.offset += n
		if d.offset >= 1024 {
			if d.offset != 1024 {
				panic("invalid offset from write")
			}
			d.Flush()
		}
		data = data[n:]
	}
	return x, nil
''','''	total := len(data)
	for len(data) != 0 {
		k := copy(d.bytes[d.offset:], data)
		data = data[k:]
		d.offset += k
		if d.offset == len(d.bytes) {
			d.Flush()
		}
	}
	return total, nil
'''),("xls/crypto/rc4.go",'''	d.Password = make([]rune, len(password))
	for i, p := range password {
		d.Password[i] = rune(p)
	}
''','''	d.Password = nil
	for _, p := range password {
		d.Password = append(d.Password, rune(p))
	}
'''))

# second series
R("2 open loop inverted",(G,"""		if err == nil {
			return src, nil
		}
		if !errors.Is(err, ErrNotInFormat) {
			return nil, err
		}
		if Debug {
			log.Println(" ", filename, "is not in", o.name, "format")
		}
""","""		if err != nil && errors.Is(err, ErrNotInFormat) {
			debugf("%s is not in %s format", filename, o.name)
			continue
		}
		if err != nil {
			src = nil
		}
		return src, err
"""),(G,"""type srcOpenTab struct {""","""func debugf(format string, args ...interface{}) {
	if Debug {
		log.Printf(format, args...)
	}
}

type srcOpenTab struct {"""))
R("2 table type",(G,"""	srcTable = append(srcTable, &srcOpenTab{name: name, pri: priority, op: opener})
	sort.Slice(srcTable, func(i, j int) bool {
		return srcTable[i].pri < srcTable[j].pri
	})
	return nil
""","""	o := new(srcOpenTab)
	o.name, o.pri, o.op = name, priority, opener
	srcTable = append(srcTable, o)
	sort.SliceStable(srcTable, func(i, j int) bool {
		return srcTable[j].pri > srcTable[i].pri
	})
	return nil
"""))
R("2 text next",(S,"""	t.iterRow++
	return t.iterRow < len(t.rows)
""","""	next := t.iterRow + 1
	t.iterRow = next
	if next >= len(t.rows) {
		return false
	}
	return true
"""),(S,"""	// every Collection has its own position
	c := *t
	c.iterRow = -1
	return &c, nil
""","""	// every Collection has its own position
	return &simpleFile{filename: t.filename, rows: t.rows, iterRow: -1}, nil
"""),(S,"""	return []string{filepath.Base(t.filename)}, nil
""","""	name := filepath.Base(t.filename)
	return append(make([]string, 0, 1), name), nil
"""),(S,"""	res := make([]string, len(t.rows[t.iterRow]))
	copy(res, t.rows[t.iterRow])
	return res
""","""	return append([]string{}, t.rows[t.iterRow]...)
"""))
R("2 text scan early",(S,"""		switch v := a.(type) {
		case *bool:
			switch strings.ToLower(row[i]) {
			case "1", "t", "true", "y", "yes":
				*v = true
			default:
				*v = false
			}
		case *int:
			var n int64
			n, err = strconv.ParseInt(row[i], 10, 64)
			if err == nil {
				*v = int(n)
			}
""","""		text := row[i]
		switch v := a.(type) {
		case *bool:
			low := strings.ToLower(text)
			*v = low == "1" || low == "t" || low == "true" || low == "y" || low == "yes"
		case *int:
			n, perr := strconv.ParseInt(text, 10, 64)
			if perr != nil {
				return perr
			}
			*v = int(n)
"""))
R("2 csv error kinds",("simple/csv.go","""		switch perr := err.(type) {
		case *csv.ParseError:
			return nil, grate.WrapErr(perr, grate.ErrNotInFormat)
		}
		if total < 10 {
			// probably? not in this format
			return nil, grate.WrapErr(err, grate.ErrNotInFormat)
		}
		return nil, err
""","""		_, malformed := err.(*csv.ParseError)
		if malformed || total < 10 {
			// probably? not in this format
			err = grate.WrapErr(err, grate.ErrNotInFormat)
		}
		return nil, err
"""),("simple/tsv.go","""	if s.Err() != nil {
		// this can only be read errors, not format
		return nil, s.Err()
	}
""","""	if err := s.Err(); err != nil {
		// this can only be read errors, not format
		return nil, err
	}
"""))
R("2 csv read all helper",("simple/csv.go","""	f, err := os.Open(filename)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	t := &simpleFile{
		filename: filename,
		iterRow:  -1,
	}
""","""	f, err := os.Open(filename)
	if err != nil {
		return nil, err
	}
	defer func() {
		f.Close()
	}()
	t := newFile(filename)
"""),("simple/tsv.go","""	t := &simpleFile{
		filename: filename,
		iterRow:  -1,
	}
""","""	t := newFile(filename)
"""),(S,"""// List the individual""","""func newFile(filename string) *simpleFile {
	t := new(simpleFile)
	t.filename = filename
	t.iterRow = -1
	return t
}

// List the individual"""))
R("2 xlsx text builder",(X,"""	cellText := "" // contents of the <v> or <is> elements
""","""	var cellText strings.Builder // contents of the <v> or <is> elements
"""),(X,"""				cellText += string(v)
""","""				cellText.Write(v)
"""),(X,"""				cellText = ""
			case""","""				cellText.Reset()
			case"""),(X,"""				if cellText == "" || c < 0 || r < 0 {
					//log.Println("FAIL row/col: ", currentCell)
					continue
				}
				var val interface{} = cellText
""","""				text := cellText.String()
				if text == "" || c < 0 || r < 0 {
					//log.Println("FAIL row/col: ", currentCell)
					continue
				}
				var val interface{} = text
"""),(X,"""					val = cellText[0] == '1'
""","""					val = text[0] == '1'
"""),(X,"""ParseFloat(cellText, 64)""","""ParseFloat(text, 64)"""),(X,"""ParseInt(cellText, 10, 64)""","""ParseInt(text, 10, 64)"""))
R("2 xlsx sheet handlers",(X,"""		switch v := tok.(type) {
		case xml.CharData:
			if inValue && !inPhonetic {
				cellText += string(v)
			}
		case xml.StartElement:
""","""		if text, ok := tok.(xml.CharData); ok {
			if inPhonetic || !inValue {
				continue
			}
			cellText += string(text)
			continue
		}
		switch v := tok.(type) {
		case xml.StartElement:
"""),(X,"""				currentCellType = CellType(ax[0])
				if currentCellType == BlankCellType {
					currentCellType = NumberCellType
				}
""","""				currentCellType = NumberCellType
				if ax[0] != "" {
					currentCellType = CellType(ax[0])
				}
"""),(X,"""					fval, err := strconv.ParseFloat(cellText, 64)
					if err == nil {
						val = fval
					}
""","""					if fval, err := strconv.ParseFloat(cellText, 64); err == nil {
						val = fval
					}
"""))
R("2 xlsx sheet cell struct",(X,"""	currentCellType := BlankCellType
	currentCell := ""
""","""	var cell struct {
		typ CellType
		ref string
	}
"""),(X,"""				currentCellType = CellType(ax[0])
				if currentCellType == BlankCellType {
					currentCellType = NumberCellType
				}
				currentCell = ax[1] // always""","""				cell.typ, cell.ref = CellType(ax[0]), ax[1]
				if cell.typ == BlankCellType {
					cell.typ = NumberCellType
				}
				// always"""),(X,"""				inValue = currentCell != ""
""","""				inValue = cell.ref != ""
"""),(X,"""				c, r := refToIndexes(currentCell)
				currentCell = ""
""","""				c, r := refToIndexes(cell.ref)
				cell.ref = ""
"""),(X,"""				switch currentCellType {
""","""				switch cell.typ {
"""),(X,"""log.Println("CELL UNKNOWN", val, currentCellType, fno)""","""log.Println("CELL UNKNOWN", val, cell.typ, fno)"""))
R("2 xlsx sst state",(W,"""	val := ""
	inText, inPhonetic := false, false
	tok, err""","""	var item []byte
	var inText, inPhonetic bool
	tok, err"""),(W,"""				val += string(v)
""","""				item = append(item, v...)
"""),(W,"""				val = ""
			case "t":""","""				item = item[:0]
			case "t":"""),(W,"""				d.strings = append(d.strings, val)
""","""				d.strings = append(d.strings, string(item))
"""))
R("2 xlsx sst if chain",(W,"""		switch v := tok.(type) {
		case xml.CharData:
			if inText && !inPhonetic {
				val += string(v)
			}
		case xml.StartElement:
			switch v.Name.Local {
			case "si":
				val = ""
			case "t":
				// no attributes to parse, we only want the CharData ...
				inText = true
			case "rPh":
				// phonetic hints are not part of the text
				inPhonetic = true
			case "sst":
				// main container
			default:
				if grate.Debug {
					log.Println("  Unhandled SST xml tag", v.Name.Local, v.Attr)
				}
			}
		case xml.EndElement:
			switch v.Name.Local {
			case "si":
				d.strings = append(d.strings, val)
			case "t":
				inText = false
			case "rPh":
				inPhonetic = false
			}
		default:
			if grate.Debug {
				log.Printf("    Unhandled SST xml token %T %+v", tok, tok)
			}
		}
""","""		switch v := tok.(type) {
		case xml.CharData:
			if !inText || inPhonetic {
				continue
			}
			val += string(v)
		case xml.StartElement:
			name := v.Name.Local
			inText = inText || name == "t"
			inPhonetic = inPhonetic || name == "rPh"
			if name == "si" {
				val = ""
			}
		case xml.EndElement:
			name := v.Name.Local
			if name == "si" {
				d.strings = append(d.strings, val)
			} else if name == "t" {
				inText = false
			} else if name == "rPh" {
				inPhonetic = false
			}
		}
"""))
R("2 xlsx styles numfmt helper",(W,"""				ax := getAttrs(v.Attr, "numFmtId", "formatCode")
				fmtNo, _ := strconv.ParseInt(ax[0], 10, 16)
				d.fmt.Add(uint16(fmtNo), ax[1])
""","""				d.addFormat(getAttrs(v.Attr, "formatCode", "numFmtId"))
"""),(W,"""			switch v.Name.Local {
			case "cellStyleXfs":
				section = 0
			case "cellXfs":
				section = 0
			}
""","""			switch v.Name.Local {
			case "cellStyleXfs", "cellXfs":
				section = 0
			}
"""),(W,"""func (d *Document) parseStyles(""","""func (d *Document) addFormat(ax []string) {
	code, id := ax[0], ax[1]
	fmtNo, _ := strconv.ParseInt(id, 10, 16)
	d.fmt.Add(uint16(fmtNo), code)
}

func (d *Document) parseStyles("""))
R("2 xlsx rels getattrs",(W,"""				vals := make(map[string]string, 5)
				for _, a := range v.Attr {
					vals[a.Name.Local] = a.Value
				}
				if _, ok := d.rels[vals["Type"]]; !ok {
					d.rels[vals["Type"]] = make(map[string]string)
				}
				if strings.HasPrefix(vals["Target"], "/") {
					// handle malformed "absolute" paths cleanly
					d.rels[vals["Type"]][vals["Id"]] = vals["Target"][1:]
				} else {
					d.rels[vals["Type"]][vals["Id"]] = filepath.Join(basedir, vals["Target"])
				}
				if vals["Type"] == "http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" {
					d.primaryDoc = d.rels[vals["Type"]][vals["Id"]]
				}
""","""				d.addRel(v, basedir)
"""),(W,"""func (d *Document) parseRels(""","""func (d *Document) addRel(v xml.StartElement, basedir string) {
	ax := getAttrs(v.Attr, "Id", "Type", "Target")
	id, typ, target := ax[0], ax[1], ax[2]
	if strings.HasPrefix(target, "/") {
		// handle malformed "absolute" paths cleanly
		target = target[1:]
	} else {
		target = filepath.Join(basedir, target)
	}
	if d.rels[typ] == nil {
		d.rels[typ] = make(map[string]string)
	}
	d.rels[typ][id] = target
	if typ == "http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" {
		d.primaryDoc = target
	}
}

func (d *Document) parseRels("""))
R("2 xlsx open guard order",(P,"""		if r := recover(); r != nil {
			src, err = nil, fmt.Errorf("xlsx: invalid document: %v", r)
		}
		if src == nil {
			// not handed over to the caller, so nobody else can close it
			f.Close()
		}
""","""		r := recover()
		if r != nil {
			src = nil
			err = fmt.Errorf("xlsx: invalid document: %v", r)
		}
		if src != nil {
			return
		}
		// not handed over to the caller, so nobody else can close it
		f.Close()
"""),(P,"""	d := &Document{
		filename: filename,
		f:        f,
		r:        z,
	}

	d.rels = make(map[string]map[string]string, 4)
""","""	d := &Document{filename: filename, f: f, r: z, rels: map[string]map[string]string{}}
"""))
R("2 xlsx open table of parts",(P,"""	styn := d.rels["http://schemas.openxmlformats.org/officeDocument/2006/relationships/styles"]
	for _, id := range sortedKeys(styn) {
		// parse the style table
		dec, c, err = d.openXML(styn[id])
		if err != nil {
			return nil, err
		}
		err = d.parseStyles(dec)
		c.Close()
		if err != nil {
			return nil, err
		}
	}

	ssn := d.rels["http://schemas.openxmlformats.org/officeDocument/2006/relationships/sharedStrings"]
	for _, id := range sortedKeys(ssn) {
		// parse the shared string table
		dec, c, err = d.openXML(ssn[id])
		if err != nil {
			return nil, err
		}
		err = d.parseSharedStrings(dec)
		c.Close()
		if err != nil {
			return nil, err
		}
	}

	return d, nil
}
""","""	if err = d.parseParts("http://schemas.openxmlformats.org/officeDocument/2006/relationships/styles", d.parseStyles); err != nil {
		return nil, err
	}
	if err = d.parseParts("http://schemas.openxmlformats.org/officeDocument/2006/relationships/sharedStrings", d.parseSharedStrings); err != nil {
		return nil, err
	}
	return d, nil
}

// parseParts parses all parts of a type.
func (d *Document) parseParts(typ string, parse func(*xml.Decoder) error) error {
	parts := d.rels[typ]
	for _, id := range sortedKeys(parts) {
		dec, c, err := d.openXML(parts[id])
		if err != nil {
			return err
		}
		err = parse(dec)
		c.Close()
		if err != nil {
			return err
		}
	}
	return nil
}
"""))
R("2 xls sheet substream local",(L,"""	for idx, r := range b.substreams[ss] {
""","""	records := b.substreams[ss]
	for idx, r := range records {
"""),(L,"""	for ridx, r := range b.substreams[ss] {
""","""	for ridx, r := range records {
"""),(L,"""			for _, r2 := range b.substreams[ss][ridx+1:] {
				if r2.RecType != RecTypeContinue {
					break
				}
				us = appendChars(us, charCount, r2.Data[0], r2.Data[1:])
			}
""","""			for next := ridx + 1; next < len(records) && records[next].RecType == RecTypeContinue; next++ {
				more := records[next].Data
				us = appendChars(us, charCount, more[0], more[1:])
			}
"""))
R("2 xls data local",(L,"""		switch r.RecType {
		case RecTypeBOF:
			if ridx > 0 {
				inSubstream++
				continue
			}

		case RecTypeBoolErr:
			rowIndex := int(binary.LittleEndian.Uint16(r.Data[:2]))
			colIndex := int(binary.LittleEndian.Uint16(r.Data[2:4]))
			ixfe := int(binary.LittleEndian.Uint16(r.Data[4:6]))
			if r.Data[7] == 0 {
				// Boolean value
				bv := false
				if r.Data[6] == 1 {
					bv = true
				}
				var fno uint16
				if ixfe < len(b.xfs) {
					fno = b.xfs[ixfe]
				}
				res.Put(rowIndex, colIndex, bv, fno)
				//log.Printf("bool/error spec: %d %d %+v", rowIndex, colIndex, bv)
			} else {
				// it's an error, load the label
				be, ok := berrLookup[r.Data[6]]
				if !ok {
					be = "<unknown error>"
				}
				res.Put(rowIndex, colIndex, be, 0)
				//log.Printf("bool/error spec: %d %d %s", rowIndex, colIndex, be)
			}
""","""		data := r.Data
		switch r.RecType {
		case RecTypeBOF:
			if ridx > 0 {
				inSubstream++
				continue
			}

		case RecTypeBoolErr:
			var value interface{}
			var fno uint16
			if data[7] != 0 {
				// it's an error, load the label
				be, ok := berrLookup[data[6]]
				if !ok {
					be = "<unknown error>"
				}
				value = be
			} else {
				value = data[6] == 1
				if ixfe := int(binary.LittleEndian.Uint16(data[4:6])); ixfe < len(b.xfs) {
					fno = b.xfs[ixfe]
				}
			}
			res.Put(int(binary.LittleEndian.Uint16(data[:2])), int(binary.LittleEndian.Uint16(data[2:4])), value, fno)
"""))
R("2 xls mulrk loop",(L,"""			nrk := int((r.RecSize - 6) / 6)
""","""			count := int((r.RecSize - 6) / 6)
"""),(L,"""			for i := 0; i < nrk; i++ {
				off := 4 + i*6
				ixfe := int(binary.LittleEndian.Uint16(r.Data[off:]))
				value := RKNumber(binary.LittleEndian.Uint32(r.Data[off+2:]))
""","""			for i := 0; i != count; i++ {
				item := r.Data[4+i*6:]
				ixfe := int(binary.LittleEndian.Uint16(item))
				value := RKNumber(binary.LittleEndian.Uint32(item[2:]))
"""))
R("2 xls formula value helper",(L,"""			if fdata[6] == 0xFF && fdata[7] == 0xFF {
				switch fdata[0] {
				case 0:
					// string in next record
					// put placeholder now to record the numFmt
					res.Put(int(formulaRow), int(formulaCol), "", fno)
				case 1:
					// boolean
					bv := false
					if fdata[2] != 0 {
						bv = true
					}
					res.Put(int(formulaRow), int(formulaCol), bv, fno)
				case 2:
					// error value
					be, ok := berrLookup[fdata[2]]
					if !ok {
						be = "<unknown error>"
					}
					res.Put(int(formulaRow), int(formulaCol), be, 0)
				case 3:
					// blank string
				default:
					log.Printf("unknown formula value type %d", fdata[0])
				}
			} else {
				xnum := binary.LittleEndian.Uint64(fdata)
				value := math.Float64frombits(xnum)
				res.Put(int(formulaRow), int(formulaCol), value, fno)
			}
""","""			if fdata[6] == 0xFF && fdata[7] == 0xFF {
				var value interface{}
				switch fdata[0] {
				case 0:
					// string in next record
					// put placeholder now to record the numFmt
					value = ""
				case 1:
					// boolean
					value = fdata[2] != 0
				case 2:
					// error value
					be, ok := berrLookup[fdata[2]]
					if !ok {
						be = "<unknown error>"
					}
					value, fno = be, 0
				case 3:
					// blank string
				default:
					log.Printf("unknown formula value type %d", fdata[0])
				}
				if value != nil {
					res.Put(int(formulaRow), int(formulaCol), value, fno)
				}
			} else {
				value := math.Float64frombits(binary.LittleEndian.Uint64(fdata))
				res.Put(int(formulaRow), int(formulaCol), value, fno)
			}
"""))
R("2 xls loop if chain",(K,"""		switch nr.RecType {
		case RecTypeEOF:
			nestedBOF--
		case RecTypeBOF:
			// when substreams are nested, keep them in the same grouping
			if nestedBOF == 0 {
				substr = len(b.substreams)
				b.substreams = append(b.substreams, []*rec{})
				b.pos2substream[b.fpos] = substr
			}
			nestedBOF++
		}
		b.fpos += int64(4 + len(nr.Data))
""","""		if nr.RecType == RecTypeBOF {
			// when substreams are nested, keep them in the same grouping
			if nestedBOF == 0 {
				substr++
				b.substreams = append(b.substreams, nil)
				b.pos2substream[b.fpos] = substr
			}
			nestedBOF++
		} else if nr.RecType == RecTypeEOF {
			nestedBOF--
		}
		b.fpos += int64(no)
"""))
R("2 xls globals helpers",(K,"""				recSet := []*rec{nr}

				lastIndex := i
				for len(records) > (lastIndex+1) && records[lastIndex+1].RecType == RecTypeContinue {
					lastIndex++
					recSet = append(recSet, records[lastIndex])
				}

				b.strings, err = parseSST(recSet)
				if err != nil {
					return err
				}
""","""				recSet := []*rec{nr}
				for _, more := range records[i+1:] {
					if more.RecType != RecTypeContinue {
						break
					}
					recSet = append(recSet, more)
				}
				list, err := parseSST(recSet)
				if err != nil {
					return err
				}
				b.strings = list
"""),(K,"""				bs := &boundSheet{}
				bs.Position = binary.LittleEndian.Uint32(nr.Data[:4])
				bs.HiddenState = nr.Data[4]
				bs.SheetType = nr.Data[5]

				bs.Name, _, err = decodeShortXLUnicodeString(nr.Data[6:])
				if err != nil {
					return err
				}
				b.sheets = append(b.sheets, bs)
""","""				name, _, err := decodeShortXLUnicodeString(nr.Data[6:])
				if err != nil {
					return err
				}
				b.sheets = append(b.sheets, &boundSheet{
					Position:    binary.LittleEndian.Uint32(nr.Data),
					HiddenState: nr.Data[4],
					SheetType:   nr.Data[5],
					Name:        name,
				})
"""),(K,"""				b.dateMode = binary.LittleEndian.Uint16(nr.Data)
				b.nfmt.Mode1904(b.dateMode == 1)
""","""				mode := binary.LittleEndian.Uint16(nr.Data)
				b.nfmt.Mode1904(mode == 1)
				b.dateMode = mode
"""))
R("2 xls records filter",(K,"""		for i, nr := range records {
			if len(nr.Data) == 0 {
				continue
			}

			switch nr.RecType {
			case RecTypeSST:""","""		for i := 0; i < len(records); i++ {
			nr := records[i]
			if len(nr.Data) < 1 {
				continue
			}

			switch nr.RecType {
			case RecTypeSST:"""))
R("2 xls close helper",(K,"""	for i, sub := range b.substreams {
		for _, r := range sub {
			r.Data = nil // allow GC
			recPool.Put(r)
		}
		b.substreams[i] = b.substreams[i][:0]
	}
	b.substreams = b.substreams[:0]
	return nil
}
""","""	for i := range b.substreams {
		releaseAll(b.substreams[i])
		b.substreams[i] = b.substreams[i][:0]
	}
	b.substreams = b.substreams[:0]
	return nil
}

func releaseAll(recs []*rec) {
	for _, r := range recs {
		r.Data = nil // allow GC
		recPool.Put(r)
	}
}
"""))
R("2 xls open load",(K,"""	b := &WorkBook{
		filename: filename,
		doc:      doc,

		pos2substream: make(map[int64]int, 16),
		xfs:           make([]uint16, 0, 128),
	}

	rdr, err := doc.Open("Workbook")
	if err != nil {
		return nil, grate.WrapErr(err, grate.ErrNotInFormat)
	}
	raw, err := io.ReadAll(rdr)
	if err != nil {
		return nil, err
	}

	err = b.loadFromStream(raw)
	if err != nil {
		return nil, err
	}
	return b, nil
}
""","""	rdr, err := doc.Open("Workbook")
	if err != nil {
		return nil, grate.WrapErr(err, grate.ErrNotInFormat)
	}
	raw, err := io.ReadAll(rdr)
	if err != nil {
		return nil, err
	}
	b := newWorkBook(filename)
	b.doc = doc
	if err = b.loadFromStream(raw); err != nil {
		return nil, err
	}
	return b, nil
}

func newWorkBook(filename string) *WorkBook {
	return &WorkBook{
		filename:      filename,
		pos2substream: make(map[int64]int, 16),
		xfs:           make([]uint16, 0, 128),
	}
}
"""))
R("2 sheet put grow helper",(C,"""		rows, cols := s.NumRows, s.NumCols
		if row >= rows {
			rows = row + 1
		}
		if col >= cols {
			cols = col + 1
		}
		s.Resize(rows, cols)
	}

	if spec""","""		s.grow(row, col)
	}

	if spec"""),(C,"""// Put the value""","""// grow makes room for the cell.
func (s *Sheet) grow(row, col int) {
	rows, cols := row+1, col+1
	if s.NumRows > rows {
		rows = s.NumRows
	}
	if s.NumCols > cols {
		cols = s.NumCols
	}
	s.Resize(rows, cols)
}

// Put the value"""))
R("2 sheet markers set",(C,"""		if spec == grate.EndRowMerged || spec == grate.EndColumnMerged || spec == grate.ContinueRowMerged || spec == grate.ContinueColumnMerged {
			s.Rows[row][col] = NewCell(value)
			s.Rows[row][col][1] = StaticCell
			return
		}
""","""		if isMarker(spec) {
			cell := NewCell(value)
			cell[1] = StaticCell
			s.Rows[row][col] = cell
			return
		}
"""),(C,"""// Put the value""","""func isMarker(s string) bool {
	switch s {
	case grate.EndRowMerged, grate.EndColumnMerged:
		return true
	case grate.ContinueRowMerged, grate.ContinueColumnMerged:
		return true
	}
	return false
}

// Put the value"""))
R("2 sheet rows local",(C,"""	rr := make([]Cell, s.NumCols)
	for i, cell := range s.Rows[s.CurRow-1] {
		rr[i] = cell.Clone()
	}
	return rr
""","""	row := s.Rows[s.CurRow-1]
	rr := make([]Cell, s.NumCols)
	for i := range row {
		rr[i] = row[i].Clone()
	}
	return rr
"""),(C,"""	for i, cell := range s.Rows[s.CurRow-1] {
		res[i] = cell.Type().String()
	}
""","""	for i, cell := range s.Rows[s.CurRow-1] {
		t := cell.Type()
		res[i] = t.String()
	}
"""),(C,"""	if (s.CurRow + 1) > len(s.Rows) {
		return false
	}
	s.CurRow++
	return true
""","""	more := s.CurRow < len(s.Rows)
	if more {
		s.CurRow++
	}
	return more
"""))
R("2 sheet resize append rows",(C,"""	for rows > len(s.Rows) {
		s.Rows = append(s.Rows, make([]Cell, cols))
	}
""","""	for i := len(s.Rows); i < rows; i++ {
		s.Rows = append(s.Rows, make([]Cell, cols))
	}
"""),(C,"""		n := cols - len(s.Rows[i])
		if n <= 0 {
			continue
		}
		s.Rows[i] = append(s.Rows[i], make([]Cell, n)...)
""","""		for len(s.Rows[i]) < cols {
			s.Rows[i] = append(s.Rows[i], nil)
		}
"""))
R("2 sheet scan pointer helper",(C,"""	for i, a := range args {
		val := row[i].Value()

		switch v := a.(type) {
		case bool, int64, float64, string, time.Time:
			return grate.WrapErr(fmt.Errorf("scan destinations must be pointer (arg %d is not)", i),
				grate.ErrInvalidScanType)
		case *bool:""","""	for i := range args {
		if err := scanInto(i, args[i], row[i].Value()); err != nil {
			return err
		}
	}
	return nil
}

func scanInto(i int, a, val interface{}) error {
	{
		switch v := a.(type) {
		case bool, int64, float64, string, time.Time:
			return grate.WrapErr(fmt.Errorf("scan destinations must be pointer (arg %d is not)", i),
				grate.ErrInvalidScanType)
		case *bool:"""))
R("2 cell clone type",(D,"""	if len(c) < 2 {
		return BlankCell
	}
	return c[1].(CellType)
""","""	if len(c) >= 2 {
		return c[1].(CellType)
	}
	return BlankCell
"""),(D,"""	if len(c) == 0 {
		return ""
	}
	return c[0]
""","""	if len(c) > 0 {
		return c[0]
	}
	return ""
"""),(D,"""	c := make([]interface{}, 2)
	switch v := value.(type) {
	case bool:
		c[0] = v
		c[1] = BooleanCell
	case int:""","""	c := Cell{nil, BlankCell}
	switch v := value.(type) {
	case bool:
		c[0], c[1] = v, BooleanCell
	case int:"""),(D,"""	return Cell(c)
}
""","""	return c
}
"""))
R("2 cell ints together",(D,"""	case int:
		c[0] = int64(v)
		c[1] = IntegerCell
	case int8:
		c[0] = int64(v)
		c[1] = IntegerCell
	case int16:
		c[0] = int64(v)
		c[1] = IntegerCell
	case int32:
		c[0] = int64(v)
		c[1] = IntegerCell
	case int64:
		c[0] = int64(v)
		c[1] = IntegerCell
""","""	case int:
		return intCell(int64(v))
	case int8:
		return intCell(int64(v))
	case int16:
		return intCell(int64(v))
	case int32:
		return intCell(int64(v))
	case int64:
		return intCell(v)
"""),(D,"""// SetFormatNumber""","""func intCell(v int64) Cell {
	return Cell{v, IntegerCell}
}

// SetFormatNumber"""))
R("2 cell convert helper",(D,"""	if c[1] == BooleanCell {
		if t == IntegerCell {
			if c[0].(bool) {
				c[0] = int64(1)
			} else {
				c[0] = int64(0)
			}
			c[1] = IntegerCell
		} else if t == FloatCell {
			if c[0].(bool) {
				c[0] = float64(1.0)
			} else {
				c[0] = float64(0.0)
			}
			c[1] = FloatCell
		} else if""","""	if b, ok := c[0].(bool); ok {
		if t == IntegerCell {
			n := int64(0)
			if b {
				n = 1
			}
			c[0], c[1] = n, IntegerCell
		} else if t == FloatCell {
			var f float64
			if b {
				f = 1
			}
			c[0], c[1] = f, FloatCell
		} else if"""))
R("2 format add",("commonxl/formats.go","""	_, ok := goFormatters[fmtID]
	if ok {
		return errors.New("grate/commonxl: cannot replace default number formats")
	}

	_, ok2 := x.customCodes[fmtID]
	if ok2 {
		return errors.New("grate/commonxl: cannot replace existing number formats")
	}

	x.customCodes[fmtID], x.customCodeTypes[fmtID] = makeFormatter(formatCode)
	return nil
""","""	if _, builtin := goFormatters[fmtID]; builtin {
		return errors.New("grate/commonxl: cannot replace default number formats")
	}
	if _, known := x.customCodes[fmtID]; known {
		return errors.New("grate/commonxl: cannot replace existing number formats")
	}

	ff, ctype := makeFormatter(formatCode)
	x.customCodes[fmtID] = ff
	x.customCodeTypes[fmtID] = ctype
	return nil
"""),("commonxl/formats.go","""	if enabled {
		x.flags |= fMode1904
	} else {
		x.flags = x.flags &^ fMode1904
	}
""","""	x.flags &^= fMode1904
	if enabled {
		x.flags |= fMode1904
	}
"""))
R("2 cfb stream",(B,"""		if size < uint64(len(slice)) {
			slice = slice[:size]
			size = 0
		} else {
			size -= uint64(len(slice))
		}
		streamData[x] = slice
		if size == 0 {
			break
		}
""","""		if uint64(len(slice)) > size {
			slice = slice[:size]
		}
		size -= uint64(len(slice))
		streamData[x] = slice
		if size == 0 {
			break
		}
"""))

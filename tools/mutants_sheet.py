S="commonxl/sheet.go"
C="commonxl/cell.go"
T="simple/simple.go"
F="commonxl/formats.go"
M=[
# P24
(["P24"],"scan int truncated",[(T,"n, err = strconv.ParseInt(row[i], 10, 64)\n			if err == nil {\n				*v = int(n)","n, err = strconv.ParseInt(row[i], 0, 64)\n			if err == nil {\n				*v = int(n)")]),
(["P24"],"scan int32",[(T,"n, err = strconv.ParseInt(row[i], 10, 64)\n			if err == nil {\n				*v = n","n, err = strconv.ParseInt(row[i], 10, 32)\n			if err == nil {\n				*v = n")]),
(["P24"],"parse error dropped",[(T,"""			n, err = strconv.ParseFloat(row[i], 64)
			if err == nil {
				*v = n
			}""","""			n, _ = strconv.ParseFloat(row[i], 64)
			*v = n""")]),
(["P24"],"error only from last",[(T,"""		if err != nil {
			return err
		}
	}
	return nil""","""	}
	return err""")]),
(["P24"],"simple column shifted",[(T,"			*v = row[i]\n","			*v = row[len(row)-1-i]\n")]),
(["P24"],"simple trims",[(T,"			*v = row[i]\n","			*v = strings.TrimSpace(row[i])\n")]),
(["P24"],"bool on accepted",[(T,'case "1", "t", "true", "y", "yes":','case "1", "t", "true", "y", "yes", "on":')]),
(["P24"],"bool not lowered",[(T,'switch strings.ToLower(row[i]) {','switch strings.TrimSpace(row[i]) {')]),
(["P24"],"too many allowed",[(T,"if len(row) != len(args) {","if len(row) > len(args) {")]),
(["P24"],"unsupported ignored",[(T,"		default:\n			return grate.ErrInvalidScanType\n","		default:\n			_ = grate.ErrInvalidScanType\n			continue\n")]),
(["P24"],"unsupported other error",[(T,"			return grate.ErrInvalidScanType\n",'			return errors.New("grate/simple: bad type")\n'),(T,'	"github.com/pbnjay/grate"\n','	"github.com/pbnjay/grate"\n')]),
(["P24"],"sheet int accepts float",[(S,"""			if x, ok := val.(int64); ok {
				*v = int(x)
			} else {""","""			if x, ok := val.(int64); ok {
				*v = int(x)
			} else if y, ok := val.(float64); ok {
				*v = int(y)
			} else {""")]),
(["P24"],"sheet int narrowed",[(S,"*v = int(x)","*v = int(int32(x))")]),
(["P24"],"sheet bool unset",[(S,"""			if x, ok := val.(bool); ok {
				*v = x
			} else {""","""			if x, ok := val.(bool); ok {
				if x {
					*v = x
				}
			} else {""")]),
(["P24"],"sheet mismatch silently skipped",[(S,"""				return fmt.Errorf("scan destination %d expected *%T, not *float64", i, val)""","""				continue""")]),
(["P24"],"sheet previous column",[(S,"val := row[i].Value()","val := row[0].Value()")]),
(["P24"],"sheet last skipped",[(S,"for i, a := range args {\n		val","for i, a := range args {\n		if i == len(row)-1 && i > 2 {\n			break\n		}\n		val")]),
(["P24"],"sheet default error",[(S,"""			return grate.WrapErr(fmt.Errorf("scan destination for arg %d is not supported (%T)", i, a),
				grate.ErrInvalidScanType)""","""			return fmt.Errorf("scan destination for arg %d is not supported (%T)", i, a)""")]),
(["P24"],"ok helper",[(S,"		val := row[i].Value()\n","		val := cellValue(row, i)\n"),(S,"// IsEmpty returns","func cellValue(row []Cell, i int) interface{} {\n	c := row[i]\n	return c.Value()\n}\n\n// IsEmpty returns")]),
(["P24"],"ok index loop",[(S,"for i, a := range args {","for i := 0; i < len(args); i++ {\n		a := args[i]")]),
(["P24"],"ok mismatch first",[(S,"""			if x, ok := val.(bool); ok {
				*v = x
			} else {
				return fmt.Errorf("scan destination %d expected *%T, not *bool", i, val)
			}""","""			x, ok := val.(bool)
			if !ok {
				return fmt.Errorf("scan destination %d expected *%T, not *bool", i, val)
			}
			*v = x""")]),
(["P24"],"ok simple helper",[(T,"""			switch strings.ToLower(row[i]) {
			case "1", "t", "true", "y", "yes":
				*v = true
			default:
				*v = false
			}""","""			*v = truthy(row[i])"""),(T,"// IsEmpty","""func truthy(s string) bool {
	switch strings.ToLower(s) {
	case "1", "t", "true", "y", "yes":
		return true
	}
	return false
}

// IsEmpty""")]),
(["P24"],"ok simple or chain",[(T,"""			switch strings.ToLower(row[i]) {
			case "1", "t", "true", "y", "yes":
				*v = true
			default:
				*v = false
			}""","""			s := strings.ToLower(row[i])
			*v = s == "1" || s == "t" || s == "true" || s == "y" || s == "yes" """)]),
(["P24"],"ok simple early return",[(T,"""			n, err = strconv.ParseFloat(row[i], 64)
			if err == nil {
				*v = n
			}""","""			n, err = strconv.ParseFloat(row[i], 64)
			if err != nil {
				return err
			}
			*v = n""")]),
(["P24"],"ok simple wrapped error",[(T,"""		if err != nil {
			return err
		}
	}""","""		if err != nil {
			return fmt.Errorf("column %d: %w", i, err)
		}
	}""")]),
(["P24"],"ok atoi",[(T,"""			var n int64
			n, err = strconv.ParseInt(row[i], 10, 64)
			if err == nil {
				*v = int(n)
			}""","""			var n int
			n, err = strconv.Atoi(row[i])
			if err == nil {
				*v = n
			}""")]),
# P25
(["P25"],"strings of other column",[(S,"res[i] = fs","res[len(res)-1-i] = fs")]),
(["P25"],"strings shared",[(T,"	copy(res, t.rows[t.iterRow])\n	return res","	copy(res, t.rows[t.iterRow])\n	return t.rows[t.iterRow]")]),
(["P25"],"strings truncated copy",[(T,"copy(res, t.rows[t.iterRow])","copy(res, t.rows[0])")]),
(["P25"],"types short",[(S,"func (s *Sheet) Types() []string {\n	res := make([]string, s.NumCols)","func (s *Sheet) Types() []string {\n	res := make([]string, len(s.Rows[0])+s.CurRow)")]),
(["P25"],"formats ok leak",[(S,"res[i], ok = builtInFormats[cell.FormatNo()]","res[i], ok = builtInFormats[s.Rows[0][i].FormatNo()]")]),
(["P25"],"types stop at blank",[(S,"		res[i] = cell.Type().String()\n","		if cell.Type() == BlankCell && i > 3 {\n			break\n		}\n		res[i] = cell.Type().String()\n")]),
(["P25"],"types skip",[(S,"		res[i] = cell.Type().String()\n","		if cell.Value() == nil {\n			continue\n		}\n		res[i] = cell.Type().String()\n")]),
(["P25"],"raw shares",[(S,"rr[i] = cell.Clone()","rr[i] = cell")]),
(["P25"],"types from zero value",[(S,"		if cell.Type() == BlankCell || cell.Value() == nil {","		if cell.Type() == BlankCell || cell.Value() == nil || cell.Type() == HyperlinkStringCell {")]),
(["P25"],"fixed format",[(S,"s.Formatter.Apply(cell.FormatNo(), val)","s.Formatter.Apply(s.Rows[s.CurRow-1][0].FormatNo(), val)")]),
(["P25"],"name of date",[(C,'		return "date"','		return "float"')]),
(["P25"],"name of hyperlink",[(C,'		return "hyperlink"','		return "string"')]),
(["P25"],"simple types",[(T,'if v == "" {','if len(v) <= 1 {')]),
(["P25"],"ok helper render",[(S,"""		val := cell.Value()
		fs, ok := s.Formatter.Apply(cell.FormatNo(), val)
		if !ok {
			fs = fmt.Sprint(val)
		}
		res[i] = fs""","""		res[i] = s.render(cell)"""),(S,"// Types extracts","""func (s *Sheet) render(cell Cell) string {
	val := cell.Value()
	fs, ok := s.Formatter.Apply(cell.FormatNo(), val)
	if ok {
		return fs
	}
	return fmt.Sprint(val)
}

// Types extracts""")]),
(["P25"],"ok append",[(S,"""	res := make([]string, s.NumCols)
	for i, cell := range s.Rows[s.CurRow-1] {
		res[i] = cell.Type().String()
	}""","""	res := make([]string, 0, s.NumCols)
	for _, cell := range s.Rows[s.CurRow-1] {
		res = append(res, cell.Type().String())
	}""")]),
(["P25"],"append to full",[(S,"""	res := make([]string, s.NumCols)
	for i, cell := range s.Rows[s.CurRow-1] {
		res[i] = cell.Type().String()
	}""","""	res := make([]string, s.NumCols)
	for _, cell := range s.Rows[s.CurRow-1] {
		res = append(res, cell.Type().String())
	}""")]),
(["P25"],"ok simple loop",[(T,"	copy(res, t.rows[t.iterRow])\n","	for i, v := range t.rows[t.iterRow] {\n		res[i] = v\n	}\n")]),
(["P25"],"ok simple append",[(T,"	res := make([]string, len(t.rows[t.iterRow]))\n	copy(res, t.rows[t.iterRow])\n	return res","	return append([]string(nil), t.rows[t.iterRow]...)")]),
(["P25"],"ok static through",[(S,"""		if cell.Type() == StaticCell {
			res[i] = cell.Value().(string)
			continue
		}
""","")]),
(["P25"],"ok index loop",[(S,"""	for i, cell := range s.Rows[s.CurRow-1] {
		res[i] = cell.Type().String()
	}""","""	row := s.Rows[s.CurRow-1]
	for i := 0; i < len(row); i++ {
		res[i] = row[i].Type().String()
	}""")]),
(["P25"],"ok row var",[(S,"""	for i, cell := range s.Rows[s.CurRow-1] {
		res[i], ok = builtInFormats[cell.FormatNo()]
		if !ok {
			res[i] = fmt.Sprint(cell.FormatNo())
		}""","""	for i, cell := range s.Rows[s.CurRow-1] {
		no := cell.FormatNo()
		var f string
		if f, ok = builtInFormats[no]; !ok {
			f = fmt.Sprint(no)
		}
		res[i] = f""")]),
# P26
(["P26"],"next skips last",[(S,"if (s.CurRow + 1) > len(s.Rows) {","if (s.CurRow + 1) >= len(s.Rows) {")]),
(["P26"],"next one more",[(T,"return t.iterRow < len(t.rows)","return t.iterRow <= len(t.rows)")]),
(["P26"],"next rewinds",[(S,"if (s.CurRow + 1) > len(s.Rows) {\n","if (s.CurRow + 1) > len(s.Rows) {\n		s.CurRow = 0\n")]),
(["P26"],"types peek",[(T,"for i, v := range t.rows[t.iterRow] {\n		if v","for i, v := range t.rows[0] {\n		if v")]),
(["P26"],"scan advances",[(S,"	row := s.Rows[s.CurRow-1]\n	if len(args)","	row := s.Rows[s.CurRow-1]\n	s.CurRow++\n	if len(args)")]),
(["P26"],"simple get shared",[(T,"	c := *t\n	c.iterRow = -1\n	return &c, nil","	t.iterRow = -1\n	return t, nil")]),
(["P26"],"simple get not rewound",[(T,"	c.iterRow = -1\n","")]),
(["P26"],"xls get cached",[("xls/sheets.go","	res := &commonxl.Sheet{","	res := b.sheetFor(s)\n	_ = &commonxl.Sheet{"),("xls/sheets.go","// List (visible)","var sheetCache = map[string]*commonxl.Sheet{}\n\nfunc (b *WorkBook) sheetFor(s *boundSheet) *commonxl.Sheet {\n	if sheetCache[s.Name] == nil {\n		sheetCache[s.Name] = &commonxl.Sheet{Formatter: &b.nfmt}\n	}\n	return sheetCache[s.Name]\n}\n\n// List (visible)")]),
(["P26"],"resize moves",[(S,"	s.CurRow = 0\n	s.NumRows","	s.CurRow = len(s.Rows)\n	s.NumRows")]),
(["P26"],"ok next reorder",[(S,"""	if (s.CurRow + 1) > len(s.Rows) {
		return false
	}
	s.CurRow++
	return true""","""	if s.CurRow < len(s.Rows) {
		s.CurRow++
		return true
	}
	return false""")]),
(["P26"],"ok next stays",[(T,"	t.iterRow++\n	return t.iterRow < len(t.rows)","	if t.iterRow+1 >= len(t.rows) {\n		return false\n	}\n	t.iterRow++\n	return true")]),
(["P26"],"ok simple get literal",[(T,"	c := *t\n	c.iterRow = -1\n	return &c, nil","	return &simpleFile{filename: t.filename, rows: t.rows, iterRow: -1}, nil")]),
(["P26"],"ok current row helper",[(S,"	for i, cell := range s.Rows[s.CurRow-1] {\n		res[i] = cell.Type().String()","	for i, cell := range s.current() {\n		res[i] = cell.Type().String()"),(S,"// Types extracts","func (s *Sheet) current() []Cell { return s.Rows[s.CurRow-1] }\n\n// Types extracts")]),
# P30
(["P30"],"first row only",[(S,"			if cell.Type() != BlankCell {\n				return false\n			}\n		}\n	}\n	return true","			if cell.Type() != BlankCell {\n				return false\n			}\n		}\n		if len(row) > 100 {\n			return true\n		}\n	}\n	return true")]),
(["P30"],"static ignored",[(S,"if cell.Type() != BlankCell {\n				return false","if cell.Type() != BlankCell && cell.Type() != StaticCell {\n				return false")]),
(["P30"],"rows[1:]",[(S,"	for _, row := range s.Rows {\n		for _, cell := range row {\n			if cell.Type() != Blank","	for _, row := range s.Rows[s.CurRow:] {\n		for _, cell := range row {\n			if cell.Type() != Blank")]),
(["P30"],"simple one row",[(T,"return len(t.rows) == 0","return len(t.rows) <= 1")]),
(["P30"],"ok index loops",[(S,"	for _, row := range s.Rows {\n		for _, cell := range row {\n			if cell.Type() != BlankCell {","	for i := range s.Rows {\n		for j := range s.Rows[i] {\n			if s.Rows[i][j].Type() != BlankCell {")]),
(["P30"],"ok helper",[(S,"		for _, cell := range row {\n			if cell.Type() != BlankCell {\n				return false\n			}\n		}\n	}\n	return true\n}","		if hasValue(row) {\n			return false\n		}\n	}\n	return true\n}\n\nfunc hasValue(row []Cell) bool {\n	for _, cell := range row {\n		if cell.Type() != BlankCell {\n			return true\n		}\n	}\n	return false\n}")]),
(["P30"],"ok flag",[(S,"	for _, row := range s.Rows {\n		for _, cell := range row {\n			if cell.Type() != BlankCell {\n				return false\n			}\n		}\n	}\n	return true","	empty := true\n	for _, row := range s.Rows {\n		for _, cell := range row {\n			if cell.Type() != BlankCell {\n				empty = false\n			}\n		}\n	}\n	return empty")]),
# P29
(["P29"],"resize off",[(S,"rows = row + 1","rows = row")]),
(["P29"],"bounds",[(S,"	if row >= s.NumRows || col >= s.NumCols {\n		if grate","	if row >= s.NumRows || col > s.NumCols {\n		if grate")]),
(["P29"],"put swapped marker",[(S,"s.Rows[row][col][1] = StaticCell\n			return","s.Rows[row][0][1] = StaticCell\n			return")]),
(["P29"],"format lost on text",[(S,"		s.Rows[row][col] = NewCell(value)\n	} else {","		s.Rows[row][col] = NewCell(value)\n		if isText {\n			return\n		}\n	} else {")]),
(["P29"],"nil ignored",[(S,"	ct, ok := s.Formatter","	if v, ok := value.(string); ok && v == \"\" {\n		return\n	}\n	ct, ok := s.Formatter")]),
(["P29"],"new rows narrow",[(S,"s.Rows = append(s.Rows, make([]Cell, cols))","s.Rows = append(s.Rows, make([]Cell, s.NumCols-1))")]),
(["P29"],"rows dropped",[(S,"	s.CurRow = 0\n	s.NumRows","	if rows < len(s.Rows) {\n		s.Rows = s.Rows[:rows]\n	}\n	s.CurRow = 0\n	s.NumRows"),(S,"	if rows < len(s.Rows) {\n		rows = len(s.Rows)\n	}\n","")]),
(["P29"],"cols shrink",[(S,"	if cols < s.NumCols {\n		cols = s.NumCols\n	}\n","")]),
(["P29"],"widen first only",[(S,"		if n <= 0 {\n			continue\n		}","		if n <= 0 {\n			break\n		}"),(S,"for i := range s.Rows {\n		n :=","for i := range s.Rows {\n		if i > 1000 {\n			break\n		}\n		n :=")]),
(["P29"],"rows replaced",[(S,"s.Rows[i] = append(s.Rows[i], make([]Cell, n)...)","s.Rows[i] = make([]Cell, cols)")]),
(["P29"],"set other",[(S,"s.Rows[row][col][1] = StringCell","s.Rows[row][0][1] = StringCell")]),
(["P29"],"set bounds",[(S,"	if row >= s.NumRows || col >= s.NumCols {\n		log.Println(\"grate: cell out of bounds\")\n		return\n	}\n\n	if len","	if row >= s.NumRows || col > s.NumCols {\n		log.Println(\"grate: cell out of bounds\")\n		return\n	}\n\n	if len")]),
(["P29"],"url drops format",[(C,"*c = append((*c)[:3], link)","*c = append((*c)[:2], uint16(0), link)")]),
(["P29"],"url drops value",[(C,"	(*c)[1] = HyperlinkStringCell\n","	(*c)[0], (*c)[1] = link, HyperlinkStringCell\n")]),
(["P29"],"numrows off",[(S,"	s.NumRows = rows\n","	s.NumRows = rows + 1\n")]),
(["P29"],"ok copy resize",[(S,"		s.Rows[i] = append(s.Rows[i], make([]Cell, n)...)","		wide := make([]Cell, cols)\n		copy(wide, s.Rows[i])\n		s.Rows[i] = wide")]),
(["P29"],"ok cell pointer",[(S,"	s.Rows[row][col].SetFormatNumber(fmtNum)","	c := &s.Rows[row][col]\n	c.SetFormatNumber(fmtNum)")]),
(["P29","P17","P37"],"ok local cell",[(S,"""		s.Rows[row][col] = NewCell(value)
	} else {
		s.Rows[row][col] = NewCellWithType(value, ct, s.Formatter)
	}
	s.Rows[row][col].SetFormatNumber(fmtNum)""","""		c := NewCell(value)
		c.SetFormatNumber(fmtNum)
		s.Rows[row][col] = c
		return
	}
	c := NewCellWithType(value, ct, s.Formatter)
	c.SetFormatNumber(fmtNum)
	s.Rows[row][col] = c""")]),
(["P29","P17","P37"],"ok marker helper",[(S,"""	if spec, ok := value.(string); ok {
		if spec == grate.EndRowMerged || spec == grate.EndColumnMerged || spec == grate.ContinueRowMerged || spec == grate.ContinueColumnMerged {
			s.Rows[row][col] = NewCell(value)
			s.Rows[row][col][1] = StaticCell
			return
		}
	}
""","""	if spec, ok := value.(string); ok && isMarker(spec) {
		s.Rows[row][col] = NewCell(value)
		s.Rows[row][col][1] = StaticCell
		return
	}
"""),(S,"// Set changes","""func isMarker(spec string) bool {
	switch spec {
	case grate.EndRowMerged, grate.EndColumnMerged, grate.ContinueRowMerged, grate.ContinueColumnMerged:
		return true
	}
	return false
}

// Set changes""")]),
(["P29"],"ok resize rows loop",[(S,"	for rows > len(s.Rows) {\n		s.Rows = append(s.Rows, make([]Cell, cols))\n	}","	for len(s.Rows) < rows {\n		s.Rows = append(s.Rows, make([]Cell, cols))\n	}")]),
(["P29"],"ok resize counted",[(S,"	for rows > len(s.Rows) {\n		s.Rows = append(s.Rows, make([]Cell, cols))\n	}","	for n := len(s.Rows); n < rows; n++ {\n		s.Rows = append(s.Rows, make([]Cell, cols))\n	}")]),
# P37
(["P37"],"tag of int",[(C,"	case uint16:\n		c[0] = int64(v)\n		c[1] = IntegerCell","	case uint16:\n		c[0] = v\n		c[1] = IntegerCell")]),
(["P37"],"float tag for bool text",[(C,"	if t == StringCell {\n		c[0] = fmt.Sprint(c[0])\n		c[1] = StringCell\n	}","	if t == StringCell && c[1] != FloatCell {\n		c[0] = fmt.Sprint(c[0])\n		c[1] = StringCell\n	}")]),
(["P37"],"date not converted",[(C,"			c[0] = f.ConvertToDate(float64(c[0].(int64)))\n","")]),
(["P37"],"int8 wraps",[(C,"	case int8:\n		c[0] = int64(v)","	case int8:\n		c[0] = int64(uint8(v))")]),
(["P37"],"float32 text",[(C,"	case float32:\n		c[0] = float64(v)","	case float32:\n		c[0] = float64(int64(v))")]),
(["P37"],"uint64 wraps",[(C,"		if v > math.MaxInt64 {\n			c[0] = float64(v)\n			c[1] = FloatCell\n		} else {","		if v == math.MaxUint64 {\n			c[0] = float64(v)\n			c[1] = FloatCell\n		} else {")]),
(["P37"],"bool to float tag",[(C,"""			c[1] = FloatCell
		} else if t == StringCell {
			if c[0].(bool) {""","""			c[1] = IntegerCell
		} else if t == StringCell {
			if c[0].(bool) {""")]),
(["P37"],"blank keeps string tag",[(C,"		if len(v) == 0 {\n			c[0] = nil\n			c[1] = BlankCell\n		} else {\n			c[0] = v\n			c[1] = StringCell","		if len(v) == 0 {\n			c[0] = nil\n			c[1] = StringCell\n		} else {\n			c[0] = v\n			c[1] = StringCell")]),
(["P37"],"set non text",[("xls/sheets.go","res.Set(int(formulaRow), int(formulaCol), fstr)","res.Set(int(formulaRow), int(formulaCol), len(fstr))")]),
(["P37"],"ok grouped",[(C,"	case int8:\n		c[0] = int64(v)\n		c[1] = IntegerCell\n","	case int8:\n		c[0], c[1] = int64(v), IntegerCell\n")]),
(["P37"],"ok literal",[(C,"	case bool:\n		c[0] = v\n		c[1] = BooleanCell\n","	case bool:\n		return Cell{v, BooleanCell}\n")]),
(["P37"],"ok switch typed",[(C,"""	if t == DateCell {
		if c[1] == FloatCell {
			c[0] = f.ConvertToDate(c[0].(float64))
			c[1] = DateCell
		} else if c[1] == IntegerCell {
			c[0] = f.ConvertToDate(float64(c[0].(int64)))
			c[1] = DateCell
		}
	}""","""	if t == DateCell {
		switch v := c[0].(type) {
		case float64:
			c[0], c[1] = f.ConvertToDate(v), DateCell
		case int64:
			c[0], c[1] = f.ConvertToDate(float64(v)), DateCell
		}
	}""")]),
# P17
(["P17"],"text coerced",[(S,"if !ok || fmtNum == 0 || isText || ct == StringCell {","if !ok || fmtNum == 0 || isText && ct != BooleanCell || ct == StringCell {")]),
(["P17"],"apply formats text",[(F,"	if s, isText := val.(string); isText {","	if s, isText := val.(string); isText && !ok {")]),
(["P17"],"apply static",[(F,"		return s, ok\n	}\n	return ff(x, val), ok","		if _, custom := x.customCodes[fmtID]; !custom {\n			return s, ok\n		}\n	}\n	return ff(x, val), ok")]),
(["P17"],"strings trims",[(S,"res[i] = cell.Value().(string)\n","res[i] = fmt.Sprintf(\"%.32767s\", cell.Value())\n")]),
(["P17"],"newcell trims",[(C,"		if len(v) == 0 {\n			c[0] = nil\n			c[1] = BlankCell\n		} else {\n			c[0] = v","		if len(v) == 0 {\n			c[0] = nil\n			c[1] = BlankCell\n		} else {\n			if len(v) > 32767 {\n				v = v[:32767]\n			}\n			c[0] = v")]),
(["P17"],"ok apply switch",[(F,"""	if s, isText := val.(string); isText {
		// number formats never alter text
		return s, ok
	}
	return ff(x, val), ok""","""	switch v := val.(type) {
	case string:
		return v, ok
	default:
		return ff(x, v), ok
	}""")]),
]

W="xlsx/workbook.go"
H="xlsx/sheets.go"
TY="xlsx/types.go"
X="xlsx/xlsx.go"
SST_OLD='''	val := ""
	inText, inPhonetic := false, false
	tok, err := dec.RawToken()'''
M=[
# P15
(["P15"],"rich runs only last",[(W,'			case "t":\n				// no attributes','			case "t":\n				val = ""\n				// no attributes')]),
(["P15"],"phonetic not skipped",[(W,'if inText && !inPhonetic {','if inText && (!inPhonetic || inText) {')]),
(["P15"],"blank runs dropped",[(W,'				val += string(v)\n','				val += strings.TrimSpace(string(v))\n')]),
(["P15"],"empty items dropped",[(W,'				d.strings = append(d.strings, val)\n','				if val != "" {\n					d.strings = append(d.strings, val)\n				}\n')]),
(["P15"],"no reset at si",[(W,'			case "si":\n				val = ""\n','			case "si":\n				_ = val\n')]),
(["P15"],"append at t",[(W,'			case "t":\n				inText = false\n','			case "t":\n				inText = false\n				d.strings = append(d.strings, val)\n')]),
(["P15"],"append at r",[(W,'			case "si":\n				d.strings = append(d.strings, val)\n','			case "r", "si":\n				d.strings = append(d.strings, val)\n')]),
(["P15"],"only first chunk",[(W,'				val += string(v)\n','				if val == "" {\n					val += string(v)\n				}\n')]),
(["P15"],"phonetic stays",[(W,'			case "rPh":\n				inPhonetic = false\n','			case "rPh":\n				inPhonetic = !inText\n')]),
(["P15"],"all text",[(W,'if inText && !inPhonetic {','if _ = inText; !inPhonetic {')]),
(["P15"],"dedupe",[(W,'				d.strings = append(d.strings, val)\n','				if n := len(d.strings); n == 0 || d.strings[n-1] != val {\n					d.strings = append(d.strings, val)\n				}\n')]),
(["P15"],"text cleared at phonetic end",[(W,'			case "rPh":\n				inPhonetic = false\n','			case "rPh":\n				inPhonetic = false\n				inText = true\n')]),
(["P15"],"stop at phoneticPr",[(W,'			case "sst":\n				// main container','			case "phoneticPr":\n				return nil\n			case "sst":\n				// main container')]),
(["P15"],"error swallowed",[(W,'''			}
		default:
			if grate.Debug {
				log.Printf("    Unhandled SST xml token %T %+v", tok, tok)
			}
		}
	}
	if err == io.EOF {
		err = nil
	}
	return err''','''			}
		default:
			if grate.Debug {
				log.Printf("    Unhandled SST xml token %T %+v", tok, tok)
			}
		}
	}
	return nil''')]),
(["P15"],"ok builder",[(W,SST_OLD,'''	var val strings.Builder
	inText, inPhonetic := false, false
	tok, err := dec.RawToken()'''),(W,"				val += string(v)\n","				val.Write(v)\n"),(W,'			case "si":\n				val = ""\n','			case "si":\n				val.Reset()\n'),(W,"d.strings = append(d.strings, val)","d.strings = append(d.strings, val.String())")]),
(["P15"],"ok bytes",[(W,SST_OLD,'''	var val []byte
	inText, inPhonetic := false, false
	tok, err := dec.RawToken()'''),(W,"				val += string(v)\n","				val = append(val, v...)\n"),(W,'			case "si":\n				val = ""\n','			case "si":\n				val = val[:0]\n'),(W,"d.strings = append(d.strings, val)","d.strings = append(d.strings, string(val))")]),
(["P15"],"ok reset at end",[(W,'			case "si":\n				val = ""\n','			case "si":\n				// see below\n'),(W,"				d.strings = append(d.strings, val)\n",'				d.strings = append(d.strings, val)\n				val = ""\n')]),
(["P15"],"ok depth",[(W,"inText, inPhonetic := false, false","inText, inPhonetic := false, 0"),(W,"inText && !inPhonetic","inText && inPhonetic == 0"),(W,"inPhonetic = true","inPhonetic = 1"),(W,"inPhonetic = false","inPhonetic = 0")]),
(["P15"],"ok local list",[(W,SST_OLD,"	var items []string\n"+SST_OLD),(W,"				d.strings = append(d.strings, val)\n",'				items = append(items, val)\n'),(W,'''				log.Printf("    Unhandled SST xml token %T %+v", tok, tok)
			}
		}
	}
	if err == io.EOF {
		err = nil
	}
''','''				log.Printf("    Unhandled SST xml token %T %+v", tok, tok)
			}
		}
	}
	d.strings = items
	if err == io.EOF {
		err = nil
	}
''')]),
(["P15"],"ok loop form",[(W,SST_OLD+'''
	for ; err == nil; tok, err = dec.RawToken() {''','''	val := ""
	inText, inPhonetic := false, false
	for {
		tok, err := dec.RawToken()
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}'''),(W,'''				log.Printf("    Unhandled SST xml token %T %+v", tok, tok)
			}
		}
	}
	if err == io.EOF {
		err = nil
	}
	return err
''','''				log.Printf("    Unhandled SST xml token %T %+v", tok, tok)
			}
		}
	}
''')]),
(["P15"],"ok helper",[(W,"func (d *Document) parseSharedStrings(",'''func (d *Document) addString(s string) {
	d.strings = append(d.strings, s)
}

func (d *Document) parseSharedStrings('''),(W,"				d.strings = append(d.strings, val)\n","				d.addString(val)\n")]),
# P36
(["P36"],"row off by one",[(TY,"return checkIndexes(col2int(col1), int(rn)-1)","return checkIndexes(col2int(col1), int(rn))")]),
(["P36"],"col off by one",[(TY,"	return idx - 1\n}","	return idx\n}")]),
(["P36"],"col base 25",[(TY,"idx *= 26","idx *= 25")]),
(["P36"],"letters from 0",[(TY,"idx += int(c - '@')","idx += int(c - 'A')")]),
(["P36"],"swapped",[(TY,"return checkIndexes(col2int(col1), int(rn)-1)","return checkIndexes(int(rn)-1, col2int(col1))")]),
(["P36"],"swapped use",[(H,"s.wrapped.Put(r, c, val, fno)","s.wrapped.Put(c, r, val, fno)")]),
(["P36"],"fewer columns",[(TY,"maxColumns = 16384","maxColumns = 256")]),
(["P36"],"fewer rows",[(TY,"maxRows    = 1048576","maxRows    = 65536")]),
(["P36"],"rows le",[(TY,"row >= maxRows","row >= maxRows-1")]),
(["P36"],"short ref",[(TY,"if len(r) < 2 {","if len(r) < 3 {")]),
(["P36"],"octal row",[(TY,"rn, _ := strconv.ParseInt(r[i1:], 10, 64)\n		return","rn, _ := strconv.ParseInt(r[i1:], 0, 64)\n		return")]),
(["P36"],"row 16 bits",[(TY,"rn, _ := strconv.ParseInt(r[i1:], 10, 64)\n		return","rn, _ := strconv.ParseInt(r[i1:], 10, 16)\n		return")]),
(["P36"],"digits missing",[(TY,'strings.IndexAny(r, "0123456789")','strings.IndexAny(r, "123456789")')]),
(["P36"],"format not reset",[(H,'''				} else {
					fno = 0
				}
''','''				}
''')]),
(["P36"],"format off by one",[(H,"fno = s.d.xfs[sid]","fno = s.d.xfs[len(s.d.xfs)-1-int(sid)]")]),
(["P36"],"format limit",[(H,"if len(s.d.xfs) > int(sid) {","if len(s.d.xfs) > int(sid) && sid > 0 {")]),
(["P36"],"style hex",[(H,"strconv.ParseInt(style, 10, 64)","strconv.ParseInt(style, 16, 64)")]),
(["P36"],"style 8 bit",[(H,"strconv.ParseInt(style, 10, 64)","strconv.ParseInt(style, 10, 8)")]),
(["P36"],"type kept",[(H,'''				currentCellType = CellType(ax[0])
				if currentCellType == BlankCellType {
					currentCellType = NumberCellType
				}''','''				if ax[0] != "" {
					currentCellType = CellType(ax[0])
				}''')]),
(["P36"],"error as number",[(H,"				case NumberCellType:\n","				case NumberCellType, ErrorCellType:\n"),(H,"				case ErrorCellType, FormulaStringCellType,","				case FormulaStringCellType,")]),
(["P36"],"bool inverted",[(H,"val = cellText[0] == '1'","val = cellText[0] == '0'")]),
(["P36"],"bool text",[(H,"val = cellText[0] == '1'",'val = cellText == "true"')]),
(["P36"],"float32",[(H,"strconv.ParseFloat(cellText, 64)","strconv.ParseFloat(cellText, 32)")]),
(["P36"],"shared off by one",[(H,"val = s.d.strings[si]","val = s.d.strings[int64(len(s.d.strings))-1-si]")]),
(["P36"],"shared last rejected",[(H,"si >= int64(len(s.d.strings))","si+1 >= int64(len(s.d.strings))")]),
(["P36"],"text trimmed",[(H,"				var val interface{} = cellText\n","				var val interface{} = strings.TrimSpace(cellText)\n")]),
(["P36"],"text not reset",[(H,'				cellText = ""\n			case "v", "t":','			case "v", "t":')]),
(["P36"],"formula text added",[(H,'			case "v", "t":\n				inValue = currentCell','			case "v", "t", "f":\n				inValue = currentCell'),(H,'			case "f":\n				//log','			case "F":\n				//log'),(H,'			case "v", "t":\n				inValue = false','			case "v", "t", "f":\n				inValue = false')]),
(["P36"],"value ends at formula",[(H,'			case "v", "t":\n				inValue = false','			case "v", "t", "r":\n				inValue = false\n				currentCell = ""')]),
(["P36"],"last chunk only",[(H,"cellText += string(v)","cellText = string(v)")]),
(["P36"],"str as shared",[(TY,'FormulaStringCellType CellType = "str"','FormulaStringCellType CellType = "s"'),(TY,'SharedStringCellType  CellType = "s"','SharedStringCellType  CellType = "str"')]),
(["P36"],"phonetic in cells",[(H,"if inValue && !inPhonetic {","if inValue && (inPhonetic || true) {")]),
(["P36"],"early end",[(H,'			case "worksheet", "mergeCells", "hyperlinks":\n','			case "hyperlinks":\n				return nil\n			case "worksheet", "mergeCells":\n')]),
(["P36"],"first ref kept",[(H,"currentCell = ax[1] // always an A1 style reference",'if currentCell == "" {\n					currentCell = ax[1]\n				}'),(H,'				currentCell = ""\n				if cellText == "" ||','				if cellText == "" ||')]),
(["P36"],"ok col helper",[(TY,'''	idx := 0
	for _, c := range col {
		idx *= 26
		idx += int(c - '@')
	}
	return idx - 1''','''	idx := -1
	for i := 0; i < len(col); i++ {
		idx = (idx+1)*26 + int(col[i]-'A')
	}
	return idx''')]),
(["P36"],"ok col horner",[(TY,'''		idx *= 26
		idx += int(c - '@')''','''		idx = idx*26 + int(c) - 'A' + 1''')]),
(["P36"],"ok builder",[(H,'cellText := "" // contents of the <v> or <is> elements','var text strings.Builder'),(H,"cellText += string(v)","text.Write(v)"),(H,'cellText = ""\n			case','text.Reset()\n			case'),(H,"				c, r := refToIndexes(currentCell)\n","				c, r := refToIndexes(currentCell)\n				cellText := text.String()\n")]),
(["P36"],"ok value helper",[(H,"func (s *Sheet) parseSheet() error {",'''func number(text string) interface{} {
	if f, err := strconv.ParseFloat(text, 64); err == nil {
		return f
	}
	return text
}

func (s *Sheet) parseSheet() error {'''),(H,'''					fval, err := strconv.ParseFloat(cellText, 64)
					if err == nil {
						val = fval
					}
''','''					val = number(cellText)
''')]),
(["P36"],"ok style helper",[(H,"func (s *Sheet) parseSheet() error {",'''func (d *Document) formatOf(style string) uint16 {
	n, err := strconv.Atoi(style)
	if err != nil {
		n = 0
	}
	if n >= len(d.xfs) {
		return 0
	}
	return d.xfs[n]
}

func (s *Sheet) parseSheet() error {'''),(H,'''				sid, _ := strconv.ParseInt(style, 10, 64)
				if len(s.d.xfs) > int(sid) {
					fno = s.d.xfs[sid]
				} else {
					fno = 0
				}
''','''				fno = s.d.formatOf(style)
''')]),
(["P36"],"ok indexes at start",[(H,"				currentCell = ax[1] // always an A1 style reference\n","				currentCell = ax[1]\n				cellCol, cellRow = refToIndexes(currentCell)\n"),(H,"				c, r := refToIndexes(currentCell)\n","				c, r := cellCol, cellRow\n"),(H,'	currentCell := ""\n','	currentCell := ""\n	var cellCol, cellRow int\n')]),
(["P36"],"ok struct state",[(H,'	inValue, inPhonetic := false, false\n','	var st struct{ inValue, inPhonetic bool }\n'),(H,"if inValue && !inPhonetic {","if st.inValue && !st.inPhonetic {"),(H,'inValue = currentCell != ""','st.inValue = currentCell != ""'),(H,"inPhonetic = true","st.inPhonetic = true"),(H,"inValue = false\n			case \"rPh\":\n				inPhonetic = false","st.inValue = false\n			case \"rPh\":\n				st.inPhonetic = false")]),
# P35
(["P35"],"base ignored",[(W,"numFmtID = baseNumFormats[baseID]","_ = baseNumFormats[baseID]")]),
(["P35"],"base off by one",[(W,"len(baseNumFormats) > int(baseID) {\n						numFmtID = baseNumFormats[baseID]","len(baseNumFormats) > int(baseID)+1 {\n						numFmtID = baseNumFormats[baseID+1]")]),
(["P35"],"base bound",[(W,"len(baseNumFormats) > int(baseID) {","len(baseNumFormats) > int(baseID)+1 {")]),
(["P35"],"own empty overrides",[(W,'} else if ax[0] != "" {','} else {')]),
(["P35"],"apply 0 ignored",[(W,'''						numFmtID = "0"
					} else if ax[0] != "" {''','''						_ = numFmtID
					} else if ax[0] != "" {''')]),
(["P35"],"apply needed",[(W,'} else if ax[0] != "" {','} else if ax[0] != "" && ax[1] == "1" {')]),
(["P35"],"apply absent base",[(W,'''					if ax[1] == "0" {
						baseNumFormats''','''					if ax[1] != "1" {
						baseNumFormats''')]),
(["P35"],"only styles with formats",[(W,'''					d.xfs = append(d.xfs, uint16(nfid))''','''					if nfid > 0 {
						d.xfs = append(d.xfs, uint16(nfid))
					}''')]),
(["P35"],"byte format",[(W,'strconv.ParseInt(numFmtID, 10, 16)','strconv.ParseInt(numFmtID, 10, 8)')]),
(["P35"],"base section appends",[(W,'''						baseNumFormats = append(baseNumFormats, ax[0])
''','''						baseNumFormats = append(baseNumFormats, ax[0])
						section = 2
''')]),
(["P35"],"reset at numFmts",[(W,'			case "cellStyleXfs":\n				section = 1\n			case "cellXfs":','			case "numFmts", "cellStyles":\n				d.xfs = d.xfs[:0]\n			case "cellStyleXfs":\n				section = 1\n			case "cellXfs":')]),
(["P35"],"format code swapped",[(W,'ax := getAttrs(v.Attr, "numFmtId", "formatCode")','ax := getAttrs(v.Attr, "numFmtId", "numFmtId")')]),
(["P35"],"only custom codes",[(W,'				d.fmt.Add(uint16(fmtNo), ax[1])','				if fmtNo > 200 {\n					d.fmt.Add(uint16(fmtNo), ax[1])\n				}')]),
(["P35"],"wrong attribute order",[(W,'"numFmtId", "applyNumberFormat", "xfId")','"numFmtId", "xfId", "applyNumberFormat")')]),
(["P35"],"ends at cellXfs",[(W,'''			case "cellXfs":
				section = 0
''','''			case "cellXfs":
				return nil
''')]),
(["P35"],"error at fonts",[(W,'''		case xml.EndElement:
			switch v.Name.Local {
			case "cellStyleXfs":''','''		case xml.EndElement:
			switch v.Name.Local {
			case "fonts":
				return io.ErrUnexpectedEOF
			case "cellStyleXfs":''')]),
(["P35"],"ok numbers in base",[(W,"	baseNumFormats := []string{}","	var baseNumFormats []uint16"),(W,'''					if ax[1] == "0" {
						baseNumFormats = append(baseNumFormats, "0")
					} else {
						baseNumFormats = append(baseNumFormats, ax[0])
					}''','''					n := int64(0)
					if ax[1] != "0" {
						n, _ = strconv.ParseInt(ax[0], 10, 16)
					}
					baseNumFormats = append(baseNumFormats, uint16(n))'''),(W,'''					numFmtID := "0"
''','''					nfid := uint16(0)
'''),(W,"numFmtID = baseNumFormats[baseID]","nfid = baseNumFormats[baseID]"),(W,'''						numFmtID = "0"
					} else if ax[0] != "" {
						numFmtID = ax[0]
					}

					nfid, _ := strconv.ParseInt(numFmtID, 10, 16)
					d.xfs = append(d.xfs, uint16(nfid))''','''						nfid = 0
					} else if ax[0] != "" {
						n, _ := strconv.ParseInt(ax[0], 10, 16)
						nfid = uint16(n)
					}
					d.xfs = append(d.xfs, nfid)''')]),
(["P35"],"ok switch",[(W,'''					numFmtID := "0"
					if len(baseNumFormats) > int(baseID) {
						numFmtID = baseNumFormats[baseID]
					}
''',''),(W,'''					if ax[1] == "0" {
						// remove the format (if it was inherited)
						numFmtID = "0"
					} else if ax[0] != "" {
						numFmtID = ax[0]
					}
''','''					numFmtID := "0"
					switch {
					case ax[1] == "0":
					case len(ax[0]) > 0:
						numFmtID = ax[0]
					case int(baseID) < len(baseNumFormats):
						numFmtID = baseNumFormats[baseID]
					}
''')]),
(["P35"],"ok helper",[(W,"func (d *Document) parseStyles(",'''func formatOf(base []string, id, apply, of string) string {
	if apply == "0" {
		return "0"
	}
	if id != "" {
		return id
	}
	i, _ := strconv.Atoi(of)
	if i < len(base) {
		return base[i]
	}
	return "0"
}

func (d *Document) parseStyles('''),(W,'''					baseID, _ := strconv.ParseInt(ax[2], 10, 64)
					numFmtID := "0"
					if len(baseNumFormats) > int(baseID) {
						numFmtID = baseNumFormats[baseID]
					}
''',''),(W,'''					if ax[1] == "0" {
						// remove the format (if it was inherited)
						numFmtID = "0"
					} else if ax[0] != "" {
						numFmtID = ax[0]
					}

					nfid, _ := strconv.ParseInt(numFmtID, 10, 16)''','''					nfid, _ := strconv.ParseInt(formatOf(baseNumFormats, ax[0], ax[1], ax[2]), 10, 16)''')]),
(["P35"],"ok two flags",[(W,"	section := 0\n","	inBase, inCells := false, false\n"),(W,"section = 1","inBase = true"),(W,"section = 2","inCells = true"),(W,"section == 1","inBase"),(W,"section == 2","inCells"),(W,'			case "cellStyleXfs":\n				section = 0\n			case "cellXfs":\n				section = 0\n','			case "cellStyleXfs", "cellXfs":\n				inBase, inCells = false, false\n')]),
(["P35"],"ok local list",[(W,"	d.xfs = d.xfs[:0]\n\n	section","	var xfs []uint16\n\n	section"),(W,"				d.xfs = d.xfs[:0]\n\n			case \"xf\"","\n			case \"xf\""),(W,"d.xfs = append(d.xfs, uint16(nfid))","xfs = append(xfs, uint16(nfid))"),(W,'''				log.Printf("      Unhandled style xml tokens %T %+v", tok, tok)
			}
		}
	}
''','''				log.Printf("      Unhandled style xml tokens %T %+v", tok, tok)
			}
		}
	}
	d.xfs = xfs
''')]),
(["P35"],"ok attr loop",[(W,'''				ax := getAttrs(v.Attr, "numFmtId", "applyNumberFormat", "xfId")
''','''				var ax [3]string
				for _, a := range v.Attr {
					switch a.Name.Local {
					case "numFmtId":
						ax[0] = a.Value
					case "applyNumberFormat":
						ax[1] = a.Value
					case "xfId":
						ax[2] = a.Value
					}
				}
''')]),
(["P35"],"ok while loop",[(W,'''	section := 0
	tok, err := dec.RawToken()
	for ; err == nil; tok, err = dec.RawToken() {
''','''	section := 0
	var err error
	for {
		var tok xml.Token
		if tok, err = dec.RawToken(); err != nil {
			break
		}
''')]),
]

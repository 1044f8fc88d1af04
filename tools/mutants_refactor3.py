# Further refactorings, of the leaves of the library: every check has to stay quiet.
M=[]
S="xls/strings.go"; H="xls/hyperlinks.go"; N="commonxl/numbers.go"; D="commonxl/dates.go"; F="commonxl/fmt.go"; R_="xls/cfb/slicereader.go"; O="commonxl/formats.go"
def R(name,*edits): M.append((["all"],"ok r 3 "+name,list(edits)))
def body(cch,off):
    return '''	content := make([]uint16, cch)
	if (flags & 0x1) == 0 {
		// 16-bit characters but only the bottom 8bits
		contentBytes := raw[:cch]
		for i, x := range contentBytes {
			content[i] = uint16(x)
		}
		cch += %d // to return the offset
	} else {
		// 16-bit characters
		for i := 0; i < cch; i++ {
			content[i] = binary.LittleEndian.Uint16(raw[:2])
			raw = raw[2:]
		}
		cch += cch + %d // to return the offset
	}
	return string(utf16.Decode(content)), cch, nil
'''%(off,off)
CHARS='''func textOf(raw []byte, cch int, wide bool) (string, int) {
	content := make([]uint16, 0, cch)
	size := 1
	if wide {
		size = 2
	}
	for i := 0; i < cch; i++ {
		if wide {
			content = append(content, binary.LittleEndian.Uint16(raw[2*i:]))
		} else {
			content = append(content, uint16(raw[i]))
		}
	}
	return string(utf16.Decode(content)), cch * size
}

// 2.5.240
'''
R("short string helper",(S,"// 2.5.240\n",CHARS),(S,body(1,2),'''	s, n := textOf(raw, cch, flags&1 != 0)
	return s, n + 2, nil
'''))
R("both string helpers",(S,"// 2.5.240\n",CHARS),(S,body(1,2),'''	s, n := textOf(raw, cch, flags&1 != 0)
	return s, n + 2, nil
'''),(S,body(1,3),'''	s, n := textOf(raw, cch, flags&1 != 0)
	return s, n + 3, nil
'''))
R("string offsets named",(S,body(1,3),body(1,3).replace("cch += 3 // to return the offset","n = 3 + cch").replace("cch += cch + 3 // to return the offset","n = 3 + 2*cch").replace("content)), cch, nil","content)), n, nil").replace("	content := make","	n := 0\n	content := make")))
R("sst wide flag",(S,'''				if (flags & 1) == 0 { //8-bit
					current[j] = uint16(buf[0])
					buf = buf[1:]
				} else { //16-bit
					current[j] = uint16(binary.LittleEndian.Uint16(buf[:2]))
					buf = buf[2:]
					if len(buf) == 1 {
						return nil, errors.New("xls: off by one")
					}
				}
''','''				if wide := flags&1 != 0; !wide {
					current[j] = uint16(buf[0])
					buf = buf[1:]
					continue
				}
				current[j] = binary.LittleEndian.Uint16(buf)
				buf = buf[2:]
				if len(buf) == 1 {
					return nil, errors.New("xls: off by one")
				}
'''))
R("sst flag of the next record",(S,'''					if (recs[i].Data[0] & 1) == 0 {
						flags &= 0xFE
					} else {
						flags |= 1
					}
''','''					flags = flags&0xFE | recs[i].Data[0]&1
'''))
R("moniker classes compared",(H,'''	isURLMoniker := true
	isFileMoniker := true
	urlM''','''	urlM'''),(H,'''	for i, b := range classid {
		if urlMonikerClassID[i] != b {
			isURLMoniker = false
		}
		if fileMonikerClassID[i] != b {
			isFileMoniker = false
		}
	}
''','''	isURLMoniker := bytes.Equal(classid, urlMonikerClassID[:])
	isFileMoniker := bytes.Equal(classid, fileMonikerClassID[:])
'''),(H,'import (\n','import (\n	"bytes"\n'))
LOC='''		slen = binary.LittleEndian.Uint32(raw[:4])
		raw = raw[4:]
		if uint64(slen)*2 > uint64(len(raw)) {
			return "", "", errLinkLength
		}
		us := make([]uint16, slen)
		for i := 0; i < int(slen); i++ {
			us[i] = binary.LittleEndian.Uint16(raw)
			raw = raw[2:]
		}
		linkText = string(utf16.Decode(us))
	}

	linkText'''
R("link string function",(H,LOC,'''		linkText, _, err = linkString(raw)
		if err != nil {
			return "", "", err
		}
	}

	linkText'''),(H,"func parseHyperlinkMoniker",'''func linkString(raw []byte) (string, []byte, error) {
	n := binary.LittleEndian.Uint32(raw)
	raw = raw[4:]
	if uint64(n) > uint64(len(raw)/2) {
		return "", nil, errLinkLength
	}
	us := make([]uint16, n)
	for i := range us {
		us[i] = binary.LittleEndian.Uint16(raw[2*i:])
	}
	return string(utf16.Decode(us)), raw[2*len(us):], nil
}

func parseHyperlinkMoniker'''))
R("fraction abs",(N,'''		diff = val - (numer / denom)
		if diff < 0.0 {
			diff = -diff
		}
''','''		diff = math.Abs(val - numer/denom)
'''),(N,'''	if part < 0.0 {
		part = -part
	}
	whole = int(wholeF)
	num, den = DecimalToFraction(part, nn, nd)
	return
''','''	num, den = DecimalToFraction(math.Abs(part), nn, nd)
	return int(wholeF), num, den
'''))
R("date fraction helper",(D,'''		t := time.Duration(float64(time.Hour*24) * frac)
		return time.Date(year, month, day, 0, 0, 0, 0, time.UTC).Add(t)
''','''		return addDays(time.Date(year, month, day, 0, 0, 0, 0, time.UTC), frac)
'''),(D,'''	t := time.Duration(float64(time.Hour*24) * frac)
	return date.AddDate(0, 0, v).Add(t)
''','''	return addDays(date.AddDate(0, 0, v), frac)
'''),(D,"func timeFmtFunc",'''func addDays(t time.Time, days float64) time.Time {
	return t.Add(time.Duration(float64(time.Hour*24) * days))
}

func timeFmtFunc'''))
R("time of a value",(D,'''		t, ok := v.(time.Time)
		if !ok {
			fval, ok := convertToFloat64(v)
			if !ok {
				return "MUST BE time.Time OR numeric TO FORMAT CORRECTLY"
			}
			t = x.ConvertToDate(fval)
		}
		//log''','''		t, ok := x.timeOf(v)
		if !ok {
			return "MUST BE time.Time OR numeric TO FORMAT CORRECTLY"
		}
		//log'''),(D,"func timeFmtFunc",'''func (x *Formatter) timeOf(v interface{}) (time.Time, bool) {
	if t, ok := v.(time.Time); ok {
		return t, true
	}
	f, ok := convertToFloat64(v)
	if !ok {
		return time.Time{}, false
	}
	return x.ConvertToDate(f), true
}

func timeFmtFunc'''))
R("ident fits helper",(F,'''		s := strconv.FormatFloat(x, 'f', -1, 64)
		if len(s) <= 11 || (len(s) == 12 && x < 0) {
			return s
		}
		s = strconv.FormatFloat(x, 'g', 6, 64)
		if len(s) <= 11 {
			return s
		}
''','''		room := 11
		if x < 0 {
			room++
		}
		if s := strconv.FormatFloat(x, 'f', -1, 64); len(s) <= room {
			return s
		}
		if s := strconv.FormatFloat(x, 'g', 6, 64); len(s) <= 11 {
			return s
		}
'''))
R("slice reader block",(R_,'''	n := copy(b, s.Data[s.Index][s.Offset:])
	if n > 0 {
		s.Offset += uint(n)
		if s.Offset == uint(len(s.Data[s.Index])) {
			s.Offset = 0
			s.Index++
		}
		return n, nil
	}

	return 0, io.EOF
''','''	block := s.Data[s.Index]
	n := copy(b, block[s.Offset:])
	if n <= 0 {
		return 0, io.EOF
	}
	if s.Offset += uint(n); s.Offset >= uint(len(block)) {
		s.Index, s.Offset = s.Index+1, 0
	}
	return n, nil
'''))
R("format types lookup",(O,'''	if x.customCodeTypes != nil {
		ct, ok := x.customCodeTypes[fmtID]
		return ct, ok
	}
	return 0, false
''','''	ct, ok := x.customCodeTypes[fmtID]
	return ct, ok
'''))
R("format add conditions",(O,'''	_, ok := goFormatters[fmtID]
	if ok {
		return''','''	if _, ok := goFormatters[fmtID]; ok {
		return'''),(O,'''	_, ok2 := x.customCodes[fmtID]
	if ok2 {
		return''','''	if _, ok := x.customCodes[fmtID]; ok {
		return'''),(O,'''	x.customCodes[fmtID], x.customCodeTypes[fmtID] = makeFormatter(formatCode)
	return nil
''','''	f, t := makeFormatter(formatCode)
	x.customCodes[fmtID] = f
	x.customCodeTypes[fmtID] = t
	return nil
'''))

W="xlsx/workbook.go"; X="xlsx/xlsx.go"; H="xlsx/sheets.go"; L="xls/xls.go"; G="xls/sheets.go"; T="simple/tsv.go"; C="simple/csv.go"; F="xls/cfb/cfb.go"; I="xls/cfb/interface.go"; N="xls/hyperlinks.go"; Y="xls/crypto/crypto.go"
P=["P28"]
SSEND='''	if err == io.EOF {
		err = nil
	}
	return err
}
'''
M=[
(P,"cut off sheet accepted",[(H,'	if err == io.EOF {\n		err = nil\n	}','	if err == io.EOF || err == io.ErrUnexpectedEOF {\n		err = nil\n	}')]),
(P,"sheet error dropped after first row",[(H,'	if err == io.EOF {\n		err = nil\n	}','	if err == io.EOF || len(s.d.strings) > 0 {\n		err = nil\n	}')]),
(P,"rels cut off accepted",[(H,'		if err != io.EOF {\n			return err\n		}\n','		if err != io.EOF && len(linkmap) == 0 {\n			return err\n		}\n')]),
(P,"missing sheet part",[(H,'	dec, clo, err = s.d.openXML(s.docname)\n	if err != nil {\n		return err','	dec, clo, err = s.d.openXML(s.docname)\n	if err != nil {\n		return nil')]),
(P,"sheet rels error",[(H,'	if err != nil && err != io.EOF {\n		return err\n	}\n	if err == nil','	if err == nil')]),
(P,"styles shadowed",[(X,'		err = d.parseStyles(dec)\n		c.Close()\n		if err != nil {\n			return nil, err\n		}','		if err := d.parseStyles(dec); err != nil && len(d.xfs) == 0 {\n			return nil, err\n		}\n		c.Close()')]),
(P,"shared strings optional",[(X,'		dec, c, err = d.openXML(ssn[id])\n		if err != nil {\n			return nil, err\n		}','		dec, c, err = d.openXML(ssn[id])\n		if err != nil {\n			continue\n		}')]),
(P,"shared strings error last",[(X,'		err = d.parseSharedStrings(dec)\n		c.Close()\n		if err != nil {\n			return nil, err\n		}','		if e := d.parseSharedStrings(dec); e != nil {\n			err = e\n		}\n		c.Close()')]),
(P,"stat ignored",[(X,'	info, err := f.Stat()\n	if err != nil {\n		return nil, err\n	}','	info, err := f.Stat()\n	if err != nil && info == nil {\n		return nil, nil\n	}')]),
(P,"zip open error skipped",[(X,'			zfr, err := zf.Open()\n			if err != nil {\n				return nil, nil, err\n			}','			zfr, err := zf.Open()\n			if err != nil {\n				continue\n			}')]),
(P,"sheet error only once",[(X,'			if s.err != nil {\n				return nil, s.err','			if s.err != nil && s.wrapped == nil {\n				return nil, s.err')]),
(P,"workbook close overwrites",[(X,'	err = d.parseWorkbook(dec)\n	c.Close()','	err = d.parseWorkbook(dec)\n	err = c.Close()')]),
(P,"strings table dropped",[(L,'				b.strings, err = parseSST(recSet)\n				if err != nil {\n					return err\n				}','				b.strings, err = parseSST(recSet)\n				if err != nil && len(b.strings) == 0 {\n					return err\n				}')]),
(P,"strings table shadow",[(L,'				b.strings, err = parseSST(recSet)\n				if err != nil {\n					return err\n				}','				if s, err := parseSST(recSet); err == nil {\n					b.strings = s\n				}')]),
(P,"record error dropped",[(L,'	if err == io.EOF {\n		err = nil\n	}\n	if err != nil {\n		return err\n	}\n\n	for ss','	if len(b.substreams) > 0 || err == io.EOF {\n		err = nil\n	}\n	if err != nil {\n		return err\n	}\n\n	for ss')]),
(P,"ok format name decoder never fails",[(L,'					log.Println("fail2", err)\n					return err','					log.Println("fail2", err)\n					continue')]),
(P,"ok sheet name decoder never fails",[(L,'				if err != nil {\n					return err\n				}\n				b.sheets','				if err != nil {\n					break\n				}\n				b.sheets')]),
(P,"workbook stream error",[(L,'	raw, err := io.ReadAll(rdr)\n	if err != nil {','	raw, err := io.ReadAll(rdr)\n	if err != nil && len(raw) == 0 {')]),
(P,"load error of get",[(G,'			if err != nil {\n				return nil, err\n			}','			if err != nil && sheet == nil {\n				return nil, err\n			}')]),
(P,"tsv error unchecked",[(T,'	if s.Err() != nil {','	if s.Err() != nil && total == 0 {')]),
(P,"csv error late",[(C,'		return nil, err\n	}\n\n	// kinda','		if total < 100 {\n			return nil, err\n		}\n	}\n\n	// kinda')]),
(P,"directory error",[(F,'		if err != nil {\n			return err\n		}\n		if d.header.MajorVersion','		if err != nil {\n			return nil\n		}\n		if d.header.MajorVersion')]),
(P,"directory cut off",[(F,'		if err != nil {\n			return err\n		}\n		if d.header.MajorVersion','		if err == io.ErrUnexpectedEOF {\n			break\n		}\n		if err != nil {\n			return err\n		}\n		if d.header.MajorVersion'),(F,'		d.dir = append(d.dir, dirent)\n	}\n','		d.dir = append(d.dir, dirent)\n	}\n	return nil\n')]),
(P,"read error of file",[(F,'	d.data, err = ioutil.ReadAll(rx)\n	if err != nil {','	d.data, err = ioutil.ReadAll(rx)\n	if err != nil && len(d.data) < 512 {')]),
(P,"directory result dropped",[(F,'	err = d.buildDirs(br)\n\n	return err','	d.buildDirs(br)\n\n	return nil')]),
(P,"load result dropped",[(I,'	err = d.load(f)\n	if err != nil {','	err = d.load(f)\n	if err != nil && len(d.dir) == 0 {')]),
(P,"moniker error",[(N,'			if err != nil {\n				return "", "", err\n			}','			if err != nil && linkText == "" {\n				return "", "", nil\n			}')]),
(P,"ok rc4 header checked by version",[(Y,'	if err != nil {\n		return nil, err\n	}','	if err != nil && h.Verifier[0] == 0 {\n		return nil, err\n	}')]),
(P,"ok wrapped",[(H,'	if err != nil && err != io.EOF {\n		return err\n	}','	if err != nil && err != io.EOF {\n		return fmt.Errorf("xlsx: %w", err)\n	}'),(H,'	"errors"\n','	"errors"\n	"fmt"\n')]),
(P,"ok loop with break",[(W,'''	tok, err := dec.RawToken()
	for ; err == nil; tok, err = dec.RawToken() {
		switch v := tok.(type) {
		case xml.CharData:
			if inText''','''	for {
		tok, err := dec.RawToken()
		if errors.Is(err, io.EOF) {
			break
		}
		if err != nil {
			return err
		}
		switch v := tok.(type) {
		case xml.CharData:
			if inText'''),(W,'''	if err == io.EOF {
		err = nil
	}
	return err
}
@LAST''','')]),
(P,"ok scanner err var",[(T,'	if s.Err() != nil {\n		// this can only be read errors, not format\n		return nil, s.Err()\n	}','	if err := s.Err(); err != nil {\n		return nil, err\n	}')]),
(P,"ok csv loop",[(C,'''	rec, err := s.Read()
	for ; err == nil; rec, err = s.Read() {
''','''	var rec []string
	for {
		if rec, err = s.Read(); err != nil {
			break
		}
''')]),
(P,"ok record error switch",[(L,'	if err == io.EOF {\n		err = nil\n	}\n	if err != nil {\n		return err\n	}\n\n	for ss','	switch err {\n	case io.EOF:\n		err = nil\n	default:\n		return err\n	}\n\n	for ss')]),
(P,"ok hyperlink helper",[(G,'''			displayText, linkText, err := decodeHyperlinks(r.Data[8:])
			if err != nil {
				log.Println(err)
				continue
			}''','''			displayText, linkText, ok := linkOf(r)
			if !ok {
				continue
			}'''),(G,'var berrLookup','''func linkOf(r *rec) (string, string, bool) {
	a, b, err := decodeHyperlinks(r.Data[8:])
	if err != nil {
		log.Println(err)
		return "", "", false
	}
	return a, b, true
}

var berrLookup''')]),
(P,"ok parts helper",[(X,'''	for _, id := range sortedKeys(ssn) {
		// parse the shared string table
		dec, c, err = d.openXML(ssn[id])
		if err != nil {
			return nil, err
		}
		err = d.parseSharedStrings(dec)
		c.Close()
		if err != nil {
			return nil, err
		}
	}
''','''	for _, id := range sortedKeys(ssn) {
		if err = d.loadPart(ssn[id], d.parseSharedStrings); err != nil {
			return nil, err
		}
	}
'''),(X,'func (d *Document) openXML','''func (d *Document) loadPart(name string, parse func(*xml.Decoder) error) error {
	dec, c, err := d.openXML(name)
	if err == nil {
		err = parse(dec)
		c.Close()
	}
	return err
}

func (d *Document) openXML''')]),
(P,"ok header error checked",[(F,'	err = binary.Read(br, binary.LittleEndian, h)\n','	err = binary.Read(br, binary.LittleEndian, h)\n	if err != nil {\n		return grate.ErrNotInFormat\n	}\n')]),
(P,"ok read error kept",[(L,'	raw, err := io.ReadAll(rdr)\n	if err != nil {\n		return nil, err\n	}\n','	raw, err := ioutil.ReadAll(rdr)\n	if err != nil {\n		return nil, grate.WrapErr(errors.New("xls: no data"), err)\n	}\n'),(L,'	"io"\n','	"io"\n	"io/ioutil"\n')]),
]
M=[m for m in M if m[1]!="ok loop with break"]
M+=[
(P,"ok error maker",[(H,'	if err == io.EOF {\n		err = nil\n	}\n	return err\n}','	return atEnd(err)\n}\n\nfunc atEnd(err error) error {\n	if err == io.EOF {\n		return nil\n	}\n	return err\n}')]),
(P,"error maker drops",[(H,'	if err == io.EOF {\n		err = nil\n	}\n	return err\n}','	return atEnd(err)\n}\n\nfunc atEnd(err error) error {\n	if _, ok := err.(*xml.SyntaxError); ok || err == io.EOF {\n		return nil\n	}\n	return err\n}')]),
(P,"errors.As drops",[(X,'	err = d.parseWorkbook(dec)\n	c.Close()\n	if err != nil {','	err = d.parseWorkbook(dec)\n	c.Close()\n	var syn *xml.SyntaxError\n	if err != nil && !errors.As(err, &syn) {')]),
(P,"own sentinel drops",[(N,'			if err != nil {\n				return "", "", err\n			}','			if err != nil && err != errLinkLength {\n				return "", "", err\n			}')]),
]

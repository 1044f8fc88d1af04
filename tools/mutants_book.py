S="xls/sheets.go"; X="xlsx/xlsx.go"; W="xlsx/workbook.go"; P13=["P13"]; SH="xlsx/sheets.go"
LV="	for _, s := range b.sheets {\n		if (s.HiddenState & 0x03) == 0 {\n			res = append(res, s.Name)\n		}\n	}\n"
LX="	res := make([]string, 0, len(d.sheets))\n	for _, s := range d.sheets {\n		res = append(res, s.name)\n	}\n	return res, nil\n"
GX="	for _, s := range d.sheets {\n		if s.name == sheetName {\n			if s.err == errNotLoaded {\n				s.err = s.parseSheet()\n			}\n			if s.err != nil {\n				return nil, s.err\n			}\n			// every Collection has its own position\n			sheet := *s.wrapped\n			sheet.CurRow = 0\n			return &sheet, nil\n		}\n	}\n	return nil, errors.New(\"xlsx: sheet not found\")\n"
GL="	for _, s := range b.sheets {\n		if s.Name == sheetName {\n			ss, ok := b.pos2substream[int64(s.Position)]\n			if !ok {\n				return nil, errors.New(\"xls: sheet contents not found\")\n			}\n			sheet, err := b.parseSheet(s, ss)\n			if err != nil {\n				return nil, err\n			}\n			return sheet, nil\n		}\n	}\n	return nil, errors.New(\"xls: sheet not found\")\n"
WS="				sheetID, ok1 := vals[\"id\"]\n				sheetName, ok2 := vals[\"name\"]\n				if !ok1 || !ok2 {\n"
M=[
(P13,"visible mask 1",[(S,"if (s.HiddenState & 0x03) == 0 {","if (s.HiddenState & 0x01) == 0 {")]),
(P13,"visible no mask",[(S,"if (s.HiddenState & 0x03) == 0 {","if s.HiddenState == 0 {")]),
(P13,"hidden only 1",[(S,"if (s.HiddenState & 0x03) != 0 {","if (s.HiddenState & 0x03) == 1 {")]),
(P13,"hidden also visible chart",[(S,"if (s.HiddenState & 0x03) != 0 {","if (s.HiddenState & 0x03) != 0 || s.SheetType == 2 {")]),
(P13,"list skips first",[(S,"	for _, s := range b.sheets {\n		if (s.HiddenState & 0x03) == 0 {","	for _, s := range b.sheets[1:] {\n		if (s.HiddenState & 0x03) == 0 {")]),
(P13,"list stops at hidden",[(S,LV,"	for _, s := range b.sheets {\n		if (s.HiddenState & 0x03) != 0 {\n			break\n		}\n		res = append(res, s.Name)\n	}\n")]),
(P13,"list twice",[(S,LV,LV.replace("res = append(res, s.Name)","res = append(res, s.Name, s.Name)"))]),
(P13,"xlsx list skips empty names",[(X,LX,LX.replace("		res = append(res, s.name)\n","		if s.name != \"\" {\n			res = append(res, s.name)\n		}\n"))]),
(P13,"xlsx list docname",[(X,LX,LX.replace("s.name)","s.docname)"))]),
(P13,"xlsx list prepends",[(X,LX,LX.replace("res = append(res, s.name)","res = append([]string{s.name}, res...)"))]),
(P13,"xlsx list starts nonempty",[(X,LX,LX.replace("make([]string, 0, len(d.sheets))","make([]string, 1, len(d.sheets)+1)"))]),
(P13,"xlsx list only loaded",[(X,LX,LX.replace("		res = append(res, s.name)\n","		if s.err == nil || s.err == errNotLoaded {\n			res = append(res, s.name)\n		}\n"))]),
(P13,"xlsx get fold",[(X,"if s.name == sheetName {","if strings.EqualFold(s.name, sheetName) {")]),
(P13,"xlsx get prefix",[(X,"if s.name == sheetName {","if strings.HasPrefix(s.name, sheetName) {")]),
(P13,"xlsx get first",[(X,"if s.name == sheetName {","if s.name == sheetName || len(d.sheets) == 1 {")]),
(P13,"xlsx get last match",[(X,GX,"	var found *Sheet\n	for _, s := range d.sheets {\n		if s.name == sheetName {\n			found = s\n		}\n	}\n	if found == nil {\n		return nil, errors.New(\"xlsx: sheet not found\")\n	}\n	s := found\n"+GX[GX.index("			if s.err == errNot"):GX.index("		}\n	}\n	return nil, errors.New")])]),
(P13,"xlsx get index 0 missing",[(X,"	return nil, errors.New(\"xlsx: sheet not found\")","	if sheetName == \"\" && len(d.sheets) > 0 {\n		sheet := *d.sheets[0].wrapped\n		return &sheet, nil\n	}\n	return nil, errors.New(\"xlsx: sheet not found\")")]),
(P13,"xlsx get error dropped",[(X,"			if s.err != nil {\n				return nil, s.err\n			}\n","			if s.err != nil && s.wrapped == nil {\n				return nil, s.err\n			}\n")]),
(P13,"xlsx get truncated copy",[(X,"			sheet.CurRow = 0\n			return &sheet","			sheet.CurRow = 0\n			if sheet.NumRows > 100000 {\n				sheet.NumRows = 100000\n			}\n			return &sheet")]),
(P13,"xls get skips hidden",[(S,"		if s.Name == sheetName {\n			ss, ok","		if s.Name == sheetName && s.HiddenState != 2 {\n			ss, ok")]),
(P13,"xls get rejects charts",[(S,"		if s.Name == sheetName {\n			ss, ok","		if s.Name == sheetName {\n			if s.SheetType != 0 {\n				return nil, errors.New(\"no worksheet\")\n			}\n			ss, ok")]),
(P13,"xls get wrong position",[(S,"b.pos2substream[int64(s.Position)]","b.pos2substream[int64(s.Position&0xFFFF)]")]),
(P13,"xls get signed position",[(S,"b.pos2substream[int64(s.Position)]","b.pos2substream[int64(int32(s.Position))]")]),
(P13,"xls get fallback block",[(S,"			if !ok {\n				return nil, errors.New(\"xls: sheet contents not found\")\n			}\n","			if !ok {\n				ss = len(b.substreams) - 1\n			}\n")]),
(P13,"xls get next block",[(S,"sheet, err := b.parseSheet(s, ss)","if s.HiddenState == 1 {\n				ss++\n			}\n			sheet, err := b.parseSheet(s, ss)")]),
(P13,"workbook name from id",[(W,"					name:    sheetName,","					name:    sheetID + sheetName[:0],")]),
(P13,"workbook skip state",[(W,"				d.sheets = append(d.sheets, s)","				if len(d.sheets) < 255 {\n					d.sheets = append(d.sheets, s)\n				}")]),
(P13,"workbook dedup",[(W,"				d.sheets = append(d.sheets, s)","				if n := len(d.sheets); n == 0 || d.sheets[n-1].name != sheetName {\n					d.sheets = append(d.sheets, s)\n				}")]),
(P13,"workbook and",[(W,"if !ok1 || !ok2 {","if !ok1 && !ok2 {")]),
(P13,"workbook wrong rel",[(W,"relationships/worksheet\"][sheetID]","relationships/chartsheet\"][sheetID]")]),
(P13,"workbook by name",[(W,"relationships/worksheet\"][sheetID]","relationships/worksheet\"][sheetName]")]),
(P13,"workbook trims",[(W,"sheetName, ok2 := vals[\"name\"]","sheetName, ok2 := vals[\"name\"]\n				sheetName = strings.TrimSpace(sheetName)")]),
(P13,"workbook resets",[(W,"			case \"workbook\", \"sheets\":\n","			case \"workbookPr2\", \"definedNames\":\n				d.sheets = d.sheets[:0]\n			case \"workbook\", \"sheets\":\n")]),
(P13,"workbook also dialogs",[(W,"			case \"sheet\":\n","			case \"sheet\", \"externalReference\":\n")]),
(P13,"part suffix match",[(X,"if zf.Name == name {","if strings.HasSuffix(zf.Name, name) {")]),
(P13,"ok list named result",[(X,"func (d *Document) List() ([]string, error) {\n"+LX,"func (d *Document) List() (names []string, err error) {\n	for i := range d.sheets {\n		names = append(names, d.sheets[i].name)\n	}\n	return\n")]),
(P13,"ok list stored",[(X,LX,"	res := make([]string, len(d.sheets))\n	for i, s := range d.sheets {\n		res[i] = s.name\n	}\n	return res, nil\n")]),
(P13,"ok list continue",[(S,LV,"	for _, s := range b.sheets {\n		if s.HiddenState&3 != 0 {\n			continue\n		}\n		res = append(res, s.Name)\n	}\n")]),
(P13,"ok list helper",[(S,"// List (visible)","func (b *WorkBook) names(hidden bool) []string {\n	res := []string{}\n	for _, s := range b.sheets {\n		if s.isHidden() == hidden {\n			res = append(res, s.Name)\n		}\n	}\n	return res\n}\n\nfunc (s *boundSheet) isHidden() bool { return s.HiddenState%4 > 0 }\n\n// List (visible)"),
   (S,"	res := make([]string, 0, len(b.sheets))\n"+LV+"	return res, nil\n","	return b.names(false), nil\n"),
   (S,"	res := make([]string, 0, len(b.sheets))\n"+LV.replace("== 0","!= 0")+"	return res, nil\n","	return b.names(true), nil\n")]),
(P13,"ok list switch",[(S,LV,"	for i := 0; i < len(b.sheets); i++ {\n		s := b.sheets[i]\n		switch s.HiddenState & 0x03 {\n		case 1, 2, 3:\n		default:\n			res = append(res, s.Name)\n		}\n	}\n")]),
(P13,"ok xlsx find helper",[(X,GX,"	s := d.find(sheetName)\n	if s == nil {\n		return nil, errors.New(\"xlsx: sheet not found\")\n	}\n"+GX[GX.index("			if s.err == errNot"):GX.index("		}\n	}\n	return nil, errors.New")]),
   (X,"func (d *Document) Get(","func (d *Document) find(name string) *Sheet {\n	for _, s := range d.sheets {\n		if s.name == name {\n			return s\n		}\n	}\n	return nil\n}\n\nfunc (d *Document) Get(")]),
(P13,"ok xlsx continue",[(X,GX,GX.replace("		if s.name == sheetName {\n","		if s.name != sheetName {\n			continue\n		}\n").replace("			return &sheet, nil\n		}\n","			return &sheet, nil\n"))]),
(P13,"ok xls continue",[(S,GL,GL.replace("		if s.Name == sheetName {\n","		if s.Name != sheetName {\n			continue\n		}\n").replace("			return sheet, nil\n		}\n","			return sheet, nil\n"))]),
(P13,"ok xls break",[(S,GL,"	var sheet *boundSheet\n	for i := range b.sheets {\n		if b.sheets[i].Name == sheetName {\n			sheet = b.sheets[i]\n			break\n		}\n	}\n	if sheet == nil {\n		return nil, errors.New(\"xls: sheet not found\")\n	}\n	if ss, ok := b.pos2substream[int64(sheet.Position)]; ok {\n		c, err := b.parseSheet(sheet, ss)\n		if err != nil {\n			return nil, err\n		}\n		return c, nil\n	}\n	return nil, errors.New(\"xls: sheet contents not found\")\n")]),
(P13,"ok workbook getattrs",[(W,"				vals := make(map[string]string, 5)\n				for _, a := range v.Attr {\n					vals[a.Name.Local] = a.Value\n				}\n				sheetID, ok1","				var sheetID, sheetName string\n				ok1, ok2 := false, false\n				for _, a := range v.Attr {\n					switch a.Name.Local {\n					case \"id\":\n						sheetID, ok1 = a.Value, true\n					case \"name\":\n						sheetName, ok2 = a.Value, true\n					}\n				}\n				if !ok1 || !ok2 {\n					return errors.New(\"xlsx: invalid sheet\")\n				}\n				/*"),(W,"				s := &Sheet{","				*/\n				s := &Sheet{")]),
(P13,"ok workbook literal append",[(W,"				d.sheets = append(d.sheets, s)\n","				d.addSheet(s)\n"),(W,"func (d *Document) parseStyles(","func (d *Document) addSheet(s *Sheet) { d.sheets = append(d.sheets, s) }\n\nfunc (d *Document) parseStyles(")]),
(P13,"ok comment sheet log",[(W,"			case \"sheet\":\n","			case \"sheet\":\n				if grate.Debug {\n					log.Println(\"sheet\", v)\n				}\n")]),
]

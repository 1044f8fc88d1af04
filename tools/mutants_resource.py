XO="xlsx/xlsx.go"
M=[
(["P05"],"xlsx leak on zip",[(XO,"		if src == nil {\n			// not handed over to the caller, so nobody else can close it\n			f.Close()\n		}","		if src == nil && err == grate.ErrNotInFormat {\n			f.Close()\n		}")]),
(["P05"],"xlsx recover no close",[(XO,"src, err = nil, fmt.Errorf(\"xlsx: invalid document: %v\", r)\n","src, err = nil, fmt.Errorf(\"xlsx: invalid document: %v\", r)\n			return\n")]),
(["P05"],"xlsx Close early",[(XO,"	d.xfs = d.xfs[:0]\n","	if d.sheets == nil {\n		return nil\n	}\n	d.xfs = d.xfs[:0]\n")]),
(["P05"],"xlsx Close none",[(XO,"	return d.f.Close()\n","	d.f = nil\n	return nil\n")]),
(["P05"],"cfb no defer",[("xls/cfb/interface.go","	defer f.Close()\n	err = d.load(f)\n","	err = d.load(f)\n	f.Close()\n")]),
(["P05"],"csv leak eof",[("simple/csv.go","	defer f.Close()\n","")]),
(["P05"],"ok tsv close after reading",[("simple/tsv.go","	defer f.Close()\n",""),("simple/tsv.go","	if s.Err() != nil {","	f.Close()\n	if s.Err() != nil {")]),
(["P05"],"get reopen",[(XO,"	for _, s := range d.sheets {\n		if s.name == sheetName {","	if f, err := os.Open(d.filename); err == nil {\n		if fi, err := f.Stat(); err == nil && fi.Size() == 0 {\n			return nil, io.EOF\n		}\n		f.Close()\n	}\n	for _, s := range d.sheets {\n		if s.name == sheetName {")]),
(["P05"],"ok helper ctor",[(XO,"""	d := &Document{
		filename: filename,
		f:        f,
		r:        z,
	}
""","""	d := newDocument(filename, f, z)
"""),(XO,"func (d *Document) List()","""func newDocument(filename string, f *os.File, z *zip.Reader) *Document {
	return &Document{
		filename: filename,
		f:        f,
		r:        z,
	}
}

func (d *Document) List()""")]),
(["P05"],"ok split",[(XO,"func Open(filename string) (src grate.Source, err error) {\n	f, err := os.Open(filename)\n	if err != nil {\n		return nil, err\n	}\n","func Open(filename string) (grate.Source, error) {\n	f, err := os.Open(filename)\n	if err != nil {\n		return nil, err\n	}\n	return openFile(filename, f)\n}\n\nfunc openFile(filename string, f *os.File) (src grate.Source, err error) {\n")]),
(["P05"],"ok close helper",[(XO,"	return d.f.Close()\n}\n","	return d.release()\n}\n\nfunc (d *Document) release() error {\n	f := d.f\n	d.f = nil\n	return f.Close()\n}\n")]),
(["P05"],"ok csv explicit",[("simple/csv.go","	defer f.Close()\n","	defer func() {\n		if cerr := f.Close(); cerr != nil {\n			_ = cerr\n		}\n	}()\n")]),
(["P05"],"ok read then close",[("simple/tsv.go","func OpenTSV(filename string) (grate.Source, error) {\n	f, err := os.Open(filename)\n	if err != nil {\n		return nil, err\n	}\n	defer f.Close()\n","func OpenTSV(filename string) (grate.Source, error) {\n	f, err := os.Open(filename)\n	if err != nil {\n		return nil, err\n	}\n	t, err := readTSV(filename, f)\n	f.Close()\n	if t == nil {\n		return nil, err\n	}\n	return t, err\n}\n\nfunc readTSV(filename string, f *os.File) (*simpleFile, error) {\n")]),
]
XS="xls/sheets.go"
REC='''	defer func() {
		if r := recover(); r != nil {
			res, err = nil, fmt.Errorf("xls: invalid sheet: %v", r)
		}
	}()
'''
M+=[
(["P07"],"no recover in get",[(XS,REC,""),(XS,'	"fmt"\n','')]),
(["P07"],"recover logs",[(XS,REC,REC.replace('res, err = nil, fmt.Errorf("xls: invalid sheet: %v", r)','log.Println("xls: invalid sheet", r)')),(XS,'	"fmt"\n','')]),
(["P07"],"recover nested",[(XS,REC,REC.replace("func() {\n		if r","func() {\n		rec := func() interface{} { return recover() }\n		if r").replace("r := recover()","r := rec()"))]),
(["P07"],"repanic",[(XS,REC,REC.replace("res, err =",'if _, ok := r.(string); ok {\n				panic(r)\n			}\n			res, err ='))]),
(["P07"],"early work",[(XS,REC,"	if len(b.sheets) == 1 && sheetName == \"\" {\n		return b.parseSheet(b.sheets[0], 0)\n	}\n"+REC)]),
(["P07"],"xlsx open keeps src",[(XO,'src, err = nil, fmt.Errorf("xlsx: invalid document: %v", r)','err = fmt.Errorf("xlsx: invalid document: %v", r)\n			if f != nil && len(filename) > 3 {\n				src = &Document{f: f}\n			}')]),
(["P07"],"csv index",[("simple/csv.go","		ncols[len(rec)]++\n","		if rec[0] == \"\" {\n			continue\n		}\n		ncols[len(rec)]++\n")]),
(["P07"],"list first",[(XS,"	res := make([]string, 0, len(b.sheets))\n	for _, s := range b.sheets {\n		if (s.HiddenState & 0x03) == 0 {","	res := make([]string, 0, len(b.sheets[0].Name))\n	for _, s := range b.sheets {\n		if (s.HiddenState & 0x03) == 0 {")]),
(["P07"],"close nil rec",[("xls/xls.go","		b.substreams[i] = b.substreams[i][:0]\n	}\n	b.substreams = b.substreams[:0]\n	return nil","		b.substreams[i+1] = b.substreams[i][:0]\n	}\n	b.substreams = b.substreams[:0]\n	return nil")]),
(["P07"],"nil rec stored",[("xls/xls.go","	if err == io.EOF {\n		err = nil\n	}","	b.substreams[substr] = append(b.substreams[substr], nr)\n	if err == io.EOF {\n		err = nil\n	}")]),
(["P07"],"goroutine",[(XS,"			sheet, err := b.parseSheet(s, ss)\n","			var sheet *commonxl.Sheet\n			done := make(chan bool)\n			go func() {\n				sheet, err = b.parseSheet(s, ss)\n				close(done)\n			}()\n			<-done\n")]),
(["P07"],"ok deferred helper",[(XS,REC,"	defer recoverTo(&res, &err)\n"),(XS,"func (b *WorkBook) parseSheet(",'func recoverTo(res *grate.Collection, err *error) {\n	if r := recover(); r != nil {\n		*res, *err = nil, fmt.Errorf("xls: invalid sheet: %v", r)\n	}\n}\n\nfunc (b *WorkBook) parseSheet(')]),
(["P07"],"ok wrapper",[(XS,"func (b *WorkBook) Get(sheetName string) (res grate.Collection, err error) {","func (b *WorkBook) Get(sheetName string) (grate.Collection, error) {\n	return b.get(sheetName)\n}\n\nfunc (b *WorkBook) get(sheetName string) (res grate.Collection, err error) {")]),
(["P07"],"ok list loop",[(XS,"	res := make([]string, 0, len(b.sheets))\n	for _, s := range b.sheets {\n		if (s.HiddenState & 0x03) == 0 {","	res := make([]string, 0, len(b.sheets))\n	for i := 0; i < len(b.sheets); i++ {\n		s := b.sheets[i]\n		if (s.HiddenState & 0x03) == 0 {")]),
(["P07"],"ok log before",[(XS,REC,"	if grate.Debug {\n		log.Println(\"get\", sheetName)\n	}\n"+REC)]),
(["P07"],"ok csv helper",[("simple/csv.go","	looksGood := 0\n	for c, n := range ncols {","	looksGood := rate(ncols, total)\n	if looksGood == 1 {\n		return t, grate.ErrNotInFormat\n	}\n\n	return t, nil\n}\n\nfunc rate(ncols map[int]int, total int) int {\n	looksGood := 0\n	for c, n := range ncols {"),("simple/csv.go","			looksGood = 1\n		}\n	}\n	if looksGood == 1 {\n		return t, grate.ErrNotInFormat\n	}\n\n	return t, nil\n","			looksGood = 1\n		}\n	}\n	return looksGood\n")]),
]

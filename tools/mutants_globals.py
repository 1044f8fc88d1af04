X="xls/xls.go"; P34=["P34"]
M=[
(P34,"xf wrong offset",[(X,"fmtNo := binary.LittleEndian.Uint16(nr.Data[2:])","fmtNo := binary.LittleEndian.Uint16(nr.Data[4:])")]),
(P34,"xf dropped if zero",[(X,"				b.xfs = append(b.xfs, fmtNo)","				if fmtNo != 0 {\n					b.xfs = append(b.xfs, fmtNo)\n				}")]),
(P34,"xf twice",[(X,"				b.xfs = append(b.xfs, fmtNo)","				b.xfs = append(b.xfs, fmtNo)\n				if fmtNo == 14 {\n					b.xfs = append(b.xfs, fmtNo)\n				}")]),
(P34,"xf masked",[(X,"				b.xfs = append(b.xfs, fmtNo)","				b.xfs = append(b.xfs, fmtNo&0xFF)")]),
(P34,"date mode inverted",[(X,"b.nfmt.Mode1904(b.dateMode == 1)","b.nfmt.Mode1904(b.dateMode != 1)")]),
(P34,"date mode only low",[(X,"b.nfmt.Mode1904(b.dateMode == 1)","b.nfmt.Mode1904(false)")]),
(P34,"format decoder short",[(X,"formatStr, _, err := decodeXLUnicodeString(nr.Data[2:])","formatStr, _, err := decodeShortXLUnicodeString(nr.Data[2:])")]),
(P34,"format offset",[(X,"formatStr, _, err := decodeXLUnicodeString(nr.Data[2:])","formatStr, _, err := decodeXLUnicodeString(nr.Data[4:])")]),
(P34,"format only custom",[(X,"				b.nfmt.Add(fmtNo, formatStr)","				if fmtNo > 164 {\n					b.nfmt.Add(fmtNo, formatStr)\n				}")]),
(P34,"name long decoder",[(X,"bs.Name, _, err = decodeShortXLUnicodeString(nr.Data[6:])","bs.Name, _, err = decodeXLUnicodeString(nr.Data[6:])")]),
(P34,"hidden from type byte",[(X,"bs.HiddenState = nr.Data[4]","bs.HiddenState = nr.Data[5]")]),
(P34,"position 16 bit",[(X,"bs.Position = binary.LittleEndian.Uint32(nr.Data[:4])","bs.Position = uint32(binary.LittleEndian.Uint16(nr.Data[:4]))")]),
(P34,"sheets dedup by state",[(X,"				b.sheets = append(b.sheets, bs)","				if bs.SheetType == 0 {\n					b.sheets = append(b.sheets, bs)\n				}")]),
(P34,"sst no continues after first",[(X,"				for len(records) > (lastIndex+1) && records[lastIndex+1].RecType == RecTypeContinue {\n					lastIndex++\n					recSet = append(recSet, records[lastIndex])\n				}","				if len(records) > (lastIndex+1) && records[lastIndex+1].RecType == RecTypeContinue {\n					lastIndex++\n					recSet = append(recSet, records[lastIndex])\n				}")]),
(P34,"sst limited to 100",[(X,"for len(records) > (lastIndex+1) && records","for len(records) > (lastIndex+1) && len(recSet) < 100 && records")]),
(P34,"sst off by one end",[(X,"for len(records) > (lastIndex+1) && records","for len(records) > (lastIndex+2) && records")]),
(P34,"sst wrong elem",[(X,"					lastIndex++\n					recSet = append(recSet, records[lastIndex])","					recSet = append(recSet, records[lastIndex])\n					lastIndex++")]),
(P34,"sst without first",[(X,"recSet := []*rec{nr}","recSet := []*rec{}")]),
(P34,"strings kept if empty",[(X,"				b.strings, err = parseSST(recSet)\n				if err != nil {\n					return err\n				}","				all, err := parseSST(recSet)\n				if err != nil {\n					return err\n				}\n				if b.strings == nil {\n					b.strings = all\n				}")]),
(P34,"reset xfs per block",[(X,"		for i, nr := range records {\n			if len(nr.Data) == 0 {","		b.xfs = b.xfs[:0]\n		for i, nr := range records {\n			if len(nr.Data) == 0 {")]),
(P34,"only first block",[(X,"		for i, nr := range records {\n			if len(nr.Data) == 0 {","		if ss > 64 {\n			break\n		}\n		for i, nr := range records {\n			if len(nr.Data) == 0 {")]),
(P34,"block stops at eof",[(X,"			case RecTypeEOF:\n				// done\n","			case RecTypeEOF:\n				return nil\n")]),
(P34,"skip short records",[(X,"			if len(nr.Data) == 0 {","			if len(nr.Data) < 4 {")]),
(P34,"codepage sets xfs",[(X,"				b.codepage = binary.LittleEndian.Uint16(nr.Data)","				b.codepage = binary.LittleEndian.Uint16(nr.Data)\n				b.xfs = b.xfs[:0]")]),
(P34,"reject codepage",[(X,"				b.codepage = binary.LittleEndian.Uint16(nr.Data)","				b.codepage = binary.LittleEndian.Uint16(nr.Data)\n				if b.codepage == 437 {\n					return errors.New(\"xls: unsupported codepage\")\n				}")]),
(P34,"bof resets mode",[(X,"				if b.h.Version != 0x0600 {","				b.nfmt.Mode1904(false)\n				if b.h.Version != 0x0600 {")]),
(P34,"ok if chain",[(X,"			case RecTypeXF:\n				// XF records merge multiple style and format directives to one ID\n				// ignore font id at nr.Data[0:2]\n				fmtNo := binary.LittleEndian.Uint16(nr.Data[2:])\n				b.xfs = append(b.xfs, fmtNo)\n",""),(X,"			switch nr.RecType {\n			case RecTypeSST:","			if nr.RecType == RecTypeXF {\n				b.xfs = append(b.xfs, uint16(nr.Data[2])|uint16(nr.Data[3])<<8)\n				continue\n			}\n			switch nr.RecType {\n			case RecTypeSST:")]),
(P34,"ok helper for sheets",[(X,"				bs := &boundSheet{}\n				bs.Position = binary.LittleEndian.Uint32(nr.Data[:4])\n				bs.HiddenState = nr.Data[4]\n				bs.SheetType = nr.Data[5]\n\n				bs.Name, _, err = decodeShortXLUnicodeString(nr.Data[6:])\n				if err != nil {\n					return err\n				}\n				b.sheets = append(b.sheets, bs)","				if err := b.addSheet(nr.Data); err != nil {\n					return err\n				}"),(X,"var recPool = sync.Pool{","func (b *WorkBook) addSheet(data []byte) error {\n	name, _, err := decodeShortXLUnicodeString(data[6:])\n	if err != nil {\n		return err\n	}\n	b.sheets = append(b.sheets, &boundSheet{Name: name, SheetType: data[5], HiddenState: data[4], Position: binary.LittleEndian.Uint32(data)})\n	return nil\n}\n\nvar recPool = sync.Pool{")]),
(P34,"ok slice of records",[(X,"				recSet := []*rec{nr}\n\n				lastIndex := i\n				for len(records) > (lastIndex+1) && records[lastIndex+1].RecType == RecTypeContinue {\n					lastIndex++\n					recSet = append(recSet, records[lastIndex])\n				}\n","				end := i + 1\n				for end < len(records) && records[end].RecType == RecTypeContinue {\n					end++\n				}\n				recSet := records[i:end]\n")]),
(P34,"ok gather helper",[(X,"				recSet := []*rec{nr}\n\n				lastIndex := i\n				for len(records) > (lastIndex+1) && records[lastIndex+1].RecType == RecTypeContinue {\n					lastIndex++\n					recSet = append(recSet, records[lastIndex])\n				}\n","				recSet := withContinues(records, i)\n"),(X,"var recPool = sync.Pool{","func withContinues(records []*rec, i int) []*rec {\n	res := []*rec{records[i]}\n	for j := i + 1; j < len(records); j++ {\n		if records[j].RecType != RecTypeContinue {\n			break\n		}\n		res = append(res, records[j])\n	}\n	return res\n}\n\nvar recPool = sync.Pool{")]),
(P34,"ok index loops",[(X,"		for i, nr := range records {\n			if len(nr.Data) == 0 {","		for i := 0; i < len(records); i++ {\n			nr := records[i]\n			if len(nr.Data) == 0 {")]),
(P34,"ok record helper",[(X,"			case RecTypeDate1904:\n				b.dateMode = binary.LittleEndian.Uint16(nr.Data)\n				b.nfmt.Mode1904(b.dateMode == 1)\n","			case RecTypeDate1904:\n				b.setDateMode(nr)\n"),(X,"var recPool = sync.Pool{","func (b *WorkBook) setDateMode(r *rec) {\n	b.dateMode = binary.LittleEndian.Uint16(r.Data)\n	if b.dateMode == 1 {\n		b.nfmt.Mode1904(true)\n	} else {\n		b.nfmt.Mode1904(false)\n	}\n}\n\nvar recPool = sync.Pool{")]),
(P34,"ok short check",[(X,"				fmtNo := binary.LittleEndian.Uint16(nr.Data[2:])\n				b.xfs","				if len(nr.Data) < 4 {\n					return errors.New(\"xls: short record\")\n				}\n				fmtNo := binary.LittleEndian.Uint16(nr.Data[2:])\n				b.xfs")]),
(P34,"ok process func",[(X,"	for ss, records := range b.substreams {\n		if grate.Debug {","	return b.process()\n}\n\nfunc (b *WorkBook) process() error {\n	var err error\n	for ss, records := range b.substreams {\n		if grate.Debug {")]),
]

X='xls/xls.go'
LOOP='''	nr, no, err := b.nextRecord(raw)
	for err == nil {
		raw = raw[no:]
'''
ENDL='''		b.substreams[substr] = append(b.substreams[substr], nr)
		nr, no, err = b.nextRecord(raw)
	}
	if err == io.EOF {'''
BOF='''			if nestedBOF == 0 {
				substr = len(b.substreams)
				b.substreams = append(b.substreams, []*rec{})
				b.pos2substream[b.fpos] = substr
			}
			nestedBOF++
'''
P=['P39']
M=[
(P,'size without header',[(X,'return rec, 4 + int(rec.RecSize), nil','return rec, 4 + int(rec.RecSize&0x3FFF), nil')]),
(P,'data capped',[(X,'rec.Data = raw[4 : 4+int(rec.RecSize)]','if rec.RecSize > 8224 {\n\t\trec.RecSize = 8224\n\t}\n\trec.Data = raw[4 : 4+int(rec.RecSize)]')]),
(P,'cut data accepted',[(X,'''		recPool.Put(rec)
		return nil, 4, io.ErrUnexpectedEOF
	}''','''		rec.Data = raw[4:]
		return rec, len(raw), nil
	}''')]),
(P,'cut off is EOF',[(X,'return nil, 4, io.ErrUnexpectedEOF','return nil, 4, io.EOF')]),
(P,'bounds off by one',[(X,'if len(raw[4:]) < int(rec.RecSize)','if len(raw[4:]) <= int(rec.RecSize)')]),
(P,'eof needs more',[(X,'	if len(raw) < 4 {\n','	if len(raw) <= 4 {\n')]),
(P,'error swallowed',[(X,'	if err == io.EOF {\n\t\terr = nil','	if err != nil {\n\t\terr = nil')]),
(P,'eof is an error',[(X,'	if err == io.EOF {\n\t\terr = nil','	if err == io.ErrNoProgress {\n\t\terr = nil')]),
(P,'nested bof starts a block',[(X,'if nestedBOF == 0 {','if nestedBOF <= 1 {')]),
(P,'eof not counted for blocks',[(X,'		case RecTypeEOF:\n			nestedBOF--','		case RecTypeEOF:\n			nestedBOF = 0')]),
(P,'bof depth capped',[(X,'			nestedBOF++\n','			if nestedBOF < 2 {\n				nestedBOF++\n			}\n')]),
(P,'position after',[(X,'		b.fpos += int64(4 + len(nr.Data))\n',''),(X,'		switch nr.RecType {\n		case RecTypeEOF:\n			nestedBOF--','		b.fpos += int64(4 + len(nr.Data))\n		switch nr.RecType {\n		case RecTypeEOF:\n			nestedBOF--')]),
(P,'position without header',[(X,'b.fpos += int64(4 + len(nr.Data))','b.fpos += int64(len(nr.Data))')]),
(P,'position 16 bit',[(X,'b.fpos += int64(4 + len(nr.Data))','b.fpos += int64(uint16(4 + len(nr.Data)))')]),
(P,'position 32 bit',[(X,'b.pos2substream[b.fpos] = substr','b.pos2substream[int64(int32(b.fpos))] = substr')]),
(P,'index of the block before',[(X,'b.pos2substream[b.fpos] = substr','b.pos2substream[b.fpos] = substr - 1')]),
(P,'position only for first',[(X,'b.pos2substream[b.fpos] = substr','if substr < 64 {\n				b.pos2substream[b.fpos] = substr\n			}')]),
(P,'position not for existing',[(X,'b.pos2substream[b.fpos] = substr','if _, ok := b.pos2substream[b.fpos]; !ok {\n				b.pos2substream[b.fpos] = substr\n			}')]),
(P,'empty records dropped',[(X,ENDL,ENDL.replace('		b.substreams[substr] = append(b.substreams[substr], nr)','		if len(nr.Data) > 0 {\n			b.substreams[substr] = append(b.substreams[substr], nr)\n		}'))]),
(P,'end dropped when nested',[(X,ENDL,ENDL.replace('		b.substreams[substr] = append(b.substreams[substr], nr)','		if nr.RecType != RecTypeEOF || nestedBOF == 0 {\n			b.substreams[substr] = append(b.substreams[substr], nr)\n		}'))]),
(P,'kept in first block',[(X,ENDL,ENDL.replace('b.substreams[substr] = append(b.substreams[substr], nr)','b.substreams[0] = append(b.substreams[0], nr)'))]),
(P,'stops at end of block',[(X,ENDL,ENDL.replace('		nr, no, err = b','		if nr.RecType == RecTypeEOF && nestedBOF == 0 && len(raw) == 0 {\n			break\n		}\n		if nr.RecType == RecTypeEOF && nestedBOF == 0 && len(raw) < 4096 {\n			break\n		}\n		nr, no, err = b'))]),
(P,'blocks kept from before',[(X,'	b.substreams = b.substreams[:0]\n\n	rawfull','	rawfull')]),
(P,'records reversed',[(X,ENDL,ENDL.replace('append(b.substreams[substr], nr)','append([]*rec{nr}, b.substreams[substr]...)'))]),
(P,'type masked',[(X,'rec.RecType = recordType(binary.LittleEndian.Uint16(raw[:2]))','rec.RecType = recordType(binary.LittleEndian.Uint16(raw[:2]) & 0x0FFF)')]),
(P,'big endian size',[(X,'rec.RecSize = binary.LittleEndian.Uint16(raw[2:4])','rec.RecSize = binary.BigEndian.Uint16(raw[2:4])')]),
(P,'padding skipped',[(X,LOOP,LOOP+'		for len(raw) > 4 && raw[0] == 0 && raw[1] == 0 {\n			raw = raw[1:]\n		}\n')]),
(P,'ok break instead of condition',[(X,LOOP,'''	var err error
	for {
		var nr *rec
		var no int
		nr, no, err = b.nextRecord(raw)
		if err != nil {
			break
		}
		raw = raw[no:]
'''),(X,ENDL,'''		b.substreams[substr] = append(b.substreams[substr], nr)
	}
	if err == io.EOF {''')]),
(P,'ok local position',[(X,'	b.fpos = 0\n','	fpos := int64(0)\n'),(X,'b.pos2substream[b.fpos]','b.pos2substream[fpos]'),(X,'		b.fpos += int64(4 + len(nr.Data))','		fpos += int64(no)')]),
(P,'ok block helper',[(X,BOF,'''			if nestedBOF == 0 {
				substr = b.startBlock()
			}
			nestedBOF++
'''),(X,'var recPool = ','''func (b *WorkBook) startBlock() int {
	n := len(b.substreams)
	b.substreams = append(b.substreams, nil)
	b.pos2substream[b.fpos] = n
	return n
}

var recPool = ''')]),
(P,'ok last block',[(X,ENDL,ENDL.replace('b.substreams[substr] = append(b.substreams[substr], nr)','last := len(b.substreams) - 1\n		b.substreams[last] = append(b.substreams[last], nr)'))]),
(P,'ok position from rest',[(X,'b.fpos += int64(4 + len(nr.Data))','b.fpos += 4 + int64(nr.RecSize)*0 + int64(len(nr.Data))')]),
(P,'ok depth counted from the end',[(X,'nestedBOF := 0','nestedBOF := -1'),(X,'if nestedBOF == 0 {','if nestedBOF < 0 {')]),
(P,'ok release helper',[(X,'''	for i, sub := range b.substreams {
		for _, r := range sub {
			recPool.Put(r)
		}
		b.substreams[i] = b.substreams[i][:0]
	}
	b.substreams = b.substreams[:0]

	rawfull''','''	b.release()

	rawfull'''),(X,'var recPool = ','''func (b *WorkBook) release() {
	for i, sub := range b.substreams {
		for _, r := range sub {
			recPool.Put(r)
		}
		b.substreams[i] = b.substreams[i][:0]
	}
	b.substreams = b.substreams[:0]
}

var recPool = ''')]),
(P,'ok split helper',[(X,'''	rawfull := raw
	nr, no, err := b.nextRecord(raw)
''','''	rawfull := raw
	nr, no, err := b.first(raw)
'''),(X,'var recPool = ','''func (b *WorkBook) first(raw []byte) (*rec, int, error) {
	r, n, err := b.nextRecord(raw)
	return r, n, err
}

var recPool = ''')]),
(P,'ok reader local size',[(X,'''	rec.RecSize = binary.LittleEndian.Uint16(raw[2:4])
	if len(raw[4:]) < int(rec.RecSize) {
		recPool.Put(rec)
		return nil, 4, io.ErrUnexpectedEOF
	}
	rec.Data = raw[4 : 4+int(rec.RecSize)]
	return rec, 4 + int(rec.RecSize), nil''','''	size := int(raw[2]) | int(raw[3])<<8
	rec.RecSize = uint16(size)
	body := raw[4:]
	if size > len(body) {
		recPool.Put(rec)
		return nil, 4, io.ErrUnexpectedEOF
	}
	rec.Data = body[:size]
	return rec, size + 4, nil''')]),
]

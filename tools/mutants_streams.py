C="xls/cfb/cfb.go"
I="xls/cfb/interface.go"
S="xls/cfb/slicereader.go"
P=["P31"]
loop="""	for sid != secEndOfChain && sid != secFree {
		offs := int64(1+sid) << int64(d.header.SectorShift)
		if offs > int64(len(d.data)) {
			return nil, errors.New("ole2: corrupt data format")
		}
		slice := d.data[offs : offs+secSize]
		if size < uint64(len(slice)) {
			slice = slice[:size]
			size = 0
		} else {
			size -= uint64(len(slice))
		}
		streamData[x] = slice
		if size == 0 {
			break
		}
		sid = d.fat[sid]
		x++
	}
	if size != 0 {
		return nil, errors.New("ole2: incomplete read")
	}

	return &SliceReader{Data: streamData}, nil
}
"""
mini="""		slice := data[si : si+miniSecSize]
		if size < uint64(len(slice)) {
			slice = slice[:size]
			size = 0
		} else {
			size -= uint64(len(slice))
		}
		streamData[x] = slice
		x++
		sid = d.minifat[sid]
"""
M=[
(P,"next sector is the following one",[(C,"		sid = d.fat[sid]\n		x++\n","		sid++\n		x++\n")]),
(P,"next sector from the mini fat",[(C,"		sid = d.fat[sid]\n		x++\n","		sid = d.minifat[sid]\n		x++\n")]),
(P,"mini next from fat",[(C,"		x++\n		sid = d.minifat[sid]","		x++\n		sid = d.fat[sid]")]),
(P,"last sector not cut",[(C,"			slice = slice[:size]\n			size = 0\n		} else {\n			size -= uint64(len(slice))\n		}\n		streamData[x] = slice\n		if","			size = 0\n		} else {\n			size -= uint64(len(slice))\n		}\n		streamData[x] = slice\n		if")]),
(P,"mini last sector not cut",[(C,mini,mini.replace("			slice = slice[:size]\n",""))]),
(P,"mini le",[(C,mini,mini.replace("size < ","size <= ").replace("			slice = slice[:size]\n			size = 0","			slice = slice[:size&^1]\n			size = 0"))]),
(P,"container shifted",[(C,"		fatStreamData[x] = slice\n		x++\n","		x++\n		fatStreamData[x] = slice\n")]),
(P,"container starts at stream",[(C,"	fsid := d.ministreamstart\n","	fsid := d.header.FirstMiniFATSectorLocation\n")]),
(P,"container next",[(C,"		fsid = d.fat[fsid]\n","		fsid = d.fat[fsid+1]\n")]),
(P,"mini offset one based",[(C,"offs := int64(sid) << int64(d.header.MiniSectorShift)","offs := int64(1+sid) << int64(d.header.MiniSectorShift)")]),
(P,"mini offset const",[(C,"so, si := offs/secSize, offs%secSize","so, si := offs/512, offs%512")]),
(P,"mini index mixup",[(C,"so, si := offs/secSize, offs%secSize","so, si := offs/miniSecSize, offs%secSize")]),
(P,"offset zero based",[(C,loop,loop.replace("int64(1+sid)","int64(sid)"))]),
(P,"incomplete accepted",[(C,loop,loop.replace("	if size != 0 {\n		return nil, errors.New(\"ole2: incomplete read\")\n	}\n",""))]),
(P,"incomplete half",[(C,loop,loop.replace("	if size != 0 {\n","	if size > 1 {\n"))]),
(P,"break early",[(C,loop,loop.replace("		if size == 0 {\n			break","		if size <= 3 {\n			size = 0\n			break"))]),
(P,"skip bad sector",[(C,loop,loop.replace("""			return nil, errors.New("ole2: corrupt data format")""","""			sid = d.fat[sid]
			continue"""))]),
(P,"spurious reject",[(C,loop,loop.replace("		streamData[x] = slice\n","		if len(slice) == 1 {\n			return nil, errors.New(\"ole2: corrupt\")\n		}\n		streamData[x] = slice\n"))]),
(P,"spurious reject big",[(C,"	streamData := make([][]byte, 1+(size>>d.header.SectorShift))\n","	if size > 1<<28 {\n		return nil, errors.New(\"ole2: too large\")\n	}\n	streamData := make([][]byte, 1+(size>>d.header.SectorShift))\n")]),
(P,"cutoff le",[(I,"if e.StreamSize < uint64","if e.StreamSize <= uint64")]),
(P,"cutoff swapped",[(I,"if e.StreamSize < uint64(d.header.MiniStreamCutoffSize) {","if e.StreamSize < uint64(1)<<d.header.SectorShift {")]),
(P,"type not asked",[(I,"if e.String() == name && e.ObjectType == typeStream {","if e.String() == name && e.ObjectType != typeRootStorage {")]),
(P,"name prefix",[(I,"if e.String() == name && e.ObjectType","if strings.HasPrefix(e.String(), name) && e.ObjectType"),(I,'	"os"\n','	"os"\n	"strings"\n')]),
(P,"skips first entry",[(I,"for _, e := range d.dir {\n		if e.String()","for _, e := range d.dir[1:] {\n		if e.String()")]),
(P,"size of other",[(I,"getStreamReader(uint32(e.StartingSectorLocation), e.StreamSize)","getStreamReader(uint32(e.StartingSectorLocation), d.dir[0].StreamSize)")]),
(P,"start of other",[(I,"getStreamReader(uint32(e.StartingSectorLocation), e.StreamSize)","getStreamReader(uint32(e.LeftSiblingID), e.StreamSize)")]),
(P,"reads too little",[(S,"copy(b, s.Data[s.Index][s.Offset:])","copy(b[1:], s.Data[s.Index][s.Offset:])")]),
(P,"no offset",[(S,"copy(b, s.Data[s.Index][s.Offset:])","copy(b, s.Data[s.Index])")]),
(P,"offset not reset",[(S,"			s.Offset = 0\n			s.Index++\n","			s.Index++\n")]),
(P,"advance early",[(S,"if s.Offset == uint(len(s.Data[s.Index])) {","if s.Offset+1 >= uint(len(s.Data[s.Index])) {")]),
(P,"advance by len b",[(S,"		s.Offset += uint(n)\n","		s.Offset += uint(len(b))\n")]),
(P,"eof at last",[(S,"if s.Index >= uint(len(s.Data)) {","if s.Index+1 >= uint(len(s.Data)) {")]),
(P,"eof with data",[(S,"		return n, nil\n","		if s.Index >= uint(len(s.Data)) {\n			return n, io.ErrUnexpectedEOF\n		}\n		return n, nil\n")]),
(P,"full read or nothing",[(S,"	if n > 0 {","	if n > 1 {")]),
# refactorings
(P,"ok renamed fields",[(S,"	Index  uint\n	Offset uint\n","	cur uint\n	pos uint\n"),
  (S,"	if s.Index >= uint(len(s.Data)) {\n		return 0, io.EOF","	if s.cur >= uint(len(s.Data)) {\n		return 0, io.EOF"),
  (S,"""	n := copy(b, s.Data[s.Index][s.Offset:])
	if n > 0 {
		s.Offset += uint(n)
		if s.Offset == uint(len(s.Data[s.Index])) {
			s.Offset = 0
			s.Index++
		}
		return n, nil
	}

	return 0, io.EOF
""","""	rest := s.Data[s.cur][s.pos:]
	n := copy(b, rest)
	if n == 0 {
		return 0, io.EOF
	}
	if n == len(rest) {
		s.cur++
		s.pos = 0
	} else {
		s.pos += uint(n)
	}
	return n, nil
"""),(S,"""	if s.Index >= uint(len(s.CSize)) {
		s.Index = uint(len(s.CSize) - 1)
		s.Offset = uint(len(s.Data[s.Index]))
	}""","""	if s.cur >= uint(len(s.CSize)) {
		s.cur = uint(len(s.CSize) - 1)
		s.pos = uint(len(s.Data[s.cur]))
	}"""),(S,"trueOffset := int64(s.Offset) + s.CSize[int(s.Index)]","trueOffset := int64(s.pos) + s.CSize[int(s.cur)]"),
  (S,"		s.Index = 0\n		s.Offset = 0\n","		s.cur, s.pos = 0, 0\n"),
  (S,"""		s.Index = uint(len(s.Data) - 1)
		s.Offset = uint(len(s.Data[s.Index]))
		trueOffset = int64(s.Offset) + s.CSize[s.Index]""","""		s.cur = uint(len(s.Data) - 1)
		s.pos = uint(len(s.Data[s.cur]))
		trueOffset = int64(s.pos) + s.CSize[s.cur]"""),
  (S,"			s.Index = uint(i)\n			s.Offset = uint(wantOffset - s.CSize[i])","			s.cur = uint(i)\n			s.pos = uint(wantOffset - s.CSize[i])")]),
(P,"ok append",[(C,"	streamData := make([][]byte, 1+(size>>d.header.SectorShift))\n\n	x := 0\n	secSize","	streamData := make([][]byte, 0, 1+(size>>d.header.SectorShift))\n\n	secSize"),
  (C,loop,loop.replace("streamData[x] = slice","streamData = append(streamData, slice)").replace("		x++\n",""))]),
(P,"ok cut helper",[(C,loop,loop.replace("""		slice := d.data[offs : offs+secSize]
		if size < uint64(len(slice)) {
			slice = slice[:size]
			size = 0
		} else {
			size -= uint64(len(slice))
		}
""","""		var slice []byte
		slice, size = take(d.data[offs:offs+secSize], size)
""")+"""
// take cuts a sector to the bytes which are still missing.
func take(sector []byte, size uint64) ([]byte, uint64) {
	if n := uint64(len(sector)); size >= n {
		return sector, size - n
	}
	return sector[:size], 0
}
""")]),
(P,"ok one collect helper",[(C,loop,"""	streamData, size = d.collect(streamData, sid, size)
	if size != 0 {
		return nil, errors.New("ole2: incomplete read")
	}
	return &SliceReader{Data: streamData}, nil
}

func (d *Document) collect(list [][]byte, sid uint32, size uint64) ([][]byte, uint64) {
	secSize := int64(1) << int32(d.header.SectorShift)
	for x := 0; sid != secEndOfChain && sid != secFree; x++ {
		offs := int64(1+sid) << int64(d.header.SectorShift)
		slice := d.data[offs : offs+secSize]
		if size < uint64(len(slice)) {
			slice = slice[:size]
		}
		size -= uint64(len(slice))
		list[x] = slice
		if size == 0 {
			break
		}
		sid = d.fat[sid]
	}
	return list, size
}
"""),(C,"	x := 0\n	secSize := int64(1) << int32(d.header.SectorShift)\n","")]),
(P,"ok offset computed by product",[(C,loop,loop.replace("offs := int64(1+sid) << int64(d.header.SectorShift)","offs := (1 + int64(sid)) * secSize"))]),
(P,"ok mini masks",[(C,"so, si := offs/secSize, offs%secSize","so, si := offs>>d.header.SectorShift, offs&(secSize-1)")]),
(P,"ok find helper",[(I,"""	for _, e := range d.dir {
		if e.String() == name && e.ObjectType == typeStream {
			if e.StreamSize < uint64(d.header.MiniStreamCutoffSize) {
				return d.getMiniStreamReader(uint32(e.StartingSectorLocation), e.StreamSize)
			} else if e.StreamSize != 0 {
				return d.getStreamReader(uint32(e.StartingSectorLocation), e.StreamSize)
			}
		}
	}
	return nil, fmt.Errorf("cfb: stream '%s' not found", name)
}
""","""	for i := range d.dir {
		e := d.dir[i]
		if e.ObjectType != typeStream || e.String() != name {
			continue
		}
		start := uint32(e.StartingSectorLocation)
		switch {
		case e.StreamSize < uint64(d.header.MiniStreamCutoffSize):
			return d.getMiniStreamReader(start, e.StreamSize)
		case e.StreamSize > 0:
			return d.getStreamReader(start, e.StreamSize)
		}
	}
	return nil, fmt.Errorf("cfb: stream '%s' not found", name)
}
""")]),
(P,"ok find helper 2",[(I,"""	for _, e := range d.dir {
		if e.String() == name && e.ObjectType == typeStream {
			if e.StreamSize < uint64(d.header.MiniStreamCutoffSize) {
				return d.getMiniStreamReader(uint32(e.StartingSectorLocation), e.StreamSize)
			} else if e.StreamSize != 0 {
				return d.getStreamReader(uint32(e.StartingSectorLocation), e.StreamSize)
			}
		}
	}
	return nil, fmt.Errorf("cfb: stream '%s' not found", name)
}
""","""	e := d.find(name)
	if e == nil {
		return nil, fmt.Errorf("cfb: stream '%s' not found", name)
	}
	if d.small(e) {
		return d.getMiniStreamReader(uint32(e.StartingSectorLocation), e.StreamSize)
	}
	return d.getStreamReader(uint32(e.StartingSectorLocation), e.StreamSize)
}

func (d *Document) small(e *directory) bool {
	return e.StreamSize < uint64(d.header.MiniStreamCutoffSize)
}

func (d *Document) find(name string) *directory {
	for _, e := range d.dir {
		if e.String() == name && e.ObjectType == typeStream && (e.StreamSize != 0 || d.small(e)) {
			return e
		}
	}
	return nil
}
""")]),
(P,"ok chain as condition in body",[(C,loop,loop.replace("	for sid != secEndOfChain && sid != secFree {\n","	for {\n		if sid == secEndOfChain || sid == secFree {\n			break\n		}\n"))]),
(P,"ok helper for sector",[(C,loop,loop.replace("""		offs := int64(1+sid) << int64(d.header.SectorShift)
		if offs > int64(len(d.data)) {
			return nil, errors.New("ole2: corrupt data format")
		}
		slice := d.data[offs : offs+secSize]
""","""		slice, err := d.sector(sid)
		if err != nil {
			return nil, err
		}
""")+"""
func (d *Document) sector(sid uint32) ([]byte, error) {
	secSize := int64(1) << d.header.SectorShift
	offs := int64(1+sid) * secSize
	if offs > int64(len(d.data)) {
		return nil, errors.New("ole2: corrupt data format")
	}
	return d.data[offs : offs+secSize], nil
}
"""),(C,"	x := 0\n	secSize := int64(1) << int32(d.header.SectorShift)\n","	x := 0\n")]),
]

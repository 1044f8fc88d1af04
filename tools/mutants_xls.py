S="xls/sheets.go"
M=[
(["P11"],"swap row col bool",[(S,"res.Put(rowIndex, colIndex, bv, fno)","res.Put(colIndex, rowIndex, bv, fno)")]),
(["P11"],"rk offset",[(S,"value := RKNumber(binary.LittleEndian.Uint32(r.Data[6:]))","value := RKNumber(binary.LittleEndian.Uint32(r.Data[4:]))")]),
(["P11"],"mulrk i from 1",[(S,"for i := 0; i < nrk; i++ {","for i := 1; i < nrk; i++ {")]),
(["P11"],"mulrk misses last",[(S,"for i := 0; i < nrk; i++ {","for i := 0; i < nrk-1; i++ {")]),
(["P11"],"mulrk column fixed",[(S,"res.Put(rowIndex, colIndex+i, rval, fno)","res.Put(rowIndex, colIndex, rval, fno)")]),
(["P11"],"mulrk column masked",[(S,"res.Put(rowIndex, colIndex+i, rval, fno)","res.Put(rowIndex, (colIndex+i)&0xFF, rval, fno)")]),
(["P11"],"xf off by one",[(S,"fno = b.xfs[ixfe]","fno = b.xfs[ixfe-1]")]),
(["P11"],"fno raw",[(S,"res.Put(rowIndex, colIndex, value, fno)","res.Put(rowIndex, colIndex, value, fno*0+uint16(ixfe))")]),
(["P11"],"bool inverted",[(S,"if r.Data[6] == 1 {","if r.Data[6] == 0 {")]),
(["P11"],"error table wrong",[(S,'0x2A: "#N/A"','0x2B: "#N/A"'),(S,'0x2B: "#GETTING_DATA"','0x2A: "#GETTING_DATA"')]),
(["P11"],"row as byte",[(S,"rowIndex := int(binary.LittleEndian.Uint16(r.Data[:2]))","rowIndex := int(int16(binary.LittleEndian.Uint16(r.Data[:2])))")]),
(["P11"],"rk int sign",[("xls/structs.go","int32(r) >> 2","int32(r >> 2)")]),
(["P11"],"number skipped if zero",[(S,"			res.Put(rowIndex, colIndex, value, fno)\n			//log.Printf(\"Number","			if value != 0 {\n\t\t\t\tres.Put(rowIndex, colIndex, value, fno)\n\t\t\t}\n			//log.Printf(\"Number")]),
(["P11"],"formula bool byte",[(S,"if fdata[2] != 0 {","if fdata[1] != 0 {")]),
(["P11"],"formula column lost",[(S,"formulaCol = binary.LittleEndian.Uint16(r.Data[2:4])","_ = formulaCol")]),
(["P11"],"formula pos only for strings",[(S,"""			formulaRow = binary.LittleEndian.Uint16(r.Data[:2])
			formulaCol = binary.LittleEndian.Uint16(r.Data[2:4])
""","""			if r.Data[13] != 0xFF {
				formulaRow = binary.LittleEndian.Uint16(r.Data[:2])
			}
			formulaCol = binary.LittleEndian.Uint16(r.Data[2:4])
""")]),
(["P11"],"set swapped",[(S,"res.Set(int(formulaRow), int(formulaCol), fstr)","res.Set(int(formulaCol), int(formulaRow), fstr)")]),
(["P11"],"sst plus one",[(S,"res.Put(rowIndex, colIndex, b.strings[sstIndex], fno)","res.Put(rowIndex, colIndex, b.strings[sstIndex&0xFFFF], fno)")]),
(["P11"],"skip row 0",[(S,"		case RecTypeRK:\n","		case RecTypeRK:\n			if r.Data[0] == 0 && r.Data[1] == 0xFF {\n				continue\n			}\n")]),
(["P11"],"ok stops at the end record",[(S,"		case RecTypeBoolErr:\n","		case RecTypeEOF:\n			return res, nil\n		case RecTypeBoolErr:\n")]),
(["P11"],"scan starts late",[(S,"for ridx, r := range b.substreams[ss] {","for ridx, r := range b.substreams[ss][1:] {")]),
(["P11"],"shared format between records",[(S,"	var formulaRow, formulaCol uint16\n","	var formulaRow, formulaCol, lastFno uint16\n"),
  (S,"""			xnum := binary.LittleEndian.Uint64(r.Data[6:])

			value := math.Float64frombits(xnum)
			var fno uint16
			if ixfe < len(b.xfs) {
				fno = b.xfs[ixfe]
			}
""","""			xnum := binary.LittleEndian.Uint64(r.Data[6:])

			value := math.Float64frombits(xnum)
			fno := lastFno
			if ixfe < len(b.xfs) {
				fno = b.xfs[ixfe]
				lastFno = fno
			}
""")]),
(["P11","P12"],"ok helper fno",[(S,"""			xnum := binary.LittleEndian.Uint64(r.Data[6:])

			value := math.Float64frombits(xnum)
			var fno uint16
			if ixfe < len(b.xfs) {
				fno = b.xfs[ixfe]
			}
""","""			xnum := binary.LittleEndian.Uint64(r.Data[6:])

			value := math.Float64frombits(xnum)
			fno := b.formatOf(ixfe)
"""),(S,"var berrLookup =","""func (b *WorkBook) formatOf(ixfe int) uint16 {
	if ixfe >= len(b.xfs) {
		return 0
	}
	return b.xfs[ixfe]
}

var berrLookup =""")]),
(["P11","P12"],"ok header helper",[(S,"""			rowIndex := int(binary.LittleEndian.Uint16(r.Data[:2]))
			colIndex := int(binary.LittleEndian.Uint16(r.Data[2:4]))
			ixfe := int(binary.LittleEndian.Uint16(r.Data[4:]))
			value := RKN""","""			rowIndex, colIndex, ixfe := cellHeader(r.Data)
			value := RKN"""),(S,"var berrLookup =","""func cellHeader(d []byte) (row, col, ixfe int) {
	row = int(d[0]) | int(d[1])<<8
	col = int(d[2]) + int(d[3])*256
	ixfe = int(binary.LittleEndian.Uint32(d[2:]) >> 16)
	return
}

var berrLookup =""")]),
(["P11","P12"],"ok rk value helper",[(S,"""			var rval interface{}
			if value.IsInteger() {
				rval = value.Int()
			} else {
				rval = value.Float64()
			}
			var fno uint16
			if ixfe < len(b.xfs) {
				fno = b.xfs[ixfe]
			}
			res.Put(rowIndex, colIndex, rval, fno)
""","""			var fno uint16
			if ixfe < len(b.xfs) {
				fno = b.xfs[ixfe]
			}
			res.Put(rowIndex, colIndex, rkValue(value), fno)
"""),(S,"var berrLookup =","""func rkValue(v RKNumber) interface{} {
	if !v.IsInteger() {
		return v.Float64()
	}
	return v.Int()
}

var berrLookup =""")]),
(["P11","P12"],"ok cell switch extracted",[(S,"""			rowIndex := int(binary.LittleEndian.Uint16(r.Data[:2]))
			colIndex := int(binary.LittleEndian.Uint16(r.Data[2:4]))
			ixfe := int(binary.LittleEndian.Uint16(r.Data[4:6]))
			if r.Data[7] == 0 {
				// Boolean value
				bv := false
				if r.Data[6] == 1 {
					bv = true
				}
				var fno uint16
				if ixfe < len(b.xfs) {
					fno = b.xfs[ixfe]
				}
				res.Put(rowIndex, colIndex, bv, fno)
				//log.Printf("bool/error spec: %d %d %+v", rowIndex, colIndex, bv)
			} else {
				// it's an error, load the label
				be, ok := berrLookup[r.Data[6]]
				if !ok {
					be = "<unknown error>"
				}
				res.Put(rowIndex, colIndex, be, 0)
				//log.Printf("bool/error spec: %d %d %s", rowIndex, colIndex, be)
			}
""","""			b.putBoolErr(res, r)
"""),(S,"var berrLookup =","""func (b *WorkBook) putBoolErr(res *commonxl.Sheet, r *rec) {
	rowIndex := int(binary.LittleEndian.Uint16(r.Data[:2]))
	colIndex := int(binary.LittleEndian.Uint16(r.Data[2:4]))
	if r.Data[7] != 0 {
		name, ok := berrLookup[r.Data[6]]
		if !ok {
			name = "<unknown error>"
		}
		res.Put(rowIndex, colIndex, name, 0)
		return
	}
	var fno uint16
	if ixfe := int(binary.LittleEndian.Uint16(r.Data[4:6])); ixfe < len(b.xfs) {
		fno = b.xfs[ixfe]
	}
	res.Put(rowIndex, colIndex, r.Data[6] == 1, fno)
}

var berrLookup =""")]),
(["P11","P12"],"ok index loop",[(S,"	for ridx, r := range b.substreams[ss] {\n","	recs := b.substreams[ss]\n	for ridx := 0; ridx < len(recs); ridx++ {\n		r := recs[ridx]\n")]),
(["P11","P12"],"ok mulrk walk",[(S,"off := 4 + i*6","off := 6*i + 4")]),
(["P11","P12"],"ok mulrk off var",[(S,"			for i := 0; i < nrk; i++ {\n				off := 4 + i*6\n","			off := -2\n			for i := 0; i < nrk; i++ {\n				off += 6\n")]),
(["P11","P12"],"ok if chain for bof",[(S,"""			if r.RecType == RecTypeEOF {
				inSubstream--
			} else if r.RecType == RecTypeBOF {
				inSubstream++
			}
			continue
""","""			switch r.RecType {
			case RecTypeBOF:
				inSubstream++
			case RecTypeEOF:
				inSubstream--
			}
			continue
""")]),
(["P12"],"begin not counted",[(S,"""			} else if r.RecType == RecTypeBOF {
				inSubstream++
			}
			continue""","""			}
			continue""")]),
(["P12"],"end resets to zero",[(S,"			if r.RecType == RecTypeEOF {\n				inSubstream--\n			} else if r.RecType == RecTypeBOF {\n				inSubstream++\n			} else if","			if r.RecType == RecTypeEOF {\n				inSubstream = 0\n			} else if r.RecType == RecTypeBOF {\n				inSubstream++\n			} else if")]),
(["P12"],"not reset between passes",[(S,"	inSubstream = 0\n","")]),
(["P12"],"nested deeper than one",[(S,"		if inSubstream > 0 {\n			if r.RecType == RecTypeEOF {\n				inSubstream--\n			} else if r.RecType == RecTypeBOF {\n				inSubstream++\n			} else if","		if inSubstream > 1 {\n			if r.RecType == RecTypeEOF {\n				inSubstream--\n			} else if r.RecType == RecTypeBOF {\n				inSubstream++\n			} else if")]),
(["P12"],"first bof counted",[(S,"			if ridx > 0 {\n","			if ridx >= 0 {\n")]),
(["P12"],"dimensions of nested",[(S,"""			} else if r.RecType == RecTypeBOF {
				inSubstream++
			}
			continue""","""			} else if r.RecType == RecTypeBOF {
				inSubstream++
			}
			if r.RecType != RecTypeDimensions {
				continue
			}""")]),
(["P11","P12"],"ok bool ghost nested helper",[(S,"""			if r.RecType == RecTypeEOF {
				inSubstream--
			} else if r.RecType == RecTypeBOF {
				inSubstream++
			}
			continue
""","""			inSubstream = nesting(inSubstream, r.RecType)
			continue
"""),(S,"var berrLookup =","""func nesting(n int, t recordType) int {
	if t == RecTypeEOF {
		return n - 1
	}
	if t == RecTypeBOF {
		n++
	}
	return n
}

var berrLookup =""")]),
]

W="xlsx/workbook.go"; X="xlsx/xlsx.go"
P=["P38"]
U='http://schemas.openxmlformats.org/officeDocument/2006/relationships/'
M=[
(P,"absolute keeps slash",[(W,'vals["Target"][1:]','vals["Target"]')]),
(P,"absolute check lost",[(W,'if strings.HasPrefix(vals["Target"], "/") {','if strings.HasPrefix(vals["Target"], "/xl/") {')]),
(P,"relative not joined",[(W,'filepath.Join(basedir, vals["Target"])','filepath.Clean(basedir + vals["Target"])')]),
(P,"relative to nothing",[(W,'filepath.Join(basedir, vals["Target"])','filepath.Join(vals["Target"])')]),
(P,"first id wins",[(W,'				if strings.HasPrefix(vals["Target"]','				if d.rels[vals["Type"]][vals["Id"]] != "" {\n					continue\n				}\n				if strings.HasPrefix(vals["Target"]')]),
(P,"map replaced",[(W,'if _, ok := d.rels[vals["Type"]]; !ok {','if len(d.rels[vals["Type"]]) < 2 {')]),
(P,"type suffix only",[(W,'				if _, ok := d.rels','				if i := strings.LastIndexByte(vals["Type"], \'#\'); i >= 0 {\n					vals["Type"] = vals["Type"][i:]\n				}\n				if _, ok := d.rels')]),
(P,"main by suffix",[(W,'if vals["Type"] == "'+U+'officeDocument" {','if strings.HasSuffix(vals["Type"], "ocument") {')]),
(P,"main only first",[(W,'if vals["Type"] == "'+U+'officeDocument" {','if d.primaryDoc == "" && vals["Type"] == "'+U+'officeDocument" {')]),
(P,"external skipped",[(W,'				if _, ok := d.rels','				if vals["TargetMode"] == "" && vals["Type"] == "x" {\n					continue\n				}\n				if _, ok := d.rels')]),
(P,"stops at end element",[(W,'		case xml.EndElement:\n			// not needed\n		default:\n			if grate.Debug {\n				log.Printf("      Unhandled relationship','		case xml.EndElement:\n			return nil\n		default:\n			if grate.Debug {\n				log.Printf("      Unhandled relationship')]),
(P,"syntax error dropped",[(W,'	if err == io.EOF {\n		err = nil\n	}\n	return err\n}\n\nfunc (d *Document) parseWorkbook','	if err != nil {\n		err = nil\n	}\n	return err\n}\n\nfunc (d *Document) parseWorkbook')]),
(P,"rels of the wrong part",[(X,'filepath.Join(sub, "_rels", base+".rels")','filepath.Join("xl", "_rels", base+".rels")')]),
(P,"rels base dir",[(X,'d.parseRels(dec, sub)','d.parseRels(dec, "xl")')]),
(P,"primary not checked",[(X,'	if d.primaryDoc == "" {','	if len(d.primaryDoc) < 4 {')]),
(P,"rels error ignored",[(X,'	err = d.parseRels(dec, sub)\n	c.Close()\n	if err != nil {','	err = d.parseRels(dec, sub)\n	c.Close()\n	if err != nil && len(d.rels) == 0 {')]),
(P,"fixed workbook name",[(X,'d.openXML(d.primaryDoc)','d.openXML("xl/workbook.xml")')]),
(P,"missing styles skipped",[(X,'		dec, c, err = d.openXML(styn[id])\n		if err != nil {','		dec, c, err = d.openXML(styn[id])\n		if err == io.EOF {\n			continue\n		}\n		if err != nil {')]),
(P,"styles error ignored",[(X,'		err = d.parseStyles(dec)\n		c.Close()\n		if err != nil {','		err = d.parseStyles(dec)\n		c.Close()\n		if err != nil && len(d.xfs) == 0 {')]),
(P,"first styles only",[(X,'		err = d.parseStyles(dec)\n		c.Close()\n		if err != nil {\n			return nil, err\n		}\n','		err = d.parseStyles(dec)\n		c.Close()\n		if err != nil {\n			return nil, err\n		}\n		break\n')]),
(P,"strings of first id",[(X,'d.openXML(ssn[id])','d.openXML(ssn[id[:0]+sortedKeys(ssn)[0]])')]),
(P,"strings from styles type",[(X,'d.rels["'+U+'sharedStrings"]','d.rels["'+U+'styles"]')]),
(P,"workbook before rels",[(X,'	// parse the secondary relationships','	if dec, c, err = d.openXML(d.primaryDoc); err != nil {\n		return nil, err\n	}\n	err = d.parseWorkbook(dec)\n	c.Close()\n	if err != nil {\n		return nil, err\n	}\n\n	// parse the secondary relationships'),(X,'	// parse the workbook structure\n	dec, c, err = d.openXML(d.primaryDoc)\n	if err != nil {\n		return nil, err\n	}\n	err = d.parseWorkbook(dec)\n	c.Close()\n	if err != nil {\n		return nil, err\n	}\n','')]),
(P,"styles map too early",[(X,'	// parse the secondary relationships','	styn := d.rels["'+U+'styles"]\n	// parse the secondary relationships'),(X,'	styn := d.rels["'+U+'styles"]\n	for','	for')]),
(P,"keys skip empty",[(X,'		keys = append(keys, id)','		if id != "" {\n			keys = append(keys, id)\n		}')]),
(P,"keys limited",[(X,'		keys = append(keys, id)','		keys = append(keys, id)\n		if len(keys) > 7 {\n			break\n		}')]),
(P,"keys are names",[(X,'	for id := range rels {\n		keys = append(keys, id)','	for _, id := range rels {\n		keys = append(keys, id)')]),
(P,"name by suffix",[(X,'if zf.Name == name {','if strings.HasSuffix(zf.Name, name) {')]),
(P,"name caseless",[(X,'if zf.Name == name {','if strings.EqualFold(zf.Name, name) {')]),
(P,"search skips first",[(X,'range d.r.File {\n		if zf.Name == name','range d.r.File[1:] {\n		if zf.Name == name')]),
(P,"search limited",[(X,'	for _, zf := range d.r.File {\n		if zf.Name == name','	for i, zf := range d.r.File {\n		if i > 1000 {\n			break\n		}\n		if zf.Name == name')]),
(P,"not found is nil",[(X,'	return nil, nil, io.EOF','	return nil, nil, nil')]),
(P,"zip open error skipped",[(X,'			if err != nil {\n				return nil, nil, err\n			}\n			dec :=','			if err != nil {\n				continue\n			}\n			dec :=')]),
(P,"comment rejected",[(X,'	d := &Document{\n','	if z.Comment != "" {\n		return nil, errors.New("xlsx: unexpected comment")\n	}\n	d := &Document{\n')]),
(P,"content types needed",[(X,'	d.rels = make','	if len(z.File) < 3 {\n		return nil, grate.ErrNotInFormat\n	}\n	d.rels = make')]),
(P,"main changed later",[(X,'	err = d.parseWorkbook(dec)\n','	err = d.parseWorkbook(dec)\n	d.rels["'+U+'styles"] = nil\n')]),
(P,"ok dir",[(X,'	sub := strings.TrimSuffix(d.primaryDoc, base)','	sub := strings.TrimSpace("") + filepath.Dir(d.primaryDoc)')]),
(P,"ok split",[(X,'	base := filepath.Base(d.primaryDoc)\n	sub := strings.TrimSuffix(d.primaryDoc, base)','	sub, base := filepath.Split(d.primaryDoc)\n	_ = strings.TrimSpace')]),
(P,"ok helper",[(X,'		// parse the style table\n		dec, c, err = d.openXML(styn[id])\n		if err != nil {\n			return nil, err\n		}\n		err = d.parseStyles(dec)\n		c.Close()\n		if err != nil {\n			return nil, err\n		}','		// parse the style table\n		if err = d.readPart(styn[id], d.parseStyles); err != nil {\n			return nil, err\n		}'),
 (X,'func (d *Document) openXML','func (d *Document) readPart(name string, read func(*xml.Decoder) error) error {\n	dec, c, err := d.openXML(name)\n	if err != nil {\n		return err\n	}\n	defer c.Close()\n	return read(dec)\n}\n\nfunc (d *Document) openXML')]),
(P,"ok styles after strings",[(X,'	styn := d.rels["'+U+'styles"]\n','	if false {\n		return d, errors.New("x")\n	}\n	styn := d.rels["'+U+'styles"]\n')]),
(P,"ok list index loop",[(X,'	for _, id := range sortedKeys(styn) {','	ids := sortedKeys(styn)\n	for i := 0; i < len(ids); i++ {\n		id := ids[i]')]),
(P,"ok find function",[(X,'	for _, zf := range d.r.File {\n		if zf.Name == name {\n			zfr','	for _, zf := range d.r.File {\n		if zf.Name != name {\n			continue\n		}\n		{\n			zfr')]),
(P,"ok getAttrs",[(W,'				vals := make(map[string]string, 5)\n				for _, a := range v.Attr {\n					vals[a.Name.Local] = a.Value\n				}\n				if _, ok := d.rels[vals["Type"]]; !ok {\n					d.rels[vals["Type"]] = make(map[string]string)\n				}\n				if strings.HasPrefix(vals["Target"], "/") {\n					// handle malformed "absolute" paths cleanly\n					d.rels[vals["Type"]][vals["Id"]] = vals["Target"][1:]\n				} else {\n					d.rels[vals["Type"]][vals["Id"]] = filepath.Join(basedir, vals["Target"])\n				}\n				if vals["Type"] == "'+U+'officeDocument" {\n					d.primaryDoc = d.rels[vals["Type"]][vals["Id"]]\n				}',
 '				ax := getAttrs(v.Attr, "Type", "Id", "Target")\n				byID := d.rels[ax[0]]\n				if byID == nil {\n					byID = make(map[string]string)\n					d.rels[ax[0]] = byID\n				}\n				target := strings.TrimPrefix(ax[2], "/")\n				if target == ax[2] {\n					target = filepath.Join(basedir, target)\n				}\n				byID[ax[1]] = target\n				if ax[0] == "'+U+'officeDocument" {\n					d.primaryDoc = target\n				}')]),
(P,"ok switch prefix",[(W,'if strings.HasPrefix(vals["Target"], "/") {','if t := vals["Target"]; t != "" && t[0] == \'/\' {\n					_ = strings.TrimSpace')]),
]

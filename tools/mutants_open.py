M=[
(["P01"],"return src with err",[("grate.go","return nil, err\n\t\t}\n\t\tif Debug","return src, err\n\t\t}\n\t\tif Debug")]),
(["P01"],"eq instead of Is",[("grate.go","!errors.Is(err, ErrNotInFormat)","err != ErrNotInFormat"),("grate.go",'"errors"\n','')]),
(["P01"],"skip first",[("grate.go","for _, o := range srcTable {","for i, o := range srcTable {\n\tif i == 0 && len(srcTable) > 4 { continue }")]),
(["P01"],"swallow",[("grate.go","return nil, err\n\t\t}\n\t\tif Debug","return nil, ErrUnknownFormat\n\t\t}\n\t\tif Debug")]),
(["P01"],"continue on error",[("grate.go","if !errors.Is(err, ErrNotInFormat) {\n\t\t\treturn nil, err\n\t\t}","if !errors.Is(err, ErrNotInFormat) && o.pri > 9 {\n\t\t\treturn nil, err\n\t\t}")]),
(["P01"],"last err",[("grate.go","return nil, ErrUnknownFormat\n","return nil, ErrNotInFormat\n")]),
(["P01"],"stop at second last",[("grate.go","for _, o := range srcTable {","for _, o := range srcTable[:len(srcTable)-1] {")]),
(["P01","P02"],"ok index loop",[("grate.go","for _, o := range srcTable {","for i := 0; i < len(srcTable); i++ {\n\t\to := srcTable[i]")]),
(["P01"],"ok helper",[("grate.go","		src, err := o.op(filename)\n","		src, err := o.try(filename)\n"),("grate.go","type srcOpenTab struct","func (o *srcOpenTab) try(fn string) (Source, error) { return o.op(fn) }\n\ntype srcOpenTab struct")]),
(["P01"],"ok switch",[("grate.go","""		if err == nil {
			return src, nil
		}
		if !errors.Is(err, ErrNotInFormat) {
			return nil, err
		}""","""		switch {
		case errors.Is(err, ErrNotInFormat):
		case err != nil:
			return nil, err
		default:
			return src, nil
		}""")]),
(["P02"],"unsorted desc",[("grate.go","srcTable[i].pri < srcTable[j].pri","srcTable[i].pri > srcTable[j].pri")]),
(["P02"],"sort by name",[("grate.go","srcTable[i].pri < srcTable[j].pri","srcTable[i].name < srcTable[j].name")]),
(["P02"],"sort only if few",[("grate.go","	sort.Slice(srcTable,","	if len(srcTable) < 3 {\n\t\treturn nil\n\t}\n	sort.Slice(srcTable,")]),
(["P02"],"abs pri",[("grate.go","pri: priority","pri: priority&7")]),
(["P02"],"csv before tsv",[("simple/csv.go",'"csv", 15','"csv", 9')]),
(["P02"],"csv opener tsv",[("simple/csv.go",'15, OpenCSV','15, OpenTSV')]),
(["P02"],"xlsx after tsv",[("xlsx/xlsx.go",'"xlsx", 5','"xlsx", 50')]),
(["P02"],"sorted before append",[("grate.go","""	srcTable = append(srcTable, &srcOpenTab{name: name, pri: priority, op: opener})
""",""),("grate.go","""	})
	return nil""","""	})
	srcTable = append(srcTable, &srcOpenTab{name: name, pri: priority, op: opener})
	return nil""")]),
(["P02"],"ok stable with helper",[("grate.go","	sort.Slice(srcTable, func(i, j int) bool {\n\t\treturn srcTable[i].pri < srcTable[j].pri\n\t})","	sortTable()"),("grate.go","type srcOpenTab struct","func sortTable() {\n	sort.SliceStable(srcTable, func(i, j int) bool {\n\t\ta, b := srcTable[i], srcTable[j]\n\t\treturn b.pri > a.pri\n\t})\n}\n\ntype srcOpenTab struct")]),
(["P04"],"is only two",[("errs.go","for _, err := range e.errs {\n\t\tif errors.Is","for _, err := range e.errs[:2] {\n\t\tif errors.Is")]),
(["P04"],"is first",[("errs.go","		if errors.Is(err, target) {\n			return true\n		}\n","		return errors.Is(err, target)\n")]),
(["P04"],"wrap first two",[("errs.go","return errx{errs: e}","return errx{errs: e[:2]}")]),
(["P04"],"wrap len<3",[("errs.go","if len(e) == 1","if len(e) < 3")]),
(["P04"],"msg last",[("errs.go","e.errs[0].Error()","e.errs[len(e.errs)-1].Error()")]),
(["P04"],"as missing",[("errs.go","As(target interface{})","AsX(target interface{})")]),
(["P04"],"ok index loop",[("errs.go","for _, err := range e.errs {\n\t\tif errors.Is(err","for i := 0; i < len(e.errs); i++ {\n\t\tif errors.Is(e.errs[i]")]),
(["P04"],"ok unwrap list",[("errs.go","func (e errx) Unwrap() error {\n	if len(e.errs) > 1 {\n		return e.errs[1]\n	}\n	return nil\n}","func (e errx) Unwrap() []error {\n	return e.errs\n}")]),
]

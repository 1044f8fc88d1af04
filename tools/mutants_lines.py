# Mutants of what the tools write (P40).
M=[]
T="cmd/grate2tsv/main.go"
G="cmd/grater/main.go"
def m(name,*edits): M.append((["P40"],name,list(edits)))
LOOP='''				for i, v := range row {
					if i != 0 {
						w.Write([]byte{'\\t'})
					}
					w.Write([]byte(v))
				}
				w.Write([]byte{'\\n'})
'''
NORM='''			row := sheet.Strings()
			nonblank := false
			for i, x := range row {
				if *removeNewlines {
					x = newlines.ReplaceAllString(x, " ")
				}
				if *trimSpaces {
					x = strings.TrimSpace(x)
				}
				row[i] = x
				if x != "" {
					nonblank = true
					if ps.NumCols < i+1 {
						ps.NumCols = i + 1
					}
				}
			}
'''
m("tab by content",(T,"					if i != 0 {\n						w.Write","					if i != 0 && v != \"\" {\n						w.Write"))
m("tab after each",(T,LOOP,LOOP.replace("if i != 0","if i >= 0")))
m("first cell skipped",(T,LOOP,LOOP.replace("range row {","range row[1:] {")))
m("empty cells left out",(T,LOOP,LOOP.replace("					w.Write([]byte(v))","					if v == \"\" {\n						continue\n					}\n					w.Write([]byte(v))")))
m("stops at long rows",(T,LOOP,LOOP.replace("					w.Write([]byte(v))","					if i > 16383 {\n						break\n					}\n					w.Write([]byte(v))")))
m("newline when cells",(T,"				w.Write([]byte{'\\n'})\n","				if len(row) > 0 {\n					w.Write([]byte{'\\n'})\n				}\n"))
m("crlf",(T,"[]byte{'\\n'}","[]byte{'\\r', '\\n'}"))
m("blank by last cell",(T,'				if x != "" {\n					nonblank = true','				nonblank = x != ""\n				if x != "" {'))
m("blank by wide cells",(T,'				if x != "" {\n					nonblank','				if len(x) > 1 {\n					nonblank'))
m("blank from the second",(T,'				if x != "" {\n					nonblank = true','				if x != "" {\n					nonblank = nonblank || i > 0'))
m("blank rows always dropped",(T,"nonblank || !*skipBlanks","nonblank"))
m("blank rows inverted",(T,"nonblank || !*skipBlanks","nonblank || *skipBlanks"))
m("trim only with condense",(T,"				if *trimSpaces {","				if *trimSpaces && *removeNewlines {"))
m("trim always",(T,"				if *trimSpaces {","				if *trimSpaces || i == 0 {"))
m("trim not stored",(T,"				row[i] = x\n				if x","				if *removeNewlines {\n					row[i] = x\n				}\n				if x"))
m("pattern without tabs",(T,'"[ \\n\\r\\t]+"','"[ \\n\\r]+"'))
m("pattern single",(T,'"[ \\n\\r\\t]+"','"[ \\n\\r\\t]"'))
m("replaced by nothing",(T,'ReplaceAllString(x, " ")','ReplaceAllString(x, "")'))
m("sanitised cells",(T,'x = newlines.ReplaceAllString(x, " ")','x = sanitize.ReplaceAllString(x, " ")'))
m("trim left only",(T,'strings.TrimSpace(x)','strings.TrimLeft(x, " ")'))
m("first row is a header",(T,"		for sheet.Next() {\n","		sheet.Next()\n		for sheet.Next() {\n"))
m("limit of rows",(T,"				ps.NumRows++\n			}\n","				ps.NumRows++\n			}\n			if ps.NumRows >= 1048576 {\n				break\n			}\n"))
m("stops at blank",(T,"				ps.NumRows++\n			}\n","				ps.NumRows++\n			} else if ps.NumRows > 0 {\n				break\n			}\n"))
m("sheet error ends",(T,"			ps.Err = err\n			results = append(results, ps)\n			continue\n","			return nil, err\n"))
m("sheet error forgotten",(T,"			ps.Err = err\n",""))
m("sheet error not added",(T,"			ps.Err = err\n			results = append(results, ps)\n			continue\n","			ps.Err = err\n			continue\n"))
m("sheet error ends the sheets",(T,"			ps.Err = err\n			results = append(results, ps)\n			continue\n","			ps.Err = err\n			results = append(results, ps)\n			break\n"))
m("empty sheet not added",(T,'Skipping.")\n			results = append(results, ps)\n','Skipping.")\n'))
m("result kept from before",(T,"		results = append(results, ps)\n		if ox","		if ps.NumRows > 0 {\n			results = append(results, ps)\n		}\n		if ox"))
m("result twice",(T,"		results = append(results, ps)\n		if ox","		results = append(results, ps)\n		if ps.NumRows == 0 {\n			results = append(results, ps)\n		}\n		if ox"))
m("results restarted",(T,"		results = append(results, ps)\n		if ox","		results = append([]stats{}, ps)\n		if ox"))
m("named by the file",(T,"			SheetName: s,","			SheetName: fn2,"))
m("discards in pretend",(T,"		if !*pretend {","		if !*pretend && len(sheets) < 256 {"))
m("single sheet as main only",(T,"	for _, s := range sheets {","	for _, s := range sheets[len(sheets)/256:] {"))
m("sheet opened by the file",(T,"wb.Get(s)","wb.Get(sheets[0])"))
m("rows count blank",(T,"				ps.NumRows++\n			}\n","			}\n			ps.NumRows++\n"))
m("rows counted by cells",(T,"				ps.NumRows++\n","				ps.NumRows += (len(row) + 1) % 256\n"))
m("g: open error ends",(G,"			fmt.Fprintln(os.Stderr, err)\n			continue\n		}\n\n		sheets","			fmt.Fprintln(os.Stderr, err)\n			os.Exit(1)\n		}\n\n		sheets"))
m("g: list error ends",(G,"			wb.Close()\n			fmt.Fprintln(os.Stderr, err)\n			continue\n","			wb.Close()\n			fmt.Fprintln(os.Stderr, err)\n			return\n"))
m("g: get error ends the file",(G,"				fmt.Fprintln(os.Stderr, err)\n				continue\n","				fmt.Fprintln(os.Stderr, err)\n				break\n"))
m("g: get error silent",(G,"				fmt.Fprintln(os.Stderr, err)\n				continue\n","				continue\n"))
m("g: error to stdout",(G,"				fmt.Fprintln(os.Stderr, err)\n				continue\n","				fmt.Println(err)\n				continue\n"))
m("g: spaces",(G,'strings.Join(row, "\\t")','strings.Join(row, " ")'))
m("g: row trimmed",(G,'fmt.Println(strings.Join(row, "\\t"))','fmt.Println(strings.TrimRight(strings.Join(row, "\\t"), "\\t"))'))
m("g: empty rows left out",(G,'				fmt.Println(strings.Join(row, "\\t"))','				if len(row) > 0 {\n					fmt.Println(strings.Join(row, "\\t"))\n				}'))
m("g: types instead of the row",(G,'				row := sheet.Strings()','				row := sheet.Strings()\n				if *flagDebug {\n					continue\n				}'))
m("g: types always",(G,'				if *flagDebug {','				if *flagDebug || len(sheets) > 99 {'))
m("g: one argument short",(G,"flag.Args() {","flag.Args()[1:] {"))
m("g: printf",(G,'fmt.Println(strings.Join(row, "\\t"))','fmt.Printf(strings.Join(row, "\\t") + "\\n")'))
m("g: buffered, not flushed",(G,'	for _, fn := range flag.Args() {','	out := bufio.NewWriter(os.Stdout)\n	for _, fn := range flag.Args() {'),(G,'				fmt.Println(strings.Join(row, "\\t"))','				fmt.Fprintln(out, strings.Join(row, "\\t"))'),(G,'import (\n','import (\n	"bufio"\n'))
m("ok g: buffered",(G,'	for _, fn := range flag.Args() {','	out := bufio.NewWriter(os.Stdout)\n	for _, fn := range flag.Args() {'),(G,'				fmt.Println(strings.Join(row, "\\t"))','				fmt.Fprintln(out, strings.Join(row, "\\t"))'),(G,'import (\n','import (\n	"bufio"\n'),(G,"		wb.Close()\n	}\n}","		wb.Close()\n	}\n	out.Flush()\n}"))
m("ok g: helper",(G,"			for sheet.Next() {","			dump(sheet, *flagDebug)\n		}\n		wb.Close()\n	}\n}\n\nfunc dump(sheet grate.Collection, debug bool) {\n	{\n		{\n			for sheet.Next() {"),(G,"				if *flagDebug {","				if debug {"),(G,"			}\n		}\n		wb.Close()\n	}\n}","			}\n		}\n	}\n}"))
m("ok g: index loop",(G,"	for _, fn := range flag.Args() {\n","	for i := 0; i < flag.NArg(); i++ {\n		fn := flag.Arg(i)\n"))
m("ok g: printf with verb",(G,'fmt.Println(strings.Join(row, "\\t"))','fmt.Printf("%s\\n", strings.Join(row, "\\t"))'))
m("ok g: file helper",(G,"		wb, err := grate.Open(fn)","		cat(fn, *flagDebug)\n	}\n}\n\nfunc cat(fn string, debug bool) {\n	{\n		wb, err := grate.Open(fn)"),(G,"			fmt.Fprintln(os.Stderr, err)\n			continue\n		}\n\n		sheets","			fmt.Fprintln(os.Stderr, err)\n			return\n		}\n\n		sheets"),(G,"			wb.Close()\n			fmt.Fprintln(os.Stderr, err)\n			continue","			wb.Close()\n			fmt.Fprintln(os.Stderr, err)\n			return"),(G,"				if *flagDebug {","				if debug {"))
m("ok join",(T,LOOP,'				w.Write([]byte(strings.Join(row, "\\t")))\n				w.Write([]byte{\'\\n\'})\n'))
m("ok join and newline",(T,LOOP,'				io.WriteString(w, strings.Join(row, "\\t")+"\\n")\n'))
m("ok fprintln",(T,LOOP,'				fmt.Fprintln(w, strings.Join(row, "\\t"))\n'))
m("ok helper",(T,LOOP,'				writeRow(w, row)\n'),(T,"func processFile(",'''func writeRow(w io.Writer, row []string) {
	for i, v := range row {
		if i > 0 {
			io.WriteString(w, "\\t")
		}
		io.WriteString(w, v)
	}
	io.WriteString(w, "\\n")
}

func processFile('''))
m("ok tab behind",(T,LOOP,LOOP.replace("					if i != 0 {\n						w.Write([]byte{'\\t'})\n					}\n					w.Write([]byte(v))\n","					w.Write([]byte(v))\n					if i < len(row)-1 {\n						w.Write([]byte{'\\t'})\n					}\n")))
m("ok norm helper",(T,NORM,'''			row := sheet.Strings()
			nonblank := false
			for i := range row {
				row[i] = clean(row[i])
				if row[i] == "" {
					continue
				}
				nonblank = true
				if ps.NumCols <= i {
					ps.NumCols = i + 1
				}
			}
'''),(T,"func processFile(",'''func clean(x string) string {
	if *removeNewlines {
		x = newlines.ReplaceAllString(x, " ")
	}
	if *trimSpaces {
		x = strings.TrimSpace(x)
	}
	return x
}

func processFile('''))
m("ok continue",(T,"			if nonblank || !*skipBlanks {\n"+LOOP+"				ps.NumRows++\n			}\n","			if !nonblank && *skipBlanks {\n				continue\n			}\n"+LOOP+"			ps.NumRows++\n"))
m("ok blank flag",(T,"nonblank := false","blank := true"),(T,"nonblank = true","blank = false"),(T,"nonblank ||","!blank ||"))
m("ok blank helper",(T,"nonblank || !*skipBlanks","!*skipBlanks || hasText(row)"),(T,"			nonblank := false\n",""),(T,"					nonblank = true\n",""),(T,"func processFile(",'''func hasText(row []string) bool {
	for _, x := range row {
		if x != "" {
			return true
		}
	}
	return false
}

func processFile('''))
m("ok builder",(T,LOOP,'''				var sb strings.Builder
				for i, v := range row {
					if i != 0 {
						sb.WriteByte('\\t')
					}
					sb.WriteString(v)
				}
				sb.WriteByte('\\n')
				io.WriteString(w, sb.String())
'''))
m("ok sheet helper",(T,"		for sheet.Next() {\n			row","		writeSheet(w, sheet, &ps)\n		results = append(results, ps)\n		if ox != nil {\n			cleanup <- ox\n		}\n	}\n	return results, nil\n}\n\nfunc writeSheet(w io.Writer, sheet grate.Collection, ps *stats) {\n	{\n		for sheet.Next() {\n			row"),(T,"				ps.NumRows++\n			}\n		}\n		results = append(results, ps)\n		if ox != nil {\n			cleanup <- ox\n		}\n	}\n	return results, nil\n}","				ps.NumRows++\n			}\n		}\n	}\n}"))
m("cell zero always",(T,"					w.Write([]byte(v))","					if i > 255 {\n						v = row[0]\n					}\n					w.Write([]byte(v))"))
m("rows start with one",(T,"			SheetName: s,","			SheetName: s,\n			NumRows:   1,"))
m("name of the sheet before",(T,"	for _, s := range sheets {\n		ps := stats{\n			Filename:  fn,\n			Hash:      subparts[:8],\n			SheetName: s,","	last := \"\"\n	for _, s := range sheets {\n		if last == \"\" {\n			last = s\n		}\n		ps := stats{\n			Filename:  fn,\n			Hash:      subparts[:8],\n			SheetName: last,"))
m("ok counters",(T,"		for sheet.Next() {\n			row","		rows, cols := 0, 0\n		for sheet.Next() {\n			row"),(T,"ps.NumCols < i+1","cols < i+1"),(T,"ps.NumCols = i + 1","cols = i + 1"),(T,"				ps.NumRows++","				rows++"),(T,"		results = append(results, ps)\n		if ox","		ps.NumRows, ps.NumCols = rows, cols\n		results = append(results, ps)\n		if ox"))
m("ok dest named",(T,"		s2 := sanitize","		dest := subdir + \"/\" + fn2\n		s2 := sanitize"),(T,'subdir + "/" + fn2 + "." + s2','dest + "." + s2'))

# Refactorings of the tools: every check has to stay quiet.
M=[]
T="cmd/grate2tsv/main.go"
G="cmd/grater/main.go"
def R(name,*edits): M.append((["all"],"ok cmd "+name,list(edits)))
CREATE='''		var ox *output
		var w io.Writer = ioutil.Discard
		if !*pretend {
			f, err := os.Create(subdir + "/" + fn2 + "." + s2 + ".tsv")
			if err != nil {
				return nil, err
			}
			ox = outpool.Get().(*output)
			ox.f = f
			ox.b = bufio.NewWriter(f)
			w = ox.b
		}
'''
R("create helper",(T,CREATE,'''		ox, w, err := openOutput(subdir + "/" + fn2 + "." + s2 + ".tsv")
		if err != nil {
			return nil, err
		}
'''),(T,"func processFile(",'''func openOutput(name string) (*output, io.Writer, error) {
	if *pretend {
		return nil, ioutil.Discard, nil
	}
	f, err := os.Create(name)
	if err != nil {
		return nil, nil, err
	}
	ox := outpool.Get().(*output)
	ox.f = f
	ox.b = bufio.NewWriter(f)
	return ox, ox.b, nil
}

func processFile('''))
R("create helper, output only",(T,CREATE,'''		var ox *output
		var w io.Writer = ioutil.Discard
		if !*pretend {
			ox, err = newOutput(subdir + "/" + fn2 + "." + s2 + ".tsv")
			if err != nil {
				return nil, err
			}
			w = ox.b
		}
'''),(T,"func processFile(",'''func newOutput(name string) (*output, error) {
	f, err := os.Create(name)
	if err != nil {
		return nil, err
	}
	ox := outpool.Get().(*output)
	ox.f, ox.b = f, bufio.NewWriter(f)
	return ox, nil
}

func processFile('''))
NORM='''			nonblank := false
			for i, x := range row {
				if *removeNewlines {
					x = newlines.ReplaceAllString(x, " ")
				}
				if *trimSpaces {
					x = strings.TrimSpace(x)
				}
				row[i] = x
				if x != "" {
					nonblank = true
					if ps.NumCols < i+1 {
						ps.NumCols = i + 1
					}
				}
			}
'''
R("row normaliser returns last column",(T,NORM,'''			last := normalize(row)
			nonblank := last > 0
			if ps.NumCols < last {
				ps.NumCols = last
			}
'''),(T,"func processFile(",'''// normalize cleans the cells and returns the number of columns used.
func normalize(row []string) int {
	used := 0
	for i, x := range row {
		if *removeNewlines {
			x = newlines.ReplaceAllString(x, " ")
		}
		if *trimSpaces {
			x = strings.TrimSpace(x)
		}
		row[i] = x
		if x != "" {
			used = i + 1
		}
	}
	return used
}

func processFile('''))
R("row normaliser returns flag and columns",(T,NORM,'''			nonblank, cols := normalize(row)
			if ps.NumCols < cols {
				ps.NumCols = cols
			}
'''),(T,"func processFile(",'''func normalize(row []string) (nonblank bool, cols int) {
	for i, x := range row {
		if *removeNewlines {
			x = newlines.ReplaceAllString(x, " ")
		}
		if *trimSpaces {
			x = strings.TrimSpace(x)
		}
		row[i] = x
		if x == "" {
			continue
		}
		nonblank = true
		cols = i + 1
	}
	return
}

func processFile('''))
R("cell index",(T,NORM,NORM.replace("for i, x := range row {","for i := 0; i < len(row); i++ {\n				x := row[i]")))
R("blank continue",(T,NORM,NORM.replace('''				if x != "" {
					nonblank = true
					if ps.NumCols < i+1 {
						ps.NumCols = i + 1
					}
				}
''','''				if x == "" {
					continue
				}
				nonblank = true
				if i >= ps.NumCols {
					ps.NumCols = i + 1
				}
''')))
LOOP='''				for i, v := range row {
					if i != 0 {
						w.Write([]byte{'\\t'})
					}
					w.Write([]byte(v))
				}
				w.Write([]byte{'\\n'})
'''
R("separator constants",(T,LOOP,LOOP.replace("[]byte{'\\t'}","tab").replace("[]byte{'\\n'}","nl")),(T,"		for sheet.Next() {",'		tab, nl := []byte("\\t"), []byte("\\n")\n		for sheet.Next() {'))
R("write string",(T,LOOP,LOOP.replace("w.Write([]byte(v))","io.WriteString(w, v)").replace("w.Write([]byte{'\\t'})",'io.WriteString(w, "\\t")').replace("w.Write([]byte{'\\n'})",'io.WriteString(w, "\\n")')))
R("fprint",(T,LOOP,LOOP.replace("w.Write([]byte(v))","fmt.Fprint(w, v)").replace("w.Write([]byte{'\\t'})",'fmt.Fprint(w, "\\t")').replace("w.Write([]byte{'\\n'})",'fmt.Fprintln(w)')))
R("line of bytes",(T,LOOP,'''				line = line[:0]
				for i, v := range row {
					if i != 0 {
						line = append(line, '\\t')
					}
					line = append(line, v...)
				}
				line = append(line, '\\n')
				w.Write(line)
'''),(T,"		for sheet.Next() {",'		var line []byte\n		for sheet.Next() {'))
R("sep variable",(T,LOOP,'''				sep := ""
				for _, v := range row {
					io.WriteString(w, sep)
					io.WriteString(w, v)
					sep = "\\t"
				}
				io.WriteString(w, "\\n")
'''))
R("sheet helper",(T,'''		log.Printf(subparts[:8]+"  Opening Sheet '%s'...", s)
		sheet, err''','''		if err := processSheet(wb, &ps, s, fn, fn2, subdir, subparts); err != nil {
			return nil, err
		}
		results = append(results, ps)
	}
	return results, nil
}

func processSheet(wb grate.Source, ps *stats, s, fn, fn2, subdir, subparts string) error {
	{
		log.Printf(subparts[:8]+"  Opening Sheet '%s'...", s)
		sheet, err'''),(T,'''			ps.Err = err
			results = append(results, ps)
			continue
''','''			ps.Err = err
			return nil
'''),(T,'''Skipping.")
			results = append(results, ps)
			continue
''','''Skipping.")
			return nil
'''),(T,'''				return nil, err
			}
			ox = ''','''				return err
			}
			ox = '''),(T,'''		results = append(results, ps)
		if ox != nil {
			cleanup <- ox
		}
	}
	return results, nil
''','''		if ox != nil {
			cleanup <- ox
		}
	}
	return nil
'''))
R("report helper",(T,'''		for _, res := range results {
			e := "-"
			if res.Err != nil {
				e = res.Err.Error()
			}
			fmt.Fprintf(fstats, "%s\\t%s\\t%s\\t%d\\t%d\\t%s\\n", nowFmt, res.Filename, res.SheetName,
				res.NumRows, res.NumCols, e)
		}
		mu.Unlock()
''','''		for _, res := range results {
			res.report(fstats, nowFmt)
		}
		mu.Unlock()
'''),(T,"func processFile(",'''func (res stats) report(w io.Writer, now string) {
	e := "-"
	if res.Err != nil {
		e = res.Err.Error()
	}
	fmt.Fprintf(w, "%s\\t%s\\t%s\\t%d\\t%d\\t%s\\n", now, res.Filename, res.SheetName, res.NumRows, res.NumCols, e)
}

func processFile('''))
R("results allocated",(T,"results := []stats{}","results := make([]stats, 0, 8)"))
R("results nil",(T,"	results := []stats{}\n","	var results []stats\n"))
R("named results",(T,"func processFile(fn string) ([]stats, error) {","func processFile(fn string) (results []stats, err error) {"),(T,"	results := []stats{}\n","	results = []stats{}\n"))
R("index over sheets",(T,"	for _, s := range sheets {\n		ps","	for i := range sheets {\n		s := sheets[i]\n		ps"))
R("error field first",(T,"		sheet, err := wb.Get(s)\n		if err != nil {\n			ps.Err = err\n","		sheet, err := wb.Get(s)\n		ps.Err = err\n		if err != nil {\n"))
R("rows counted first",(T,"				w.Write([]byte{'\\n'})\n				ps.NumRows++\n","				w.Write([]byte{'\\n'})\n"),(T,"			if nonblank || !*skipBlanks {\n","			if nonblank || !*skipBlanks {\n				ps.NumRows += 1\n"))
R("flags read once",(T,"		for sheet.Next() {","		condense, trim := *removeNewlines, *trimSpaces\n		for sheet.Next() {"),(T,"				if *removeNewlines {","				if condense {"),(T,"				if *trimSpaces {","				if trim {"))
R("write condition named",(T,"			if nonblank || !*skipBlanks {","			keep := nonblank || !*skipBlanks\n			if keep {"))
R("keep from the start",(T,"nonblank := false","nonblank := !*skipBlanks"),(T,"if nonblank || !*skipBlanks","if nonblank"))
R("grater: row function",(G,"				row := sheet.Strings()\n				fmt.Println(strings.Join(row, \"\\t\"))\n","				printRow(sheet.Strings())\n"),(G,"func main(","func printRow(row []string) {\n	fmt.Println(strings.Join(row, \"\\t\"))\n}\n\nfunc main("))
R("grater: file function with error",(G,'''		wb, err := grate.Open(fn)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			continue
		}

		sheets, err := wb.List()
		if err != nil {
			wb.Close()
			fmt.Fprintln(os.Stderr, err)
			continue
		}
''','''		if err := cat(fn, *flagDebug); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
	}
}

func cat(fn string, debug bool) error {
	wb, err := grate.Open(fn)
	if err != nil {
		return err
	}
	defer wb.Close()
	sheets, err := wb.List()
	if err != nil {
		return err
	}
	{
'''),(G,"				if *flagDebug {","				if debug {"),(G,"		wb.Close()\n	}\n}","	}\n	return nil\n}"))
R("grater: write string",(G,'fmt.Println(strings.Join(row, "\\t"))\n			}','os.Stdout.WriteString(strings.Join(row, "\\t") + "\\n")\n			}'))
R("grater: fprintln",(G,'				fmt.Println(strings.Join(row, "\\t"))\n			}','				fmt.Fprintln(os.Stdout, strings.Join(row, "\\t"))\n			}'))

# the same shapes, with a bug
def B(name,*edits): M.append((["P40"],"cmd "+name,list(edits)))
B("line of bytes not reset",(T,LOOP,'''				for i, v := range row {
					if i != 0 {
						line = append(line, '\\t')
					}
					line = append(line, v...)
				}
				line = append(line, '\\n')
				w.Write(line)
'''),(T,"		for sheet.Next() {",'		var line []byte\n		for sheet.Next() {'))
B("line of bytes without tabs behind blanks",(T,LOOP,'''				line = line[:0]
				for i, v := range row {
					if i != 0 && v != "" {
						line = append(line, '\\t')
					}
					line = append(line, v...)
				}
				line = append(line, '\\n')
				w.Write(line)
'''),(T,"		for sheet.Next() {",'		var line []byte\n		for sheet.Next() {'))
B("sep kept from the row before",(T,LOOP,'''				for _, v := range row {
					io.WriteString(w, sep)
					io.WriteString(w, v)
					sep = "\\t"
				}
				io.WriteString(w, "\\n")
'''),(T,"		for sheet.Next() {",'		sep := ""\n		for sheet.Next() {'))
B("sep only after text",(T,LOOP,'''				sep := ""
				for _, v := range row {
					io.WriteString(w, sep)
					io.WriteString(w, v)
					if v != "" {
						sep = "\\t"
					}
				}
				io.WriteString(w, "\\n")
'''))
B("last column from 0",(T,NORM,'''			used := 0
			for i, x := range row {
				if *removeNewlines {
					x = newlines.ReplaceAllString(x, " ")
				}
				if *trimSpaces {
					x = strings.TrimSpace(x)
				}
				row[i] = x
				if x != "" {
					used = i
				}
			}
			nonblank := used > 0
'''))
B("keep starts with the option",(T,"nonblank := false","nonblank := *skipBlanks"),(T,"if nonblank || !*skipBlanks","if nonblank"))
B("keep is that of the last cell",(T,"nonblank := false","nonblank := !*skipBlanks"),(T,"if nonblank || !*skipBlanks","if nonblank"),(T,"				if x != \"\" {\n","				nonblank = x != \"\"\n				if x != \"\" {\n"))
B("named results start with a result",(T,"func processFile(fn string) ([]stats, error) {","func processFile(fn string) (results []stats, err error) {"),(T,"	results := []stats{}\n","	results = []stats{{Filename: fn}}\n"))

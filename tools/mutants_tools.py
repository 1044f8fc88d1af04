G="cmd/grate2tsv/main.go"
P=["P27"]
worker="""		mu.Lock()
		if err != nil {
			// returned errors are fatal
			fmt.Fprintf(fstats, "%s\\t%s\\t-\\t-\\t-\\t%s\\n", nowFmt, fn, err.Error())
			mu.Unlock()
			continue
		}

		for _, res := range results {
			e := "-"
			if res.Err != nil {
				e = res.Err.Error()
			}
			fmt.Fprintf(fstats, "%s\\t%s\\t%s\\t%d\\t%d\\t%s\\n", nowFmt, res.Filename, res.SheetName,
				res.NumRows, res.NumCols, e)
		}
		mu.Unlock()
	}
	procWG.Done()
}
"""
clean="""		for x := range cleanup {
			x.b.Flush()
			x.f.Close()
			outpool.Put(x)
		}
		done <- 1
"""
tail="""	nparallel := (runtime.NumCPU() + 1) / 2
	procWG.Add(nparallel)
	for i := 0; i < nparallel; i++ {
		go runProcessor(filenameChan, outMu)
	}
	for _, fn := range flag.Args() {
		filenameChan <- fn
	}

	close(filenameChan)
	procWG.Wait()
	close(cleanup)
	<-done
}
"""
def W(a,b): return [(G,worker,worker.replace(a,b))]
def T(a,b): return [(G,tail,tail.replace(a,b))]
def C(a,b): return [(G,clean,clean.replace(a,b))]
M=[
(P,"half the processors",T("(runtime.NumCPU() + 1) / 2","runtime.NumCPU() / 2")),
(P,"one worker less",T("i := 0; i < n","i := 1; i < n")),
(P,"one worker more announced",T("procWG.Add(nparallel)","procWG.Add(nparallel+1)")),
(P,"add in worker",T("	procWG.Add(nparallel)\n","")+W("		mu.Lock()\n		if","		procWG.Add(1)\n		mu.Lock()\n		if")),
(P,"no wait",T("	procWG.Wait()\n","")),
(P,"wait after cleanup closed",T("	procWG.Wait()\n	close(cleanup)\n","	close(cleanup)\n	procWG.Wait()\n")),
(P,"done not awaited",T("	<-done\n","	_ = done\n")),
(P,"done awaited early",T("	close(cleanup)\n	<-done\n","	<-done\n	close(cleanup)\n")),
(P,"names not closed",T("	close(filenameChan)\n	procWG.Wait()\n","	procWG.Wait()\n	close(filenameChan)\n")),
(P,"empty names dropped first",T("flag.Args() {\n","flag.Args()[1:] {\n")),
(P,"skips hidden",T("		filenameChan <- fn\n","		if fn[0] == '.' {\n			continue\n		}\n		filenameChan <- fn\n")),
(P,"sent cleaned",T("filenameChan <- fn","filenameChan <- filepath.Clean(fn)")),
(P,"single file shortcut",T("	close(filenameChan)\n","	if flag.NArg() == 1 {\n		return\n	}\n	close(filenameChan)\n")),
(P,"mutex per worker",T("		go runProcessor(filenameChan, outMu)","		go runProcessor(filenameChan, &sync.Mutex{})")+[(G,"	outMu := &sync.Mutex{}\n","")]),
(P,"unlock forgotten",W("			mu.Unlock()\n			continue","			continue")),
(P,"lock late",W("		mu.Lock()\n		if err != nil {","		if err != nil {\n			mu.Lock()")+[]),
(P,"lock after error line",W("""		mu.Lock()
		if err != nil {
			// returned errors are fatal
			fmt.Fprintf(fstats, "%s\\t%s\\t-\\t-\\t-\\t%s\\n", nowFmt, fn, err.Error())
			mu.Unlock()
			continue
		}
""","""		if err != nil {
			// returned errors are fatal
			fmt.Fprintf(fstats, "%s\\t%s\\t-\\t-\\t-\\t%s\\n", nowFmt, fn, err.Error())
			continue
		}
		mu.Lock()
""")),
(P,"fatal error ends worker",W("			mu.Unlock()\n			continue","			mu.Unlock()\n			break")),
(P,"fatal error returns",W("			mu.Unlock()\n			continue","			mu.Unlock()\n			return")),
(P,"error line dropped",W("""			fmt.Fprintf(fstats, "%s\\t%s\\t-\\t-\\t-\\t%s\\n", nowFmt, fn, err.Error())
""","			log.Println(err)\n")),
(P,"sheet error not shown",W("				e = res.Err.Error()\n","				log.Println(res.Err)\n				e = \"failed\"\n")),
(P,"only sheets with rows",W("			e := \"-\"\n","			if res.NumRows == 0 {\n				continue\n			}\n			e := \"-\"\n")),
(P,"stops after sheet error",W("				e = res.Err.Error()\n			}\n","				e = res.Err.Error()\n			}\n			if res.Hash == \"\" {\n				break\n			}\n")),
(P,"done twice",W("			mu.Unlock()\n			continue","			mu.Unlock()\n			procWG.Done()\n			continue")),
(P,"done in loop",W("		mu.Unlock()\n	}\n	procWG.Done()\n","		mu.Unlock()\n		procWG.Done()\n	}\n")),
(P,"close first",C("			x.b.Flush()\n			x.f.Close()\n","			x.f.Close()\n			x.b.Flush()\n")),
(P,"flush only big",C("			x.b.Flush()\n","			if x.b.Buffered() > 16 {\n				x.b.Flush()\n			}\n")),
(P,"put first",C("			x.b.Flush()\n			x.f.Close()\n			outpool.Put(x)\n","			outpool.Put(x)\n			x.b.Flush()\n			x.f.Close()\n")),
(P,"not closed",C("			x.f.Close()\n","")),
(P,"flush error returns",C("			x.b.Flush()\n","			if err := x.b.Flush(); err != nil {\n				log.Println(err)\n				break\n			}\n")),
(P,"flush error skips close",C("			x.b.Flush()\n","			if err := x.b.Flush(); err != nil {\n				log.Println(err)\n				continue\n			}\n")),
(P,"cleanup not sent if no rows",[(G,"		if ox != nil {\n			cleanup <- ox","		if ox != nil && ps.NumRows > 0 {\n			cleanup <- ox")]),
(P,"cleanup sent early",[(G,"			w = ox.b\n","			w = ox.b\n			cleanup <- ox\n"),(G,"		if ox != nil {\n			cleanup <- ox\n		}\n","")]),
(P,"cleanup sent twice",[(G,"		if ox != nil {\n			cleanup <- ox\n","		if ox != nil {\n			cleanup <- ox\n			if ps.NumRows == 0 {\n				cleanup <- ox\n			}\n")]),
(P,"writer reused",[(G,"			ox.b = bufio.NewWriter(f)\n","			if ox.b == nil {\n				ox.b = bufio.NewWriter(f)\n			}\n")]),
(P,"file of pool",[(G,"			ox.f = f\n","			if ox.f == nil {\n				ox.f = f\n			}\n")]),
(P,"global writer",[(G,"			w = ox.b\n","			w = ox.b\n			last = ox\n"),(G,"type output struct {","var last *output\n\ntype output struct {")]),
(P,"newline after hand over",[(G,"			cleanup <- ox\n","			cleanup <- ox\n			ox.b.WriteString(\"\\n\")\n")]),
(P,"fatal in file",[(G,"			f, err := os.Create(subdir + \"/\" + fn2 + \".\" + s2 + \".tsv\")\n			if err != nil {\n				return nil, err\n","			f, err := os.Create(subdir + \"/\" + fn2 + \".\" + s2 + \".tsv\")\n			if err != nil {\n				log.Fatal(err)\n")]),
(P,"every other worker",T("		go runP","		if i%2 == 0 {\n			continue\n		}\n		go runP")),
# refactorings
(P,"ok add one by one",T("	procWG.Add(nparallel)\n	for i := 0; i < nparallel; i++ {\n","	for i := 0; i < nparallel; i++ {\n		procWG.Add(1)\n")),
(P,"ok defer done",W("	procWG.Done()\n","").copy() and [(G,worker,worker.replace("	}\n	procWG.Done()\n","	}\n")),(G,"	for fn := range from {\n","	defer procWG.Done()\n	for fn := range from {\n")]),
(P,"ok helper report",[(G,worker,"""		report(mu, fn, nowFmt, results, err)
	}
	procWG.Done()
}

func report(mu *sync.Mutex, fn, nowFmt string, results []stats, err error) {
	mu.Lock()
	defer mu.Unlock()
	if err != nil {
		// returned errors are fatal
		fmt.Fprintf(fstats, "%s\\t%s\\t-\\t-\\t-\\t%s\\n", nowFmt, fn, err)
		return
	}
	for i := range results {
		reportSheet(nowFmt, &results[i])
	}
}

func reportSheet(nowFmt string, res *stats) {
	e := "-"
	if res.Err != nil {
		e = res.Err.Error()
	}
	fmt.Fprintf(fstats, "%s\\t%s\\t%s\\t%d\\t%d\\t%s\\n", nowFmt, res.Filename, res.SheetName, res.NumRows, res.NumCols, e)
}
""")]),
(P,"ok indexed args",T("	for _, fn := range flag.Args() {\n		filenameChan <- fn\n","	for i := 0; i < flag.NArg(); i++ {\n		filenameChan <- flag.Arg(i)\n")),
(P,"ok at least one",T("(runtime.NumCPU() + 1) / 2","runtime.NumCPU() / 2\n	if nparallel < 1 {\n		nparallel = 1\n	}")),
(P,"ok cleaner function",[(G,"	go func() {\n"+clean+"	}()\n","	go closeOutputs(done)\n"),(G,"func runProcessor(","func closeOutputs(done chan<- int) {\n"+clean.replace("			x.b.Flush()\n			x.f.Close()\n","			x.finish()\n")+"}\n\nfunc (x *output) finish() {\n	x.b.Flush()\n	x.f.Close()\n}\n\nfunc runProcessor(")]),
(P,"ok done closed",C("		done <- 1\n","		close(done)\n")),
(P,"ok open helper",[(G,"""			f, err := os.Create(subdir + "/" + fn2 + "." + s2 + ".tsv")
			if err != nil {
				return nil, err
			}
			ox = outpool.Get().(*output)
			ox.f = f
			ox.b = bufio.NewWriter(f)
			w = ox.b
""","""			ox, err = newOutput(subdir + "/" + fn2 + "." + s2 + ".tsv")
			if err != nil {
				return nil, err
			}
			w = ox.b
"""),(G,"func runProcessor(","""func newOutput(name string) (*output, error) {
	f, err := os.Create(name)
	if err != nil {
		return nil, err
	}
	ox := outpool.Get().(*output)
	ox.f, ox.b = f, bufio.NewWriter(f)
	return ox, nil
}

func runProcessor(""")]),
(P,"ok loop with ok",[(G,"	for fn := range from {\n","	for {\n		fn, ok := <-from\n		if !ok {\n			break\n		}\n")]),
(P,"ok start helper",T("""	procWG.Add(nparallel)
	for i := 0; i < nparallel; i++ {
		go runProcessor(filenameChan, outMu)
	}
""","	startProcessors(nparallel, filenameChan, outMu)\n")+[(G,"func runProcessor(","""func startProcessors(n int, names chan string, mu *sync.Mutex) {
	procWG.Add(n)
	for i := n; i > 0; i-- {
		go runProcessor(names, mu)
	}
}

func runProcessor(""")]),
]

package main

import (
	"bytes"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	id := flag.String("property", "", "property to decide")
	repo := flag.String("repo", "/repo", "source to analyse")
	verif := flag.String("verif", "/verif", "where the evidence goes")
	list := flag.Bool("list", false, "list the checks")
	dump := flag.String("run", "", "analyse the named function (debugging)")
	flag.Parse()
	if *list {
		sort.Slice(checks, func(i, j int) bool { return checks[i].ID < checks[j].ID })
		for _, c := range checks {
			fmt.Printf("%s\t%s\t%s\n", c.ID, c.Technique, c.Rule)
		}
		return
	}
	if *dump != "" {
		debugRun(*repo, *dump)
		return
	}
	if *id == "all" { // development
		os.Exit(runAll(*repo, *verif))
	}
	for _, c := range checks {
		if c.ID != *id {
			continue
		}
		begin := time.Now()
		p, err := Load(*repo)
		r := newReport(c.ID, p)
		r.Thorough = os.Getenv("VERIF_TIER") == "thorough"
		if err == nil {
			r.run(c)
		}
		os.Exit(r.finish(c, *verif, begin, err))
	}
	fmt.Fprintln(os.Stderr, "no check for", *id)
	os.Exit(2)
}

// runAll runs every check in a process of its own, as they run when they are
// registered.
func runAll(repo, verif string) int {
	sort.Slice(checks, func(i, j int) bool { return checks[i].ID < checks[j].ID })
	out := make([]chan []byte, len(checks))
	slots := make(chan bool, 6)
	st := 0
	for i, c := range checks {
		out[i] = make(chan []byte, 1)
		go func(c *Check, to chan []byte) {
			slots <- true
			begin := time.Now()
			b, err := exec.Command(os.Args[0], "-property", c.ID, "-repo", repo, "-verif", verif).CombinedOutput()
			if err != nil {
				b = append(b, fmt.Sprintf("   FAILED %v\n", err)...)
			}
			to <- append(b, fmt.Sprintf("   (%.1fs)\n", time.Since(begin).Seconds())...)
			<-slots
		}(c, out[i])
	}
	for i := range checks {
		b := <-out[i]
		if bytes.Contains(b, []byte("FAILED")) {
			st = 1
		}
		os.Stdout.Write(b)
	}
	return st
}

// run keeps a failure of the analysis from passing silently.
func (r *Report) run(c *Check) {
	defer func() {
		if os.Getenv("CK_PANIC") != "" {
			return
		}
		if e := recover(); e != nil {
			r.bad("undecided", "analysis", "?", fmt.Sprint("the analysis failed: ", e))
		}
	}()
	c.Run(r)
}

func debugRun(repo, name string) {
	p, err := Load(repo)
	if err != nil {
		panic(err)
	}
	for _, f := range p.Funcs {
		if shortName(f) != name {
			continue
		}
		t := time.Now()
		x := NewExec(p, Hooks{})
		n := 0
		x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
			n++
			if n < 30 {
				fmt.Print("  ret ", x.P.InstrPos(at))
				for _, r := range res {
					fmt.Print(" ", r, " nil:", s.nilness(r))
				}
				fmt.Println()
			}
		}
		x.Max = 100000
		x.Run(x.Start(f))
		fmt.Println(name, "paths", x.Paths, "steps", x.steps, "over", x.Over, "seen", len(x.seen), "terms", nterms, time.Since(t))
		for _, l := range x.Profile(12) {
			fmt.Println("   ", l)
		}
	}
}

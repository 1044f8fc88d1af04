package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check decides one property.
type Check struct {
	ID        string
	Technique string
	Rule      string // what is decided, for the evidence
	Run       func(r *Report)
}

var checks []*Check

func register(id, technique, rule string, run func(*Report)) {
	checks = append(checks, &Check{id, technique, rule, run})
}

// Violation of a rule at a construct of the source.
type Violation struct {
	Rule, Construct, Pos, Msg string
	Path                      []string
}

func (v *Violation) key() string { return v.Rule + " @ " + v.Construct }

// Report collects what a check analysed and found.
type Report struct {
	ID       string
	P        *Prog
	Thorough bool
	obligs   map[string]map[string]string // rule -> construct -> position
	evals    map[string]int               // rule -> evaluations
	viols    map[string]*Violation
	funcs    map[string]bool
	runs     []string
	notes    []string
	steps    int
	paths    int
	joined   int
	blocks   map[*ssa.BasicBlock]bool
	after    []func() // run when the analysis is complete
}

func newReport(id string, p *Prog) *Report {
	return &Report{ID: id, P: p, obligs: map[string]map[string]string{}, evals: map[string]int{}, viols: map[string]*Violation{},
		funcs: map[string]bool{}, blocks: map[*ssa.BasicBlock]bool{}}
}

// ok records an obligation which was examined.
func (r *Report) ok(rule, construct, pos string) {
	m := r.obligs[rule]
	if m == nil {
		m = map[string]string{}
		r.obligs[rule] = m
	}
	if _, had := m[construct]; !had {
		m[construct] = pos
	}
	r.evals[rule]++
}

// bad records a violation.
func (r *Report) bad(rule, construct, pos, msg string, path ...string) {
	r.ok(rule, construct, pos)
	v := &Violation{rule, construct, pos, msg, path}
	if _, had := r.viols[v.key()]; !had {
		r.viols[v.key()] = v
	}
}

// expect says that a rule must have been applied to at least n constructs:
// a check whose anchors vanished decides nothing.
func (r *Report) expect(rule string, n int) {
	if len(r.obligs[rule]) < n {
		r.bad("anchor", rule, "?", fmt.Sprintf("rule %q applies to %d constructs, at least %d expected: the analysed construct is gone", rule, len(r.obligs[rule]), n))
	}
}

func (r *Report) fn(f *ssa.Function) { r.funcs[shortName(f)] = true }

func (r *Report) note(f string, a ...interface{}) { r.notes = append(r.notes, fmt.Sprintf(f, a...)) }

// need resolves an anchor or reports its absence.
func (r *Report) need(what string, f *ssa.Function) bool {
	if f == nil || len(f.Blocks) == 0 {
		r.bad("anchor", what, "?", "not found in the source")
		return false
	}
	r.fn(f)
	return true
}

// analyse runs the path sensitive analysis on a function. setup is called
// again with a coarser analysis if the precise one gets too large; only the
// findings of the completed analysis count.
func (r *Report) analyse(label string, fn *ssa.Function, setup func(x *Exec, t *Report) *State) *Exec {
	type cfg struct{ join, max int }
	cfgs := []cfg{{30, 400000}, {6, 600000}, {1, 2000000}}
	if r.Thorough {
		cfgs = []cfg{{60, 1500000}, {30, 800000}, {6, 800000}, {1, 3000000}}
	}
	for i, c := range cfgs {
		t := newReport(r.ID, r.P)
		t.Thorough = r.Thorough
		x := NewExec(r.P, Hooks{})
		x.JoinAt, x.Max = c.join, c.max
		s := setup(x, t)
		if s == nil {
			return x
		}
		if os.Getenv("CK_PROFILE") != "" {
			x.visits = map[*ssa.BasicBlock]int{}
		}
		begin := time.Now()
		x.Run(s)
		if os.Getenv("CK_PROFILE") != "" {
			fmt.Println(label, "join", c.join, "steps", x.steps, "over", x.Over, time.Since(begin))
			for _, l := range x.Profile(10) {
				fmt.Println("   ", l)
			}
		}
		if x.Over && i < len(cfgs)-1 {
			continue
		}
		if x.Over {
			r.bad("undecided", label, r.P.Pos(fn.Pos()), "the analysis did not reach a fixed point within its budget")
		}
		for _, f := range t.after {
			f()
		}
		r.merge(t)
		for f := range x.Funcs {
			r.fn(f)
		}
		for b := range x.Visited {
			r.blocks[b] = true
		}
		r.steps += x.steps
		r.paths += x.Paths
		r.joined += x.Joined
		r.runs = append(r.runs, fmt.Sprintf("%s: %d functions, %d blocks, %d abstract paths, %d steps, %d joins", label, len(x.Funcs), len(x.Visited), x.Paths, x.steps, x.Joined))
		return x
	}
	return nil
}

func (r *Report) merge(t *Report) {
	for rule, m := range t.obligs {
		for c, p := range m {
			if r.obligs[rule] == nil {
				r.obligs[rule] = map[string]string{}
			}
			if _, had := r.obligs[rule][c]; !had {
				r.obligs[rule][c] = p
			}
		}
		r.evals[rule] += t.evals[rule]
	}
	for k, v := range t.viols {
		if _, had := r.viols[k]; !had {
			r.viols[k] = v
		}
	}
	for f := range t.funcs {
		r.funcs[f] = true
	}
	r.notes = append(r.notes, t.notes...)
}

// known findings: lines "finding: property=<id> key=<rule @ construct> | description"
func knownFindings(file, id string) (map[string]string, error) {
	res := map[string]string{}
	f, err := os.Open(file)
	if err != nil {
		if os.IsNotExist(err) {
			return res, nil
		}
		return nil, err
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		pre := "finding: property=" + id + " key="
		if !strings.HasPrefix(l, pre) {
			continue
		}
		parts := strings.SplitN(l[len(pre):], " | ", 2)
		d := ""
		if len(parts) > 1 {
			d = parts[1]
		}
		res[strings.TrimSpace(parts[0])] = d
	}
	return res, sc.Err()
}

// finish prints the verdict, writes the evidence and returns the exit status.
func (r *Report) finish(c *Check, verif string, begin time.Time, loadErr error) int {
	tier := "quick"
	if r.Thorough {
		tier = "thorough"
	}
	if loadErr != nil {
		r.bad("load", "repository", "?", loadErr.Error())
	}
	known, err := knownFindings(filepath.Join(verif, "known-findings.txt"), r.ID)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	var keys []string
	for k := range r.viols {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var report []string
	nviol := 0
	for _, k := range keys {
		v := r.viols[k]
		if d, ok := known[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s: %s)\n", r.ID, d, v.Pos, v.Msg)
			continue
		}
		nviol++
		report = append(report, fmt.Sprintf("%s: rule %q, construct %q: %s", v.Pos, v.Rule, v.Construct, v.Msg))
		for _, l := range v.Path {
			report = append(report, "    path: "+l)
		}
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0755)
	rules := map[string]interface{}{}
	total, evals := 0, 0
	for rule, m := range r.obligs {
		var cs []string
		for c, p := range m {
			cs = append(cs, p+" "+c)
		}
		sort.Strings(cs)
		n := len(cs)
		total += n
		evals += r.evals[rule]
		if len(cs) > 25 {
			cs = append(cs[:25], fmt.Sprintf("... and %d more", n-25))
		}
		rules[rule] = map[string]interface{}{"constructs": n, "evaluations": r.evals[rule], "list": cs}
	}
	var funcs []string
	for f := range r.funcs {
		funcs = append(funcs, f)
	}
	sort.Strings(funcs)
	if len(funcs) > 80 {
		funcs = append(funcs[:80], fmt.Sprintf("... and %d more", len(r.funcs)-80))
	}
	cov := map[string]interface{}{
		"explanation":        "Static analysis of the type-checked source and its SSA form, nothing is executed. " + c.Rule,
		"technique":          c.Technique,
		"rules":              rules,
		"constructs":         total,
		"evaluations":        evals,
		"functions_analysed": funcs,
		"abstract_paths":     r.paths,
		"blocks_visited":     len(r.blocks),
		"transfer_steps":     r.steps,
		"runs":               r.runs,
	}
	if len(r.notes) > 0 {
		cov["notes"] = r.notes
	}
	ev := map[string]interface{}{
		"property": r.ID, "tier": tier, "seed": seed(), "level": "other", "coverage": cov,
		"wall_s": time.Since(begin).Seconds(), "violations": nviol,
		"assumptions": []string{
			"functions outside of the repository behave as documented and do not panic on valid arguments",
			"reflection and unsafe are not used to reach the analysed data (the repository uses neither)",
		},
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, r.ID+".json"), append(data, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	if nviol == 0 {
		fmt.Printf("%s: held on %d constructs (%d evaluations) under %d rules\n", r.ID, total, evals, len(r.obligs))
		return 0
	}
	rp := filepath.Join(evdir, r.ID+".violation.txt")
	os.WriteFile(rp, []byte(strings.Join(report, "\n")+"\n"), 0644)
	for _, l := range report {
		fmt.Println(l)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, rp)
	return 1
}

func seed() int {
	n := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}

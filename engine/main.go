package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// OblOut is one obligation in the report.
type OblOut struct {
	Harness string  `json:"harness"`
	Kind    string  `json:"kind"`
	Name    string  `json:"name"`
	Props   string  `json:"props,omitempty"`
	Pos     string  `json:"pos"`
	Fn      string  `json:"function"`
	Status  string  `json:"status"`
	Solver  string  `json:"solver,omitempty"`
	Secs    float64 `json:"seconds"`
	Detail  string  `json:"detail,omitempty"`
}

// HarOut is the report of one harness.
type HarOut struct {
	Name      string         `json:"name"`
	PkgDir    string         `json:"pkgdir"`
	Primary   bool           `json:"primary"`
	NoNative  bool           `json:"nonative,omitempty"`
	Obls      int            `json:"obligations"`
	Proved    int            `json:"discharged"`
	Covers    int            `json:"covers"`
	BySolver  map[string]int `json:"by_solver"`
	Secs      float64        `json:"seconds"`
	Failed    []OblOut       `json:"failed,omitempty"`
	Other     []OblOut       `json:"failed_other_properties,omitempty"`
	Functions []string       `json:"functions"`
	Contracts []string       `json:"contracts_used"`
	Trusted   []string       `json:"trusted"`
	Notes     []string       `json:"notes"`
}

// Report is the result of one run.
type Report struct {
	Prop     string    `json:"property"`
	Harness  []*HarOut `json:"harnesses"`
	LoadErr  string    `json:"load_error,omitempty"`
	Warn     []string  `json:"warnings,omitempty"`
	Solver   float64   `json:"solver_seconds"`
	Queries  int64     `json:"solver_queries"`
	LoadSecs float64   `json:"load_seconds"`
	Secs     float64   `json:"seconds"`
}

var (
	fProp    = flag.String("prop", "", "property to decide")
	fHar     = flag.String("harness", "", "only harnesses matching this expression")
	fOut     = flag.String("out", "", "report file")
	fAll     = flag.Bool("all", false, "cross-check every proof with the other solvers")
	fTo      = flag.Int("timeout", 60, "seconds per obligation")
	fVerbose = flag.Bool("v", false, "print every obligation")
	fList    = flag.Bool("list", false, "list harnesses")
	fNoTrans = flag.Bool("notrans", false, "do not discharge the contracts of callees")
	fBind    = flag.String("bind", "", "directory for the generated binding files")
	fBudget  = flag.Int("budget", 780, "seconds for the whole run")
)

func main() {
	flag.StringVar(&repoRoot, "repo", "/repo", "repository")
	flag.StringVar(&specRoot, "specs", "/verif/specs", "specifications")
	flag.Parse()
	debug.SetGCPercent(400)
	t0 := time.Now()
	rep := &Report{Prop: *fProp}
	finish := func(code int) {
		rep.Secs = time.Since(t0).Seconds()
		rep.Solver = time.Duration(atomic.LoadInt64(&solverTime)).Seconds()
		rep.Queries = atomic.LoadInt64(&solverQueries)
		if *fOut != "" {
			b, _ := json.MarshalIndent(rep, "", " ")
			os.WriteFile(*fOut, b, 0644)
		}
		os.Exit(code)
	}
	dirs := dirsFor(*fProp)
	prog, sp, err := loadSpecs(dirs)
	rep.LoadSecs = time.Since(t0).Seconds()
	if err != nil {
		rep.LoadErr = err.Error()
		fmt.Println("LOAD", err)
		finish(1)
	}
	rep.Warn = sp.warn
	if *fList {
		for _, h := range sp.harness {
			fmt.Println(h.name, h.props, h.discharges)
		}
		return
	}
	var re *regexp.Regexp
	if *fHar != "" {
		re = regexp.MustCompile(*fHar)
	}
	type job struct {
		h       *Harness
		primary bool
	}
	var jobs []job
	queued := map[*Harness]bool{}
	for _, h := range sp.harness {
		if re != nil && !re.MatchString(h.name) {
			continue
		}
		if *fProp != "" && !hasStr(h.props, *fProp) {
			continue
		}
		jobs = append(jobs, job{h, true})
		queued[h] = true
	}
	bad := false
	for i := 0; i < len(jobs); i++ {
		j := jobs[i]
		if time.Since(t0) > time.Duration(*fBudget)*time.Second {
			rep.Harness = append(rep.Harness, &HarOut{Name: j.h.name, PkgDir: j.h.pkgDir, Primary: j.primary, Obls: 1, Failed: []OblOut{{Harness: j.h.name, Kind: "budget", Name: "time budget", Status: "not reached"}}})
			bad = true
			continue
		}
		prop := *fProp
		if !j.primary {
			prop = ""
		}
		h := runHarness(prog, sp, j.h, prop)
		h.Primary = j.primary
		rep.Harness = append(rep.Harness, h)
		if len(h.Failed) > 0 {
			bad = true
		}
		fmt.Printf("%-40s %4d obligations %4d discharged %d covers %6.1fs %v\n", h.Name, h.Obls, h.Proved, h.Covers, h.Secs, h.BySolver)
		for _, f := range h.Failed {
			fmt.Printf("   FAILED %s %s [%s] at %s in %s: %s %s (%.1fs)\n", f.Kind, f.Name, f.Props, f.Pos, f.Fn, f.Status, f.Detail, f.Secs)
		}
		for _, f := range h.Other {
			fmt.Printf("   failed for another property: %s %s [%s] at %s\n", f.Kind, f.Name, f.Props, f.Pos)
		}
		if *fNoTrans {
			continue
		}
		for _, c := range h.Contracts {
			for _, g := range sp.harness {
				if !queued[g] && hasStr(g.discharges, c) {
					queued[g] = true
					jobs = append(jobs, job{g, false})
				}
			}
		}
	}
	fmt.Printf("load %.1fs total %.1fs solver %.1fs queries %d\n", rep.LoadSecs, time.Since(t0).Seconds(), time.Duration(atomic.LoadInt64(&solverTime)).Seconds(), solverQueries)
	if bad {
		finish(1)
	}
	finish(0)
}

func hasStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// dirsFor finds the specification directories with harnesses of a property.
func dirsFor(prop string) []string {
	need := map[string]bool{}
	for _, sd := range specDirs {
		fs, _ := filepath.Glob(filepath.Join(specRoot, sd[0], "*.go"))
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "//@ harness") && (prop == "" || strings.Contains(l, prop)) {
					need[sd[0]] = true
				}
			}
		}
	}
	if need["server"] || need["gen"] {
		need["egts"] = true
	}
	if need["server"] {
		need["storage"] = true
	}
	var r []string
	for _, sd := range specDirs {
		if need[sd[0]] {
			r = append(r, sd[0])
		}
	}
	return r
}

func resolve(sp *Specs, h *Harness, name string) *ssa.Function {
	pk := h.fn.Pkg.Pkg.Name()
	if f := sp.byKey[pk+"."+name]; f != nil {
		return f
	}
	return sp.byKey[name]
}

func runHarness(prog *ssa.Program, sp *Specs, h *Harness, prop string) *HarOut {
	t0 := time.Now()
	out := &HarOut{Name: h.name, PkgDir: h.pkgDir, NoNative: h.noNative, BySolver: map[string]int{}}
	x := NewExec(prog, sp)
	x.harness = h.fn
	x.props = h.props
	x.safeProp = h.props
	for _, n := range h.reveal {
		if f := resolve(sp, h, n); f != nil {
			x.reveal[f] = true
		} else {
			x.note("nothing to reveal: %s", n)
		}
	}
	for _, n := range h.inline {
		if f := resolve(sp, h, n); f != nil {
			x.inline[f] = true
		} else {
			x.note("nothing to inline: %s", n)
		}
	}
	fail := func(kind, name, detail string) {
		out.Failed = append(out.Failed, OblOut{Harness: h.name, Kind: kind, Name: name, Status: "failed", Detail: detail})
		out.Obls++
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(Unsupported); ok {
					fail("unsupported", "the function stays within the verified subset", fmt.Sprintf("%v near %s (in %v)", u, x.posStr(x.curPos), stackStr(x)))
					return
				}
				if os.Getenv("VPANIC") != "" {
					panic(r)
				}
				fail("unsupported", "the function stays within the verified subset", fmt.Sprintf("engine: %v near %s\n%s", r, x.posStr(x.curPos), trimStack(string(debug.Stack()))))
			}
		}()
		x.callBody(x.newState(), h.fn, nil, nil)
	}()
	symT := time.Since(t0)
	type q struct {
		o  *Oblig
		sc string
	}
	relevant := func(o *Oblig) bool {
		return prop == "" || len(o.props) == 0 || hasStr(o.props, prop)
	}
	var qs []q
	done := make(chan bool, len(x.obls)+1)
	n := 0
	scripts := map[string]*Oblig{}
	dup := map[*Oblig]*Oblig{}
	for _, o := range x.obls {
		if !relevant(o) && !*fVerbose {
			continue
		}
		g := o.goal
		if o.cover {
			g = False
		}
		as, triv := prepGoal(o.pc, g, false)
		if triv {
			o.res = SolverResult{Status: "unsat", Solver: "simplifier"}
			continue
		}
		sc := mkScript(as)
		if p := scripts[sc]; p != nil {
			dup[o] = p
			continue
		}
		scripts[sc] = o
		qs = append(qs, q{o, sc})
		n++
		go func(o *Oblig, sc string) {
			o.res = discharge(sc, o.cover)
			done <- true
		}(o, sc)
	}
	for ; n > 0; n-- {
		<-done
	}
	for _, k := range qs {
		if k.o.cover || k.o.res.Status == "unsat" {
			continue
		}
		if proveSplit(k.o.pc, k.o.goal, 4, 15*time.Second) {
			k.o.res.Status, k.o.res.Solver = "unsat", "z3-new-cases"
		}
	}
	for o, p := range dup {
		o.res = p.res
	}
	covers := 0
	reached := map[string]bool{}
	for _, o := range x.obls {
		if o.cover && (relevant(o) || *fVerbose) && o.res.Status != "unsat" {
			reached[o.name] = true
		}
	}
	seenFail := map[string]bool{}
	for _, o := range x.obls {
		if !relevant(o) && !*fVerbose {
			continue
		}
		if o.cover {
			covers++
			if o.res.Status == "unsat" && !reached[o.name] {
				fail("vacuity", o.name, "the point is not reachable under the preconditions")
			}
			out.Covers++
			continue
		}
		out.Obls++
		if *fVerbose {
			fmt.Printf("     %-10s %-8s %5.1fs %s %s [%s] %s %s\n", o.res.Status, o.res.Solver, o.res.Time.Seconds(), o.kind, o.name, strings.Join(o.props, ","), o.pos, o.fn)
		}
		if o.res.Status == "unsat" {
			out.Proved++
			out.BySolver[o.res.Solver]++
			continue
		}
		f := OblOut{Harness: h.name, Kind: o.kind, Name: o.name, Props: strings.Join(o.props, ","), Pos: o.pos, Fn: o.fn, Status: o.res.Status, Solver: o.res.Solver, Secs: o.res.Time.Seconds(), Detail: strings.TrimSpace(o.res.Out)}
		if os.Getenv("VGOAL") != "" {
			fmt.Printf("GOAL %s: %v\n", o.name, o.goal)
			for _, t := range o.pc {
				fmt.Printf("   PC %v\n", t)
			}
		}
		k := f.Kind + f.Name + f.Pos
		if seenFail[k] {
			continue
		}
		seenFail[k] = true
		if relevant(o) {
			out.Failed = append(out.Failed, f)
		} else {
			out.Other = append(out.Other, f)
		}
	}
	if len(x.obls) == 0 {
		fail("vacuity", "the harness generates obligations", "no obligations")
	}
	if covers == 0 && len(out.Failed) == 0 {
		fail("vacuity", "the harness has a reachability check", "none")
	}
	for k := range x.used {
		out.Functions = append(out.Functions, strings.ReplaceAll(k, "github.com/kuznetsovin/egts-protocol/", ""))
	}
	for k := range x.usedCon {
		out.Contracts = append(out.Contracts, strings.ReplaceAll(k, "github.com/kuznetsovin/egts-protocol/", ""))
	}
	out.Trusted = sortedKeys(x.trusted)
	sort.Strings(out.Functions)
	sort.Strings(out.Contracts)
	out.Notes = x.notes
	out.Secs = time.Since(t0).Seconds()
	if *fVerbose {
		fmt.Printf("     symbolic execution %.1fs, %d candidate queries\n", symT.Seconds(), x.houdiniQ)
	}
	return out
}

func stackStr(x *Exec) []string {
	var r []string
	for _, f := range x.stack {
		r = append(r, f.Name())
	}
	return r
}

func trimStack(s string) string {
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// discharge runs the solvers on one obligation.
func discharge(sc string, cover bool) SolverResult {
	t0 := time.Now()
	to := time.Duration(*fTo) * time.Second
	if cover {
		to = 10 * time.Second
	}
	order := []struct {
		s string
		d time.Duration
	}{{"z3-new", to / 20}, {"z3-new-int", to / 10}, {"z3-new", to / 4}, {"cvc5-int", to / 6}, {"cvc5", to / 2}, {"z3", to / 2}, {"z3-new", to}}
	last := SolverResult{Status: "unknown"}
	for i, a := range order {
		if cover && i > 0 {
			break
		}
		st := runScript(a.s, sc, a.d)
		last = SolverResult{Status: st, Solver: a.s, Time: time.Since(t0), Out: st}
		if st == "unsat" || st == "sat" {
			break
		}
		last.Status = "unknown"
	}
	if *fAll && !cover && last.Status == "unsat" && last.Solver != "cvc5" {
		if st := runScript("cvc5", sc, to); st == "unsat" {
			last.Solver += "+cvc5"
		} else if st == "sat" {
			last.Out += " (cvc5: sat)"
			last.Status = "solvers disagree"
		}
	}
	return last
}

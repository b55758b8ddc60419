package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() { os.Exit(run()) }

func run() int {
	prop := flag.String("prop", "", "property id (or all)")
	only := flag.String("only", "", "development: verify only contracts whose id contains this")
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	tier := flag.String("tier", "", "")
	jobs := flag.Int("j", 8, "")
	verbose := flag.Bool("v", false, "")
	conc := flag.Int("concrete", -1, "development: only run the concrete drivers for this many seconds")
	replay := flag.String("replay", "", "replay a recorded violation")
	evdir := flag.String("evidence", "", "")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	if *evdir == "" {
		*evdir = filepath.Join(*verif, "evidence")
	}
	t0 := time.Now()
	tmp, err := os.MkdirTemp("", "gocv")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	log := func(f string, a ...any) { fmt.Fprintf(os.Stderr, f+"\n", a...) }
	rels := contractRels(*verif)
	p, err := LoadProgram(*repo, *verif, tmp, rels)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gocv:", err)
		return 2
	}
	loadT := time.Since(t0)
	log("loaded %d contracts in %s", len(p.contracts), loadT.Round(time.Millisecond))
	for _, d := range p.dropped {
		log("dropped: %s", d.msg)
	}
	thorough := *tier == "thorough"

	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			log("%v", err)
			return 2
		}
		var rep Report
		json.Unmarshal(b, &rep)
		if rep.Witness == nil {
			fmt.Println("no concrete input recorded; failed obligations:")
			for _, f := range rep.Failed {
				fmt.Println(" ", f.Name, f.Pos)
			}
			return 0
		}
		c := &Concrete{repo: *repo, verif: *verif, tmp: tmp, prop: rep.Property, secs: 60, replay: rep.Witness}
		w, _ := c.Run(p, log)
		if w != nil {
			fmt.Printf("reproduced: %s\ninput: %s\n", w.Failure, w.Input)
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	}
	var roots []*Contract
	variants := ""
	if i := strings.Index(*only, "["); i >= 0 {
		variants = strings.Trim((*only)[i:], "[]")
		*only = (*only)[:i]
	}
	for _, c := range p.contracts {
		if *only != "" {
			if strings.Contains(c.ID(), *only) {
				roots = append(roots, c)
			}
		} else if *prop == "all" || hasProp(c, *prop) {
			roots = append(roots, c)
		}
	}
	if *conc >= 0 {
		c := &Concrete{repo: *repo, verif: *verif, tmp: tmp, prop: *prop, secs: *conc, seed: seed}
		for _, r := range roots {
			c.names = append(c.names, r.ID())
		}
		w, st := c.Run(p, log)
		for _, k := range sortedKeys(st.Runs) {
			fmt.Printf("%s: %d runs, %d skipped\n", k, st.Runs[k], st.Skipped[k])
		}
		if w != nil {
			fmt.Printf("WITNESS %s\n%s\ninput: %s\n", w.Driver, w.Failure, w.Input)
			return 1
		}
		return 0
	}
	stats := NewSolverStats()
	loadHints(*verif)
	if os.Getenv("GOCV_RECORD") != "" {
		defer saveHints(*verif)
	}
	if *only != "" || *prop == "all" {
		// development mode: no closure, no report
		var rs []*Result
		if *prop == "all" {
			rs = verifyAll(p, roots, stats, thorough, *jobs, log)
		} else {
			for _, c := range roots {
				for _, t := range p.tasksOf(c) {
					if variants != "" && (t.variant == nil || !strings.HasSuffix(shortType(t.variant), variants)) {
						continue
					}
					r := verifyOne(p, t.con, t.variant, stats, thorough)
					show(r, *verbose)
				}
			}
		}
		for _, r := range rs {
			show(r, *verbose)
		}
		fmt.Println("total", time.Since(t0).Round(time.Millisecond))
		return 0
	}
	return checkProperty(p, *prop, *tier, seed, *repo, *verif, *evdir, tmp, roots, stats, *jobs, t0, log)
}

// FailedObl is one obligation that was not discharged.
type FailedObl struct {
	Name   string `json:"name"`
	Pos    string `json:"pos"`
	Status string `json:"status"`
	Reason string `json:"reason"`
	Model  string `json:"model,omitempty"`
}

// Report is a replay file.
type Report struct {
	Property string      `json:"property"`
	Failed   []FailedObl `json:"failed_obligations"`
	Witness  *Witness    `json:"witness,omitempty"`
	How      string      `json:"how_to_replay"`
}

type knownFinding struct {
	prop, key, desc string
}

// readKnown reads known-findings.txt: "KNOWN-FINDING: property=P key=K | text".
func readKnown(verif string) []knownFinding {
	b, _ := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	var r []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "KNOWN-FINDING: property=") {
			continue
		}
		rest := strings.TrimPrefix(l, "KNOWN-FINDING: property=")
		id, rest, _ := strings.Cut(rest, " ")
		k, d, _ := strings.Cut(rest, " | ")
		r = append(r, knownFinding{id, strings.TrimPrefix(strings.TrimSpace(k), "key="), d})
	}
	return r
}

func checkProperty(p *Program, prop, tier string, seed int64, repo, verif, evdir, tmp string, roots []*Contract, stats *SolverStats, jobs int, t0 time.Time, log func(string, ...any)) int {
	thorough := tier == "thorough"
	expected := expectedContracts(verif, prop)
	results := verifyAll(p, roots, stats, thorough, jobs, log)
	known := readKnown(verif)
	var failed []FailedObl
	var failedCons []string
	nObl, nDis := 0, 0
	backends := map[string]int{}
	kinds := map[string]int{}
	var fns, covers []string
	trusted := map[string]bool{}
	inlined := map[string]bool{}
	loops := 0
	have := map[string]bool{}
	seenKnown := map[string]bool{}
	unreachable := 0
	coverOK := map[string]bool{}
	focus := map[string][]string{}
	for _, r := range results {
		have[r.Con.Fn.Name()] = true
		fns = append(fns, r.ID())
		loops += r.Loops
		for t := range r.Trusted {
			trusted[t] = true
		}
		for t := range r.Inlined {
			inlined[t] = true
		}
		bad := false
		for _, o := range r.Obls {
			nObl++
			kinds[o.Kind]++
			if o.Status == "discharged" {
				nDis++
				backends[o.Solver]++
				continue
			}
			isKnown := false
			for _, k := range known {
				if k.prop == prop && k.key == o.Name {
					isKnown = true
					seenKnown[k.key] = true
				}
			}
			if isKnown {
				nObl--
				continue
			}
			bad = true
			f := FailedObl{Name: o.Name, Pos: o.Pos, Status: o.Status, Reason: o.Reason}
			if o.Model != nil {
				f.Model = o.Model.String()
			}
			failed = append(failed, f)
		}
		if r.Err != "" {
			bad = true
			nObl++
			failed = append(failed, FailedObl{Name: r.ID() + "/verifiable", Status: "unknown", Reason: r.Err})
		}
		if r.Err == "" && len(r.Obls) == 0 {
			bad = true
			nObl++
			failed = append(failed, FailedObl{Name: r.ID() + "/nonvacuous", Status: "unknown", Reason: "no obligation was generated"})
		}
		for _, cv := range r.Covers {
			if !contains(covers, r.ID()+": "+cv.Name+": "+cv.Status) {
				covers = append(covers, r.ID()+": "+cv.Name+": "+cv.Status)
			}
			if cv.Status == "unreachable" {
				unreachable++
				if _, ok := coverOK[r.Con.ID()]; !ok {
					coverOK[r.Con.ID()] = false
				}
			} else {
				coverOK[r.Con.ID()] = true
			}
		}
		if bad {
			if !contains(failedCons, r.Con.ID()) {
				failedCons = append(failedCons, r.Con.ID())
			}
			if r.Variant != "" {
				v := r.Variant[strings.LastIndex(r.Variant, ".")+1:]
				if strings.HasPrefix(r.Variant, "*") {
					v = "*" + v
				}
				focus[r.Con.ID()] = append(focus[r.Con.ID()], v)
			}
		}
	}
	for id, ok := range coverOK {
		if !ok {
			nObl++
			failed = append(failed, FailedObl{Name: id + "/nonvacuous", Status: "unknown", Reason: "the precondition is unsatisfiable"})
			failedCons = append(failedCons, id)
		}
	}
	var standins, assumedCons []string
	var bnames []string
	for _, con := range roots {
		if len(con.BoundedT) > 0 {
			have[con.Fn.Name()] = true
			if contains(con.BoundedT, "*") {
				standins = append(standins, con.ID())
			} else {
				standins = append(standins, con.ID()+" ["+strings.Join(con.BoundedT, " ")+"]")
			}
			bnames = append(bnames, con.ID())
		}
		if con.Trusted {
			have[con.Fn.Name()] = true
		}
	}
	for _, e := range expected {
		if !have[e] {
			nObl++
			why := "its target no longer exists under that name or type"
			for _, d := range p.dropped {
				if d.fn == e || d.fn == "" {
					why = d.msg
				}
			}
			failed = append(failed, FailedObl{Name: "contract " + e + "/attached", Status: "unknown", Reason: why})
		}
	}
	checked := map[*Contract]bool{}
	for _, r := range results {
		checked[r.Con] = true
	}
	for _, r := range results {
		for u := range r.Used {
			why := ""
			switch {
			case u.Trusted:
				why = "never verified"
			case contains(u.BoundedT, "*"):
				why = "bounded check only"
			case u.Slow && !checked[u]:
				why = "discharged by the checks of " + strings.Join(u.Props, ", ")
			case len(u.BoundedT) > 0:
				why = "bounded check only for " + strings.Join(u.BoundedT, ", ")
			}
			if why != "" && !contains(assumedCons, u.ID()+": "+why) {
				assumedCons = append(assumedCons, u.ID()+": "+why)
			}
		}
	}
	sort.Strings(assumedCons)
	// concrete search
	secs := 0
	var witness *Witness
	var cst *concreteStats
	mode := ""
	if len(failed) > 0 {
		secs, mode = 100, "witness search after a failed obligation"
		if thorough {
			secs = 400
		}
	} else if thorough {
		secs, mode = 120, "executable contracts on random inputs (bounded cross-check, not counted as proof)"
	} else {
		secs, mode = 8, "executable contracts on random inputs (bounded cross-check, not counted as proof)"
	}
	c := &Concrete{repo: repo, verif: verif, tmp: tmp, prop: prop, secs: secs, seed: seed, focus: focus, shards: 3}
	if len(standins) > 0 {
		c.shards = 6
		if c.secs < 30 {
			c.secs = 30
		}
		secs = c.secs
	}
	all := append([]string{}, bnames...)
	for _, r := range results {
		if !contains(all, r.Con.ID()) {
			all = append(all, r.Con.ID())
		}
	}
	if len(failedCons) > 0 {
		c.names, c.wider = failedCons, all
	} else {
		c.names = nil
		for _, r := range roots {
			c.names = append(c.names, r.ID())
		}
		if len(c.names) == 0 {
			c.names = all
		}
	}
	if len(failed) > 0 {
		c.shards = 7
	}
	witness, cst = c.Run(p, log)
	if witness == nil && len(failed) == 0 {
		// a bounded check that did not run decides nothing
		for _, id := range bnames {
			n, why := int64(0), "no execution"
			if cst != nil {
				for k, v := range cst.Runs {
					if strings.HasSuffix(k, ":auto:"+id) {
						n += v
					}
				}
				if cst.Log != "" {
					why = trunc(cst.Log, 500)
				}
			}
			if n == 0 {
				nObl++
				failed = append(failed, FailedObl{Name: "contract " + id + "/bounded check ran", Status: "unknown", Reason: why})
			}
		}
	}
	knownHits := 0
	for _, k := range known {
		if k.prop == prop {
			if k.key == "" || seenKnown[k.key] || strings.HasPrefix(k.key, "input:") {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.desc)
				knownHits++
			}
		}
	}
	viol := 0
	if len(failed) > 0 || witness != nil {
		viol = 1
	}
	// report
	var fn, tb []string
	for k := range inlined {
		fn = append(fn, k)
	}
	sort.Strings(fn)
	for k := range trusted {
		tb = append(tb, k)
	}
	for _, a := range assumedCons {
		tb = append(tb, "contract "+a)
	}
	for _, b := range standins {
		tb = append(tb, "bounded, not proved: "+b)
	}
	tb = append(tb, standingAssumptions...)
	sort.Strings(tb)
	solverS := map[string]float64{}
	for k, v := range stats.Time {
		solverS[k] = float64(v.Milliseconds()) / 1000
	}
	runs := int64(0)
	var runsBy = map[string]int64{}
	if cst != nil {
		for k, v := range cst.Runs {
			runs += v
			runsBy[k] = v
		}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"coverage": map[string]any{
			"obligations": nObl, "discharged": nDis,
			"checker_cmd":              fmt.Sprintf("bash /verif/check.sh %s %s", prop, tier),
			"trusted_base":             tb,
			"functions_under_contract": fns,
			"functions_by_body":        fn,
			"obligations_by_kind":      kinds,
			"discharged_by_backend":    backends,
			"solver_seconds":           solverS,
			"solver_calls":             stats.Calls,
			"loops_with_invariant":     loops,
			"covers":                   covers,
			"undischarged":             failed,
			"assumed_contracts":        assumedCons,
			"bounded_standins":         standins,
			"bounded_cross_check":      map[string]any{"what": mode, "seconds": secs, "executions": runs, "by_driver": runsBy},
			"known_findings":           knownHits,
		},
		"assumptions": tb, "wall_s": time.Since(t0).Seconds(), "violations": viol,
	}
	os.MkdirAll(evdir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, prop+".json"), append(b, '\n'), 0o644); err != nil {
		log("evidence: %v", err)
		return 2
	}
	fmt.Printf("%s: %d contracts, %d obligations, %d discharged, %d concrete executions, %.1fs\n", prop, len(results), nObl, nDis, runs, time.Since(t0).Seconds())
	if viol == 0 {
		return 0
	}
	rp := filepath.Join(verif, "replays", prop+".json")
	os.MkdirAll(filepath.Dir(rp), 0o755)
	rep := Report{Property: prop, Failed: failed, Witness: witness, How: fmt.Sprintf("bash /verif/check.sh --replay %s", rp)}
	b, _ = json.MarshalIndent(rep, "", " ")
	os.WriteFile(rp, append(b, '\n'), 0o644)
	for i, f := range failed {
		if i >= 12 {
			fmt.Printf("  ... %d more\n", len(failed)-i)
			break
		}
		fmt.Printf("  failed obligation: %s (%s) %s %s\n", f.Name, f.Pos, f.Status, trunc(f.Reason, 200))
	}
	if witness != nil {
		fmt.Printf("  failing input (%s): %s\n  %s\n", witness.Driver, trunc(witness.Input, 1200), trunc(witness.Failure, 600))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
	}
	return 1
}

var standingAssumptions = []string{
	"machine integers are treated as mathematical integers (conversions to sized types wrap; + - * do not)",
	"floating point is treated as real arithmetic",
	"go/ssa (golang.org/x/tools) translates the compiled source faithfully",
	"the SMT solvers z3 5.3.2, cvc5 1.1.2 and z3 4.8.12 answer unsat only for unsatisfiable queries",
	"no other goroutine mutates the objects a function under contract works on",
	"memory is typed and field-disjoint: no unsafe aliasing; append is modelled as copying",
	"termination is not proved",
}

// expectedContracts lists the contract functions of a property from the text of
// the contract files, so that one that can no longer be attached is noticed.
func expectedContracts(verif, prop string) []string {
	var out []string
	for _, rel := range contractRels(verif) {
		ents, _ := os.ReadDir(filepath.Join(verif, "contracts", rel))
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			b, _ := os.ReadFile(filepath.Join(verif, "contracts", rel, e.Name()))
			con, in := false, false
			for _, l := range strings.Split(string(b), "\n") {
				switch {
				case strings.HasPrefix(l, "//cv:contract "):
					con = true
				case strings.HasPrefix(l, "//cv:props "):
					for _, w := range strings.Fields(strings.TrimPrefix(l, "//cv:props ")) {
						in = in || w == prop
					}
				case strings.HasPrefix(l, "func "):
					if con && in {
						n := strings.TrimPrefix(l, "func ")
						n = n[:strings.IndexAny(n, "([")]
						out = append(out, n)
					}
					con, in = false, false
				}
			}
		}
	}
	return out
}

func show(r *Result, verbose bool) {
	n := 0
	for _, o := range r.Obls {
		if o.Status == "discharged" {
			n++
		}
	}
	fmt.Printf("== %s: %d/%d discharged, %s\n", r.ID(), n, len(r.Obls), r.Wall.Round(time.Millisecond))
	if r.Err != "" {
		fmt.Printf("   ERROR: %s\n", r.Err)
	}
	for _, o := range r.Obls {
		if verbose || o.Status != "discharged" {
			fmt.Printf("   %-11s %s (%s) %s %dms %s\n", o.Status, o.Name, o.Pos, o.Solver, o.Millis, o.Reason)
			if o.Model != nil && debug {
				fmt.Println(o.Model)
			}
		}
	}
	for _, c := range r.Covers {
		if verbose || c.Status == "unreachable" {
			fmt.Printf("   cover %s: %s\n", c.Name, c.Status)
		}
	}
	if verbose {
		for t := range r.Trusted {
			fmt.Println("   trusted:", t)
		}
		for t := range r.Inlined {
			fmt.Println("   inlined:", t)
		}
		for t := range r.Used {
			fmt.Println("   uses:", t.ID())
		}
	}
}

func contains(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

package main

// driver.go: verifying one contract, and all contracts of a property.

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	rdebug "runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var debugDump = os.Getenv("GOCV_DUMP")

func dumpQuery(name, q string) {
	f := filepath.Join(os.TempDir(), "gocv-"+sanitize(name)+".smt2")
	os.WriteFile(f, []byte(q+"(check-sat)\n"), 0o644)
}

// Result of verifying one contract (one implementor variant).
type Result struct {
	Con     *Contract
	Variant string
	Obls    []*Obligation
	Covers  []*Cover
	Err     string // could not be verified
	Used    map[*Contract]bool
	Trusted map[string]bool
	Inlined map[string]bool
	Loops   int
	Wall    time.Duration
}

func (r *Result) ID() string {
	if r.Variant != "" {
		return r.Con.ID() + "[" + r.Variant + "]"
	}
	return r.Con.ID()
}

func NewExec(p *Program, con *Contract, st *SolverStats, thorough bool) *Exec {
	c := NewCtx()
	x := &Exec{c: c, lay: NewLayouts(c), prog: p, pool: NewSolverPool(st), con: con,
		objNamesMemo: map[types.Type][]string{}, heapSort: map[string]*Sort{}, heapReads: map[string]bool{},
		cellWrites: map[*Cell]bool{}, globals: map[*ssa.Global]*Cell{}, oblNames: map[string]int{},
		used: map[*Contract]bool{}, trusted: map[string]bool{}, inlined: map[string]bool{},
		feasCache: map[string]bool{}, unfolding: map[string]bool{}, dynTypes: map[string]bool{},
		recReads: map[*ssa.Function][]string{}, unfolded: map[string][]*Term{}, recMemo: map[*ssa.Function]*recInfo{},
		globMemo: map[*ssa.Global]globRes{}, houdiniMemo: map[string]map[string]bool{}, proveCache: map[string]bool{}, longTried: map[string]bool{}, symMemo: map[int]*symInfo{},
		thorough: thorough, noJoin: os.Getenv("GOCV_NOJOIN") != ""}
	x.top0 = c.Const("top0", SInt)
	secs := con.Secs
	if secs == 0 {
		secs = 240
	}
	if thorough {
		secs *= 2
	}
	x.deadline = time.Now().Add(time.Duration(secs) * time.Second)
	return x
}

func verifyOne(p *Program, con *Contract, variant types.Type, stats *SolverStats, thorough bool) *Result {
	r, again := verifyWith(p, con, variant, stats, thorough, os.Getenv("GOCV_RECORD") == "" && !thorough)
	if again && (r.Err != "" || r.open() > 0) {
		w := r.Wall
		r, _ = verifyWith(p, con, variant, stats, thorough, false)
		r.Wall += w
	}
	return r
}

func (r *Result) open() int {
	n := 0
	for _, o := range r.Obls {
		if o.Status != "discharged" {
			n++
		}
	}
	return n
}

func verifyWith(p *Program, con *Contract, variant types.Type, stats *SolverStats, thorough, useHints bool) (res *Result, again bool) {
	t0 := time.Now()
	x := NewExec(p, con, stats, thorough)
	res = &Result{Con: con}
	if variant != nil {
		x.variant = shortType(variant)
		res.Variant = x.variant
	}
	x.useHints, x.hintID = useHints, res.ID()
	defer func() {
		for _, p := range append(x.extra, x.pool) {
			p.Close()
		}
		if e := recover(); e != nil {
			if u, ok := e.(unsupportedErr); ok {
				res.Err = u.msg
			} else {
				res.Err = fmt.Sprintf("internal error: %v", e)
				if os.Getenv("GOCV_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "%s: %v\n%s\n", con.ID(), e, rdebug.Stack())
				}
			}
		}
		for _, o := range x.pending {
			o.Status, o.Reason = "unknown", "not reached: "+res.Err
		}
		res.Obls, res.Covers, res.Used, res.Trusted, res.Inlined, res.Loops = x.obls, x.covers, x.used, x.trusted, x.inlined, x.loopsInv
		res.Wall = time.Since(t0)
		again = x.hintsUsed
	}()
	c := x.c
	st := &State{heap: map[string]*Term{}, cells: map[*Cell]Val{}, top: x.top0}
	x.assume(st, c.Le(c.Int(100000), x.top0), false, true)
	for _, n := range x.allocNames() {
		x.heapSort[n] = SBool
		x.allocAxioms(st, n, nil, nil)
	}
	ci := &contractInst{con: con, mode: modeCheck, variant: variant, entry: st.snapshot()}
	fr := &Frame{fn: con.Fn, env: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*loopRun{}, visits: map[*ssa.BasicBlock]int{}, ci: ci}
	for i, pr := range con.Fn.Params {
		var v Val
		if i == 0 && variant != nil {
			base := x.freshVal(st, pr.Name(), variant)
			x.nonnilFacts(st, base, false)
			v = x.makeInterface(st, base, pr.Type())
			if !types.IsInterface(pr.Type()) {
				v = base
			}
		} else {
			v = x.freshVal(st, pr.Name(), pr.Type())
		}
		x.nonnilFacts(st, v, false)
		if variant != nil && i == 0 {
			bv := v
			if types.IsInterface(v.T) {
				bv = x.unbox(st, v, variant)
			}
			x.typeInv(st, fr, bv, x.c.True)
		}
		fr.env[pr] = v.retype(pr.Type())
		fr.args = append(fr.args, fr.env[pr])
	}
	fr.entry = st.snapshot()
	x.curFrame = fr
	x.spec = 1
	x.runBlock(fr, st, con.Fn.Blocks[0], nil)
	x.solvePending()
	return
}

type task struct {
	con     *Contract
	variant types.Type
}

func (p *Program) tasksOf(con *Contract) []task {
	if con.Trusted || contains(con.BoundedT, "*") {
		return nil
	}
	if con.Iface == nil {
		return []task{{con, nil}}
	}
	var ts []task
	for _, t := range p.implementors(con.Iface.Underlying().(*types.Interface)) {
		if con.covers(t) && !contains(con.BoundedT, shortType(t)) {
			ts = append(ts, task{con, t})
		}
	}
	return ts
}

// verifyAll verifies the contracts selected and everything they rely on.
func verifyAll(p *Program, roots []*Contract, stats *SolverStats, thorough bool, jobs int, log func(string, ...any)) []*Result {
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	queued := map[*Contract]bool{}
	var queue []task
	running := 0
	var results []*Result
	add := func(con *Contract) {
		if queued[con] {
			return
		}
		queued[con] = true
		queue = append(queue, p.tasksOf(con)...)
		// slow contracts first
		sort.SliceStable(queue, func(i, j int) bool { return queue[i].con.Slow && !queue[j].con.Slow })
	}
	for _, c := range roots {
		add(c)
	}
	var wg sync.WaitGroup
	for i := 0; i < jobs; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				for len(queue) == 0 && running > 0 {
					cond.Wait()
				}
				if len(queue) == 0 {
					cond.Broadcast()
					mu.Unlock()
					return
				}
				t := queue[0]
				queue = queue[1:]
				running++
				mu.Unlock()
				r := verifyOne(p, t.con, t.variant, stats, thorough)
				mu.Lock()
				results = append(results, r)
				running--
				bad := 0
				for _, o := range r.Obls {
					if o.Status != "discharged" {
						bad++
					}
				}
				log("%-60s %4d obligations, %d open, %s %s", r.ID(), len(r.Obls), bad, r.Wall.Round(time.Millisecond), r.Err)
				for u := range r.Used {
					if !u.Slow { // slow contracts are discharged by the checks that list them
						add(u)
					}
				}
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	sort.Slice(results, func(i, j int) bool { return results[i].ID() < results[j].ID() })
	return results
}

func hasProp(c *Contract, prop string) bool {
	for _, p := range c.Props {
		if p == prop {
			return true
		}
	}
	return false
}

func contractDirs(verif string) []string {
	var rels []string
	root := filepath.Join(verif, "contracts")
	filepath.Walk(root, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if fi.Name() == "concrete" {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(path, ".go") {
			rel, _ := filepath.Rel(root, filepath.Dir(path))
			for _, r := range rels {
				if r == rel {
					return nil
				}
			}
			rels = append(rels, rel)
		}
		return nil
	})
	sort.Strings(rels)
	return rels
}

package main

// concrete.go: the contracts as executable oracles on the real code. After an
// obligation fails this looks for an input on which the real code breaks the
// same contract; it never decides that a property holds.

import (
	"context"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Witness is one failing concrete execution.
type Witness struct {
	Package string `json:"package"`
	Driver  string `json:"driver"`
	Seed    int64  `json:"seed"`
	Iter    int64  `json:"iter"`
	Input   string `json:"input"`
	Failure string `json:"failure"`
}

// Concrete describes one concrete run.
type Concrete struct {
	repo, verif, tmp string
	prop             string
	names            []string // contracts (ids) to run automatically
	wider            []string // if set, every third shard runs these instead
	secs             int
	seed             int64
	replay           *Witness
	focus            map[string][]string // contract id -> implementor types to favour
	shards           int
}

type concreteStats struct {
	Runs    map[string]int64
	Skipped map[string]int64
	Log     string
}

// concreteRels: the packages that have drivers for the property or contracts named.
func (c *Concrete) rels() []string {
	set := map[string]bool{}
	for _, rel := range contractDirs(c.verif) {
		if strings.HasSuffix(rel, "/concrete") || rel == "concrete" {
			continue
		}
		cdir := filepath.Join(c.verif, "contracts", rel, "concrete")
		ents, _ := os.ReadDir(cdir)
		for _, e := range ents {
			b, _ := os.ReadFile(filepath.Join(cdir, e.Name()))
			if strings.Contains(string(b), "\""+c.prop+"\"") {
				set[rel] = true
			}
		}
		for _, n := range c.names {
			if strings.HasPrefix(n, filepath.Base(rel)+".") {
				set[rel] = true
			}
		}
	}
	var r []string
	for k := range set {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Run searches for a witness in all packages concerned.
func (c *Concrete) Run(p *Program, log func(string, ...any)) (*Witness, *concreteStats) {
	total := &concreteStats{Runs: map[string]int64{}, Skipped: map[string]int64{}}
	rels := c.rels()
	if c.replay != nil {
		rels = []string{c.replay.Package}
	}
	for _, rel := range rels {
		w, st := c.runPkg(p, rel, len(rels), log)
		if st != nil {
			for k, v := range st.Runs {
				total.Runs[rel+":"+k] += v
			}
			for k, v := range st.Skipped {
				total.Skipped[rel+":"+k] += v
			}
			total.Log += st.Log
		}
		if w != nil {
			w.Package = rel
			return w, total
		}
	}
	return nil, total
}

func (c *Concrete) runPkg(p *Program, rel string, share int, log func(string, ...any)) (*Witness, *concreteStats) {
	ov, err := overlayFiles(c.repo, c.verif, contractRels(c.verif))
	if err != nil {
		log("concrete: %v", err)
		return nil, nil
	}
	dir := filepath.Join(c.tmp, "ov-"+strings.ReplaceAll(rel, "/", "_"))
	os.MkdirAll(dir, 0o755)
	for f, b := range p.liveOverlay {
		ov[f] = b // declarations that no longer type-check are already dropped
	}
	pkgName := filepath.Base(rel)
	harness, err := os.ReadFile(filepath.Join(c.verif, "gocv", "rt", "harness_test.go.txt"))
	if err != nil {
		log("concrete: %v", err)
		return nil, nil
	}
	pkgDir := filepath.Join(c.repo, "client", rel)
	ov[filepath.Join(pkgDir, "zz_cv_harness_test.go")] = []byte(strings.Replace(string(harness), "package PKG", "package "+pkgName, 1))
	var auto strings.Builder
	fmt.Fprintf(&auto, "package %s\n\nfunc init() {\n\tcvAuto = []cvAutoT{\n", pkgName)
	for _, con := range p.contracts {
		if con.Pkg != pkgName || con.Fn == nil {
			continue
		}
		fmt.Fprintf(&auto, "\t\t{%q, %q, %s, %v},\n", con.ID(), strings.Join(con.Props, " "), con.Fn.Name(), con.MayPanic || con.Partial)
	}
	auto.WriteString("\t}\n")
	auto.WriteString(p.autoTypes(pkgName))
	auto.WriteString("}\n")
	ov[filepath.Join(pkgDir, "zz_cv_auto_test.go")] = []byte(auto.String())
	cdir := filepath.Join(c.verif, "contracts", rel, "concrete")
	ents, _ := os.ReadDir(cdir)
	var custom []string
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go") {
			b, _ := os.ReadFile(filepath.Join(cdir, e.Name()))
			f := filepath.Join(pkgDir, "zz_cv_c_"+strings.TrimSuffix(e.Name(), ".go")+"_test.go")
			ov[f] = b
			custom = append(custom, f)
		}
	}
	bin := filepath.Join(dir, "test.bin")
	build := func() (string, error) {
		rep := map[string]string{}
		i := 0
		for f, b := range ov {
			i++
			t := filepath.Join(dir, fmt.Sprintf("f%d.go", i))
			os.WriteFile(t, b, 0o644)
			rep[f] = t
		}
		// the repository's own tests are left out of the binary
		ts, _ := filepath.Glob(filepath.Join(pkgDir, "*_test.go"))
		for _, t := range ts {
			if _, ok := rep[t]; !ok {
				rep[t] = ""
			}
		}
		j, _ := json.Marshal(map[string]any{"Replace": rep})
		of := filepath.Join(dir, "overlay.json")
		os.WriteFile(of, j, 0o644)
		cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", of, "-o", bin, "./"+rel)
		cmd.Dir = filepath.Join(c.repo, "client")
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod -modfile="+filepath.Join(c.tmp, "client.mod"), "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
		out, err := cmd.CombinedOutput()
		return string(out), err
	}
	out, err := build()
	if err != nil {
		// drop what does not compile against this tree
		for attempt := 0; attempt < 6 && err != nil; attempt++ {
			bad := map[string]map[int]bool{}
			for _, m := range regexp.MustCompile(`(?m)(zz_cv_[\w.]+\.go):(\d+)`).FindAllStringSubmatch(out, -1) {
				f := filepath.Join(pkgDir, m[1])
				var ln int
				fmt.Sscanf(m[2], "%d", &ln)
				if bad[f] == nil {
					bad[f] = map[int]bool{}
				}
				bad[f][ln] = true
			}
			if len(bad) == 0 {
				break
			}
			for f, lines := range bad {
				if ov[f] != nil {
					ov[f] = dropDecls(ov[f], lines)
				}
			}
			out, err = build()
		}
	}
	if err != nil {
		log("concrete: cannot build the harness for %s: %s", rel, trunc(out, 800))
		return nil, &concreteStats{Log: "harness did not build: " + trunc(out, 300)}
	}
	secs := c.secs
	if share > 1 {
		secs = secs/share + 1
	}
	dict, _ := json.Marshal(p.constantsOf(append(append([]string{}, c.names...), c.wider...), pkgName))
	focus, _ := json.Marshal(c.focus)
	scratch := filepath.Join(dir, "scratch")
	os.MkdirAll(scratch, 0o755)
	one := func(ctx context.Context, seed int64, secs int, trace string) (*Witness, *concreteStats) {
		names := c.names
		if c.wider != nil && (seed-c.seed)/101%3 == 2 {
			names = c.wider
		}
		outFile := filepath.Join(dir, fmt.Sprintf("witness%d.json", seed))
		os.Remove(outFile)
		ctx, cancel := context.WithTimeout(ctx, time.Duration(secs+60)*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, "bash", "-c", `ulimit -v 16000000; exec "$0" -test.run '^TestCVWitness$' -test.timeout 0`, bin)
		cmd.Dir = scratch
		cmd.Env = append(os.Environ(),
			"HOME="+scratch, "XDG_CACHE_HOME="+scratch, "XDG_CONFIG_HOME="+scratch,
			"CV_PROP="+c.prop, "CV_NAMES="+strings.Join(names, "\n"), fmt.Sprintf("CV_SECS=%d", secs),
			fmt.Sprintf("CV_SEED=%d", seed), "CV_OUT="+outFile, "GOMEMLIMIT=3GiB", "GOMAXPROCS=2",
			"CV_DICT="+string(dict), "CV_FOCUS="+string(focus), "CV_TRACE="+trace)
		if c.replay != nil {
			cmd.Env = append(cmd.Env, "CV_REPLAY="+c.replay.Driver, fmt.Sprintf("CV_ITER=%d", c.replay.Iter))
		}
		o, rerr := cmd.CombinedOutput()
		st := &concreteStats{Runs: map[string]int64{}, Skipped: map[string]int64{}}
		for _, m := range regexp.MustCompile(`(?m)^CVSTAT (\S.*) runs=(\d+) skipped=(\d+)$`).FindAllStringSubmatch(string(o), -1) {
			var a, b int64
			fmt.Sscanf(m[2], "%d", &a)
			fmt.Sscanf(m[3], "%d", &b)
			st.Runs[m[1]] += a
			st.Skipped[m[1]] += b
		}
		if b, err := os.ReadFile(outFile); err == nil {
			var w Witness
			if json.Unmarshal(b, &w) == nil && w.Failure != "" {
				return &w, st
			}
		}
		if rerr != nil && len(st.Runs) == 0 && ctx.Err() == nil {
			st.Log = trunc(string(o), 2000)
			if strings.Contains(string(o), "stack overflow") || strings.Contains(string(o), "stack exceeds") || strings.Contains(string(o), "concurrent map") {
				st.Log = "died: " + st.Log
			}
		}
		return nil, st
	}
	if c.replay != nil {
		return one(context.Background(), c.replay.Seed, 60, "")
	}
	shards := c.shards
	if shards < 1 {
		shards = 1
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type res struct {
		w    *Witness
		st   *concreteStats
		seed int64
	}
	ch := make(chan res, shards)
	for i := 0; i < shards; i++ {
		seed := c.seed + int64(i)*101
		go func() {
			w, st := one(ctx, seed, secs, "")
			ch <- res{w, st, seed}
		}()
	}
	total := &concreteStats{Runs: map[string]int64{}, Skipped: map[string]int64{}}
	var found *Witness
	for i := 0; i < shards; i++ {
		r := <-ch
		for k, v := range r.st.Runs {
			total.Runs[k] += v
		}
		for k, v := range r.st.Skipped {
			total.Skipped[k] += v
		}
		if r.w == nil && found == nil && strings.HasPrefix(r.st.Log, "died: ") {
			// find the input that kills the process
			tr := filepath.Join(dir, fmt.Sprintf("trace%d.json", r.seed))
			if w, st := one(context.Background(), r.seed, secs*2, tr); w != nil {
				r.w = w
			} else if strings.HasPrefix(st.Log, "died: ") {
				var w Witness
				if b, err := os.ReadFile(tr); err == nil && json.Unmarshal(b, &w) == nil {
					r.w = &w
				}
			}
		}
		if r.w != nil && found == nil {
			found = r.w
			cancel()
		}
		if r.st.Log != "" && total.Log == "" && ctx.Err() == nil {
			total.Log = r.st.Log
			log("concrete: harness of %s: %s", rel, trunc(r.st.Log, 1500))
		}
	}
	return found, total
}

func contractRels(verif string) []string {
	var r []string
	for _, rel := range contractDirs(verif) {
		if !strings.HasSuffix(rel, "/concrete") {
			r = append(r, rel)
		}
	}
	return r
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// autoTypes registers, for the harness, the implementors of the package's
// interfaces and the declared constants of its named types.
func (p *Program) autoTypes(pkgName string) string {
	var b strings.Builder
	var pkg *types.Package
	for _, sp := range p.ssaPkgs {
		if sp.Pkg.Name() == pkgName {
			pkg = sp.Pkg
		}
	}
	if pkg == nil {
		return ""
	}
	qual := func(o *types.Package) string {
		if o == pkg {
			return ""
		}
		return o.Name()
	}
	for _, n := range pkg.Scope().Names() {
		switch o := pkg.Scope().Lookup(n).(type) {
		case *types.TypeName:
			it, ok := o.Type().Underlying().(*types.Interface)
			if !ok || it.NumMethods() == 0 || strings.HasPrefix(n, "cv") {
				continue
			}
			if nt, is := o.Type().(*types.Named); !is || nt.TypeParams().Len() > 0 {
				continue
			}
			for _, t := range p.implementors(it) {
				base, ptr := t, ""
				if pt, is := t.(*types.Pointer); is {
					base, ptr = pt.Elem(), "&"
				}
				nt, is := base.(*types.Named)
				if !is || nt.Obj().Pkg() != pkg || nt.Obj().Parent() != pkg.Scope() {
					continue
				}
				if _, is := nt.Underlying().(*types.Struct); is {
					fmt.Fprintf(&b, "\tcvImplsT[%s](%s%s{})\n", n, ptr, nt.Obj().Name())
				} else if ptr == "" {
					fmt.Fprintf(&b, "\tcvImplsT[%s](*new(%s))\n", n, nt.Obj().Name())
				}
			}
		case *types.Const:
			nt, ok := o.Type().(*types.Named)
			if !ok || nt.Obj().Pkg() != pkg || n == "_" {
				continue
			}
			fmt.Fprintf(&b, "\tcvEnumT[%s](%s)\n", types.TypeString(nt, qual), n)
		}
	}
	return b.String()
}

type constDict struct {
	Ints   []int64
	Floats []float64
	Strs   []string
}

// constantsOf collects the constants in the code that the named contracts
// verify (a dictionary for the input generator).
func (p *Program) constantsOf(names []string, pkgName string) constDict {
	var d constDict
	want := map[string]bool{}
	for _, n := range names {
		want[n] = true
	}
	seen := map[*ssa.Function]bool{}
	var queue []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) && !seen[f] {
			seen[f] = true
			queue = append(queue, f)
		}
	}
	for _, con := range p.contracts {
		if !want[con.ID()] {
			continue
		}
		if con.Target != nil {
			add(con.Target)
		}
		if con.Iface != nil {
			for _, t := range p.implementors(con.Iface.Underlying().(*types.Interface)) {
				add(p.methodOf(t, con.Method))
			}
		}
	}
	is, fs, ss := map[int64]bool{}, map[float64]bool{}, map[string]bool{}
	for depth := 0; depth < 4 && len(queue) > 0 && len(seen) < 400; depth++ {
		cur := queue
		queue = nil
		for _, f := range cur {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, o := range in.Operands(nil) {
						if *o == nil {
							continue
						}
						switch v := (*o).(type) {
						case *ssa.Function:
							add(v)
						case *ssa.Const:
							if v.Value == nil {
								continue
							}
							switch v.Value.Kind() {
							case constant.Int:
								if n, ok := constant.Int64Val(v.Value); ok {
									is[n] = true
								}
								if bt, ok := v.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
									x, _ := constant.Float64Val(v.Value)
									fs[x] = true
								}
							case constant.Float:
								x, _ := constant.Float64Val(v.Value)
								fs[x] = true
							case constant.String:
								if s := constant.StringVal(v.Value); len(s) < 40 {
									ss[s] = true
								}
							}
						}
					}
				}
			}
		}
	}
	for k := range is {
		d.Ints = append(d.Ints, k)
	}
	for k := range fs {
		if math.Abs(k) < 1e15 { // arithmetic is that of the real numbers: nothing may overflow
			d.Floats = append(d.Floats, k)
		}
	}
	for k := range ss {
		d.Strs = append(d.Strs, k)
	}
	sort.Slice(d.Ints, func(i, j int) bool { return d.Ints[i] < d.Ints[j] })
	sort.Float64s(d.Floats)
	sort.Strings(d.Strs)
	return d
}

func (p *Program) methodOf(t types.Type, name string) *ssa.Function {
	ms := p.ssa.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.ssa.MethodValue(ms.At(i))
		}
	}
	return nil
}

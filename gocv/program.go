package main

// program.go: loading the real code together with the contract overlay.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "alda.io/client"

// Program is the loaded code base.
type Program struct {
	fset        *token.FileSet
	ssa         *ssa.Program
	pkgs        []*packages.Package
	ssaPkgs     map[string]*ssa.Package
	repo        string
	mu          sync.Mutex
	loops       map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	joins       map[*ssa.BasicBlock]*ssa.BasicBlock
	tags        map[string]int
	tagTypes    []types.Type
	contracts   []*Contract
	byFn        map[*ssa.Function]*Contract
	byIface     map[string]*Contract // typeKey(iface).Method
	recFns      map[*ssa.Function]bool
	templates   map[string][]*ssa.Function // target display name -> loop templates
	dropped     []dropT
	implMemo    map[string][]types.Type
	immut       map[*ssa.Global]bool
	tmpDir      string
	noUnroll    map[string]bool
	specFns     map[*ssa.Function]bool
	liveOverlay map[string][]byte
	nonnilElems map[string]bool          // types T: no slice element or map value of type *T is ever nil (checked at stores)
	nonnil      map[string]bool          // interface types whose stored values are never nil (assumed)
	typeinv     map[string]*ssa.Function // value invariants of named types
	allocNames  []string
	tracked     map[string]bool // struct types whose allocated objects are tracked
}

// dropT is a contract declaration that could not be attached.
type dropT struct{ fn, msg string }

// Contract is one machine-checked specification.
type Contract struct {
	Name     string // as written in the directive
	Fn       *ssa.Function
	Target   *ssa.Function
	Iface    types.Type
	Method   string
	Props    []string
	Pkg      string
	MayPanic bool
	Trusted  bool // assumed, not verified
	Partial  bool // run-time failures are not excluded
	Inline   bool // not used at call sites (callers execute the body)
	Only     []string
	Skip     []string
	Slow     bool
	BoundedT []string
	Unroll   int
	NoFrame  bool
	Logged   bool
	Extra    string
	Under    bool     // unfold recursive functions under quantifiers
	Uses     []string // further contracts of callees used in place of their main ones
	Secs     int
	File     string
}

func (c *Contract) ID() string {
	if c.Extra != "" {
		return c.Pkg + "." + c.Name + "+" + c.Extra
	}
	return c.Pkg + "." + c.Name
}

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	backs  []*ssa.BasicBlock
}

func (p *Program) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	if r, ok := p.loops[fn]; ok {
		return r
	}
	r := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := r[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					r[s] = l
				}
				l.backs = append(l.backs, b)
				// natural loop body
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[n] {
						continue
					}
					l.blocks[n] = true
					stack = append(stack, n.Preds...)
				}
			}
		}
	}
	p.loops[fn] = r
	return r
}

func (p *Program) tagID(t types.Type) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.tagIDLocked(t)
}

func (p *Program) tagIDLocked(t types.Type) int {
	k := typeKey(t)
	if id, ok := p.tags[k]; ok {
		return id
	}
	p.tagTypes = append(p.tagTypes, t)
	id := len(p.tagTypes)
	p.tags[k] = id
	return id
}

func (p *Program) typeOfTag(id int) types.Type {
	p.mu.Lock()
	defer p.mu.Unlock()
	if id < 1 || id > len(p.tagTypes) {
		return nil
	}
	return p.tagTypes[id-1]
}

// implementors lists the concrete alda types implementing an interface.
func (p *Program) implementors(it *types.Interface) []types.Type {
	k := typeKey(it)
	p.mu.Lock()
	if r, ok := p.implMemo[k]; ok {
		p.mu.Unlock()
		return r
	}
	p.mu.Unlock()
	var r []types.Type
	var names []string
	for n := range p.ssaPkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		pk := p.ssaPkgs[n]
		sc := pk.Pkg.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || nt.TypeParams().Len() > 0 {
				continue
			}
			if _, isI := nt.Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(nt, it) {
				r = append(r, nt)
			} else if types.Implements(types.NewPointer(nt), it) {
				r = append(r, types.NewPointer(nt))
			}
		}
	}
	p.mu.Lock()
	p.implMemo[k] = r
	p.mu.Unlock()
	return r
}

// fnDisplay names a function the way contracts refer to it.
func fnDisplay(f *ssa.Function) string {
	if f.Signature.Recv() != nil {
		t := f.Signature.Recv().Type()
		if pt, ok := t.(*types.Pointer); ok {
			if n, ok := pt.Elem().(*types.Named); ok {
				return "(*" + n.Obj().Name() + ")." + f.Name()
			}
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name() + "." + f.Name()
		}
	}
	return f.Name()
}

// overlayFiles builds the overlay: contract sources placed in the real packages.
func overlayFiles(repo, verif string, rels []string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	rt, err := os.ReadFile(filepath.Join(verif, "gocv", "rt", "rt.go.txt"))
	if err != nil {
		return nil, err
	}
	for _, rel := range rels {
		dir := filepath.Join(verif, "contracts", rel)
		ents, err := os.ReadDir(dir)
		if err != nil {
			return nil, err
		}
		pkgName := ""
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(dir, e.Name()))
			if err != nil {
				return nil, err
			}
			if pkgName == "" {
				pkgName = regexp.MustCompile(`(?m)^package (\w+)`).FindStringSubmatch(string(b))[1]
			}
			ov[filepath.Join(repo, "client", rel, "zz_cv_"+e.Name())] = b
		}
		ov[filepath.Join(repo, "client", rel, "zz_cv_rt.go")] = []byte(strings.Replace(string(rt), "package PKG", "package "+pkgName, 1))
	}
	// generated/version.go is produced by go generate and is git-ignored
	gen := filepath.Join(repo, "client", "generated", "version.go")
	if _, err := os.Stat(gen); err != nil {
		ov[gen] = []byte("package generated\n\nconst ClientVersion = \"0.0.0\"\n")
	}
	return ov, nil
}

// LoadProgram type-checks the packages with contracts and builds SSA.
func LoadProgram(repo, verif, tmp string, rels []string) (*Program, error) {
	p := &Program{repo: repo, ssaPkgs: map[string]*ssa.Package{}, joins: map[*ssa.BasicBlock]*ssa.BasicBlock{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{},
		tags: map[string]int{}, byFn: map[*ssa.Function]*Contract{}, byIface: map[string]*Contract{}, recFns: map[*ssa.Function]bool{},
		templates: map[string][]*ssa.Function{}, implMemo: map[string][]types.Type{}, immut: map[*ssa.Global]bool{}, tmpDir: tmp,
		specFns: map[*ssa.Function]bool{}}
	ov, err := overlayFiles(repo, verif, rels)
	if err != nil {
		return nil, err
	}
	var pats []string
	for _, r := range rels {
		pats = append(pats, "./"+r)
	}
	modfile := filepath.Join(tmp, "client.mod")
	gm, err := os.ReadFile(filepath.Join(repo, "client", "go.mod"))
	if err != nil {
		return nil, err
	}
	gs, _ := os.ReadFile(filepath.Join(repo, "client", "go.sum"))
	os.WriteFile(modfile, gm, 0o644)
	os.WriteFile(filepath.Join(tmp, "client.sum"), gs, 0o644)
	var pkgs []*packages.Package
	for attempt := 0; attempt < 12; attempt++ {
		cfg := &packages.Config{
			Mode:       packages.LoadAllSyntax,
			Dir:        filepath.Join(repo, "client"),
			Overlay:    ov,
			Env:        append(os.Environ(), "GOFLAGS=-mod=mod -modfile="+modfile, "GOPROXY=off", "GOWORK=off"),
			BuildFlags: nil,
		}
		pkgs, err = packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		// contract declarations that no longer type-check are dropped one by one
		bad := map[string]map[int]bool{}
		var realErrs []string
		packages.Visit(pkgs, nil, func(pk *packages.Package) {
			for _, e := range pk.Errors {
				pos := e.Pos
				i := strings.Index(pos, ".go:")
				file := pos
				line := 0
				if i >= 0 {
					file = pos[:i+3]
					fmt.Sscanf(pos[i+4:], "%d", &line)
				}
				if _, ok := ov[file]; ok && strings.Contains(filepath.Base(file), "zz_cv_") {
					if bad[file] == nil {
						bad[file] = map[int]bool{}
					}
					bad[file][line] = true
					p.dropped = append(p.dropped, dropT{"", fmt.Sprintf("%s:%d: %s", filepath.Base(file), line, e.Msg)})
				} else if strings.HasPrefix(pk.PkgPath, modPath) {
					realErrs = append(realErrs, e.Error())
				}
			}
		})
		if len(bad) == 0 {
			if len(realErrs) > 0 {
				return nil, fmt.Errorf("the code does not type-check: %s", strings.Join(realErrs, "; "))
			}
			break
		}
		for f, lines := range bad {
			ov[f] = dropDecls(ov[f], lines)
		}
		if attempt == 11 {
			return nil, fmt.Errorf("contracts do not type-check: %v", p.dropped)
		}
	}
	p.pkgs = pkgs
	p.liveOverlay = ov
	p.fset = pkgs[0].Fset
	prog, _ := ssautil.AllPackages(pkgs, 0)
	p.ssa = prog
	var all []*ssa.Package
	for _, sp := range prog.AllPackages() {
		if strings.HasPrefix(sp.Pkg.Path(), modPath) {
			all = append(all, sp)
			p.ssaPkgs[sp.Pkg.Path()] = sp
		}
	}
	for _, sp := range all {
		sp.Build()
	}
	if err := p.collectContracts(pkgs); err != nil {
		return nil, err
	}
	p.findImmutable()
	// deterministic tags
	for _, n := range sortedKeys(p.ssaPkgs) {
		sc := p.ssaPkgs[n].Pkg.Scope()
		for _, name := range sc.Names() {
			if tn, ok := sc.Lookup(name).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
					p.tagID(nt)
					p.tagID(types.NewPointer(nt))
				}
			}
		}
	}
	return p, nil
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// dropDecls blanks the top-level declarations that contain the given lines.
func dropDecls(src []byte, lines map[int]bool) []byte {
	ls := strings.Split(string(src), "\n")
	for ln := range lines {
		i := ln - 1
		if i < 0 || i >= len(ls) {
			continue
		}
		// imports: drop the import line only
		if strings.HasPrefix(strings.TrimSpace(ls[i]), "\"") || strings.HasPrefix(ls[i], "import ") {
			ls[i] = ""
			continue
		}
		s := i
		for s > 0 && !strings.HasPrefix(ls[s], "func ") && !strings.HasPrefix(ls[s], "type ") && !strings.HasPrefix(ls[s], "var ") {
			s--
		}
		e := s
		if strings.HasSuffix(strings.TrimSpace(ls[s]), "}") && strings.Count(ls[s], "{") == strings.Count(ls[s], "}") {
			// one-liner
		} else {
			for e < len(ls)-1 && ls[e] != "}" {
				e++
			}
		}
		for s > 0 && strings.HasPrefix(ls[s-1], "//") {
			s--
		}
		for j := s; j <= e; j++ {
			ls[j] = ""
		}
	}
	return []byte(strings.Join(ls, "\n"))
}

func (p *Program) collectContracts(pkgs []*packages.Package) error {
	for _, pk := range pkgs {
		sp := p.ssaPkgs[pk.PkgPath]
		fns := map[string]*ssa.Function{}
		for fn := range ssautil.AllFunctions(p.ssa) {
			if fn.Pkg == sp && fn.Parent() == nil && fn.Synthetic == "" {
				fns[fnDisplay(fn)] = fn
			}
		}
		// methods not reachable still need listing
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				fns[fnDisplay(m)] = m
			case *ssa.Type:
				if nt, ok := m.Type().(*types.Named); ok {
					for i := 0; i < nt.NumMethods(); i++ {
						if f := p.ssa.FuncValue(nt.Method(i)); f != nil {
							fns[fnDisplay(f)] = f
						}
					}
				}
			}
		}
		for i, file := range pk.Syntax {
			name := pk.CompiledGoFiles[i]
			base := filepath.Base(name)
			if !strings.HasPrefix(base, "zz_cv_") {
				continue
			}
			for _, cg := range file.Comments {
				for _, cm := range cg.List {
					if l, ok := strings.CutPrefix(cm.Text, "//cv:tracked "); ok {
						if p.tracked == nil {
							p.tracked = map[string]bool{}
						}
						for _, w := range strings.Fields(l) {
							p.tracked[pk.PkgPath+"."+w] = true
						}
					}
					if l, ok := strings.CutPrefix(cm.Text, "//cv:nonnilelems "); ok {
						if p.nonnilElems == nil {
							p.nonnilElems = map[string]bool{}
						}
						for _, w := range strings.Fields(l) {
							p.nonnilElems[pk.PkgPath+"."+w] = true
						}
					}
					if l, ok := strings.CutPrefix(cm.Text, "//cv:nonnil "); ok {
						if p.nonnil == nil {
							p.nonnil = map[string]bool{}
						}
						for _, w := range strings.Fields(l) {
							p.nonnil[pk.PkgPath+"."+w] = true
						}
					}
				}
			}
			for _, d := range file.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				if f, ok := sp.Members[fd.Name.Name].(*ssa.Function); ok {
					p.specFns[f] = true
				}
				if fd.Doc == nil {
					continue
				}
				var con *Contract
				for _, cm := range fd.Doc.List {
					t := strings.TrimPrefix(cm.Text, "//")
					if !strings.HasPrefix(t, "cv:") {
						continue
					}
					word, rest, _ := strings.Cut(strings.TrimPrefix(t, "cv:"), " ")
					rest = strings.TrimSpace(rest)
					switch word {
					case "contract":
						con = &Contract{Name: rest, Pkg: pk.Name, Fn: sp.Func(fd.Name.Name), File: base, Unroll: 8}
						if strings.HasPrefix(rest, "iface ") {
							r := strings.TrimPrefix(rest, "iface ")
							in, m, _ := strings.Cut(r, ".")
							o := sp.Pkg.Scope().Lookup(in)
							if o == nil {
								p.dropped = append(p.dropped, dropT{fd.Name.Name, "no interface " + in})
								con = nil
								break
							}
							con.Iface = o.Type()
							con.Method = m
							if !strings.Contains(docDirectives(fd.Doc), "cv:extra") {
								p.byIface[typeKey(con.Iface)+"."+m] = con
							}
						} else {
							con.Target = fns[rest]
							if con.Target == nil {
								p.dropped = append(p.dropped, dropT{fd.Name.Name, "no function " + rest})
								con = nil
								break
							}
							if !strings.Contains(docDirectives(fd.Doc), "cv:extra") {
								p.byFn[con.Target] = con
							}
						}
						if con != nil {
							p.contracts = append(p.contracts, con)
						}
					case "props":
						if con != nil {
							con.Props = strings.Fields(rest)
						}
					case "bounded":
						// beyond the verifier's reach (for these implementors):
						// only executed on generated inputs
						if rest == "" {
							rest = "*"
						}
						con.BoundedT = strings.Fields(rest)
					case "trusted":
						con.Trusted = true
					case "partial":
						con.Partial = true
					case "maypanic":
						if con != nil {
							con.MayPanic = true
						}
					case "inline":
						if con != nil {
							con.Inline = true
						}
					case "only":
						if con != nil {
							con.Only = strings.Fields(rest)
						}
					case "skip":
						if con != nil {
							con.Skip = strings.Fields(rest)
						}
					case "slow":
						if con != nil {
							con.Slow = true
						}
					case "noframe":
						if con != nil {
							con.NoFrame = true
						}
					case "logged":
						if con != nil {
							con.Logged = true
						}
					case "unroll":
						if con != nil {
							fmt.Sscanf(rest, "%d", &con.Unroll)
						}
					case "secs":
						if con != nil {
							fmt.Sscanf(rest, "%d", &con.Secs)
						}
					case "extra":
						// a further contract of the same function: checked, but
						// callers use the main one
						if con != nil {
							con.Extra = fd.Name.Name
						}
					case "unfold":
						if con != nil {
							con.Under = true
						}
					case "uses":
						// calls made by the function checked here use these
						// further contracts of the callees
						if con != nil {
							con.Uses = strings.Fields(rest)
						}
					case "typeinv":
						// checked wherever a value is put into an interface in
						// code under contract, assumed wherever it is taken out
						if p.typeinv == nil {
							p.typeinv = map[string]*ssa.Function{}
						}
						f := sp.Func(fd.Name.Name)
						p.typeinv[typeKey(f.Signature.Params().At(0).Type())] = f
					case "rec":
						p.recFns[sp.Func(fd.Name.Name)] = true
					case "loop":
						p.templates[rest] = append(p.templates[rest], sp.Func(fd.Name.Name))
					default:
						return fmt.Errorf("%s: unknown directive cv:%s", base, word)
					}
				}
			}
		}
	}
	return nil
}

// findImmutable: package-level variables of alda that are only written by
// initialisation code and whose value is only read afterwards.
func (p *Program) findImmutable() {
	mutated := map[*ssa.Global]bool{}
	all := map[*ssa.Global]bool{}
	for _, sp := range p.ssaPkgs {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				all[g] = true
			}
		}
	}
	isInit := func(f *ssa.Function) bool {
		for f.Parent() != nil {
			f = f.Parent()
		}
		return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
	}
	// does any use of v (a loaded reference) mutate the object?
	var escapes func(v ssa.Value, seen map[ssa.Value]bool) bool
	escapes = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		refs := v.Referrers()
		if refs == nil {
			return false
		}
		for _, r := range *refs {
			switch r := r.(type) {
			case *ssa.MapUpdate:
				if r.Map == v {
					return true
				}
			case *ssa.Store:
				if r.Addr == v {
					return true
				}
			case *ssa.IndexAddr, *ssa.FieldAddr:
				if escapes(r.(ssa.Value), seen) {
					return true
				}
			case *ssa.Call:
				if b, ok := r.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
					return true
				}
			}
		}
		return false
	}
	for fn := range ssautil.AllFunctions(p.ssa) {
		if fn.Pkg == nil || p.ssaPkgs[fn.Pkg.Pkg.Path()] == nil || isInit(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					g, ok := (*o).(*ssa.Global)
					if !ok {
						continue
					}
					switch in := in.(type) {
					case *ssa.UnOp:
						if escapes(in, map[ssa.Value]bool{}) {
							mutated[g] = true
						}
					case *ssa.DebugRef:
					case *ssa.FieldAddr, *ssa.IndexAddr:
						if escapes(in.(ssa.Value), map[ssa.Value]bool{}) {
							mutated[g] = true
						}
					default:
						mutated[g] = true
					}
				}
			}
		}
	}
	for g := range all {
		if !mutated[g] {
			p.immut[g] = true
		}
	}
}

func docDirectives(cg *ast.CommentGroup) string {
	var b strings.Builder
	for _, c := range cg.List {
		b.WriteString(c.Text + "\n")
	}
	return b.String()
}

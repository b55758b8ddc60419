package main

// smt.go: SMT-LIB printing and solver processes.

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os/exec"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

type printer struct {
	c     *Ctx
	names map[int]string
}

func symQuote(s string) string {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.!$?@<>~", r)) {
			return "|" + strings.ReplaceAll(s, "|", "_") + "|"
		}
	}
	return s
}

func ratStr(r *big.Rat, s *Sort) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var t string
	if s.Name == "Int" {
		t = a.Num().String()
	} else if a.IsInt() {
		t = a.Num().String() + ".0"
	} else {
		t = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	}
	if neg {
		return "(- " + t + ")"
	}
	return t
}

func (p *printer) str(t *Term) string {
	var b strings.Builder
	p.write(&b, t)
	return b.String()
}

func (p *printer) write(b *strings.Builder, t *Term) {
	if n, ok := p.names[t.ID]; ok {
		b.WriteString(n)
		return
	}
	p.body(b, t)
}

func (p *printer) body(b *strings.Builder, t *Term) {
	switch t.Op {
	case "true", "false":
		b.WriteString(t.Op)
	case "num":
		b.WriteString(ratStr(t.Rat, t.S))
	case "strlit":
		fmt.Fprintf(b, "str$%d", t.ID)
	case "const", "bv":
		b.WriteString(symQuote(t.Name))
	case "constarr":
		fmt.Fprintf(b, "((as const %s) ", t.S)
		p.write(b, t.Args[0])
		b.WriteString(")")
	case "forall", "exists":
		var n int
		fmt.Sscanf(t.Name, "%d", &n)
		fmt.Fprintf(b, "(%s (", t.Op)
		for i := 0; i < n; i++ {
			fmt.Fprintf(b, "(%s %s)", symQuote(t.Args[1+i].Name), t.Args[1+i].S)
		}
		b.WriteString(") ")
		if len(t.Args) > 1+n {
			b.WriteString("(! ")
			p.write(b, t.Args[0])
			for _, pt := range t.Args[1+n:] {
				b.WriteString(" :pattern (")
				p.write(b, pt)
				b.WriteString(")")
			}
			b.WriteString(")")
		} else {
			p.write(b, t.Args[0])
		}
		b.WriteString(")")
	default:
		op := t.Op
		if op == "app" {
			op = symQuote(t.Name)
			if len(t.Args) == 0 {
				b.WriteString(op)
				return
			}
		}
		b.WriteString("(")
		b.WriteString(op)
		for _, a := range t.Args {
			b.WriteString(" ")
			p.write(b, a)
		}
		b.WriteString(")")
	}
}

// Query renders assertions as an SMT-LIB script body (no check-sat).
func (c *Ctx) Query(asserts []*Term) string {
	var b strings.Builder
	count := map[int]int{}
	all := map[int]*Term{}
	var order []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		count[t.ID]++
		if count[t.ID] > 1 {
			return
		}
		for _, a := range t.Args {
			visit(a)
		}
		all[t.ID] = t
		order = append(order, t)
	}
	for _, a := range asserts {
		visit(a)
	}
	b.WriteString("(declare-sort Str 0)\n")
	var lits []*Term
	ufs := map[string]bool{}
	ids := make([]int, 0, len(order))
	for id := range all {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		t := all[id]
		switch t.Op {
		case "strlit":
			lits = append(lits, t)
		case "const":
			fmt.Fprintf(&b, "(declare-fun %s () %s)\n", symQuote(t.Name), t.S)
		case "app":
			if !ufs[t.Name] {
				ufs[t.Name] = true
				uf := c.ufs[t.Name]
				var d []string
				for _, s := range uf.Dom {
					d = append(d, s.String())
				}
				fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", symQuote(t.Name), strings.Join(d, " "), uf.Rng)
			}
		}
	}
	if len(lits) > 0 {
		for _, l := range lits {
			fmt.Fprintf(&b, "(declare-fun str$%d () Str) ; %q\n", l.ID, l.Name)
		}
		if len(lits) > 1 {
			b.WriteString("(assert (distinct")
			for _, l := range lits {
				fmt.Fprintf(&b, " str$%d", l.ID)
			}
			b.WriteString("))\n")
		}
		if ufs["strlen"] {
			for _, l := range lits {
				fmt.Fprintf(&b, "(assert (= (strlen str$%d) %d))\n", l.ID, len(l.Name))
			}
		}
	}
	if ufs["strlen"] && len(lits) >= 0 {
		// only the empty string has length zero; lengths are non-negative
		e := c.strs[""]
		if e != nil && all[e.ID] != nil {
			fmt.Fprintf(&b, "(assert (forall ((s Str)) (! (and (>= (strlen s) 0) (= (= (strlen s) 0) (= s str$%d))) :pattern ((strlen s)))))\n", e.ID)
		} else {
			b.WriteString("(assert (forall ((s Str)) (! (>= (strlen s) 0) :pattern ((strlen s)))))\n")
		}
	}
	p := &printer{c: c, names: map[int]string{}}
	for _, id := range ids {
		t := all[id]
		if t.HasBV || len(t.Args) == 0 {
			continue
		}
		if count[id] > 1 && t.size > 2 {
			var d strings.Builder
			p.body(&d, t)
			n := fmt.Sprintf("t$%d", id)
			if t.Op == "ite" && t.S.Name == "Array" {
				// named, so that it may occur in patterns
				fmt.Fprintf(&b, "(declare-fun %s () %s)\n(assert (= %s %s))\n", n, t.S, n, d.String())
			} else {
				fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, t.S, d.String())
			}
			p.names[id] = n
		}
	}
	// the fields of a boxed value are what it was made of
	for _, id := range ids {
		t := all[id]
		if t.Op != "app" || t.HasBV || !strings.HasPrefix(t.Name, "box$") {
			continue
		}
		for i, a := range t.Args {
			u := fmt.Sprintf("unbox$%s$%d", t.Name[4:], i)
			if !ufs[u] {
				continue
			}
			fmt.Fprintf(&b, "(assert (= (%s ", symQuote(u))
			p.write(&b, t)
			b.WriteString(") ")
			p.write(&b, a)
			b.WriteString("))\n")
		}
	}
	for _, a := range asserts {
		b.WriteString("(assert ")
		p.write(&b, a)
		b.WriteString(")\n")
	}
	return b.String()
}

// ---------------------------------------------------------------- solvers

type solverProc struct {
	name string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	dead bool
}

func startSolver(name string) (*solverProc, error) {
	var cmd *exec.Cmd
	base, opt, _ := strings.Cut(name, "/")
	switch base {
	case "z3-new", "z3":
		// NAME/OPTION runs the solver with another search strategy
		args := []string{"-in", "-smt2", "memory_max_size=3000"}
		if opt != "" {
			args = append(args, "smt."+opt)
		}
		cmd = exec.Command(base, args...)
	case "cvc5":
		cmd = exec.Command("cvc5", "--incremental", "--lang=smt2", "--produce-models", "--quiet")
	default:
		return nil, fmt.Errorf("unknown solver %s", name)
	}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &solverProc{name: name, cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16)}, nil
}

func (s *solverProc) kill() {
	if s.dead {
		return
	}
	s.dead = true
	s.cmd.Process.Kill()
	go s.cmd.Wait()
}

// readSexp reads one reply (a token or a balanced s-expression).
func (s *solverProc) readReply() (string, error) {
	var b strings.Builder
	depth := 0
	inQ := false
	for {
		ch, err := s.out.ReadByte()
		if err != nil {
			return b.String(), err
		}
		if inQ {
			b.WriteByte(ch)
			if ch == '|' {
				inQ = false
			}
			continue
		}
		switch ch {
		case '|':
			inQ = true
			b.WriteByte(ch)
			continue
		case '(':
			depth++
		case ')':
			depth--
			if depth == 0 {
				b.WriteByte(ch)
				return strings.TrimSpace(b.String()), nil
			}
		case '\n':
			if depth == 0 && strings.TrimSpace(b.String()) != "" {
				return strings.TrimSpace(b.String()), nil
			}
		}
		b.WriteByte(ch)
	}
}

// SolverPool caches processes per solver for one worker.
type SolverPool struct {
	procs map[string]*solverProc
	Stats *SolverStats
	cache map[string]string
}

// solverSlots bounds the solver processes that run at one time.
var solverSlots = make(chan struct{}, runtime.NumCPU())

// SolverStats accumulates over all workers.
type SolverStats struct {
	mu      sync.Mutex
	Calls   map[string]int
	Time    map[string]time.Duration
	Decided map[string]int
}

func NewSolverStats() *SolverStats {
	return &SolverStats{Calls: map[string]int{}, Time: map[string]time.Duration{}, Decided: map[string]int{}}
}

func NewSolverPool(st *SolverStats) *SolverPool {
	return &SolverPool{procs: map[string]*solverProc{}, Stats: st, cache: map[string]string{}}
}

func (p *SolverPool) Close() {
	for _, s := range p.procs {
		s.kill()
	}
	p.procs = map[string]*solverProc{}
}

// Check runs a query on one solver; keeps the process alive for get-value.
func (p *SolverPool) Check(solver, body string, timeout time.Duration) (res string, sp *solverProc) {
	solverSlots <- struct{}{}
	defer func() { <-solverSlots }()
	t0 := time.Now()
	defer func() {
		p.Stats.mu.Lock()
		p.Stats.Calls[solver]++
		p.Stats.Time[solver] += time.Since(t0)
		if res == "unsat" || res == "sat" {
			p.Stats.Decided[solver]++
		}
		p.Stats.mu.Unlock()
	}()
	for attempt := 0; attempt < 2; attempt++ {
		s := p.procs[solver]
		if s == nil || s.dead {
			var err error
			s, err = startSolver(solver)
			if err != nil {
				return "error:" + err.Error(), nil
			}
			p.procs[solver] = s
		}
		var pre string
		if solver == "cvc5" {
			pre = fmt.Sprintf("(reset)\n(set-option :tlimit-per %d)\n(set-option :produce-models true)\n(set-logic ALL)\n", timeout.Milliseconds())
		} else {
			pre = fmt.Sprintf("(reset)\n(set-option :timeout %d)\n", timeout.Milliseconds())
		}
		timer := time.AfterFunc(timeout*2+2*time.Second, func() { s.kill() })
		if solver == "cvc5" && strings.Contains(body, "(as const ") {
			body = cvc5Arrays(body)
		}
		_, err := io.WriteString(s.in, pre+body+"(check-sat)\n")
		if err != nil {
			timer.Stop()
			s.kill()
			continue
		}
		r, err := s.readReply()
		timer.Stop()
		if err != nil {
			s.kill()
			if strings.TrimSpace(r) == "" {
				return "timeout", nil
			}
			return "error:" + r, nil
		}
		for strings.HasPrefix(r, "(error") {
			// drain until status
			e := r
			s.kill()
			return "error:" + e, nil
		}
		return r, s
	}
	return "timeout", nil
}

// GetValue asks the live process for values of rendered terms.
func (s *solverProc) GetValue(expr string) (string, error) {
	timer := time.AfterFunc(5*time.Second, func() { s.kill() })
	defer timer.Stop()
	if _, err := io.WriteString(s.in, "(get-value ("+expr+"))\n"); err != nil {
		return "", err
	}
	r, err := s.readReply()
	if err != nil {
		return "", err
	}
	if strings.HasPrefix(r, "(error") {
		return "", fmt.Errorf("%s", r)
	}
	return r, nil
}

var constStrArr = regexp.MustCompile(`\(\(as const \(Array (\w+) Str\)\) (str\$\d+)\)`)

// cvc5Arrays: cvc5 wants literal values in constant arrays; the constant arrays
// of strings become arrays with an axiom.
func cvc5Arrays(body string) string {
	decl := map[string]bool{}
	var d strings.Builder
	body = constStrArr.ReplaceAllStringFunc(body, func(m string) string {
		g := constStrArr.FindStringSubmatch(m)
		n := "karr$" + g[1] + g[2]
		if !decl[n] {
			decl[n] = true
			fmt.Fprintf(&d, "(declare-fun %s () (Array %s Str))\n(assert (forall ((i %s)) (! (= (select %s i) %s) :pattern ((select %s i)))))\n", n, g[1], g[1], n, g[2], n)
		}
		return n
	})
	i := strings.Index(body, "(define-fun ")
	if j := strings.Index(body, "(assert "); i < 0 || j >= 0 && j < i && !strings.HasPrefix(body[j:], "(assert (distinct str$") {
		i = j
	}
	if i < 0 || d.Len() == 0 {
		return body
	}
	return body[:i] + d.String() + body[i:]
}

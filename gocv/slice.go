package main

// slice.go: leaving out assumptions an obligation does not need. Proving a goal
// from fewer assumptions is proving it; a slice is never used to refute.

import (
	"regexp"
	"strings"
	"time"
)

type symInfo struct {
	quant bool
	bases map[string]bool
}

var heapPrefix = regexp.MustCompile(`^(H\d+!|each\.)`)
var freshSuffix = regexp.MustCompile(`!\d+$`)

// syms: does t have quantifiers, and which memory arrays and ghost functions
// does it speak of?
func (x *Exec) syms(t *Term) *symInfo {
	if s, ok := x.symMemo[t.ID]; ok {
		return s
	}
	s := &symInfo{bases: map[string]bool{}}
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		switch t.Op {
		case "forall", "exists":
			s.quant = true
		case "const":
			if t.S.Name == "Array" {
				n := t.Name
				if heapPrefix.MatchString(n) {
					n = freshSuffix.ReplaceAllString(heapPrefix.ReplaceAllString(n, ""), "")
				}
				s.bases[n] = true
			}
		case "app":
			s.bases["()"+t.Name] = true
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	x.symMemo[t.ID] = s
	return s
}

// slice keeps the quantifier-free assumptions and those quantified ones that
// speak only of what the goal speaks of (strict), or of something it speaks of.
func (x *Exec) relevant(pc []*Term, goal *Term, strict bool) []*Term {
	g := x.syms(goal).bases
	var r []*Term
	for _, t := range pc {
		s := x.syms(t)
		if s.quant {
			keep := strict
			for b := range s.bases {
				if strict && g[b] && strings.HasPrefix(b, "()inset$") {
					keep = true
					break
				}
				if strict && !g[b] {
					keep = false
				}
				if !strict && g[b] {
					keep = true
					break
				}
			}
			if !keep {
				continue
			}
		}
		r = append(r, t)
	}
	return r
}

// proveSliced is prove from the strict slice of the assumptions.
func (x *Exec) proveSliced(st *State, goal *Term, to time.Duration) bool {
	if goal.Op == "true" || st.pcHas(goal) {
		return true
	}
	if goal.HasBV {
		return false
	}
	q := x.c.Query(append(x.relevant(st.pcTerms(), goal, true), x.c.Not(goal)))
	if r, ok := x.proveCache[q]; ok {
		return r
	}
	res, _ := x.pool.Check("z3-new", q, to)
	x.proveCache[q] = res == "unsat"
	return res == "unsat"
}

package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
	"sync"
)

// Hints: which candidate loop invariants settled when the contracts were last
// recorded (development: GOCV_RECORD). A check starts from those; nothing is
// taken on trust, since what is kept is proved again, and a contract with open
// obligations is tried again from all candidates.
type hintSet map[string]map[string][]string // contract, loop, invariants

var (
	hints   hintSet
	newHint = hintSet{}
	hintMu  sync.Mutex
)

func hintFile(verif string) string { return filepath.Join(verif, "gocv", "hints.json") }

func loadHints(verif string) {
	hints = hintSet{}
	if b, err := os.ReadFile(hintFile(verif)); err == nil {
		json.Unmarshal(b, &hints)
	}
}

func (x *Exec) hintFor(key string) map[string]bool {
	if !x.useHints {
		return nil
	}
	l, ok := hints[x.hintID][key]
	if !ok {
		return nil
	}
	m := map[string]bool{}
	for _, d := range l {
		m[d] = true
	}
	return m
}

// recordHint adds what settled for a loop (also while an outer loop settles).
func (x *Exec) recordHint(key string, keep map[string]bool) {
	hintMu.Lock()
	defer hintMu.Unlock()
	if newHint[x.hintID] == nil {
		newHint[x.hintID] = map[string][]string{}
	}
	m := map[string]bool{}
	for _, d := range newHint[x.hintID][key] {
		m[d] = true
	}
	for d := range keep {
		m[d] = true
	}
	l := []string{}
	for d := range m {
		l = append(l, d)
	}
	sort.Strings(l)
	newHint[x.hintID][key] = l
}

func saveHints(verif string) {
	for id, h := range newHint {
		hints[id] = h
	}
	b, _ := json.MarshalIndent(hints, "", " ")
	os.WriteFile(hintFile(verif), append(b, '\n'), 0o644)
}

// names is the chain of functions that led to this frame.
func (f *Frame) names() string {
	s := ""
	for ; f != nil; f = f.parent {
		s += f.fn.Name() + "<"
	}
	return s
}

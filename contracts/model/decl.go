package model

// Part declarations: which instruments a declaration stands for.

// cvHas: p is one of the parts.
func cvHas(ps []*Part, p *Part) bool {
	return cvExists(0, len(ps), func(i int) bool { return ps[i] == p })
}

// cvNamed: some alias stands for p, maybe among others.
func cvNamed(s *Score, p *Part) bool {
	return !cvForallKey(s.Aliases, func(a string, ps []*Part) bool { return !cvHas(ps, p) })
}

// cvAlone: the alias stands for p and nothing else.
func cvAlone(s *Score, a string, p *Part) bool {
	ps, ok := s.Aliases[a]
	return ok && len(ps) == 1 && ps[0] == p
}

//cv:contract (*Score).NamedParts
//cv:props P14
func cvNamedParts(s *Score, alias string) {
	cvRequires(s != nil)
	ps := s.NamedParts(alias)
	cvEnsures("the parts the alias stands for", cvSameSlice(ps, s.Aliases[alias]))
}

//cv:contract (*Score).UnnamedParts
//cv:props P14
//cv:partial
func cvUnnamedParts(s *Score, name string) {
	cvRequires(cvPartsInv(s) && cvForall(0, len(s.Parts), func(i int) bool { return s.Parts[i] != nil }))
	cvRequires(cvStocks() && cvAliasLists(s))
	ps := s.UnnamedParts(name)
	cvEnsures("only parts of the score without a name", cvForall(0, len(ps), func(i int) bool { return cvHas(s.Parts, ps[i]) && !cvNamed(s, ps[i]) }))
	cvEnsures("only parts of that instrument", cvForall(0, len(ps), func(i int) bool { return cvStock(ps[i]) == cvStockOf(name) }))
	cvEnsures("all of them", cvForall(0, len(s.Parts), func(i int) bool {
		return cvNamed(s, s.Parts[i]) || cvStock(s.Parts[i]) != cvStockOf(name) || cvHas(ps, s.Parts[i])
	}))
}

// cvStock is the name of the instrument the part is an instance of.
func cvStock(p *Part) string { return cvAs[MidiInstrument](p.StockInstrument).NameImpl }

// cvStockOf is the name of the instrument that a name stands for.
func cvStockOf(name string) string {
	if _, ok := stockInstruments[name]; !ok {
		return "N/A"
	}
	return cvAs[MidiInstrument](stockInstruments[name]).NameImpl
}

// cvStocks: all instruments are MIDI instruments.
func cvStocks() bool {
	return cvForallKey(stockInstruments, func(n string, i Instrument) bool { return cvIs[MidiInstrument](i) })
}

func cvAliasLists(s *Score) bool {
	return cvForallKey(s.Aliases, func(a string, ps []*Part) bool {
		return cvAllocatedList(ps) && cvForall(0, len(ps), func(i int) bool { return ps[i] != nil })
	})
}

//cv:loop (*Score).UnnamedParts
func cvLoopUnnamedOnly(score *Score, name string, k int, over []*Part, acc []*Part) bool {
	return cvForall(0, len(acc), func(i int) bool { return cvHas(over, acc[i]) && !cvNamed(score, acc[i]) })
}

//cv:loop (*Score).UnnamedParts
func cvLoopUnnamedStock(score *Score, name string, k int, over []*Part, acc []*Part) bool {
	return cvForall(0, len(acc), func(i int) bool { return cvStock(acc[i]) == cvStockOf(name) })
}

//cv:loop (*Score).UnnamedParts
func cvLoopUnnamedAll(score *Score, name string, k int, over []*Part, acc []*Part) bool {
	return cvForall(0, k, func(i int) bool {
		return cvNamed(score, over[i]) || cvStock(over[i]) != cvStockOf(name) || cvHas(acc, over[i])
	})
}

//cv:contract (*Score).AliasesFor
//cv:props P14
//cv:partial
func cvAliasesFor(s *Score, part *Part) {
	as := s.AliasesFor(part)
	cvEnsures("only names of that part alone", cvForall(0, len(as), func(i int) bool { return cvAlone(s, as[i], part) }))
	cvEnsures("all of them", cvForallKey(s.Aliases, func(a string, ps []*Part) bool {
		return !cvAlone(s, a, part) || cvExists(0, len(as), func(i int) bool { return as[i] == a })
	}))
}

//cv:loop (*Score).AliasesFor
func cvLoopAliasesFor(score *Score, part *Part, visited func(string) bool, acc []string) bool {
	return cvForall(0, len(acc), func(i int) bool { return cvAlone(score, acc[i], part) }) && cvForallKey(score.Aliases, func(a string, ps []*Part) bool {
		return !visited(a) || !cvAlone(score, a, part) || cvExists(0, len(acc), func(i int) bool { return acc[i] == a })
	})
}

//cv:loop (*Score).UnnamedParts
func cvLoopUnnamedAlias(score *Score, visited func(string) bool, accNamed bool, locPart *Part) bool {
	return accNamed || cvForallKey(score.Aliases, func(a string, ps []*Part) bool { return !visited(a) || !cvHas(ps, locPart) })
}

//cv:loop (*Score).UnnamedParts
func cvLoopUnnamedNamed(score *Score, accNamed bool, locPart *Part) bool {
	return !accNamed || cvNamed(score, locPart)
}

//cv:loop (*Score).UnnamedParts
func cvLoopUnnamedStays(iniNamed, accNamed bool) bool { return !iniNamed || accNamed }

//cv:loop (*Score).UnnamedParts
func cvLoopUnnamedOne(accNamed bool, over []*Part, k int, locPart *Part) bool {
	return accNamed || cvForall(0, k, func(i int) bool { return over[i] != locPart })
}

// cvOwn: the part has a name of its own, and is an instance of the instrument.
func cvOwn(s *Score, a string, stock string) bool {
	ps, ok := s.Aliases[a]
	return ok && len(ps) == 1 && cvStock(ps[0]) == stock
}

//cv:contract (*Score).AliasedStockInstruments
//cv:props P14
//cv:partial
func cvAliasedStock(s *Score, name string) {
	cvRequires(cvPartsInv(s))
	cvRequires(cvStocks() && cvAliasLists(s))
	ps := s.AliasedStockInstruments(name)
	cvEnsures("only instances of the instrument that have a name of their own", cvForall(0, len(ps), func(i int) bool {
		return !cvForallKey(s.Aliases, func(a string, qs []*Part) bool { return !(cvOwn(s, a, cvStockOf(name)) && qs[0] == ps[i]) })
	}))
	cvEnsures("all of them", cvForallKey(s.Aliases, func(a string, qs []*Part) bool { return !cvOwn(s, a, cvStockOf(name)) || cvHas(ps, qs[0]) }))
}

//cv:loop (*Score).AliasedStockInstruments
func cvLoopAliasedOnly(score *Score, name string, visited func(string) bool, acc []*Part) bool {
	return cvForall(0, len(acc), func(i int) bool {
		return !cvForallKey(score.Aliases, func(a string, qs []*Part) bool { return !(cvOwn(score, a, cvStockOf(name)) && qs[0] == acc[i]) })
	})
}

//cv:loop (*Score).AliasedStockInstruments
func cvLoopAliasedAll(score *Score, name string, visited func(string) bool, acc []*Part) bool {
	return cvForallKey(score.Aliases, func(a string, qs []*Part) bool {
		return !visited(a) || !cvOwn(score, a, cvStockOf(name)) || cvHas(acc, qs[0])
	})
}

//cv:contract (*Score).NewPart
//cv:props P14
//cv:partial
func cvNewPart(s *Score, name string) {
	cvRequires(s != nil && cvStocks() && cvPartsInv(s))
	cvModifies("alloc$model.Part")
	_, known := stockInstruments[name]
	p, err := s.NewPart(name)
	cvEnsures("an unknown instrument is an error", known == (err == nil))
	cvEnsures("every part stays well formed", cvPartsInv(s))
	cvEnsures("a new part of that instrument", err != nil || p != nil && cvFresh(p) && p.Name == name && cvStock(p) == cvStockOf(name) && p.origin == p)
	cvEnsures("at the beginning", err != nil || p.CurrentOffset == 0 && p.LastOffset < 0 && p.currentRepetition == 0 && p.TimeScale == 1)
	cvEnsures("with the defaults", err != nil || p.Octave == 4 && p.Tempo == 120 && cvNear(p.Quantization, 0.9) && cvNear(p.Panning, 0.5) && cvNear(p.TrackVolume, 100.0/127) &&
		p.Transposition == 0 && p.ReferencePitch == 440 && p.MidiChannel == -1 && !p.HasExplicitMidiChannel && len(p.KeySignature) == 0 && len(p.TempoValues) == 0)
	cvEnsures("of a quarter note", err != nil || len(p.Duration.Components) == 1 && cvIs[NoteLength](p.Duration.Components[0]) &&
		cvAs[NoteLength](p.Duration.Components[0]).Denominator == 4 && cvAs[NoteLength](p.Duration.Components[0]).Dots == 0)
	cvEnsures("without voices", err != nil || len(p.voices.voices) == 0 && len(p.voices.insertionOrder) == 0 && p.voiceTemplate == nil)
}

// cvNameless: the score has an instance of the instrument without a name.
func cvNameless(s *Score, stock string) bool {
	return cvExists(0, len(s.Parts), func(i int) bool { return !cvNamed(s, s.Parts[i]) && cvStock(s.Parts[i]) == stock })
}

// cvOwned: the score has an instance of the instrument with a name of its own.
func cvOwned(s *Score, stock string) bool {
	return !cvForallKey(s.Aliases, func(a string, qs []*Part) bool { return !cvOwn(s, a, stock) })
}

// A declaration of one name.
//
//cv:contract determineParts
//cv:extra
//cv:props P14
//cv:partial
func cvDetermineOne(decl PartDeclaration, s *Score) {
	cvRequires(s != nil && len(decl.Names) == 1)
	cvRequires(cvPartsInv(s) && cvForall(0, len(s.Parts), func(i int) bool { return s.Parts[i] != nil }))
	cvRequires(cvStocks() && cvAliasLists(s))
	cvModifies("alloc$model.Part")
	name, alias := decl.Names[0], decl.Alias
	named, taken := s.Aliases[name], s.Aliases[alias]
	nameless, owned := cvNameless(s, cvStockOf(name)), cvOwned(s, cvStockOf(name))
	_, known := stockInstruments[name]
	ps, err := determineParts(decl, s)
	cvEnsures("a name cannot be given to named parts", alias == "" || len(named) == 0 || err != nil)
	cvEnsures("a name cannot be given twice", alias == "" || len(taken) == 0 || err != nil)
	cvEnsures("an instrument is used either with names or without", alias == "" || !nameless || err != nil)
	cvEnsures("an instrument whose instances have names of their own is not meant by its own name", alias != "" || !owned || dotAccess(name) || err != nil)
	cvEnsures("a name brings in a new part", alias == "" || err != nil || len(ps) == 1 && cvFresh(ps[0]) && ps[0].Name == name)
	cvEnsures("a name of parts means them", alias != "" || err != nil || len(named) == 0 || cvSameSlice(ps, named))
	cvEnsures("otherwise the instances without a name are meant", alias != "" || err != nil || len(named) != 0 || !nameless ||
		cvForall(0, len(ps), func(i int) bool { return cvHas(s.Parts, ps[i]) && !cvNamed(s, ps[i]) && cvStock(ps[i]) == cvStockOf(name) }) &&
			cvForall(0, len(s.Parts), func(i int) bool { return cvNamed(s, s.Parts[i]) || cvStock(s.Parts[i]) != cvStockOf(name) || cvHas(ps, s.Parts[i]) }))
	cvEnsures("and otherwise a new instance", alias != "" || err != nil || len(named) != 0 || nameless || len(ps) == 1 && cvFresh(ps[0]) && ps[0].Name == name)
	cvEnsures("nothing else is refused", err == nil || alias != "" && (len(named) != 0 || len(taken) != 0 || nameless) || alias == "" && owned && !dotAccess(name) || len(named) == 0 && !known)
	cvEnsures("every part stays well formed", cvPartsInv(s))
}

// cvMeant is a part a declaration stands for: one there is, or a new one.
type cvMeant struct {
	part *Part
	name string
}

// cvMeans are the parts a declaration stands for.
func cvMeans(decl PartDeclaration, s *Score) ([]cvMeant, bool) {
	known := func(n string) bool { _, ok := stockInstruments[n]; return ok }
	if len(decl.Names) == 1 {
		n := decl.Names[0]
		named, stock := s.Aliases[n], cvStockOf(n)
		if decl.Alias != "" {
			return []cvMeant{{nil, n}}, known(n) && len(named) == 0 && len(s.Aliases[decl.Alias]) == 0 && !cvNameless(s, stock)
		}
		if cvOwned(s, stock) && !dotAccess(n) {
			return nil, false
		}
		list := cvInstances(s, n)
		if len(list) == 0 {
			return []cvMeant{{nil, n}}, known(n)
		}
		return list, true
	}
	var list []cvMeant
	stock, named, seen := 0, 0, map[string]bool{}
	for _, n := range decl.Names {
		if seen[n] {
			return nil, false
		}
		seen[n] = true
		those := cvInstances(s, n)
		if len(s.Aliases[n]) > 0 {
			named++
		} else {
			stock++
		}
		if len(those) == 0 {
			if !known(n) {
				return nil, false
			}
			those = []cvMeant{{nil, n}}
		}
		for _, m := range those {
			dup := false
			for _, o := range list {
				dup = dup || o.part != nil && o.part == m.part
			}
			if !dup {
				list = append(list, m)
			}
		}
	}
	if stock > 0 && named > 0 {
		return nil, false
	}
	if decl.Alias != "" && stock > 0 {
		list = nil
		for _, n := range decl.Names {
			list = append(list, cvMeant{nil, n})
		}
	}
	return list, true
}

// cvInstances are the parts of that name, or else the instances of that
// instrument that have none.
func cvInstances(s *Score, n string) []cvMeant {
	var list []cvMeant
	for _, p := range s.Aliases[n] {
		list = append(list, cvMeant{p, n})
	}
	if len(list) > 0 {
		return list
	}
	for _, p := range s.Parts {
		if !cvNamed(s, p) && cvStock(p) == cvStockOf(n) {
			list = append(list, cvMeant{p, n})
		}
	}
	return list
}

func cvSameParts(ps, qs []*Part) bool {
	return len(ps) == len(qs) && cvForall(0, len(ps), func(i int) bool { return cvSame(ps[i], qs[i]) })
}

// The group of voices, if any, ends first; so the score to compare with is
// the one at that point.
//
//cv:contract PartDeclaration.UpdateScore
//cv:extra
//cv:props P14
//cv:bounded
//cv:noframe
//cv:partial
func cvDeclare(decl PartDeclaration, s *Score) {
	cvRequires(cvScoreInv(s) && len(decl.Names) > 0)
	old := cvSnap(s)
	before := VoiceGroupEndMarker{}.UpdateScore(old)
	list, ok := cvMeans(decl, old)
	err := decl.UpdateScore(s)
	cvEnsures("refused exactly when it is ambiguous, contradictory or unknown", before != nil || (err == nil) == ok)
	cvEnsures("a declaration refused brings in no part and no name", err == nil || before != nil ||
		cvSameParts(s.CurrentParts, old.CurrentParts) && cvSameParts(s.Parts, old.Parts) && len(s.Aliases) == len(old.Aliases))
	cvEnsures("the parts declared are the current ones", err != nil || cvMeets(s, list))
	cvEnsures("new parts start afresh, others go on as they are", err != nil || cvFreshStart(s, old, list))
	cvEnsures("the score's parts are those of before, and then the new ones", err != nil || cvAdded(s, old, list))
	cvEnsures("the first part of a score sets the tempo", err != nil || cvMasters(s, old))
	cvEnsures("the name given stands for the parts declared, and with a dot for each of them", err != nil || cvNames(decl, s, old))
}

func cvMeets(s *Score, list []cvMeant) bool {
	return len(s.CurrentParts) == len(list) && cvForall(0, len(list), func(i int) bool {
		if list[i].part != nil {
			return cvSame(s.CurrentParts[i], list[i].part)
		}
		return s.CurrentParts[i].Name == list[i].name && cvForall(0, i, func(j int) bool { return s.CurrentParts[j] != s.CurrentParts[i] })
	})
}

func cvFreshStart(s, old *Score, list []cvMeant) bool {
	for i, m := range list {
		p, q := s.CurrentParts[i], m.part
		if q != nil {
			if p.CurrentOffset != q.CurrentOffset || p.LastOffset != q.LastOffset || !cvSameAttrs(p, q) || p.Name != q.Name {
				return false
			}
			continue
		}
		for _, o := range old.Parts {
			if cvSame(p, o) {
				return false
			}
		}
		if p.CurrentOffset != 0 || p.LastOffset >= 0 || p.Octave != 4 || p.Tempo != 120 || p.MidiChannel != -1 || p.origin != p ||
			!cvNear(p.Quantization, 0.9) || !cvNear(p.Panning, 0.5) || p.Transposition != 0 || len(p.KeySignature) != 0 ||
			!cvNear(p.Volume, DynamicVolumes["mf"]) || len(p.Duration.Components) != 1 || p.TimeScale != 1 || len(p.voices.voices) != 0 {
			return false
		}
	}
	return true
}

func cvAdded(s, old *Score, list []cvMeant) bool {
	n := len(old.Parts)
	if len(s.Parts) < n || !cvSameParts(s.Parts[:n], old.Parts) {
		return false
	}
	for i, m := range list {
		if m.part == nil {
			if n >= len(s.Parts) || s.Parts[n] != s.CurrentParts[i] {
				return false
			}
			n++
		}
	}
	return n == len(s.Parts)
}

func cvMasters(s, old *Score) bool {
	return cvForall(0, len(s.Parts), func(i int) bool {
		if i < len(old.Parts) {
			return s.Parts[i].TempoRole == old.Parts[i].TempoRole
		}
		return (s.Parts[i].TempoRole == TempoRoleMaster) == (i == 0)
	})
}

func cvNames(decl PartDeclaration, s, old *Score) bool {
	n := 0
	fresh := map[string][]*Part{}
	if decl.Alias != "" {
		fresh[decl.Alias] = s.CurrentParts
		for _, p := range s.CurrentParts {
			fresh[decl.Alias+"."+p.Name] = []*Part{p}
			for a, ps := range old.Aliases {
				if len(ps) == 1 && cvSame(p, ps[0]) {
					fresh[decl.Alias+"."+a] = []*Part{p}
				}
			}
		}
	}
	for a, ps := range fresh {
		if !cvSameParts(s.Aliases[a], ps) {
			return false
		}
		n++
	}
	for a, ps := range old.Aliases {
		if _, has := fresh[a]; !has {
			if !cvSameParts(s.Aliases[a], ps) {
				return false
			}
			n++
		}
	}
	return n == len(s.Aliases)
}

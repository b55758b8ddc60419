package model

import "math/rand"

func init() {
	args := func(one bool) func(r *rand.Rand) []any {
		return func(r *rand.Rand) []any {
			s := cvRandScore(r)
			for i := r.Intn(5); i > 0; i-- {
				cvTry(s, cvRandDecl(r, s))
			}
			if r.Intn(3) == 0 {
				cvTry(s, VoiceMarker{VoiceNumber: int32(1 + r.Intn(3))})
			}
			d := cvRandDecl(r, s)
			if one {
				d.Names = d.Names[:1]
			}
			if full, err := stockInstrumentName(d.Names[0]); err == nil && r.Intn(4) == 0 {
				d.Names[0] = full // a synonym
			}
			if r.Intn(20) == 0 {
				d.Names[0] = "nosuch"
			}
			return []any{d, s}
		}
	}
	cvArgs["model.determineParts+cvDetermineOne"] = args(true)
	cvArgs["model.PartDeclaration.UpdateScore+cvDeclare"] = args(false)
	name := func(r *rand.Rand) []any {
		a := args(true)(r)
		return []any{a[1], a[0].(PartDeclaration).Names[0]}
	}
	for _, f := range []string{"UnnamedParts", "AliasedStockInstruments", "NewPart", "NamedParts"} {
		cvArgs["model.(*Score)."+f] = name
	}
	cvArgs["model.(*Score).AliasesFor"] = func(r *rand.Rand) []any {
		s := args(true)(r)[1].(*Score)
		return []any{s, cvRandPartOf(r, s)}
	}
}

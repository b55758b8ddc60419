package parser

import "math/rand"

func init() {
	cvArgs["parser.Parse"] = func(r *rand.Rand) []any {
		seed := r.Int63()
		text, _, _ := cvCompose(seed)
		return []any{"song.alda", text, seed}
	}
	cvArgs["parser.Parse+cvParseSpoilt"] = func(r *rand.Rand) []any {
		seed, how := r.Int63(), r.Intn(31)
		text, _, _, _ := cvSpoil(seed, how)
		return []any{"song.alda", text, seed, how}
	}
}

func init() {
	cvArgs["parser.FormatASTToCode"] = func(r *rand.Rand) []any {
		seed := r.Int63()
		text, _, _ := cvCompose(seed)
		return []any{text, seed, []int{0, 1, 5, 20, 80, 1000}[r.Intn(6)], []string{"", "  ", "\t", "    "}[r.Intn(4)]}
	}
}

func init() {
	cvArgs["parser.GenerateASTFromScoreUpdates"] = func(r *rand.Rand) []any { return []any{cvImported(r.Int63())} }
}

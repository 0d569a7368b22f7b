package gini

import (
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/internal/xo"
	"github.com/go-air/gini/z"
)

type VerifState = xo.VerifState

func VerifTune(g *Gini, f int)         { g.xo.VerifTune(uint(f)) }
func VerifGc(g *Gini)                  { g.xo.VerifGc() }
func VerifConflicts(g *Gini) int64     { return g.xo.VerifConflicts() }
func VerifProject(g *Gini) *VerifState { return g.xo.VerifProject() }

// VerifLimits: propagations between control ticks, conflicts per luby unit
// between restarts.
func VerifLimits(tick, restart int) { xo.VerifLimits(int64(tick), uint(restart)) }

// VerifInner uses the inner literal y of a wrapped solver: y implies each of
// the user's literals ms.
func VerifInner(sv inter.Sv, y z.Lit, ms []z.Lit) {
	w, ok := sv.(*svWrap)
	if !ok {
		return
	}
	for _, m := range ms {
		w.S.Add(y.Not())
		w.S.Add(w.V.ToInner(m))
		w.S.Add(z.LitNull)
	}
}

package xo

import "github.com/go-air/gini/z"

// VerifState is a projection of the solver's internal state onto what the
// specification speaks about.
type VerifState struct {
	Added   [][]z.Lit // problem clauses kept
	Learnt  [][]z.Lit // learned clauses kept
	Trail   []z.Lit
	Levels  []int     // of Trail literals
	Reasons [][]z.Lit // of Trail literals, nil for decisions
	Head    int
	Level   int
	Bot     bool
	Watched bool // every clause of length >= 2 is watched by its first two literals
	Pending int  // removed but not yet reclaimed clauses
}

// VerifTune makes clause collections frequent.
func (s *S) VerifTune(f uint) {
	s.Cdb.gc.factor = f
	if s.Cdb.gc.stopWatch > f {
		s.Cdb.gc.stopWatch = f
	}
}

// VerifGc asks for a collection at the next opportunity.
func (s *S) VerifGc() { s.Cdb.gc.stopWatch = 0 }

func (s *S) VerifConflicts() int64 { return s.Driver.Conflicts }

func (s *S) VerifProject() *VerifState {
	st := &VerifState{Head: s.Trail.Head, Level: s.Trail.Level, Bot: s.Cdb.Bot != CNull}
	rmd := make(map[z.C]bool)
	for _, c := range s.Cdb.gc.rmq {
		rmd[c] = true
	}
	st.Pending = len(rmd)
	lits := func(c z.C) []z.Lit { return s.Cdb.Lits(c, []z.Lit{}) }
	watchOk := true
	chk := func(c z.C, ms []z.Lit) {
		if len(ms) < 2 {
			return
		}
		for _, m := range ms[:2] {
			found := false
			for _, w := range s.Vars.Watches[m] {
				if w.C() == c {
					found = true
					break
				}
			}
			if !found {
				watchOk = false
			}
		}
	}
	for _, c := range s.Cdb.Added {
		if !rmd[c] {
			ms := lits(c)
			chk(c, ms)
			st.Added = append(st.Added, ms)
		}
	}
	for _, c := range s.Cdb.Learnts {
		if !rmd[c] {
			ms := lits(c)
			chk(c, ms)
			st.Learnt = append(st.Learnt, ms)
		}
	}
	st.Watched = watchOk
	for i := 0; i < s.Trail.Tail; i++ {
		m := s.Trail.D[i]
		st.Trail = append(st.Trail, m)
		st.Levels = append(st.Levels, s.Vars.Levels[m.Var()])
		r := s.Vars.Reasons[m.Var()]
		if r == CNull {
			st.Reasons = append(st.Reasons, nil)
		} else {
			st.Reasons = append(st.Reasons, lits(r))
		}
	}
	return st
}

func VerifLimits(tick int64, restart uint) { PropTick, RestartFactor = tick, restart }

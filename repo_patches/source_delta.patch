From ebaf161b4f6607b3ae499b61e325070658310920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 01/72] fix: remember a conflict found without assumptions

A conflict at level 0 was only kept in s.x; the next Solve, Add or Untest
either derived a bogus clause from it or dropped it, and since its literals
are already propagated it was never found again.  The next Solve then
answered sat and died in its own model check.
---
 internal/xo/s.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/xo/s.go b/internal/xo/s.go
index 9f7d865..349971b 100644
--- a/internal/xo/s.go
+++ b/internal/xo/s.go
@@ -542,6 +542,7 @@ func (s *S) ensure0() {
 	if len(s.testLevels) != 0 {
 		panic("ivalid operation under test scope")
 	}
+	s.learnBot()
 	if s.Trail.Level != 0 {
 		s.Trail.Back(0)
 	}
@@ -550,6 +551,15 @@ func (s *S) ensure0() {
 	s.failed = nil
 }
 
+// learnBot learns the empty clause if the last conflict occured at level 0.
+// Such a conflict holds without any assumptions, and nothing would find it
+// again because it has no unpropagated literals, so it must not be forgotten.
+func (s *S) learnBot() {
+	if s.x != CNull && s.Trail.Level == 0 && s.Cdb.Bot == CNull {
+		s.Cdb.Learn(nil, 0)
+	}
+}
+
 // Assume causes the solver to Assume the literal m to be true for the
 // next call to Solve() or Test().
 //
@@ -639,6 +649,7 @@ func (s *S) solveInit() int {
 func (s *S) cleanupSolve() z.C {
 	trail := s.Trail
 	for s.x != CNull {
+		s.learnBot()
 		if s.Cdb.Bot != CNull { // Cdb.Bot is always checked in makeAssumptions, true empty clause.
 			s.x = CNull
 			break
-- 
2.43.0


From 744eb19fad55addfa6ed05c78de4775fc690e19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 02/72] fix: solve under a failed test keeps the tested
 assumptions

After Test returned unsat, Solve backtracked to the enclosing scope and
answered without the tested assumptions, which are never to be forgotten
until Untest.
---
 internal/xo/s.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/xo/s.go b/internal/xo/s.go
index 349971b..3421c15 100644
--- a/internal/xo/s.go
+++ b/internal/xo/s.go
@@ -46,6 +46,8 @@ type S struct {
 	// keeps level of start of each test (before assumptions)
 	testLevels   []int
 	endTestLevel int
+	// whether the last test scope failed and is not yet untested
+	testFailed bool
 	// assumptionLevel can be > endTestLevel for untested assumptions
 	assumptLevel int
 	assumes      []z.Lit // only last set of requested assumptions before solve/test.
@@ -154,6 +156,7 @@ func (s *S) Copy() *S {
 	other.testLevels = make([]int, len(s.testLevels), cap(s.testLevels))
 	copy(other.testLevels, s.testLevels)
 	other.endTestLevel = s.endTestLevel
+	other.testFailed = s.testFailed
 	other.assumptLevel = s.assumptLevel
 	other.assumes = make([]z.Lit, len(s.assumes), cap(s.assumes))
 	copy(other.assumes, s.assumes)
@@ -359,6 +362,7 @@ func (s *S) Test(ms []z.Lit) (res int, ns []z.Lit) {
 	trail := s.Trail
 	start := trail.Tail
 	if r := s.makeAssumptions(); r == -1 {
+		s.testFailed = true
 		ns = nil
 		res = -1
 		return
@@ -418,6 +422,7 @@ func (s *S) Untest() int {
 	lastTestLevel := s.lastTestLevel()
 	s.testLevels = s.testLevels[:len(s.testLevels)-1]
 	s.endTestLevel = lastTestLevel
+	s.testFailed = false
 	if x := s.cleanupSolve(); x != CNull {
 		s.x = x
 		return -1
@@ -610,6 +615,11 @@ func (s *S) Why(ms []z.Lit) []z.Lit {
 // 0 otherwise.
 func (s *S) solveInit() int {
 
+	// tested assumptions are never forgotten, also if the test failed.
+	if s.testFailed {
+		return -1
+	}
+
 	// set up restarts TODO(wsc) optimize this
 	s.luby = NewLuby()
 	for {
-- 
2.43.0


From 600fe5ff782ae01f2f64e11e961a410f3367ca12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 03/72] fix: untest reports unsat when the clauses are unsat

---
 internal/xo/s.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/xo/s.go b/internal/xo/s.go
index 3421c15..e66efbd 100644
--- a/internal/xo/s.go
+++ b/internal/xo/s.go
@@ -428,6 +428,10 @@ func (s *S) Untest() int {
 		return -1
 	}
 	s.Trail.backWithLates(lastTestLevel)
+	if s.Cdb.Bot != CNull {
+		s.x = s.Cdb.Bot
+		return -1
+	}
 	if x := trail.Prop(); x != CNull {
 		s.x = x
 		return -1
-- 
2.43.0


From 8ca3701f642835cc458ad80ef8112e816569ba96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 04/72] fix: activating a trivially true clause is not an error

---
 internal/xo/active.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/xo/active.go b/internal/xo/active.go
index b0c906d..85c0b4a 100644
--- a/internal/xo/active.go
+++ b/internal/xo/active.go
@@ -37,7 +37,7 @@ func (a *Active) ActivateWith(act z.Lit, s *S) {
 		panic("activated empty clause")
 	}
 	if loc == CInf {
-		panic("activated trivially true clause")
+		// trivially true, whatever is assumed: nothing to activate.
 		return
 	}
 	// add occs
-- 
2.43.0


From 2f6670ea4c3273849814c7ee29f90b1fd450c081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:23 +0000
Subject: [PATCH 05/72] fix: removing clauses keeps the clause being added

---
 internal/xo/cdb.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/xo/cdb.go b/internal/xo/cdb.go
index 98c062c..b9fae9f 100644
--- a/internal/xo/cdb.go
+++ b/internal/xo/cdb.go
@@ -258,7 +258,7 @@ func (c *Cdb) Size(p z.C) int {
 // clause garbage collection.
 func (c *Cdb) Unlink(rms []z.C) {
 	d := c.CDat.D
-	wLits := c.AddLits
+	wLits := c.AddLits[len(c.AddLits):] // nb keep a clause being added
 	wVals := c.AddVals
 	rMap := make(map[z.C]bool, len(rms))
 	for _, p := range rms {
@@ -296,7 +296,6 @@ func (c *Cdb) Unlink(rms []z.C) {
 	for _, m := range wLits {
 		wVals[m.Var()] = 0
 	}
-	c.AddLits = c.AddLits[:0]
 }
 
 func (c *Cdb) SetTracer(t Tracer) {
-- 
2.43.0


From 4cb2b61c1f10005ca5cc62af997db53d792ff04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:23 +0000
Subject: [PATCH 06/72] fix: relocating clauses keeps reasons and the empty
 clause in place

---
 internal/xo/cgc.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/xo/cgc.go b/internal/xo/cgc.go
index 01c7d64..e7bf50a 100644
--- a/internal/xo/cgc.go
+++ b/internal/xo/cgc.go
@@ -193,7 +193,15 @@ func (c *Cgc) relocate(cdb *Cdb, rlm map[z.C]z.C) {
 	cdb.Learnts = relocateSlice(cdb.Learnts, rlm)
 	cdb.Added = relocateSlice(cdb.Added, rlm)
 	// reasons
-	cdb.Vars.Reasons = relocateSlice(cdb.Vars.Reasons, rlm)
+	for v, p := range cdb.Vars.Reasons {
+		if q, ok := rlm[p]; ok {
+			cdb.Vars.Reasons[v] = q
+		}
+	}
+	// empty clause
+	if q, ok := rlm[cdb.Bot]; ok {
+		cdb.Bot = q
+	}
 	// watches
 	c.relocateWatches(cdb, rlm)
 	// activation occs
-- 
2.43.0


From bf29b0bf7965bfa55d5a15eb0f73c196ff87b651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:23 +0000
Subject: [PATCH 07/72] fix: never recycle an activation literal with a fixed
 value

---
 internal/xo/active.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/xo/active.go b/internal/xo/active.go
index 85c0b4a..4510095 100644
--- a/internal/xo/active.go
+++ b/internal/xo/active.go
@@ -62,6 +62,12 @@ func (a *Active) Deactivate(cdb *Cdb, m z.Lit) {
 	m = mv.Pos()
 	sl := a.Occs[mv]
 	a.Occs[mv] = nil
+	if cdb.Vars.Vals[m] != 0 {
+		// m is fixed by what was learned, so the clauses are satisfied (some
+		// may be reasons) and m can never be assumed again: don't recycle it.
+		a.IsActive[mv] = false
+		return
+	}
 	cdb.Remove(sl...) // this might trigger CRemap below, so we update occs first.
 	a.Free = append(a.Free, m)
 	a.IsActive[mv] = false
-- 
2.43.0


From 4a5aaa9d0bfe714f4dd41778479ef5fdcd1085c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 08/72] fix: a time limit ends with its call

---
 internal/xo/s.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/xo/s.go b/internal/xo/s.go
index e66efbd..7c559bf 100644
--- a/internal/xo/s.go
+++ b/internal/xo/s.go
@@ -194,11 +194,14 @@ func (s *S) String() string {
 
 func (s *S) Try(dur time.Duration) int {
 	if dur <= 0 {
+		s.assumes = s.assumes[:0]
 		return 0
 	}
 	s.startTime = time.Now()
 	s.deadline = s.startTime.Add(dur)
-	return s.Solve()
+	res := s.Solve()
+	s.deadline = s.startTime // the limit is for this call only.
+	return res
 }
 
 // Method Solve solves the problem added to the solver under
-- 
2.43.0


From 196e95c495aa98f2a13f762c5b7acd20ce7f70b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 09/72] fix: write exactly the clauses in force

---
 internal/xo/cdat.go | 33 ++++++++++++++++++---------------
 internal/xo/cdb.go  | 15 +++++++++++++--
 2 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/internal/xo/cdat.go b/internal/xo/cdat.go
index b97be00..5c14ced 100644
--- a/internal/xo/cdat.go
+++ b/internal/xo/cdat.go
@@ -194,25 +194,28 @@ func (c *CDat) Forall(f func(i int, p z.C, ms []z.Lit)) {
 
 // func Dimacs writes a dimacs file (no header)
 func (c *CDat) Dimacs(w io.Writer) error {
-	var ret error
-	c.Forall(func(i int, o z.C, ms []z.Lit) {
-		if ret != nil {
-			return
-		}
-		//fmt.Fprintf(w, "%s: ", o)
+	ps := make([]z.C, 0, c.ClsLen)
+	for q := z.C(1); q < z.C(c.Len); q = c.Next(q) {
+		ps = append(ps, q)
+	}
+	return c.dimacs(w, ps)
+}
+
+// dimacs writes the clauses located at ps.
+func (c *CDat) dimacs(w io.Writer, ps []z.C) error {
+	var ms []z.Lit
+	for _, p := range ps {
+		ms = c.Load(p, ms[:0])
 		for _, m := range ms {
-			_, e := fmt.Fprintf(w, "%d ", m.Dimacs())
-			if e != nil {
-				ret = e
-				return
+			if _, e := fmt.Fprintf(w, "%d ", m.Dimacs()); e != nil {
+				return e
 			}
 		}
-		_, e := fmt.Fprintf(w, "0\n")
-		if e != nil {
-			ret = e
+		if _, e := fmt.Fprintf(w, "0\n"); e != nil {
+			return e
 		}
-	})
-	return ret
+	}
+	return nil
 }
 
 // Copy makes a copy of c.
diff --git a/internal/xo/cdb.go b/internal/xo/cdb.go
index b9fae9f..7a3ed46 100644
--- a/internal/xo/cdb.go
+++ b/internal/xo/cdb.go
@@ -303,7 +303,18 @@ func (c *Cdb) SetTracer(t Tracer) {
 }
 
 func (c *Cdb) Write(w io.Writer) error {
-	hdr := []byte(fmt.Sprintf("p cnf %d %d\n", c.Vars.Max, len(c.Added)))
+	// removed clauses stay in c.Added until compaction.
+	rmd := make(map[z.C]bool, len(c.gc.rmq))
+	for _, p := range c.gc.rmq {
+		rmd[p] = true
+	}
+	ps := make([]z.C, 0, len(c.Added))
+	for _, p := range c.Added {
+		if !rmd[p] {
+			ps = append(ps, p)
+		}
+	}
+	hdr := []byte(fmt.Sprintf("p cnf %d %d\n", c.Vars.Max, len(ps)))
 	n := 0
 	for n < len(hdr) {
 		m, e := w.Write(hdr[n:])
@@ -312,7 +323,7 @@ func (c *Cdb) Write(w io.Writer) error {
 			return e
 		}
 	}
-	return c.CDat.Dimacs(w)
+	return c.CDat.dimacs(w, ps)
 }
 
 func (c *Cdb) String() string {
-- 
2.43.0


From c22b76c8faea074e92decee2b31fc228d510cc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:59 +0000
Subject: [PATCH 10/72] fix: the constant is true in all 64 lanes

---
 logic/c.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/c.go b/logic/c.go
index 8ce1d01..b72ab98 100644
--- a/logic/c.go
+++ b/logic/c.go
@@ -228,7 +228,7 @@ func (c *C) Eval(vs []bool) {
 // parallel as the bits of a uint64.
 func (c *C) Eval64(vs []uint64) {
 	N := len(c.nodes)
-	vs[1] = (1 << 63) - 1
+	vs[1] = ^uint64(0)
 	for i := 2; i < N; i++ {
 		n := &c.nodes[i]
 		if n.a < 4 {
-- 
2.43.0


From 7eb6f40a2631c89bd8e3da1f2f37879d6dea9824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:59 +0000
Subject: [PATCH 11/72] fix: the constant is not an input

---
 logic/c.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/c.go b/logic/c.go
index b72ab98..0c4723b 100644
--- a/logic/c.go
+++ b/logic/c.go
@@ -186,7 +186,7 @@ func (c *C) Lit() z.Lit {
 func (c *C) InPos(dst []int) []int {
 	dst = dst[:0]
 	for i, n := range c.nodes {
-		if i == 0 {
+		if i < 2 { // null and the constant
 			continue
 		}
 		if n.a == z.LitNull && n.b == z.LitNull {
-- 
2.43.0


From 7b6ee19a6b67211e9033ff1d7e129b7d2f9cf94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 12/72] fix: unroll literals made after the unroller

---
 logic/roll.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/logic/roll.go b/logic/roll.go
index 3ec3c8a..e32891f 100644
--- a/logic/roll.go
+++ b/logic/roll.go
@@ -22,9 +22,18 @@ func NewRoll(s *S) *Roll {
 	return u
 }
 
+// ensure makes room for v in case u.S has grown since
+// u was created.
+func (u *Roll) ensure(v z.Var) {
+	for int(v) >= len(u.dmap) {
+		u.dmap = append(u.dmap, nil)
+	}
+}
+
 // Len returns the length of the unrolling for literal m.
 func (u *Roll) Len(m z.Lit) int {
 	v := m.Var()
+	u.ensure(v)
 	return len(u.dmap[v])
 }
 
@@ -35,6 +44,7 @@ func (u *Roll) MaxLen() int {
 	max := 0
 	for i := 1; i < len(ns); i++ {
 		v := z.Var(i)
+		u.ensure(v)
 		n := len(u.dmap[v])
 		if n > max {
 			max = n
@@ -49,6 +59,7 @@ func (u *Roll) MaxLen() int {
 // If d < 0, then At panics.
 func (u *Roll) At(m z.Lit, d int) z.Lit {
 	v := m.Var()
+	u.ensure(v)
 	if len(u.dmap[v]) < d {
 		u.At(m, d-1)
 	}
-- 
2.43.0


From ee64acc44364841dfe5427c41a21a6f8e06d4aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 13/72] fix: write constants as the aiger format defines them

---
 logic/aiger/aiger.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index c41442c..f9399b1 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -603,9 +603,14 @@ func (abw *aigerBinWriter) mapLit(m z.Lit) {
 
 // get an aiger literal for a gini literal for writer
 func (abw *aigerBinWriter) forLit(m z.Lit) uint {
-	v := m.Var()
-	a := abw.idMap[v]
-	if a == 0 || m.IsPos() {
+	if m == abw.trueLit {
+		return 1
+	}
+	if m == abw.trueLit.Not() {
+		return 0
+	}
+	a := abw.idMap[m.Var()]
+	if m.IsPos() {
 		return a
 	}
 	return a | 1
@@ -1407,11 +1412,11 @@ func readUint(r *bufio.Reader) (uint, error) {
 // write a literal in AIGER style (modulo 2 gives pos/neg)
 func writeLit(w *bufio.Writer, m, t z.Lit) error {
 	if m == t {
-		_, err := w.WriteString("0")
+		_, err := w.WriteString("1")
 		return err
 	}
 	if m == t.Not() {
-		_, err := w.WriteString("1")
+		_, err := w.WriteString("0")
 		return err
 	}
 	u := m - 2
-- 
2.43.0


From e107566eb9eba24b76c841159ae912b6883885cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 14/72] fix: binary aiger contains the gates of constraints

---
 logic/aiger/aiger.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index f9399b1..1609ba8 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -431,6 +431,7 @@ func (a *T) WriteBinary(w io.Writer) error {
 	dfs.post(a.Outputs...)
 	dfs.post(nexts...)
 	dfs.post(a.Bad...)
+	dfs.post(a.Constraints...)
 	for _, ma := range a.Justice {
 		dfs.post(ma...)
 	}
-- 
2.43.0


From b23cfa14cd9bc8c46aef2b2653f7ad6af2578258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:41 +0000
Subject: [PATCH 15/72] fix: order the operands of binary aiger gates by their
 number in the file

---
 logic/aiger/aiger.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 1609ba8..9fee82f 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -624,16 +624,18 @@ func (abw *aigerBinWriter) writeBinAnd(s *logic.S, m z.Lit) {
 	if s.Type(m) != logic.SAnd {
 		return
 	}
-	// *logic.S stores c0 < c1, aiger
-	// wants c0 > c1, so we swap
-	// the assignment to c1, c0 :=
-	c1, c0 := s.Ins(m)
+	// aiger wants the greater child first, as numbered
+	// in the file.
+	c0, c1 := s.Ins(m)
 	mc0 := abw.forLit(c0)
 	mc1 := abw.forLit(c1)
+	if mc0 < mc1 {
+		mc0, mc1 = mc1, mc0
+	}
 	me := abw.forLit(m)
 	delta0 := me - mc0
 	delta1 := mc0 - mc1
-	if delta0 <= 0 || delta1 <= 0 {
+	if me <= mc0 || mc0 <= mc1 {
 		panic(fmt.Sprintf("incorrect delta computation %s(%s,%s) d0 %d d1 %d mc0 %d mc1 %d\n", m, c1, c0, delta0, delta1, mc0, mc1))
 	}
 	write7(abw.w, delta0)
-- 
2.43.0


From 251138e55a1429c5ff185a814a186252da91db1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:41 +0000
Subject: [PATCH 16/72] fix: the aiger header counts the gates written

---
 logic/aiger/aiger.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 9fee82f..740a155 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -1233,14 +1233,23 @@ type aigerHeader struct {
 // creates a header object from a system and an indication
 // of whether or not the binary version is desired.
 func makeHeader(a *T, binary bool) *aigerHeader {
-	s := a.S
-	N := s.Len()
+	// only the gates which are written count.
 	nAnd := uint(0)
-	for i := 0; i < N; i++ {
-		if s.Type(s.At(i)) == logic.SAnd {
+	dfs := newsDfs(a.S, func(s *logic.S, m z.Lit) {
+		if s.Type(m) == logic.SAnd {
 			nAnd++
 		}
+	})
+	for _, m := range a.Latches {
+		dfs.post(a.Next(m))
 	}
+	dfs.post(a.Outputs...)
+	dfs.post(a.Bad...)
+	dfs.post(a.Constraints...)
+	for _, ma := range a.Justice {
+		dfs.post(ma...)
+	}
+	dfs.post(a.Fair...)
 	return &aigerHeader{
 		Binary:     binary,
 		Max:        uint(a.Len() - 1),
-- 
2.43.0


From dae46322f0709e9efce45ed8952256896c0d0e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 17/72] fix: copy inputs and outputs of an aiger object

---
 logic/aiger/aiger.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 740a155..6b9b8df 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -93,11 +93,15 @@ func Copy(a *T) *T {
 	}
 	result := &T{
 		S:           a.S.Copy(),
+		Inputs:      make([]z.Lit, len(a.Inputs)),
+		Outputs:     make([]z.Lit, len(a.Outputs)),
 		Bad:         make([]z.Lit, len(a.Bad)),
 		Constraints: make([]z.Lit, len(a.Constraints)),
 		Justice:     make([][]z.Lit, len(a.Justice)),
 		Fair:        make([]z.Lit, len(a.Fair)),
 		symbols:     make(map[byte]map[int]string, len(a.symbols))}
+	copy(result.Inputs, a.Inputs)
+	copy(result.Outputs, a.Outputs)
 	copy(result.Bad, a.Bad)
 	copy(result.Constraints, a.Constraints)
 	copy(result.Fair, a.Fair)
-- 
2.43.0


From b5e10dd73b90b5c2b5deb01593f9d40e283f70e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 18/72] fix: naming an aiger element out of bounds is an error

---
 logic/aiger/aiger.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 6b9b8df..713ebe4 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -128,7 +128,7 @@ func (a *T) Sys() *logic.S {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameInput(index int, nm string) error {
-	if index < 0 || index > len(a.Inputs) {
+	if index < 0 || index >= len(a.Inputs) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -150,7 +150,7 @@ func (a *T) InputName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameLatch(index int, nm string) error {
-	if index < 0 || index > len(a.Latches) {
+	if index < 0 || index >= len(a.Latches) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -182,7 +182,7 @@ func (a *T) NewIn() z.Lit {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameOutput(index int, nm string) error {
-	if index < 0 || index > len(a.Outputs) {
+	if index < 0 || index >= len(a.Outputs) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -204,7 +204,7 @@ func (a *T) OutputName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameBad(index int, nm string) error {
-	if index < 0 || index > len(a.Bad) {
+	if index < 0 || index >= len(a.Bad) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -226,7 +226,7 @@ func (a *T) BadName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameConstraint(index int, nm string) error {
-	if index < 0 || index > len(a.Constraints) {
+	if index < 0 || index >= len(a.Constraints) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -248,7 +248,7 @@ func (a *T) ConstraintName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameJustice(index int, nm string) error {
-	if index < 0 || index > len(a.Justice) {
+	if index < 0 || index >= len(a.Justice) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -270,7 +270,7 @@ func (a *T) JusticeName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameFair(index int, nm string) error {
-	if index < 0 || index > len(a.Fair) {
+	if index < 0 || index >= len(a.Fair) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
-- 
2.43.0


From 3ce978993feb604cc0f62a77803f6c79ec055883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:43 +0000
Subject: [PATCH 19/72] fix: keep the sign of simplified gates when reading
 aiger

---
 logic/aiger/aiger.go | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 713ebe4..a1bcc55 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -672,7 +672,7 @@ type aigerReader struct {
 	AigConstraints []uint
 	AigJustice     [][]uint
 	AigFair        []uint
-	varMap         []z.Var
+	litMap         []z.Lit
 	AigAnds        []aigAnd
 }
 
@@ -687,33 +687,22 @@ func makeAigerReader(a *T, hdr *aigerHeader) *aigerReader {
 		AigConstraints: make([]uint, 0, hdr.Constraint),
 		AigJustice:     make([][]uint, 0, hdr.Justice),
 		AigFair:        make([]uint, 0, hdr.Fair),
-		varMap:         make([]z.Var, hdr.Max+1),
+		litMap:         make([]z.Lit, hdr.Max+1),
 		AigAnds:        nil}
-	abr.varMap[0] = a.S.F.Var()
+	abr.litMap[0] = a.S.F
 	return abr
 }
 
 func (abr *aigerReader) mapLit(aigerLit uint, m z.Lit) {
-	abr.varMap[int(aigerLit>>1)] = m.Var()
+	abr.litMap[int(aigerLit>>1)] = m
 }
 
 func (abr *aigerReader) litFor(aigerLit uint) z.Lit {
-	if aigerLit < 2 {
-		if aigerLit == 1 {
-			return abr.S.T
-		}
-		return abr.S.F
-	}
-	v := aigerLit >> 1
-
-	rv := abr.varMap[v]
-	if rv == 0 {
-		return z.LitNull
+	m := abr.litMap[aigerLit>>1]
+	if m != z.LitNull && aigerLit&1 != 0 {
+		return m.Not()
 	}
-	if aigerLit&1 != 0 {
-		return rv.Pos().Not()
-	}
-	return rv.Pos()
+	return m
 }
 
 // once everything is read, we can use the aiglit to gini Literal
@@ -1125,7 +1114,7 @@ func (aigrdr *aigerReader) mapAndsRec(ag *aigAnd, aig uint) error {
 			return UndefinedLit
 		}
 		if !ag0.mapped {
-			if err := aigrdr.mapAndsRec(ag0, c0); err != nil {
+			if err := aigrdr.mapAndsRec(ag0, c0&^1); err != nil {
 				return err
 			}
 		}
@@ -1136,7 +1125,7 @@ func (aigrdr *aigerReader) mapAndsRec(ag *aigAnd, aig uint) error {
 			return UndefinedLit
 		}
 		if !ag1.mapped {
-			if err := aigrdr.mapAndsRec(ag1, c1); err != nil {
+			if err := aigrdr.mapAndsRec(ag1, c1&^1); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From f2dd7d7dba88651e7f6d671c03349d42f9523b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 20/72] fix: check the aiger header counts before relying on
 them

---
 logic/aiger/aiger.go | 119 +++++++++++++++++++++++--------------------
 1 file changed, 65 insertions(+), 54 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index a1bcc55..4302d11 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -459,7 +459,7 @@ func ReadAscii(r io.Reader) (*T, error) {
 	if hdr.Binary {
 		return nil, BinaryMismatch
 	}
-	aiger := Make(int(hdr.Max + 1))
+	aiger := Make(capHint(hdr.Max + 1))
 	aigrdr := makeAigerReader(aiger, hdr)
 	if err := aigrdr.readAsciiInputs(hdr, br); err != nil {
 		return nil, err
@@ -507,7 +507,7 @@ func ReadBinary(r io.Reader) (*T, error) {
 	if !hdr.Binary {
 		return nil, BinaryMismatch
 	}
-	aiger := Make(int(hdr.Max + 1))
+	aiger := Make(capHint(hdr.Max + 1))
 	aigrdr := makeAigerReader(aiger, hdr)
 	var i uint
 	for i = 0; i < hdr.In; i++ {
@@ -651,7 +651,6 @@ func (abw *aigerBinWriter) writeBinAnd(s *logic.S, m z.Lit) {
 // etc.
 type aigAnd struct {
 	children [2]uint
-	defined  bool
 	mapped   bool
 	dfsColor uint8
 }
@@ -672,29 +671,29 @@ type aigerReader struct {
 	AigConstraints []uint
 	AigJustice     [][]uint
 	AigFair        []uint
-	litMap         []z.Lit
-	AigAnds        []aigAnd
+	litMap         map[uint]z.Lit
+	AigAnds        map[uint]*aigAnd
 }
 
 func makeAigerReader(a *T, hdr *aigerHeader) *aigerReader {
 	abr := &aigerReader{
 		T:              a,
-		AigInputs:      make([]uint, 0, hdr.In),
-		AigLatches:     make([]uint, 0, hdr.Latch),
-		AigLatchNexts:  make([]uint, 0, hdr.Latch),
-		AigOutputs:     make([]uint, 0, hdr.Out),
-		AigBad:         make([]uint, 0, hdr.Bad),
-		AigConstraints: make([]uint, 0, hdr.Constraint),
-		AigJustice:     make([][]uint, 0, hdr.Justice),
-		AigFair:        make([]uint, 0, hdr.Fair),
-		litMap:         make([]z.Lit, hdr.Max+1),
+		AigInputs:      make([]uint, 0, capHint(hdr.In)),
+		AigLatches:     make([]uint, 0, capHint(hdr.Latch)),
+		AigLatchNexts:  make([]uint, 0, capHint(hdr.Latch)),
+		AigOutputs:     make([]uint, 0, capHint(hdr.Out)),
+		AigBad:         make([]uint, 0, capHint(hdr.Bad)),
+		AigConstraints: make([]uint, 0, capHint(hdr.Constraint)),
+		AigJustice:     make([][]uint, 0, capHint(hdr.Justice)),
+		AigFair:        make([]uint, 0, capHint(hdr.Fair)),
+		litMap:         make(map[uint]z.Lit, capHint(hdr.Max)),
 		AigAnds:        nil}
 	abr.litMap[0] = a.S.F
 	return abr
 }
 
 func (abr *aigerReader) mapLit(aigerLit uint, m z.Lit) {
-	abr.litMap[int(aigerLit>>1)] = m
+	abr.litMap[aigerLit>>1] = m
 }
 
 func (abr *aigerReader) litFor(aigerLit uint) z.Lit {
@@ -867,7 +866,7 @@ func (aigrdr *aigerReader) readAsciiInputs(hdr *aigerHeader, r *bufio.Reader) er
 }
 
 func (abr *aigerReader) readOutputs(nOut, max uint, r *bufio.Reader) error {
-	abr.AigOutputs = make([]uint, 0, nOut)
+	abr.AigOutputs = make([]uint, 0, capHint(nOut))
 	var i uint
 	for i = 0; i < nOut; i++ {
 		u, e := readUint(r)
@@ -886,8 +885,8 @@ func (abr *aigerReader) readOutputs(nOut, max uint, r *bufio.Reader) error {
 }
 
 func (abr *aigerReader) readBad(r *bufio.Reader, count, max uint) error {
-	abr.AigBad = make([]uint, 0, int(count))
-	abr.Bad = make([]z.Lit, 0, int(count))
+	abr.AigBad = make([]uint, 0, capHint(count))
+	abr.Bad = make([]z.Lit, 0, capHint(count))
 	var i uint
 	for i = 0; i < count; i++ {
 		v, err := readUint(r)
@@ -906,8 +905,8 @@ func (abr *aigerReader) readBad(r *bufio.Reader, count, max uint) error {
 }
 
 func (a *aigerReader) readConstraints(r *bufio.Reader, count, max uint) error {
-	a.AigConstraints = make([]uint, 0, int(count))
-	a.Constraints = make([]z.Lit, 0, int(count))
+	a.AigConstraints = make([]uint, 0, capHint(count))
+	a.Constraints = make([]z.Lit, 0, capHint(count))
 	var i uint
 	for i = 0; i < count; i++ {
 		v, err := readUint(r)
@@ -926,27 +925,23 @@ func (a *aigerReader) readConstraints(r *bufio.Reader, count, max uint) error {
 }
 
 func (a *aigerReader) readJustice(r *bufio.Reader, count, max uint) error {
-	a.Justice = make([][]z.Lit, int(count), int(count))
-	a.AigJustice = make([][]uint, 0, int(count))
-	counts := make([]int, 0, int(count))
+	a.Justice = make([][]z.Lit, 0, capHint(count))
+	a.AigJustice = make([][]uint, 0, capHint(count))
+	counts := make([]uint, 0, capHint(count))
 	var i uint
 	for i = 0; i < count; i++ {
 		v, err := readUint(r)
 		if err != nil {
 			return err
 		}
-		if v > 2*max+1 {
-			return LitOOB
-		}
-		counts = append(counts, int(v))
+		counts = append(counts, v)
 		if err := readNL(r); err != nil {
 			return err
 		}
 	}
-	for i, c := range counts {
-		a.AigJustice = append(a.AigJustice, make([]uint, c, c))
-		a.Justice[i] = make([]z.Lit, c, c)
-		for j := 0; j < c; j++ {
+	for _, c := range counts {
+		us := make([]uint, 0, capHint(c))
+		for j := uint(0); j < c; j++ {
 			v, err := readUint(r)
 			if err != nil {
 				return err
@@ -954,18 +949,20 @@ func (a *aigerReader) readJustice(r *bufio.Reader, count, max uint) error {
 			if v > 2*max+1 {
 				return LitOOB
 			}
-			a.AigJustice[i][j] = v
+			us = append(us, v)
 			if err := readNL(r); err != nil {
 				return err
 			}
 		}
+		a.AigJustice = append(a.AigJustice, us)
+		a.Justice = append(a.Justice, make([]z.Lit, len(us)))
 	}
 	return nil
 }
 
 func (a *aigerReader) readFair(r *bufio.Reader, count, max uint) error {
-	a.AigFair = make([]uint, 0, int(count))
-	a.Fair = make([]z.Lit, 0, int(count))
+	a.AigFair = make([]uint, 0, capHint(count))
+	a.Fair = make([]z.Lit, 0, capHint(count))
 	var i uint
 	for i = 0; i < count; i++ {
 		v, err := readUint(r)
@@ -1011,7 +1008,8 @@ func (aigrdr *aigerReader) readBinaryAnds(hdr *aigerHeader, r *bufio.Reader) err
 }
 
 func (aigrdr *aigerReader) readAsciiAnds(hdr *aigerHeader, r *bufio.Reader) error {
-	aigrdr.AigAnds = make([]aigAnd, hdr.Max+1, hdr.Max+1)
+	aigrdr.AigAnds = make(map[uint]*aigAnd, capHint(hdr.Max+1))
+	ands := make([]uint, 0, capHint(hdr.And))
 	var i uint
 	for i = 0; i < hdr.And; i++ {
 		g, gErr := readUint(r)
@@ -1068,35 +1066,32 @@ func (aigrdr *aigerReader) readAsciiAnds(hdr *aigerHeader, r *bufio.Reader) erro
 			return err
 		}
 		// define the gate in terms of AigAnds
-		aa := &aigrdr.AigAnds[int(g>>1)]
-		if aa.defined {
+		if aigrdr.AigAnds[g>>1] != nil {
 			return AndMultiplyDefined
 		}
-		aa.defined = true
+		aa := &aigAnd{}
+		aigrdr.AigAnds[g>>1] = aa
+		ands = append(ands, g)
 		aa.children[0] = c0
 		aa.children[1] = c1
 	}
-	if err := aigrdr.mapAnds(); err != nil {
+	if err := aigrdr.mapAnds(ands); err != nil {
 		return err
 	}
 	return nil
 }
 
-func (aigrdr *aigerReader) mapAnds() error {
+func (aigrdr *aigerReader) mapAnds(ands []uint) error {
 	for _, m := range aigrdr.AigInputs {
-		ag := &aigrdr.AigAnds[int(m>>1)]
-		ag.defined = true
-		ag.mapped = true
+		aigrdr.AigAnds[m>>1] = &aigAnd{mapped: true}
 	}
 	for _, m := range aigrdr.AigLatches {
-		ag := &aigrdr.AigAnds[int(m>>1)]
-		ag.defined = true
-		ag.mapped = true
+		aigrdr.AigAnds[m>>1] = &aigAnd{mapped: true}
 	}
-	for i := 0; i < len(aigrdr.AigAnds); i++ {
-		ag := &aigrdr.AigAnds[i]
-		if ag.defined && !ag.mapped {
-			if err := aigrdr.mapAndsRec(ag, uint(i*2)); err != nil {
+	for _, g := range ands {
+		ag := aigrdr.AigAnds[g>>1]
+		if !ag.mapped {
+			if err := aigrdr.mapAndsRec(ag, g); err != nil {
 				return err
 			}
 		}
@@ -1109,8 +1104,8 @@ func (aigrdr *aigerReader) mapAndsRec(ag *aigAnd, aig uint) error {
 	case 0:
 		ag.dfsColor = 1
 		c0, c1 := ag.children[0], ag.children[1]
-		ag0 := &aigrdr.AigAnds[int(c0>>1)]
-		if !ag0.defined {
+		ag0 := aigrdr.AigAnds[c0>>1]
+		if ag0 == nil {
 			return UndefinedLit
 		}
 		if !ag0.mapped {
@@ -1120,8 +1115,8 @@ func (aigrdr *aigerReader) mapAndsRec(ag *aigAnd, aig uint) error {
 		}
 		m := aigrdr.litFor(c0)
 
-		ag1 := &aigrdr.AigAnds[int(c1>>1)]
-		if !ag1.defined {
+		ag1 := aigrdr.AigAnds[c1>>1]
+		if ag1 == nil {
 			return UndefinedLit
 		}
 		if !ag1.mapped {
@@ -1209,6 +1204,15 @@ func (ar *aigerReader) readComments(r *bufio.Reader) error {
 	panic("unreachable")
 }
 
+// capHint bounds the storage reserved on behalf of a
+// count which may not be backed by any data.
+func capHint(n uint) int {
+	if n > 1<<16 {
+		return 1 << 16
+	}
+	return int(n)
+}
+
 // header for aiger v 1.9
 type aigerHeader struct {
 	Binary     bool
@@ -1325,6 +1329,13 @@ func readHeader(r *bufio.Reader) (*aigerHeader, error) {
 	result.Constraint = counts[6]
 	result.Justice = counts[7]
 	result.Fair = counts[8]
+	if result.Max >= 1<<30 {
+		return nil, LitOOB
+	}
+	if result.In > result.Max || result.Latch > result.Max-result.In ||
+		result.And > result.Max-result.In-result.Latch {
+		return nil, BadHeader
+	}
 	return result, nil
 }
 
-- 
2.43.0


From 08ad5e3ef70d8e1bb575f764d54901ca556e2abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 21/72] fix: aiger numbers out of range are malformed

---
 logic/aiger/aiger.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 4302d11..1e0aac2 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -1411,6 +1411,9 @@ func readUint(r *bufio.Reader) (uint, error) {
 			return 0, e
 		}
 		if b >= '0' && b <= '9' {
+			if result > (1<<32)/10 {
+				return 0, BadUInt
+			}
 			result *= 10
 			result += uint(b - '0')
 			first = false
-- 
2.43.0


From 1cf8d01a4c415951505bd7c271bc492296a9cd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 22/72] fix: aiger literals are defined once, constants always
 and latch initial values by their own literal

---
 logic/aiger/aiger.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 1e0aac2..039bba8 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -34,6 +34,7 @@ var (
 	SignedAnd          = errors.New("and gate def is negated")
 	CombLoop           = errors.New("combinational logic has a loop")
 	AndMultiplyDefined = errors.New("and gate multiply defined")
+	MultiplyDefined    = errors.New("literal multiply defined")
 	UndefinedLit       = errors.New("literal not defined")
 )
 
@@ -772,14 +773,22 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 	var i uint
 	for i = 0; i < hdr.Latch; i++ {
 		var m z.Lit
+		id := (hdr.In + i + 1) * 2
 		if ascii {
 			latch, latchErr := readUint(br)
 			if latchErr != nil {
 				return latchErr
 			}
+			if latch > hdr.Max*2+1 {
+				return LitOOB
+			}
 			if latch&1 != 0 {
 				return SignedLatch
 			}
+			if abr.litFor(latch) != z.LitNull {
+				return MultiplyDefined
+			}
+			id = latch
 			abr.AigLatches = append(abr.AigLatches, latch)
 			m = abr.S.Latch(abr.S.F)
 			abr.mapLit(latch, m)
@@ -794,9 +803,8 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 				return UnexpectedChar
 			}
 		} else {
-			g := (hdr.In + i + 1) * 2
 			m = abr.S.Latch(abr.S.F)
-			abr.mapLit(g, m)
+			abr.mapLit(id, m)
 		}
 		nxt, errNxt := readUint(br)
 		if errNxt != nil {
@@ -826,7 +834,7 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 				abr.SetInit(m, abr.S.F)
 			} else if ini == 1 {
 				abr.SetInit(m, abr.S.T)
-			} else if ini == (i+hdr.In+1)*2 {
+			} else if ini == id {
 				abr.SetInit(m, 0)
 			} else {
 				return InvalidLatchInit
@@ -854,6 +862,9 @@ func (aigrdr *aigerReader) readAsciiInputs(hdr *aigerHeader, r *bufio.Reader) er
 		if in&1 != 0 {
 			return SignedInput
 		}
+		if aigrdr.litFor(in) != z.LitNull {
+			return MultiplyDefined
+		}
 		m := aigrdr.S.Lit()
 		aigrdr.Inputs = append(aigrdr.Inputs, m)
 		aigrdr.mapLit(in, m)
@@ -1066,7 +1077,7 @@ func (aigrdr *aigerReader) readAsciiAnds(hdr *aigerHeader, r *bufio.Reader) erro
 			return err
 		}
 		// define the gate in terms of AigAnds
-		if aigrdr.AigAnds[g>>1] != nil {
+		if aigrdr.AigAnds[g>>1] != nil || aigrdr.litFor(g) != z.LitNull {
 			return AndMultiplyDefined
 		}
 		aa := &aigAnd{}
@@ -1082,6 +1093,7 @@ func (aigrdr *aigerReader) readAsciiAnds(hdr *aigerHeader, r *bufio.Reader) erro
 }
 
 func (aigrdr *aigerReader) mapAnds(ands []uint) error {
+	aigrdr.AigAnds[0] = &aigAnd{mapped: true}
 	for _, m := range aigrdr.AigInputs {
 		aigrdr.AigAnds[m>>1] = &aigAnd{mapped: true}
 	}
-- 
2.43.0


From 29c51d609af9882774f47d03786d7f681a1b0540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 23/72] fix: reject malformed binary aiger deltas

---
 logic/aiger/aiger.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 039bba8..fcab2c5 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -999,7 +999,7 @@ func (aigrdr *aigerReader) readBinaryAnds(hdr *aigerHeader, r *bufio.Reader) err
 		if err0 != nil {
 			return err0
 		}
-		if delta0 > id {
+		if delta0 == 0 || delta0 > id {
 			return BadDeltaEncoding
 		}
 		c0 := id - delta0
@@ -1479,6 +1479,12 @@ func read7(r *bufio.Reader) (result uint, err error) {
 		if e == io.EOF {
 			return 0, PrematureEOF
 		}
+		if e != nil {
+			return 0, e
+		}
+		if i == 5 {
+			return 0, BadDeltaEncoding
+		}
 		result |= (uint(b) & 0x7f) << uint8(7*i)
 		i++
 		if b&0x80 == 0 {
-- 
2.43.0


From 12a3afbd70fdfd379d5684fe5915360e6b01c901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 24/72] fix: reject malformed aiger symbols and report read
 errors

---
 logic/aiger/aiger.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index fcab2c5..7a9756a 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -1155,6 +1155,9 @@ func (aigrdr *aigerReader) readSymsAndComments(r *bufio.Reader) error {
 		if e == io.EOF {
 			return nil
 		}
+		if e != nil {
+			return e
+		}
 		if b == 'i' || b == 'l' || b == 'o' || b == 'b' || b == 'c' || b == 'j' || b == 'f' {
 			// symtab must precede comments
 			if b == 'c' {
@@ -1175,6 +1178,9 @@ func (aigrdr *aigerReader) readSymsAndComments(r *bufio.Reader) error {
 			if err != nil {
 				return err
 			}
+			if index >= aigrdr.symCount(b) {
+				return InvalidIndex
+			}
 			bs, e := r.ReadByte()
 			if e == io.EOF {
 				return PrematureEOF
@@ -1193,11 +1199,36 @@ func (aigrdr *aigerReader) readSymsAndComments(r *bufio.Reader) error {
 				return err
 			}
 			aigrdr.symbols[b][int(index)] = string(bytes[0 : len(bytes)-1])
+		} else {
+			return InvalidSymbolType
 		}
 	}
 	panic("unreachable")
 }
 
+// symCount gives the number of elements which
+// may have a symbol of type b.
+func (ar *aigerReader) symCount(b byte) uint {
+	n := 0
+	switch b {
+	case 'i':
+		n = len(ar.Inputs)
+	case 'l':
+		n = len(ar.Latches)
+	case 'o':
+		n = len(ar.AigOutputs)
+	case 'b':
+		n = len(ar.AigBad)
+	case 'c':
+		n = len(ar.AigConstraints)
+	case 'j':
+		n = len(ar.AigJustice)
+	case 'f':
+		n = len(ar.AigFair)
+	}
+	return uint(n)
+}
+
 func (ar *aigerReader) readComments(r *bufio.Reader) error {
 	for {
 		comment, err := r.ReadString('\n')
@@ -1211,6 +1242,8 @@ func (ar *aigerReader) readComments(r *bufio.Reader) error {
 			}
 		} else if err == io.EOF {
 			return nil
+		} else if err != nil {
+			return err
 		}
 	}
 	panic("unreachable")
-- 
2.43.0


From 2a5cff91d95e8785033bfa0e250acc06a7bb4e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:24 +0000
Subject: [PATCH 25/72] fix: aiger gates are written with a positive left hand
 side

---
 logic/aiger/dfs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/logic/aiger/dfs.go b/logic/aiger/dfs.go
index 8459fb6..4cdc2dc 100644
--- a/logic/aiger/dfs.go
+++ b/logic/aiger/dfs.go
@@ -32,6 +32,7 @@ func (d *sDfs) post(ms ...z.Lit) {
 }
 
 func (d *sDfs) vis(m z.Lit) {
+	m = m.Var().Pos() // gates are defined by positive literals
 	if d.marks[m.Var()] == 2 {
 		return
 	}
-- 
2.43.0


From d92ab107cb970ed0bfa141a05d4215134149262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:28 +0000
Subject: [PATCH 26/72] fix: filter comments from data which comes with an
 error

---
 dimacs/cfilt.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/dimacs/cfilt.go b/dimacs/cfilt.go
index 74e4e8d..0c8b994 100644
--- a/dimacs/cfilt.go
+++ b/dimacs/cfilt.go
@@ -44,9 +44,6 @@ func (s state) String() string {
 func (f *CommentFilter) Read(buf []byte) (n int, e error) {
 Start:
 	n, e = f.rdr.Read(buf)
-	if e != nil {
-		return n, e
-	}
 	j := 0
 	state := f.state
 	for _, b := range buf[:n] {
@@ -95,8 +92,8 @@ Start:
 		}
 	}
 	f.state = state
-	if j == 0 {
+	if j == 0 && e == nil && len(buf) != 0 {
 		goto Start
 	}
-	return j, nil
+	return j, e
 }
-- 
2.43.0


From e51cb6e6140f0d59d965da654a720613251d727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:28 +0000
Subject: [PATCH 27/72] fix: a comment may follow an empty line after a comment

---
 dimacs/cfilt.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dimacs/cfilt.go b/dimacs/cfilt.go
index 0c8b994..abbbea8 100644
--- a/dimacs/cfilt.go
+++ b/dimacs/cfilt.go
@@ -66,7 +66,11 @@ Start:
 			}
 			buf[j] = b
 			j++
-			state = notComment
+			if b == byte('\n') {
+				state = newLine
+			} else {
+				state = notComment
+			}
 		case newLine:
 			if b == byte('c') {
 				state = inComment
-- 
2.43.0


From c07daac4bfad88a8f1357a7ba106df89437ec859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:28 +0000
Subject: [PATCH 28/72] fix: a lone sign and numbers out of range are not
 literals

---
 dimacs/int.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dimacs/int.go b/dimacs/int.go
index 687c9c7..6356365 100644
--- a/dimacs/int.go
+++ b/dimacs/int.go
@@ -7,6 +7,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 )
 
 func readInt(rdr *bufio.Reader) (int, error) {
@@ -20,8 +21,10 @@ func readInt(rdr *bufio.Reader) (int, error) {
 	if e == io.EOF && c == 0 {
 		return 0, e
 	}
+	digits := false
 	if c >= byte('0') && c <= byte('9') {
 		v = int(c - byte('0'))
+		digits = true
 	} else if c == byte('-') {
 		m = -1
 	} else {
@@ -30,7 +33,7 @@ func readInt(rdr *bufio.Reader) (int, error) {
 	for {
 		c, e = rdr.ReadByte()
 		if e == io.EOF {
-			return v * m, nil
+			break
 		}
 		if e != nil {
 			return 0, e
@@ -41,8 +44,15 @@ func readInt(rdr *bufio.Reader) (int, error) {
 		if c < byte('0') || c > byte('9') {
 			return 0, fmt.Errorf("bad character for int: %c", c)
 		}
+		digits = true
 		v *= 10
 		v += int(c - byte('0'))
+		if v > math.MaxInt32 {
+			return 0, fmt.Errorf("int out of range")
+		}
+	}
+	if !digits {
+		return 0, fmt.Errorf("no digits in int")
 	}
 	return v * m, nil
 }
-- 
2.43.0


From 5d4d30e3d9eacf219c7c9896674d3e77de3a42f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:29 +0000
Subject: [PATCH 29/72] fix: truncated and negative dimacs headers are
 malformed

---
 dimacs/cnf.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dimacs/cnf.go b/dimacs/cnf.go
index c426f7d..0944a1e 100644
--- a/dimacs/cnf.go
+++ b/dimacs/cnf.go
@@ -144,6 +144,9 @@ func (r *cnfReader) readP() error {
 	rdr := r.rdr
 	for _, c := range []byte{byte('p'), byte(' '), byte('c'), byte('n'), byte('f'), byte(' ')} {
 		b, e := rdr.ReadByte()
+		if e == io.EOF {
+			return io.ErrUnexpectedEOF
+		}
 		if e != nil {
 			return e
 		}
@@ -152,13 +155,22 @@ func (r *cnfReader) readP() error {
 		}
 	}
 	nv, e := readInt(rdr)
+	if e == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
 	if e != nil {
 		return e
 	}
 	nc, e := readInt(rdr)
+	if e == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
 	if e != nil {
 		return e
 	}
+	if nv < 0 || nc < 0 {
+		return fmt.Errorf("problem statement: negative count\n")
+	}
 	r.hdrVars = nv
 	r.hdrCls = nc
 	return nil
-- 
2.43.0


From e55174086f2291424bf009bd59ed062b28f9cd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:29 +0000
Subject: [PATCH 30/72] fix: an unterminated clause is an error, not a lost
 clause

---
 dimacs/cnf.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dimacs/cnf.go b/dimacs/cnf.go
index 0944a1e..9d485cd 100644
--- a/dimacs/cnf.go
+++ b/dimacs/cnf.go
@@ -112,14 +112,20 @@ func (r *cnfReader) readBody() error {
 	v := 0
 	var e error
 	vis := r.vis
+	open := false
 	for {
 		v, e = readInt(r.rdr)
 		if e == io.EOF {
+			if open {
+				return fmt.Errorf("clause not terminated\n")
+			}
+			vis.Eof()
 			return nil
 		}
 		if e != nil {
 			return e
 		}
+		open = v != 0
 		if v == 0 {
 			vis.Add(0)
 			r.nCls++
-- 
2.43.0


From fa66a04439184c21649722c326cf2578189cc678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:29 +0000
Subject: [PATCH 31/72] fix: blanks between the parts of icnf, and unterminated
 ones

---
 dimacs/icnf.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dimacs/icnf.go b/dimacs/icnf.go
index 5f058d2..6d3f3a7 100644
--- a/dimacs/icnf.go
+++ b/dimacs/icnf.go
@@ -33,16 +33,20 @@ func (i *iCnfReader) read() error {
 	rdr := i.rdr
 	vis := i.vis
 	assumptions := false
+	open := false
 	for {
-		c, e := rdr.ReadByte()
+		c, e := readNextNonWhiteByte(rdr)
 		if e == io.EOF {
+			if open {
+				return io.ErrUnexpectedEOF
+			}
 			vis.Eof()
 			return nil
 		}
 		if e != nil {
 			return e
 		}
-		if c == 'a' {
+		if c == 'a' && !open {
 			assumptions = true
 		} else {
 			if e := rdr.UnreadByte(); e != nil {
@@ -50,9 +54,13 @@ func (i *iCnfReader) read() error {
 			}
 		}
 		m, e := readLit(rdr)
+		if e == io.EOF {
+			return io.ErrUnexpectedEOF
+		}
 		if e != nil {
 			return e
 		}
+		open = m != z.LitNull
 		if assumptions {
 			vis.Assume(m)
 		} else {
-- 
2.43.0


From cd1a6826de77153cac7c1b870d4252fb82a87799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:30 +0000
Subject: [PATCH 32/72] fix: solver output may have several value lines

---
 dimacs/solve.go | 78 +++++++++++++++++++------------------------------
 1 file changed, 30 insertions(+), 48 deletions(-)

diff --git a/dimacs/solve.go b/dimacs/solve.go
index 8244ad4..a3536ca 100644
--- a/dimacs/solve.go
+++ b/dimacs/solve.go
@@ -18,14 +18,6 @@ func ReadSolve(r io.Reader, vis SolveVis) error {
 	return s.read()
 }
 
-type solveState int
-
-const (
-	neither solveState = iota
-	sol
-	values
-)
-
 type sRdr struct {
 	rdr *bufio.Reader
 	vis SolveVis
@@ -49,54 +41,44 @@ func (s *sRdr) handleSolution(sol string) error {
 func (s *sRdr) read() error {
 	rdr := s.rdr
 	vis := s.vis
-	state := neither
-	solbuf := make([]byte, 0, 32)
-	line := 0
-	for {
-		c, e := rdr.ReadByte()
-		if e == io.EOF {
-			if len(solbuf) != 0 {
-				if e := s.handleSolution(string(solbuf)); e != nil {
+	for line := 0; ; line++ {
+		text, e := rdr.ReadString('\n')
+		if e != nil && e != io.EOF {
+			return e
+		}
+		eof := e == io.EOF
+		text = strings.TrimRight(text, "\r\n")
+		if len(text) != 0 {
+			switch text[0] {
+			case 's':
+				if e := s.handleSolution(text[1:]); e != nil {
 					return e
 				}
+			case 'v':
+				if e := s.handleValues(text[1:]); e != nil {
+					return e
+				}
+			default:
+				return fmt.Errorf("unexpected character '%c' at line %d\n", text[0], line)
 			}
+		}
+		if eof {
 			vis.Eof()
 			return nil
 		}
+	}
+}
+
+func (s *sRdr) handleValues(text string) error {
+	rdr := bufio.NewReader(strings.NewReader(text))
+	for {
+		m, e := readLit(rdr)
+		if e == io.EOF {
+			return nil
+		}
 		if e != nil {
 			return e
 		}
-		if c == byte('\n') {
-			line++
-			state = neither
-			if len(solbuf) != 0 {
-				if e := s.handleSolution(string(solbuf)); e != nil {
-					return e
-				}
-			}
-			solbuf = solbuf[:0]
-			continue
-		}
-		switch state {
-		case neither:
-			if c == byte('s') {
-				state = sol
-			} else if c == byte('v') {
-				state = values
-			} else {
-				return fmt.Errorf("unexpected character '%c' at line %d\n", c, line)
-			}
-		case values:
-			if e := rdr.UnreadByte(); e != nil {
-				return e
-			}
-			m, e := readLit(rdr)
-			if e != nil {
-				return e
-			}
-			vis.Value(m)
-		case sol:
-			solbuf = append(solbuf, c)
-		}
+		s.vis.Value(m)
 	}
 }
-- 
2.43.0


From 08b453850d44105805ff034b28287e550d7ab7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:04 +0000
Subject: [PATCH 33/72] hook: restart and tick limits are variables under the
 verif build tag

---
 internal/xo/limits.go       | 16 ++++++++++++++++
 internal/xo/limits_verif.go | 16 ++++++++++++++++
 internal/xo/s.go            |  9 ---------
 3 files changed, 32 insertions(+), 9 deletions(-)
 create mode 100644 internal/xo/limits.go
 create mode 100644 internal/xo/limits_verif.go

diff --git a/internal/xo/limits.go b/internal/xo/limits.go
new file mode 100644
index 0000000..3550681
--- /dev/null
+++ b/internal/xo/limits.go
@@ -0,0 +1,16 @@
+// Copyright 2016 The Gini Authors. All rights reserved.  Use of this source
+// code is governed by a license that can be found in the License file.
+
+//go:build !verif
+// +build !verif
+
+package xo
+
+const (
+	// for each Solve() call don't restart until this many conflicts.
+	// good for incremental solving.
+	RestartAfter  uint  = 1000
+	RestartFactor       = 768
+	PropTick      int64 = 20000
+	CancelTicks   int64 = 1
+)
diff --git a/internal/xo/limits_verif.go b/internal/xo/limits_verif.go
new file mode 100644
index 0000000..6b0e110
--- /dev/null
+++ b/internal/xo/limits_verif.go
@@ -0,0 +1,16 @@
+// Copyright 2016 The Gini Authors. All rights reserved.  Use of this source
+// code is governed by a license that can be found in the License file.
+
+//go:build verif
+// +build verif
+
+package xo
+
+// With the verif tag these are variables, so that restarts and control ticks
+// can be had from small problems.
+var (
+	RestartAfter  uint  = 1000
+	RestartFactor uint  = 768
+	PropTick      int64 = 20000
+	CancelTicks   int64 = 1
+)
diff --git a/internal/xo/s.go b/internal/xo/s.go
index 7c559bf..e1f53ca 100644
--- a/internal/xo/s.go
+++ b/internal/xo/s.go
@@ -16,15 +16,6 @@ import (
 	"github.com/go-air/gini/z"
 )
 
-const (
-	// for each Solve() call don't restart until this many conflicts.
-	// good for incremental solving.
-	RestartAfter  uint  = 1000
-	RestartFactor       = 768
-	PropTick      int64 = 20000
-	CancelTicks   int64 = 1
-)
-
 // Solver implements a CDCL like solver with
 // some performance bells and whistles
 type S struct {
-- 
2.43.0


From fcdbad1e8c83953c68ecbbadde6706e77c95cbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:21 +0000
Subject: [PATCH 34/72] fix: the first inner variable is not the null variable

---
 z/dv.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/z/dv.go b/z/dv.go
index bc3ae43..face7c4 100644
--- a/z/dv.go
+++ b/z/dv.go
@@ -22,7 +22,10 @@ type Vars struct {
 
 // NewVars creates a new Vars object.
 func NewVars() *Vars {
-	return &Vars{}
+	// slot 0 is LitNull.
+	return &Vars{
+		i2o: make([]Var, 1),
+		o2i: make([]Var, 1)}
 }
 
 func (v *Vars) Copy() *Vars {
-- 
2.43.0


From d89e30158e3a2fa9d56d59e38aab20f82b7ce2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:00 +0000
Subject: [PATCH 35/72] fix: assuming in a wrapped solver leaves the slice of
 the caller alone

---
 sv.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sv.go b/sv.go
index f6a525f..c9fb3c8 100644
--- a/sv.go
+++ b/sv.go
@@ -41,7 +41,8 @@ func (w *svWrap) FreeInner(m z.Lit) {
 }
 
 func (w *svWrap) Assume(ms ...z.Lit) {
-	w.S.Assume(w.V.ToInners(ms)...)
+	// ToInners overwrites its argument, which belongs to the caller.
+	w.S.Assume(w.V.ToInners(append([]z.Lit(nil), ms...))...)
 }
 
 func (w *svWrap) Add(m z.Lit) {
-- 
2.43.0


From fe433737b1ae43626db9c76e9a77029d7871aec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:00 +0000
Subject: [PATCH 36/72] fix: failed assumptions of a wrapped solver are
 appended to dst

---
 sv.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sv.go b/sv.go
index c9fb3c8..ebc9b99 100644
--- a/sv.go
+++ b/sv.go
@@ -58,8 +58,9 @@ func (w *svWrap) Lit() z.Lit {
 }
 
 func (w *svWrap) Why(dst []z.Lit) []z.Lit {
+	n := len(dst) // these are the caller's
 	dst = w.S.Why(dst)
-	return w.V.ToOuters(dst)
+	return dst[:n+len(w.V.ToOuters(dst[n:]))]
 }
 
 func (w *svWrap) Value(m z.Lit) bool {
-- 
2.43.0


From 5baddc11219e18c128c29c127810078a210f1aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:01 +0000
Subject: [PATCH 37/72] fix: clauses and fresh literals of a wrapped solver are
 the user's

---
 sv.go   | 11 ++++++++---
 z/dv.go |  5 +++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/sv.go b/sv.go
index ebc9b99..d454baf 100644
--- a/sv.go
+++ b/sv.go
@@ -46,15 +46,20 @@ func (w *svWrap) Assume(ms ...z.Lit) {
 }
 
 func (w *svWrap) Add(m z.Lit) {
-	w.S.Add(m)
+	w.S.Add(w.V.ToInner(m))
 }
 
 func (w *svWrap) MaxVar() z.Var {
-	return w.S.MaxVar()
+	return w.V.MaxOuter()
 }
 
 func (w *svWrap) Lit() z.Lit {
-	return w.S.Lit()
+	m := (w.V.MaxOuter() + 1).Pos()
+	in := w.V.ToInner(m)
+	for w.S.MaxVar() < in.Var() {
+		w.S.Lit()
+	}
+	return m
 }
 
 func (w *svWrap) Why(dst []z.Lit) []z.Lit {
diff --git a/z/dv.go b/z/dv.go
index face7c4..cb022ca 100644
--- a/z/dv.go
+++ b/z/dv.go
@@ -112,6 +112,11 @@ func (v *Vars) Inner() Lit {
 	return w.Pos()
 }
 
+// MaxOuter returns the greatest variable of the user supplied literals.
+func (v *Vars) MaxOuter() Var {
+	return Var(len(v.o2i) - 1)
+}
+
 // Free frees an application literal created by Inner.  If m is
 // not an application literal, the subsequent behavior of v is
 // undefined.
-- 
2.43.0


From 2db672e64bb61c95f5412519515e04c8d67d95b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 38/72] fix: varuints of more than 32 bits are errors

---
 crisp/vu32io.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crisp/vu32io.go b/crisp/vu32io.go
index 1a1816c..89cee61 100644
--- a/crisp/vu32io.go
+++ b/crisp/vu32io.go
@@ -51,7 +51,10 @@ func (io *vu32io) readu32() (uint32, error) {
 			return 0, e
 		}
 		z := uint32(b) & VarUintMask
-
+		if i == 4 && b > 0xf {
+			// does not fit in 32 bits
+			return 0, ErrVarUint
+		}
 		res = res | (z << s)
 		if b&(1<<7) == 0 {
 			return res, nil
-- 
2.43.0


From d3cb7f4f937e03f6efd47672b26d934a0b0a30ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:19 +0000
Subject: [PATCH 39/72] fix: unread input survives writing on the same
 connection

---
 crisp/vu32io.go | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/crisp/vu32io.go b/crisp/vu32io.go
index 89cee61..7b2738e 100644
--- a/crisp/vu32io.go
+++ b/crisp/vu32io.go
@@ -17,13 +17,15 @@ import (
 // 2. encoding/binary keeps a separate buffer for each value, we code directly
 // to the underlying buffer of the buffered io.
 // 3. we are not safe for multiple goroutines (unliked buffered io)
-// 4. encoding/binary's buffered io needs a separate buffer for reading and
-// writing, we don't in this context.
+//
+// Reading and writing have separate buffers: a peer may send more before it
+// is answered.
 
 type vu32io struct {
 	rw   io.ReadWriter
-	buf  []byte
+	buf  []byte // read, unused data in buf[r:w]
 	r, w int
+	out  []byte // written, not yet flushed
 }
 
 const (
@@ -35,7 +37,8 @@ func newVu32Io(rw io.ReadWriter) *vu32io {
 		rw:  rw,
 		r:   0,
 		w:   0,
-		buf: make([]byte, 1024)}
+		buf: make([]byte, 1024),
+		out: make([]byte, 0, 1024)}
 }
 
 func (io *vu32io) readu32() (uint32, error) {
@@ -138,20 +141,16 @@ func (io *vu32io) readByte() (byte, error) {
 }
 
 func (io *vu32io) writeByte(b byte) error {
-	if io.r >= len(io.buf) {
+	if len(io.out) >= cap(io.out) {
 		if e := io.flush(); e != nil {
 			return e
 		}
 	}
-	io.buf[io.r] = b
-	io.r++
+	io.out = append(io.out, b)
 	return nil
 }
 
 func (vio *vu32io) fill() error {
-	if vio.r > vio.w {
-		return fmt.Errorf("fill without write flush")
-	}
 	if vio.r == vio.w {
 		vio.r = 0
 		vio.w = 0
@@ -173,12 +172,10 @@ func (vio *vu32io) fill() error {
 }
 
 func (io *vu32io) flush() error {
-	n := io.r
-	m := io.w
 	k := 0
-	for m < n {
-		o, e := io.rw.Write(io.buf[m:n])
-		m += o
+	for len(io.out) > 0 {
+		o, e := io.rw.Write(io.out)
+		io.out = io.out[:copy(io.out, io.out[o:])]
 		if o > 0 {
 			k = 0
 		}
@@ -190,7 +187,5 @@ func (io *vu32io) flush() error {
 			return fmt.Errorf("repeated zero length no-error writes.")
 		}
 	}
-	io.r = 0
-	io.w = 0
 	return nil
 }
-- 
2.43.0


From c3aa15aefff893d349366de50af7e3e2c0af25d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:19 +0000
Subject: [PATCH 40/72] fix: requests are checked against the state of the last
 solve

---
 crisp/handler.go | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/crisp/handler.go b/crisp/handler.go
index f84fbc6..89e3eb6 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -100,6 +100,9 @@ func (h *Handler) Crisp() error {
 		if *h.trace {
 			log.Printf("%d received %s\n", h.id, p)
 		}
+		if h.proto == Solve && p != Continue && p != End && p != Quit {
+			return h.Error(ErrOutOfOrder)
+		}
 		switch p {
 		case Key:
 			if e := h.handleKey(); e != nil {
@@ -243,18 +246,15 @@ func (h *Handler) handleSolve() error {
 
 func (h *Handler) handleContinue() error {
 	if h.proto != Solve {
-		log.Printf("continue but not solving.\n")
-		return ErrOutOfOrder
+		return h.Error(ErrOutOfOrder)
 	}
 	return h.handleStep()
 }
 
 func (h *Handler) handleEnd() error {
 	if h.proto != Solve {
-		log.Printf("end but not solving\n")
-		return ErrOutOfOrder
+		return h.Error(ErrOutOfOrder)
 	}
-	h.proto = End
 	return h.sendRes(h.solveConn.Stop(), true)
 }
 
@@ -267,9 +267,12 @@ func (h *Handler) handleStep() error {
 	return h.sendRes(res, false)
 }
 
+// sendRes answers res, after which h.proto is Sat, Unsat or End or, as long as
+// there is no result, Solve.
 func (h *Handler) sendRes(res int, end bool) error {
 	switch res {
 	case -1:
+		h.proto = Unsat
 		if e := h.uio.writeflush(uint32(Unsat)); e != nil {
 			return e
 		}
@@ -278,6 +281,7 @@ func (h *Handler) sendRes(res int, end bool) error {
 		}
 		return nil
 	case 1:
+		h.proto = Sat
 		if e := h.uio.writeflush(uint32(Sat)); e != nil {
 			return e
 		}
@@ -289,6 +293,7 @@ func (h *Handler) sendRes(res int, end bool) error {
 		op := uint32(Unknown)
 		if end {
 			op = uint32(End)
+			h.proto = End
 		}
 		if e := h.uio.writeflush(op); e != nil {
 			return e
@@ -302,10 +307,22 @@ func (h *Handler) sendRes(res int, end bool) error {
 	}
 }
 
+// after gives the error for a request which is only possible after the
+// result p, and notP if there was another result.
+func (h *Handler) after(p ProtoPoint, notP ProtoErr) (ProtoErr, bool) {
+	switch h.proto {
+	case p:
+		return 0, true
+	case Sat, Unsat, End:
+		return notP, false
+	default:
+		return ErrOutOfOrder, false
+	}
+}
+
 func (h *Handler) handleModel() error {
-	if h.proto != Solve {
-		log.Printf("model but not solving.\n")
-		return h.Error(ErrOutOfOrder)
+	if e, ok := h.after(Sat, ErrNotSat); !ok {
+		return h.Error(e)
 	}
 	var u uint32
 	M := uint32(h.gini.MaxVar())
@@ -337,8 +354,8 @@ func (h *Handler) handleModel() error {
 }
 
 func (h *Handler) handleModelFor() error {
-	if h.proto != Solve {
-		return h.Error(ErrOutOfOrder)
+	if e, ok := h.after(Sat, ErrNotSat); !ok {
+		return h.Error(e)
 	}
 	ms, e := h.uio.recv(h.ms)
 	if e != nil {
@@ -369,9 +386,8 @@ func (h *Handler) handleModelFor() error {
 }
 
 func (h *Handler) handleFailed() error {
-	if h.proto != Solve {
-		log.Printf("failed but not solve\n")
-		return h.Error(ErrOutOfOrder)
+	if e, ok := h.after(Unsat, ErrNotUnsat); !ok {
+		return h.Error(e)
 	}
 	fails := h.gini.Why(h.ms)
 	if e := h.uio.send(fails); e != nil {
@@ -381,8 +397,8 @@ func (h *Handler) handleFailed() error {
 }
 
 func (h *Handler) handleFailedFor() error {
-	if h.proto != Solve {
-		return h.Error(ErrOutOfOrder)
+	if e, ok := h.after(Unsat, ErrNotUnsat); !ok {
+		return h.Error(e)
 	}
 	fMap := make(map[z.Lit]struct{})
 	h.ms = h.ms[:0]
-- 
2.43.0


From 85b0f8d0edbdd844139d7a12a54a5fee939183b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:19 +0000
Subject: [PATCH 41/72] fix: a solve ends with its connection

---
 crisp/handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crisp/handler.go b/crisp/handler.go
index 89e3eb6..ba2ed90 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -80,6 +80,9 @@ func (h *Handler) cleanup() {
 		log.Printf("%d cleanup\n", h.id)
 	}
 	h.conn.Close()
+	if h.proto == Solve {
+		h.solveConn.Stop()
+	}
 	h.uio = nil
 	h.gini = nil
 	h.ms = h.ms[:0]
-- 
2.43.0


From 338a6907f4c1b34034db3e2faeb45b7ac3d73121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:20 +0000
Subject: [PATCH 42/72] fix: malformed data is answered with an error

---
 crisp/handler.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crisp/handler.go b/crisp/handler.go
index ba2ed90..abc4523 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -71,6 +71,10 @@ func (h *Handler) serveConn(conn net.Conn) {
 	h.proto = Unknown
 	if e := h.Crisp(); e != nil {
 		log.Printf("%d crisp() result error %s", h.id, e)
+		if pe, ok := e.(ProtoErr); ok && h.uio != nil {
+			// not answered yet
+			h.Error(pe)
+		}
 	}
 	h.cleanup()
 }
@@ -220,7 +224,7 @@ func (h *Handler) handleAdd() error {
 			return nil
 		}
 		if m >= uint32(MinProto) {
-			return fmt.Errorf("CRISP protocol error expected data, got %s", ProtoPoint(m))
+			return ErrNotLit
 		}
 		g.Add(z.Lit(m))
 	}
-- 
2.43.0


From 7dcb54502f833ceed28cbbe516f05f0ffa8d6ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:20 +0000
Subject: [PATCH 43/72] fix: literals of no variable or of unknown ones do not
 crash the server

---
 crisp/handler.go | 12 ++++++++++--
 crisp/vu32io.go  |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/crisp/handler.go b/crisp/handler.go
index abc4523..2f3542c 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -223,7 +223,7 @@ func (h *Handler) handleAdd() error {
 			}
 			return nil
 		}
-		if m >= uint32(MinProto) {
+		if m >= uint32(MinProto) || m == 1 {
 			return ErrNotLit
 		}
 		g.Add(z.Lit(m))
@@ -360,6 +360,14 @@ func (h *Handler) handleModel() error {
 	return h.uio.flush()
 }
 
+// value gives false for variables which are not in the problem.
+func (h *Handler) value(m z.Lit) bool {
+	if m.Var() > h.gini.MaxVar() {
+		return !m.IsPos()
+	}
+	return h.gini.Value(m)
+}
+
 func (h *Handler) handleModelFor() error {
 	if e, ok := h.after(Sat, ErrNotSat); !ok {
 		return h.Error(e)
@@ -379,7 +387,7 @@ func (h *Handler) handleModelFor() error {
 	var u uint32
 	for i := uint32(0); i < N; i++ {
 		j := i % 32
-		if i < M && h.gini.Value(ms[i]) {
+		if i < M && h.value(ms[i]) {
 			u = u | (1 << j)
 		}
 		if j == uint32(31) {
diff --git a/crisp/vu32io.go b/crisp/vu32io.go
index 7b2738e..b15be2f 100644
--- a/crisp/vu32io.go
+++ b/crisp/vu32io.go
@@ -115,7 +115,7 @@ func (io *vu32io) recv(dst []z.Lit) ([]z.Lit, error) {
 		if d == 0 {
 			return dst, nil
 		}
-		if d >= uint32(MinProto) {
+		if d >= uint32(MinProto) || d == 1 {
 			return dst, ErrNotLit
 		}
 		dst = append(dst, z.Lit(d))
-- 
2.43.0


From b58c63de03b0a599930115ff5d51d488d42bc109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:20 +0000
Subject: [PATCH 44/72] fix: the announced length of a key is not allocated

---
 crisp/handler.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crisp/handler.go b/crisp/handler.go
index 2f3542c..9d370e4 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -183,13 +183,14 @@ func (h *Handler) handleKey() error {
 	if e != nil {
 		return e
 	}
-	key := make([]uint32, n)
+	// n is the client's: keep only what really comes.
+	key := make([]uint32, 0, 16)
 	for i := uint32(0); i < n; i++ {
 		m, e := h.uio.readu32()
 		if e != nil {
 			return e
 		}
-		key[i] = m
+		key = append(key, m)
 	}
 	// check the key
 	return nil
-- 
2.43.0


From caec37481a8524cb974a58bb2b868419cea7b323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:57 +0000
Subject: [PATCH 45/72] fix: the client reports errors in sending requests

---
 crisp/client.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crisp/client.go b/crisp/client.go
index 365015a..d05f554 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -114,7 +114,9 @@ func (c *Client) fromXo(x *xo.S) error {
 // To terminate the clause, m should 0.
 func (c *Client) Add(m z.Lit) error {
 	if c.proto != Add {
-		c.checkState(Add)
+		if e := c.checkState(Add); e != nil {
+			return e
+		}
 	}
 	if m.Var() > c.maxVar {
 		c.maxVar = m.Var()
@@ -128,7 +130,9 @@ func (c *Client) Assume(ms ...z.Lit) error {
 	if len(ms) == 0 {
 		return nil
 	}
-	c.checkState(Assume)
+	if e := c.checkState(Assume); e != nil {
+		return e
+	}
 	if e := c.io.send(ms); e != nil {
 		return e
 	}
@@ -226,7 +230,7 @@ func (c *Client) Model(vs []bool) ([]bool, error) {
 		return nil, fmt.Errorf("last solve call wasn't sat")
 	}
 	if e := c.checkState(Model); e != nil {
-		return nil, nil
+		return nil, e
 	}
 	var u uint32
 	var n uint32
@@ -276,7 +280,7 @@ func (c *Client) ModelFor(dst []bool, ms []z.Lit) ([]bool, error) {
 		return nil, fmt.Errorf("last solve call wasn't sat")
 	}
 	if e := c.checkState(ModelFor); e != nil {
-		return nil, nil
+		return nil, e
 	}
 	if e := c.io.send(ms); e != nil {
 		return nil, e
@@ -317,7 +321,7 @@ func (c *Client) Why(ms []z.Lit) ([]z.Lit, error) {
 		return nil, fmt.Errorf("last solve call wasn't unsat")
 	}
 	if e := c.checkState(Failed); e != nil {
-		return ms, nil
+		return ms, e
 	}
 	return c.io.recv(ms)
 }
@@ -330,7 +334,7 @@ func (c *Client) WhySelect(dst []z.Lit, ms []z.Lit) ([]z.Lit, error) {
 		return nil, fmt.Errorf("last solve call wasn't unsat")
 	}
 	if e := c.checkState(FailedFor); e != nil {
-		return dst, nil
+		return dst, e
 	}
 	if e := c.io.send(ms); e != nil {
 		return nil, e
-- 
2.43.0


From d6a300e0608065af6ef275f2178f1b4bac19a4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:57 +0000
Subject: [PATCH 46/72] fix: partial models fit the slice they are put in

---
 crisp/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crisp/client.go b/crisp/client.go
index d05f554..6b6bdd6 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -299,7 +299,7 @@ func (c *Client) ModelFor(dst []bool, ms []z.Lit) ([]bool, error) {
 	if cap(dst) < int(theCap) {
 		dst = make([]bool, theCap)
 	} else {
-		dst = dst[:theCap+1]
+		dst = dst[:theCap]
 	}
 	for i := uint32(0); i < theCap-1; i++ {
 		j := i % 32
-- 
2.43.0


From c05d7b3dbcd5c9d1b6218b0ca7a9e2f4c4480d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:57 +0000
Subject: [PATCH 47/72] fix: cached answers do not outlive their solve

---
 crisp/client.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crisp/client.go b/crisp/client.go
index 6b6bdd6..71e4413 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -255,18 +255,20 @@ func (c *Client) Model(vs []bool) ([]bool, error) {
 		}
 		vs[i+1] = u&(1<<j) != 0
 	}
-	c.model = vs
+	// vs is the caller's.
+	c.model = append([]bool(nil), vs...)
 	return vs, nil
 }
 
 // Value implements the inter.NetModel interface
 func (c *Client) Value(m z.Lit) (bool, error) {
 	if c.model == nil {
-		m, e := c.Model(nil)
-		if e != nil {
+		if _, e := c.Model(nil); e != nil {
 			return false, e
 		}
-		c.model = m
+	}
+	if int(m.Var()) >= len(c.model) {
+		return false, fmt.Errorf("%s is not in the problem", m.Var())
 	}
 	if m.IsPos() {
 		return c.model[m.Var()], nil
@@ -384,6 +386,7 @@ func (c *Client) Reset() error {
 		return e
 	}
 	c.proto = Unknown
+	c.maxVar = 0
 	return nil
 }
 
@@ -406,6 +409,12 @@ func (c *Client) checkState(point ProtoPoint) error {
 			return e
 		}
 	}
+	switch point {
+	case Add, Assume, Solve, Reset:
+		// answers are for the last solve only.
+		c.lastSat = 0
+		c.model = nil
+	}
 	var err error
 	switch point {
 	case Key:
-- 
2.43.0


From eee53b010c3a004404b03a86d21963dba643dd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:58 +0000
Subject: [PATCH 48/72] fix: stopping a solve over the network which has just
 ended returns

---
 crisp/netsolve.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crisp/netsolve.go b/crisp/netsolve.go
index 1b08713..01b7a39 100644
--- a/crisp/netsolve.go
+++ b/crisp/netsolve.go
@@ -39,7 +39,6 @@ func (s *netsolve) Try(d time.Duration) (int, error) {
 func (s *netsolve) Stop() (int, error) {
 	select {
 	case res := <-s.result:
-		s.cancel <- struct{}{}
 		return res.v, res.e
 	case s.cancel <- struct{}{}:
 		r := <-s.result
-- 
2.43.0


From 54cd678c13695813a33be284f2ddd8596635f023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 49/72] fix: stopping an assumption exchanger ends its solves
 and goroutines

---
 ax/ax.go | 64 ++++++++++++++++++++++++++++++++------------------------
 1 file changed, 37 insertions(+), 27 deletions(-)

diff --git a/ax/ax.go b/ax/ax.go
index 0fae038..a972a9e 100644
--- a/ax/ax.go
+++ b/ax/ax.go
@@ -4,6 +4,7 @@
 package ax
 
 import (
+	"sync"
 	"time"
 
 	"github.com/go-air/gini/inter"
@@ -77,9 +78,8 @@ func NewT(proto inter.S, cap int) T {
 // outstanding (*), then pool accepts one more request and waits for a u to
 // become available.
 //
-// When the ax receives a channel close on the request channel from the
-// client, it immediately shuts down the u's, which select on a cancelation
-// channel along with their request channel.
+// When the client stops the ax, a channel is closed on which the ax, the u's and
+// the client select along with everything else, so that all of them end.
 //
 //
 // -ax-(s)-----<Req<----------(s)---Client
@@ -136,6 +136,8 @@ type ax struct {
 	us       []*unit
 	avail    []int
 	cap      int
+	stop     chan struct{} // closed by Stop
+	stopOnce sync.Once
 }
 
 func newAx(proto inter.S, cap int) *ax {
@@ -149,8 +151,9 @@ func newAx(proto inter.S, cap int) *ax {
 		uRespChn: make(chan *Response, 1),
 		us:       make([]*unit, 1, cap),
 		avail:    make([]int, 1, cap),
-		cap:      cap}
-	m.us[0] = newUnit(proto, 0)
+		cap:      cap,
+		stop:     make(chan struct{})}
+	m.us[0] = newUnit(proto, 0, m.stop)
 	m.avail[0] = 0
 	go m.serve()
 	return m
@@ -158,13 +161,20 @@ func newAx(proto inter.S, cap int) *ax {
 
 func (m *ax) Ex(req *Request) *Response {
 	if req == nil {
-		return <-m.respChn
+		select {
+		case resp := <-m.respChn:
+			return resp
+		case <-m.stop:
+			return nil
+		}
 	}
 	select {
 	case m.reqChn <- req:
 		return nil
 	case resp := <-m.respChn:
 		return resp
+	case <-m.stop:
+		return nil
 	}
 }
 
@@ -189,17 +199,15 @@ func (m *ax) TryEx(req *Request) (*Response, bool) {
 }
 
 func (m *ax) Stop() {
-	close(m.reqChn)
+	m.stopOnce.Do(func() { close(m.stop) })
 }
 
 func (m *ax) serve() {
 	for {
 		select {
-		case req, ok := <-m.reqChn:
-			if !ok {
-				m.shutdown()
-				return
-			}
+		case <-m.stop:
+			return
+		case req := <-m.reqChn:
 			m.handleReq(req)
 		case resp := <-m.uRespChn:
 			m.handleResp(resp)
@@ -209,8 +217,12 @@ func (m *ax) serve() {
 
 func (m *ax) handleReq(req *Request) {
 	if len(m.avail) == 0 {
-		resp := <-m.uRespChn
-		m.handleResp(resp)
+		select {
+		case resp := <-m.uRespChn:
+			m.handleResp(resp)
+		case <-m.stop:
+			return
+		}
 	}
 	u := m.getunit(req)
 	//log.Printf("start request %d by %d\n", req.Id, u.I)
@@ -228,7 +240,7 @@ func (m *ax) getunit(req *Request) *unit {
 		ai := m.avail[0]
 		protounit := m.us[ai]
 		m.avail = append(m.avail, len(m.us))
-		m.us = append(m.us, newUnit(protounit.S.SCopy(), len(m.us)))
+		m.us = append(m.us, newUnit(protounit.S.SCopy(), len(m.us), m.stop))
 	}
 
 	//log.Printf("avail %+v/%d/%d\n", m.avail, len(m.us), m.cap)
@@ -252,14 +264,9 @@ func (m *ax) getunit(req *Request) *unit {
 
 func (m *ax) handleResp(resp *Response) {
 	m.avail = append(m.avail, resp.Who)
-	m.respChn <- resp // shouldn't block if client agrees to API
-}
-
-func (m *ax) shutdown() {
-	for _, u := range m.us {
-		if u != nil {
-			u.cancel <- struct{}{}
-		}
+	select {
+	case m.respChn <- resp: // shouldn't block if client agrees to API
+	case <-m.stop:
 	}
 }
 
@@ -267,18 +274,18 @@ type unit struct {
 	I      int
 	S      inter.S
 	Solve  inter.Solve
-	cancel chan struct{}
+	cancel <-chan struct{} // closed when the ax is stopped
 	Start  time.Time
 	Pos    []int // Pos[var] gives count of supplied cubes with positive sign for var
 	Neg    []int
 }
 
-func newUnit(s inter.S, i int) *unit {
+func newUnit(s inter.S, i int, cancel <-chan struct{}) *unit {
 	return &unit{
 		I:      i,
 		S:      s,
 		Solve:  nil,
-		cancel: make(chan struct{}),
+		cancel: cancel,
 		Pos:    make([]int, s.MaxVar()+1),
 		Neg:    make([]int, s.MaxVar()+1)}
 }
@@ -352,7 +359,10 @@ func (u *unit) handleResult(req *Request, res int, c chan<- *Response) {
 	}
 
 	//log.Printf("end req %d by %d:%p\n", req.Id, u.I, u.S)
-	c <- resp
+	select {
+	case c <- resp:
+	case <-u.cancel:
+	}
 }
 
 func (u *unit) score(ms []z.Lit) int {
-- 
2.43.0


From 0da2681cd0afe0541706a8a9a41f65c89a2580ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 50/72] fix: responses of an assumption exchanger tell how many
 are pending

---
 ax/ax.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ax/ax.go b/ax/ax.go
index a972a9e..f8584a2 100644
--- a/ax/ax.go
+++ b/ax/ax.go
@@ -136,6 +136,7 @@ type ax struct {
 	us       []*unit
 	avail    []int
 	cap      int
+	pending  int           // requests taken but not answered
 	stop     chan struct{} // closed by Stop
 	stopOnce sync.Once
 }
@@ -216,6 +217,7 @@ func (m *ax) serve() {
 }
 
 func (m *ax) handleReq(req *Request) {
+	m.pending++
 	if len(m.avail) == 0 {
 		select {
 		case resp := <-m.uRespChn:
@@ -264,6 +266,8 @@ func (m *ax) getunit(req *Request) *unit {
 
 func (m *ax) handleResp(resp *Response) {
 	m.avail = append(m.avail, resp.Who)
+	m.pending--
+	resp.Pending = m.pending
 	select {
 	case m.respChn <- resp: // shouldn't block if client agrees to API
 	case <-m.stop:
-- 
2.43.0


From 844cae433751db36b06369edcc3547955bfbc55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 51/72] fix: the limit of a request generator may be set while
 others use it

---
 ax/req.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ax/req.go b/ax/req.go
index 90ab68c..70cf2d6 100644
--- a/ax/req.go
+++ b/ax/req.go
@@ -99,6 +99,8 @@ func (g *RequestGen) New(ms ...z.Lit) *Request {
 // Limit causes requests generated by g.New() to
 // have time limit d.
 func (g *RequestGen) Limit(d time.Duration) {
+	g.mu.Lock()
+	defer g.mu.Unlock()
 	g.limit = d
 }
 
-- 
2.43.0


From c7c1ad901cbb35c27a8cfa47cb95e6d1c4ca9089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:53 +0000
Subject: [PATCH 52/72] fix: random colouring problems have a variable per node
 and colour and separate the colours of an edge

---
 gen/color.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gen/color.go b/gen/color.go
index 8ddd6ea..407f7da 100644
--- a/gen/color.go
+++ b/gen/color.go
@@ -17,7 +17,7 @@ import (
 func RandColor(dst inter.Adder, n, m, k int) {
 	g := RandGraph(n, m)
 	var mkVar = func(n, c int) z.Var {
-		return z.Var(n*c + c + 1)
+		return z.Var(n*k + c + 1)
 	}
 	for i := range g {
 		for j := 0; j < k; j++ {
@@ -36,8 +36,8 @@ func RandColor(dst inter.Adder, n, m, k int) {
 				b := mkVar(b, c).Neg()
 				dst.Add(a)
 				dst.Add(b)
+				dst.Add(0)
 			}
-			dst.Add(0)
 		}
 	}
 }
-- 
2.43.0


From fc26910fee85b8175d1f7477797d89ca05d7c4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:53 +0000
Subject: [PATCH 53/72] fix: pythagorean triple problems are about the triples
 in [1..n]

---
 gen/pt.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/gen/pt.go b/gen/pt.go
index 3dbf482..8e7591e 100644
--- a/gen/pt.go
+++ b/gen/pt.go
@@ -41,12 +41,12 @@ func Partition(dst inter.Adder, n, k int) {
 // s.t i^2 + j^2 = k^2 in some partition of a k-partition of [1..n]
 func PyTriples(dst inter.Adder, n, k int) {
 	Partition(dst, n, k)
-	_, ts := pytriples(n)
-	for _, t := range ts {
+	for _, t := range pytriplesIn(n) {
 		for p := 0; p < k; p++ {
-			a := PartVar(t.a, p, n)
-			b := PartVar(t.b, p, n)
-			c := PartVar(t.c, p, n)
+			// elements of a partition count from 0.
+			a := PartVar(t.a-1, p, n)
+			b := PartVar(t.b-1, p, n)
+			c := PartVar(t.c-1, p, n)
 			dst.Add(a.Not())
 			dst.Add(b.Not())
 			dst.Add(c.Not())
@@ -141,6 +141,27 @@ func pytriples(n int) (map[int]int, []triple) {
 	return in, res
 }
 
+// pytriplesIn gives all triples (a,b,c) in [1..n] with a < b < c
+// and a^2 + b^2 = c^2.
+func pytriplesIn(n int) []triple {
+	var res []triple
+	for a := 1; a <= n; a++ {
+		c := a + 1
+		for b := a + 1; b < n; b++ {
+			for c*c < a*a+b*b {
+				c++
+			}
+			if c > n {
+				break
+			}
+			if c*c == a*a+b*b {
+				res = append(res, triple{a, b, c})
+			}
+		}
+	}
+	return res
+}
+
 func counts(ts []triple) []int {
 	res := make([]int, 0, len(ts)+len(ts)/2)
 	for _, t := range ts {
-- 
2.43.0


From edf01fc09567ad170371cc52f08baf3e6529f5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:04 +0000
Subject: [PATCH 54/72] fix: pythagorean triple problems miss no triple whose
 hypotenuse is the next square

---
 gen/pt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/pt.go b/gen/pt.go
index 8e7591e..6c634fc 100644
--- a/gen/pt.go
+++ b/gen/pt.go
@@ -91,7 +91,7 @@ func (s *squares) get(i int) int {
 
 func (s *squares) root(v int) int {
 	t := s.d
-	for len(t)*len(t) < v {
+	for len(t)*len(t) <= v {
 		t = append(t, len(t)*len(t))
 	}
 	s.d = t
-- 
2.43.0


From fd079a58396b73aa97c957646d7466d48e8d1dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:12 +0000
Subject: [PATCH 55/72] fix: the time limit of a stand-in solve ends it

---
 gen/rands.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/rands.go b/gen/rands.go
index 81802d1..231ae8e 100644
--- a/gen/rands.go
+++ b/gen/rands.go
@@ -181,7 +181,7 @@ func (c *ctl) Try(d time.Duration) int {
 		c.s.unlock()
 		return r
 	case <-a:
-		return 0
+		return c.Stop()
 	}
 }
 
-- 
2.43.0


From 620f90f2d857093ebd8d312253129a9b34584af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 56/72] fix: copies of a stand-in solver answer like it

---
 gen/rands.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gen/rands.go b/gen/rands.go
index 231ae8e..14e1d2c 100644
--- a/gen/rands.go
+++ b/gen/rands.go
@@ -88,6 +88,8 @@ func (r *randS) SCopy() inter.S {
 	defer r.rmu.Unlock()
 	return &randS{
 		dur:    r.dur,
+		res:    r.res,
+		mv:     r.mv,
 		rand:   rand.New(rand.NewSource(11)),
 		cancel: make(chan struct{}),
 		pause:  make(chan struct{})}
-- 
2.43.0


From 52b22015fe0f79dd0daa02e8039ca2426f28762e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:14 +0000
Subject: [PATCH 57/72] fix: the gini command goes on after an input of unknown
 kind

---
 cmd/gini/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/gini/main.go b/cmd/gini/main.go
index 5691bd4..94d2391 100644
--- a/cmd/gini/main.go
+++ b/cmd/gini/main.go
@@ -400,6 +400,10 @@ func main() {
 			continue
 		}
 		format, e := path2Format(fName)
+		if e != nil {
+			log.Println(e)
+			continue
+		}
 		log.Print(fName)
 		_, e = format.runReader(r)
 		if e != nil {
-- 
2.43.0


From d74740e3435e83d59dc6074028179060b589b89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:30 +0000
Subject: [PATCH 58/72] fix: linked benchmark suites hold links to their
 instances

---
 bench/suite.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bench/suite.go b/bench/suite.go
index 0f81000..dca59f3 100644
--- a/bench/suite.go
+++ b/bench/suite.go
@@ -197,8 +197,12 @@ func (s *Suite) copyInsts(insts []string) error {
 func (s *Suite) linkInsts(insts []string) error {
 	iFmt := iFmtFor(len(insts))
 	for i, inst := range insts {
-		p := fmt.Sprintf(iFmt, i, exts(inst))
-		if e := os.Symlink(inst, p); e != nil {
+		p := filepath.Join(s.Root, fmt.Sprintf(iFmt, i, exts(inst)))
+		org, e := filepath.Abs(inst)
+		if e != nil {
+			return e
+		}
+		if e := os.Symlink(org, p); e != nil {
 			return e
 		}
 	}
-- 
2.43.0


From 8c655158d9973ba7dc27ee39b586d6d5df76e00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:31 +0000
Subject: [PATCH 59/72] fix: the origins and hashes of a benchmark suite are
 read as they were written

---
 bench/suite.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bench/suite.go b/bench/suite.go
index dca59f3..587694d 100644
--- a/bench/suite.go
+++ b/bench/suite.go
@@ -310,10 +310,10 @@ func (s *Suite) readMap() error {
 		if e != nil && e != io.EOF {
 			return e
 		}
-		s.Map = append(s.Map, strings.TrimSpace(line))
-		if e == io.EOF {
+		if e == io.EOF && line == "" {
 			return nil
 		}
+		s.Map = append(s.Map, strings.TrimSuffix(line, "\n"))
 	}
 }
 
@@ -329,10 +329,10 @@ func (s *Suite) readHashes() error {
 		if e != nil && e != io.EOF {
 			return e
 		}
-		s.Hashes = append(s.Hashes, line)
-		if e == io.EOF {
+		if e == io.EOF && line == "" {
 			return nil
 		}
+		s.Hashes = append(s.Hashes, strings.TrimSuffix(line, "\n"))
 	}
 }
 
-- 
2.43.0


From 732285c54b50fbeda90ad1c1f228f9b96b69d94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:31 +0000
Subject: [PATCH 60/72] fix: instances of a benchmark suite need no known
 extension

---
 bench/suite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/suite.go b/bench/suite.go
index 587694d..3ffcac7 100644
--- a/bench/suite.go
+++ b/bench/suite.go
@@ -281,7 +281,7 @@ func (s *Suite) readInsts() error {
 			continue
 		}
 		j := -1
-		_, e := fmt.Sscanf(nm, "bench-%d.", &j)
+		_, e := fmt.Sscanf(nm, "bench-%d", &j)
 		if e != nil {
 			log.Printf("unexpected file in benchmark dir %s: %s\n", s.Root, nm)
 			continue
-- 
2.43.0


From dfe79bbe719ab588526ae1333f97152feea7df83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:32 +0000
Subject: [PATCH 61/72] fix: a benchmark suite just made knows its instances

---
 bench/suite.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bench/suite.go b/bench/suite.go
index 3ffcac7..33c82e5 100644
--- a/bench/suite.go
+++ b/bench/suite.go
@@ -68,6 +68,9 @@ func CreateSuite(root string, insts []string) (*Suite, error) {
 	if e := s.copyInsts(insts); e != nil {
 		return nil, e
 	}
+	if e := s.readInsts(); e != nil {
+		return nil, e
+	}
 	return s, nil
 }
 
@@ -81,6 +84,9 @@ func LinkSuite(root string, insts []string) (*Suite, error) {
 	if e := s.linkInsts(insts); e != nil {
 		return nil, e
 	}
+	if e := s.readInsts(); e != nil {
+		return nil, e
+	}
 	return s, nil
 }
 
-- 
2.43.0


From 128e1e1805e43c22352b28df27d178c029754ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:33 +0000
Subject: [PATCH 62/72] fix: a new benchmark run has its name and belongs to
 its suite

---
 bench/run.go   | 1 +
 bench/suite.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/bench/run.go b/bench/run.go
index 351a19b..38b6177 100644
--- a/bench/run.go
+++ b/bench/run.go
@@ -97,6 +97,7 @@ func NewRun(suite *Suite, name, cmd string, ito, to time.Duration) (*Run, error)
 	}
 	name = fn
 	run := &Run{
+		Name:        name,
 		Cmd:         cmd,
 		Arch:        runtime.GOARCH,
 		Os:          runtime.GOOS,
diff --git a/bench/suite.go b/bench/suite.go
index 33c82e5..fbb6b4d 100644
--- a/bench/suite.go
+++ b/bench/suite.go
@@ -97,6 +97,7 @@ func (s *Suite) Run(name, cmd string, ito, to time.Duration) (*Run, error) {
 	if e != nil {
 		return nil, e
 	}
+	s.Runs = append(s.Runs, run)
 	return run, nil
 }
 
-- 
2.43.0


From c09b92dc5677c9aa5395405b37b903f9ffcd6f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:33 +0000
Subject: [PATCH 63/72] fix: names of benchmark runs stay within the directory
 of runs

---
 bench/run.go   | 17 +++++++++++++----
 bench/suite.go |  3 +++
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/bench/run.go b/bench/run.go
index 38b6177..bcacce7 100644
--- a/bench/run.go
+++ b/bench/run.go
@@ -91,11 +91,9 @@ func OpenRun(suite *Suite, root string) (*Run, error) {
 // The resulting Run is (unfortunately) not yet openable since there
 // are no results
 func NewRun(suite *Suite, name, cmd string, ito, to time.Duration) (*Run, error) {
-	d, fn := filepath.Split(name)
-	if d != "" {
-		return nil, fmt.Errorf("run name should not contain a directory")
+	if e := checkRunName(name); e != nil {
+		return nil, e
 	}
-	name = fn
 	run := &Run{
 		Name:        name,
 		Cmd:         cmd,
@@ -151,6 +149,17 @@ func NewRun(suite *Suite, name, cmd string, ito, to time.Duration) (*Run, error)
 	return run, nil
 }
 
+// checkRunName checks that name names a directory right below the
+// directory of runs of a suite.
+func checkRunName(name string) error {
+	if d, fn := filepath.Split(name); d != "" {
+		return fmt.Errorf("run name should not contain a directory")
+	} else if fn == "" || fn == "." || fn == ".." {
+		return fmt.Errorf("bad run name '%s'", name)
+	}
+	return nil
+}
+
 func (r *Run) Len() int {
 	return len(r.Suite.Insts)
 }
diff --git a/bench/suite.go b/bench/suite.go
index fbb6b4d..6c6e35c 100644
--- a/bench/suite.go
+++ b/bench/suite.go
@@ -103,6 +103,9 @@ func (s *Suite) Run(name, cmd string, ito, to time.Duration) (*Run, error) {
 
 // RemoveRun removes a run named name from the suite s.
 func (s *Suite) RemoveRun(name string) error {
+	if e := checkRunName(name); e != nil {
+		return e
+	}
 	p := filepath.Join(suiteRunDir(s.Root), name)
 	e := os.RemoveAll(p)
 	if e != nil {
-- 
2.43.0


From c310bb68764ae4083b745ee81f0a6fc367bc1d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:34 +0000
Subject: [PATCH 64/72] fix: creating a benchmark run does not overwrite one of
 that name

---
 bench/run.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/run.go b/bench/run.go
index bcacce7..a020309 100644
--- a/bench/run.go
+++ b/bench/run.go
@@ -113,7 +113,7 @@ func NewRun(suite *Suite, name, cmd string, ito, to time.Duration) (*Run, error)
 		parts := strings.Split(e, "=")
 		run.Env[parts[0]] = strings.Join(parts[1:], "=")
 	}
-	if e := os.MkdirAll(run.Root, 0755); e != nil {
+	if e := os.Mkdir(run.Root, 0755); e != nil {
 		return nil, e
 	}
 	if e := run.writeArch(); e != nil {
-- 
2.43.0


From e60be60050d2dc801b1b36232d2fe90c995788ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:35 +0000
Subject: [PATCH 65/72] fix: the environment of a benchmark run is the one it
 recorded

---
 bench/run.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/bench/run.go b/bench/run.go
index a020309..474fbfc 100644
--- a/bench/run.go
+++ b/bench/run.go
@@ -254,14 +254,17 @@ func (r *Run) writeNumCpu() error {
 }
 
 func (r *Run) readEnv() error {
-	env := os.Environ()
-	r.Env = make(map[string]string, len(env))
-	for _, kv := range env {
-		parts := strings.Split(kv, "=")
-		if len(parts) != 2 {
-			return fmt.Errorf("environ %s\n", kv)
+	s, e := p2s(runEnvPath(r.Root))
+	if e != nil {
+		return e
+	}
+	r.Env = make(map[string]string)
+	for _, kv := range strings.Split(s, "\n") {
+		i := strings.Index(kv, "=")
+		if i == -1 {
+			continue
 		}
-		r.Env[parts[0]] = parts[1]
+		r.Env[kv[:i]] = kv[i+1:]
 	}
 	return nil
 }
-- 
2.43.0


From 193e36a52a8fd2844f4283f876196716bf9c9c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:35 +0000
Subject: [PATCH 66/72] fix: a benchmark run has a result for every instance,
 at the index of the instance

---
 bench/run.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bench/run.go b/bench/run.go
index 474fbfc..155047e 100644
--- a/bench/run.go
+++ b/bench/run.go
@@ -106,6 +106,9 @@ func NewRun(suite *Suite, name, cmd string, ito, to time.Duration) (*Run, error)
 		Suite:       suite,
 		Timeout:     to,
 		InstTimeout: ito}
+	for i := range suite.Insts {
+		run.InstRuns = append(run.InstRuns, &InstRun{Run: run, Inst: i})
+	}
 
 	env := os.Environ()
 	run.Env = make(map[string]string, len(env))
@@ -165,7 +168,12 @@ func (r *Run) Len() int {
 }
 
 func (r *Run) Do(i int) (*InstRun, error) {
-	return NewInstRun(r, i)
+	ir, e := NewInstRun(r, i)
+	if e != nil {
+		return nil, e
+	}
+	r.InstRuns[i] = ir
+	return ir, nil
 }
 
 func (r *Run) readCmd() error {
@@ -327,7 +335,7 @@ func (r *Run) readInstRuns() error {
 		ir, e := OpenInstRun(r, i)
 		if e != nil {
 			log.Printf("error opening inst run %d in suite %s: %s\n", i, suite.Root, e)
-			continue
+			ir = &InstRun{Run: r, Inst: i}
 		}
 		r.InstRuns = append(r.InstRuns, ir)
 	}
-- 
2.43.0


From 271c2abbdff9f8689d918210ceb3fe0902f3096e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:36 +0000
Subject: [PATCH 67/72] fix: the error of an instance run is recorded when its
 command does not start, and read as it was written

---
 bench/instrun.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bench/instrun.go b/bench/instrun.go
index 6c54a67..65b6f65 100644
--- a/bench/instrun.go
+++ b/bench/instrun.go
@@ -67,7 +67,7 @@ func OpenInstRun(run *Run, inst int) (*InstRun, error) {
 	if e != nil {
 		return nil, e
 	}
-	ir.Error = ie
+	ir.Error = strings.TrimSuffix(ie, "\n")
 	return ir, nil
 }
 
@@ -142,6 +142,9 @@ func (ir *InstRun) do() {
 	ialarm := time.After(ir.dur())
 	if e := cmd.Start(); e != nil {
 		log.Printf("error starting command '%s': %s\n", ir.Run.Cmd, e)
+		ir.Error = e.Error()
+		ir.Out.Close()
+		ir.Err.Close()
 		return
 	}
 	var wg sync.WaitGroup
-- 
2.43.0


From 81e112895337d7a774561c45de3540eca4cbbc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:36 +0000
Subject: [PATCH 68/72] fix: a benchmark run directory need not have files
 which are never written

---
 bench/run.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/run.go b/bench/run.go
index 155047e..8abff4f 100644
--- a/bench/run.go
+++ b/bench/run.go
@@ -36,7 +36,7 @@ type Run struct {
 func IsRunDir(root string) bool {
 	for _, p := range []string{
 		root, runCmdPath(root), runDescPath(root), runCommitPath(root),
-		runTimeoutPath(root), runTimesPath(root), runResultsPath(root)} {
+		runTimeoutPath(root)} {
 		_, ste := os.Stat(p)
 		if ste != nil {
 			return false
-- 
2.43.0


From 7cff4c112ec2c2f770ee22c4778e8d22f20c6700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:36 +0000
Subject: [PATCH 69/72] fix: selecting runs leaves the suite they are selected
 from alone

---
 bench/suite.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/bench/suite.go b/bench/suite.go
index 6c6e35c..cea2332 100644
--- a/bench/suite.go
+++ b/bench/suite.go
@@ -129,18 +129,16 @@ func (s *Suite) RemoveRun(name string) error {
 func (s *Suite) RunSelect(filt func(*Run) bool) *Suite {
 	res := &Suite{}
 	*res = *s
-	j := 0
-	for _, run := range res.Runs {
+	res.Runs = nil
+	for _, run := range s.Runs {
 		if !filt(run) {
 			continue
 		}
 		rr := &Run{}
 		*rr = *run
 		rr.Suite = res
-		res.Runs[j] = rr
-		j++
+		res.Runs = append(res.Runs, rr)
 	}
-	res.Runs = res.Runs[:j]
 	return res
 }
 
-- 
2.43.0


From 00e1485783744306f08cb2643feeddedcf7fa08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:37 +0000
Subject: [PATCH 70/72] fix: the times of a benchmark run give system time as
 such

---
 bench/cmp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/cmp.go b/bench/cmp.go
index edc9205..e0502f9 100644
--- a/bench/cmp.go
+++ b/bench/cmp.go
@@ -73,7 +73,7 @@ func Times(r *Run) (real float64, user float64, sys float64) {
 	for _, ir := range r.InstRuns {
 		real += float64(ir.Dur) / sec
 		user += float64(ir.UDur) / sec
-		real += float64(ir.SDur) / sec
+		sys += float64(ir.SDur) / sec
 	}
 	return
 }
-- 
2.43.0


From ce32ee5cf0b896bccdc336dfb3dbf3197608a265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:37 +0000
Subject: [PATCH 71/72] fix: the limit of a benchmark instance holds for what
 its command started, too

---
 bench/instrun.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bench/instrun.go b/bench/instrun.go
index 65b6f65..367b47a 100644
--- a/bench/instrun.go
+++ b/bench/instrun.go
@@ -149,7 +149,7 @@ func (ir *InstRun) do() {
 	}
 	var wg sync.WaitGroup
 	go func() {
-		ir.capture(cmd, done, ialarm)
+		ir.capture(cmd, done, ialarm, out, err)
 	}()
 	wg.Add(1)
 	go func() {
@@ -172,12 +172,16 @@ func (ir *InstRun) do() {
 	<-done
 }
 
-func (ir *InstRun) capture(cmd *exec.Cmd, done chan error, ialarm <-chan time.Time) {
+func (ir *InstRun) capture(cmd *exec.Cmd, done chan error, ialarm <-chan time.Time, pipes ...io.Closer) {
 	for {
 		select {
 		case <-ialarm:
 			cmd.Process.Kill()
 			ialarm = nil
+			// processes started by cmd may hold these open
+			for _, p := range pipes {
+				p.Close()
+			}
 		case e := <-done:
 			if e != nil {
 				ir.Error = e.Error()
-- 
2.43.0


From 334bbd2f6a62abfcb6f2cb18fa5265a81b2af659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:37 +0000
Subject: [PATCH 72/72] fix: plots of benchmark runs without times, and of no
 runs, are drawn

---
 bench/cmp.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/bench/cmp.go b/bench/cmp.go
index e0502f9..06c63ae 100644
--- a/bench/cmp.go
+++ b/bench/cmp.go
@@ -145,6 +145,9 @@ func (s *Scatter) Utf8(n int) string {
 			maxDur = d
 		}
 	}
+	if maxDur == 0 {
+		maxDur = 1
+	}
 	for i, xd := range s.Xs {
 		yd := s.Ys[i]
 		xr := float64(xd) / float64(maxDur)
@@ -208,7 +211,7 @@ func NewCactus(suite *Suite, rFilt func(*Run) bool, iFilt func(*Suite, int) bool
 	cactus := &Cactus{
 		MaxDur: maxDur,
 		Runs:   runs}
-	M := len(suite.Runs[0].InstRuns)
+	M := len(suite.Insts)
 	for _, run := range runs {
 		js := make([]int, 0, M)
 		for j := 0; j < M; j++ {
@@ -264,7 +267,10 @@ func (c *Cactus) Utf8(N int) string {
 			jRatio := float64(j) / jDen
 			dj := int(jRatio * float64(N-1))
 			dur := run.InstRuns[p].Dur
-			ratio := float64(dur) / float64(c.MaxDur)
+			ratio := 0.0
+			if c.MaxDur != 0 {
+				ratio = float64(dur) / float64(c.MaxDur)
+			}
 			di := int(ratio * float64(N-1))
 			bidx := idx(dj, di)
 			if buf[bidx] == byte(' ') {
@@ -281,12 +287,12 @@ func (c *Cactus) Utf8(N int) string {
 	j := 0
 	legend := make([]string, 0, len(c.D))
 	for _, r := range ticks {
-		s = strings.Replace(s, fmt.Sprintf("%c", byte('0')+byte(j)), string(r), -1)
-		legend = append(legend, fmt.Sprintf("%s\t%s - %s\n", prefix, string(r), c.Runs[j].Name))
-		j++
 		if j >= len(c.D) {
 			break
 		}
+		s = strings.Replace(s, fmt.Sprintf("%c", byte('0')+byte(j)), string(r), -1)
+		legend = append(legend, fmt.Sprintf("%s\t%s - %s\n", prefix, string(r), c.Runs[j].Name))
+		j++
 	}
 	lines := strings.Split(s, "\n")
 	pLines := make([]string, len(lines))
@@ -298,7 +304,11 @@ func (c *Cactus) Utf8(N int) string {
 	s = strings.Join(pLines, "\n")
 
 	delim := strings.Repeat("-", 2*N)
-	sx := fmt.Sprintf("0%s%-5d", strings.Repeat(" ", 2*N+1-5), len(c.D[0]))
+	n := 0
+	if len(c.D) != 0 {
+		n = len(c.D[0])
+	}
+	sx := fmt.Sprintf("0%s%-5d", strings.Repeat(" ", 2*N+1-5), n)
 	return fmt.Sprintf("%s%s\n%s%s\n%s", s, delim, prefix, sx, strings.Join(legend, ""))
 }
 
-- 
2.43.0


package main

import (
	"fmt"
	"io"
	"os"
	"strings"
	"sync/atomic"
	"time"
)

// CheckText runs a self-contained query given as text (declarations and assertions)
func (s *Solver) CheckText(txt string, to int) Res {
	t0 := time.Now()
	defer func() {
		atomic.AddInt64(&s.st.solverNS, int64(time.Since(t0)))
		atomic.AddInt64(&s.st.queries, 1)
	}()
	if err := s.start(); err != nil {
		return Unknown
	}
	s.setTimeout(to)
	if _, err := io.WriteString(s.in, "(push 1)\n"+txt+"(check-sat)\n"); err != nil {
		s.Close()
		return Unknown
	}
	line, err := s.readLine()
	if err != nil {
		s.Close()
		return Unknown
	}
	if strings.HasPrefix(line, "(error") {
		if os.Getenv("GOVC_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "LIA error:", line)
			os.WriteFile("/tmp/lia-err.smt2", []byte(txt), 0644)
		}
		s.Close()
		return Unknown
	}
	io.WriteString(s.in, "(pop 1)\n")
	switch line {
	case "unsat":
		atomic.AddInt64(&s.st.unsat, 1)
		return Unsat
	case "sat":
		return Sat
	}
	return Unknown
}

func (s *Solver) setTimeout(ms int) {
	if s.curTO != ms && s.bin != "cvc5" {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", ms)
		s.curTO = ms
	}
}

// solveEqs uses unit equalities of the assertions to eliminate variables. It returns the
// rewritten assertions and the eliminated variables with their definitions.
type elim struct {
	v, e *Term
}

func isTrueVar(t *Term) bool { return t.op == OVar }

func occurs(v, t *Term, seen map[*Term]bool) bool {
	if t == v {
		return true
	}
	if len(t.args) == 0 || seen[t] {
		return false
	}
	seen[t] = true
	for _, a := range t.args {
		if occurs(v, a, seen) {
			return true
		}
	}
	return false
}

// solveFor finds a variable x with eq <=> x = e
func (c *Ctx) solveFor(a, b *Term) (v, e *Term) {
	if a.w == 0 {
		return nil, nil
	}
	d := c.Sub(a, b)
	if d.op == OVar {
		return d, c.BV(d.w, 0)
	}
	if d.op != OLin {
		return nil, nil
	}
	best := -1
	for i, x := range d.args {
		if x.op != OVar {
			continue
		}
		if d.coef[i] != 1 && d.coef[i] != mask(d.w) {
			continue
		}
		ok := true
		seen := map[*Term]bool{}
		for j, y := range d.args {
			if j != i && occurs(x, y, seen) {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		// prefer the most recently created variable
		if best < 0 || x.id > d.args[best].id {
			best = i
		}
	}
	if best < 0 {
		return nil, nil
	}
	x := d.args[best]
	// d = 0  =>  x = -(d - x)  or  x = d + x
	if d.coef[best] == 1 {
		return x, c.Neg(c.Sub(d, x))
	}
	return x, c.Add(d, x)
}

func (c *Ctx) solveEqs(as []*Term) ([]*Term, []elim) {
	var els []elim
	for round := 0; round < 40; round++ {
		m := map[*Term]*Term{}
		var extra []*Term
		for i, a := range as {
			switch {
			case a.op == OVar:
				m[a] = c.True
				els = append(els, elim{a, c.True})
			case a.op == ONot && a.args[0].op == OVar:
				m[a.args[0]] = c.False
				els = append(els, elim{a.args[0], c.False})
			case a.op == OEq:
				v, e := c.solveFor(a.args[0], a.args[1])
				if v != nil {
					m[v] = e
					els = append(els, elim{v, e})
					if r, ok := c.rng[v]; ok {
						extra = append(extra, c.Ule(c.BV(v.w, r[0]), e), c.Ule(e, c.BV(v.w, r[1])))
					}
				}
			}
			if len(m) > 0 {
				as = append(append([]*Term(nil), as[:i]...), as[i+1:]...)
				break
			}
		}
		if len(m) == 0 {
			break
		}
		memo := map[*Term]*Term{}
		var out []*Term
		seen := map[*Term]bool{}
		put := func(t *Term) {
			t = c.Subst(t, m, memo)
			for _, x := range flattenAnd(t) {
				if !x.IsTrue() && !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
		}
		for _, a := range as {
			put(a)
		}
		for _, a := range extra {
			put(a)
		}
		as = out
		for _, a := range as {
			if a.IsFalse() {
				return []*Term{c.False}, els
			}
		}
	}
	return as, els
}

func flattenAnd(t *Term) []*Term {
	if t.op != OBAnd {
		return []*Term{t}
	}
	var out []*Term
	for _, a := range t.args {
		out = append(out, flattenAnd(a)...)
	}
	return out
}

func fixModel(m *Model, els []elim) *Model {
	if m == nil || len(els) == 0 {
		return m
	}
	for i := len(els) - 1; i >= 0; i-- {
		m.memo = map[*Term]uint64{}
		m.leaf[els[i].v] = m.Eval(els[i].e)
	}
	m.index()
	return m
}

// hardCheck is used when the quick attempt gave no answer: the integer encoding, then the
// bit-vector encoding with the full time limit, then the second solver
func (ex *Exec) hardCheck(as []*Term, model bool) (Res, *Model) {
	t0 := time.Now()
	stage := "lia"
	if slowDump {
		defer func() { fmt.Fprintf(os.Stderr, "HARD %s %v (%d asserts)\n", stage, time.Since(t0), len(as)) }()
	}
	lt := liaText(ex.Ctx, as)
	if ex.lia.CheckText(lt, 1000) == Unsat {
		return Unsat, nil
	}
	stage = "bv1"
	if r, m, err := ex.solver.CheckT(as, model, 2000); err == nil && r != Unknown {
		return r, m
	}
	stage = "lia2"
	if ex.lia.CheckText(lt, 5000) == Unsat {
		return Unsat, nil
	}
	stage = "bv"
	if slowDump {
		os.WriteFile("/tmp/lia.smt2", []byte(liaText(ex.Ctx, as)+"(check-sat)\n"), 0644)
	}
	r, m, err := ex.solver.CheckT(as, model, ex.solver.timeout)
	if err == nil && r != Unknown {
		return r, m
	}
	stage = "alt"
	if ex.alt != nil {
		r, m, err = ex.alt.CheckT(as, model, ex.alt.timeout)
		if err == nil && r != Unknown {
			return r, m
		}
	}
	return Unknown, nil
}

// mediumCheck is the ladder for path feasibility, where giving up costs little
func (ex *Exec) mediumCheck(as []*Term, model bool) (Res, *Model) {
	t0 := time.Now()
	stage := "m-lia"
	if slowDump {
		defer func() { fmt.Fprintf(os.Stderr, "HARD %s %v (%d asserts)\n", stage, time.Since(t0), len(as)) }()
	}
	switch ex.lia.CheckText(liaText(ex.Ctx, as), 300) {
	case Unsat:
		return Unsat, nil
	case Sat:
		stage = "m-liasat"
		return Unknown, nil // possible as far as the integer encoding can tell
	}
	stage = "m-bv"
	if r, m, err := ex.solver.CheckT(as, model, 1000); err == nil && r != Unknown {
		return r, m
	}
	stage = "m-lia2"
	if ex.lia.CheckText(liaText(ex.Ctx, as), 1500) == Unsat {
		return Unsat, nil
	}
	return Unknown, nil
}

// queryGoal decides pc and not goal, one conjunct of the goal at a time when needed
func (ex *Exec) queryGoal(pc []*Term, goal, ng *Term, model bool) (Res, *Model) {
	as := append(append([]*Term(nil), pc...), ng)
	if goal.op != OBAnd {
		return ex.queryRel(as, model)
	}
	ex.quickOnly = true
	r, m := func() (Res, *Model) {
		defer func() { ex.quickOnly = false }()
		return ex.queryRel(as, model)
	}()
	if r != Unknown {
		return r, m
	}
	pc = append([]*Term(nil), pc...)
	for _, g := range flattenAnd(goal) {
		n := ex.Not(ex.skolemPos(g))
		r, m := ex.queryRel(append(append([]*Term(nil), pc...), n), model)
		if r != Unsat {
			return r, m
		}
		pc = append(pc, g)
	}
	return Unsat, nil
}

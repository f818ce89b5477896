package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	Kind   string // requires/ensures/bounds/nil/...
	Name   string
	Fn     string
	Pos    string
	Status string // discharged / failed / unknown
	By     string
	Model  map[string]any
	Detail string
}

func (o *Obligation) ID() string { return o.Fn + ":" + o.Kind + ":" + o.Name }

type Frame struct {
	fn     *ssa.Function
	fi     *FnInfo
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	ip     int
	env    []Value
	defers []deferRec
	onRet  func(st *State, v Value)
	dst    ssa.Value
	loops  []loopRec
	pan    *panicInfo // panicking: running defers
	rundef bool
	spec   bool // frame of a spec function
	recov  bool
}
type deferRec struct {
	fn   FuncV
	args []Value
}
type panicInfo struct {
	val  Value
	what string
}
type loopRec struct {
	hdr  *ssa.BasicBlock
	mode int // 0 unroll, 1 invariant
	n    int // iterations
	fork int
	inv  *invCtx
}

type State struct {
	pc     []*Term
	heap   Heap
	frames []*Frame
	model  *Model
	done   bool
	ret    Value
	owned  bool
	path   *pathNode
	catch  []catchRec
	steps  int
	selN   int // selects so far
	held   int // locks held
	wlog   *writeLog
	views  []int
	mons   []monitor
	waits  *FuncV   // what others may do while this goroutine waits
	goes   []goCall // goroutines started, for vcGo
	ent    []int    // positions in pc that follow from what precedes them
}

// monitor: the invariant of a mutex, and what others may change while it is not held
type monitor struct {
	p           Ptr
	inv, change FuncV
}
type catchRec struct {
	depth int
	k     func(st *State, v Value)
}
type pathNode struct {
	up   *pathNode
	desc string
}

func (st *State) clone() *State {
	n := *st
	n.pc = append([]*Term(nil), st.pc...)
	n.ent = st.ent[:len(st.ent):len(st.ent)]
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.env = append([]Value(nil), f.env...)
		g.defers = append([]deferRec(nil), f.defers...)
		g.loops = append([]loopRec(nil), f.loops...)
		n.frames[i] = &g
	}
	n.catch = append([]catchRec(nil), st.catch...)
	n.views = append([]int(nil), st.views...)
	return &n
}
func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

type FnInfo struct {
	num   map[ssa.Value]int
	n     int
	loops map[*ssa.BasicBlock]*Loop
}
type Loop struct {
	hdr  *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	ord  int
}

type Exec struct {
	*Ctx
	w         *World
	solver    *Solver
	alt       *Solver
	lia       *Solver
	quickOnly bool
	pureDepth int
	likely    bool // the current query is expected to be unsatisfiable
	symMem    map[*Term][]int
	symID     map[string]int
	relMem    map[string]relRes
	eqMem     map[eqKey]*Term
	trimMem   map[string]*Term
	deciding  bool // the current query only steers the exploration
	st        Stats
	obls      []*Obligation
	fnInfo    map[*ssa.Function]*FnInfo
	globals   map[*ssa.Global]int
	contract  string
	runsGo    bool // goroutines are executed (vcGo)
	inputs    []inputParam
	refute    bool
	merge     bool
	maxUnroll int
	deadline  time.Time
	covers    map[string]bool
	inlined   map[string]bool
	specUsed  map[string]bool
	models    map[string]bool
	target    map[string]bool // functions verified (real body) when called directly
	quiet     int             // suppress obligations (dry runs)
	paths     int
	curPos    token.Pos
	curFn     *ssa.Function
	bounded   []string
	loopsInv  map[string]bool
	loopsCut  map[string]bool
	forked    bool // the run has branched
	loopsUnr  map[string]bool
	nstates   int
	forkCount int
	failFast  bool
	nobl      int
	feasT     int
	siteStat  map[string]int
	assumes   map[string]bool
	natArgs   map[string]Value
	quietMsgs []string
	initing   bool
}

type needFork struct{ c *Term }
type pathEnd struct{}
type budget string

func (ex *Exec) info(fn *ssa.Function) *FnInfo {
	if fi, ok := ex.fnInfo[fn]; ok {
		return fi
	}
	fi := &FnInfo{num: map[ssa.Value]int{}, loops: map[*ssa.BasicBlock]*Loop{}}
	add := func(v ssa.Value) {
		fi.num[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// natural loops
	var hdrs []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &Loop{hdr: s, body: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
					hdrs = append(hdrs, s)
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	sort.Slice(hdrs, func(i, j int) bool { return hdrs[i].Index < hdrs[j].Index })
	// order loops by source position of first positioned instruction in header / body
	sort.SliceStable(hdrs, func(i, j int) bool { return loopPos(fi.loops[hdrs[i]]) < loopPos(fi.loops[hdrs[j]]) })
	for i, h := range hdrs {
		fi.loops[h].ord = i
	}
	ex.fnInfo[fn] = fi
	return fi
}
func loopPos(l *Loop) token.Pos {
	best := token.Pos(1 << 40)
	for b := range l.body {
		for _, in := range b.Instrs {
			if p := in.Pos(); p.IsValid() && p < best {
				best = p
			}
		}
	}
	return best
}

// ---------- path condition
func (ex *Exec) assume(st *State, t *Term) {
	if t.IsTrue() {
		return
	}
	if t.op == OBAnd {
		for _, a := range t.args {
			ex.assume(st, a)
		}
		return
	}
	if t.op == ONot && t.args[0].op == OForall {
		t = ex.Not(ex.skolem(t.args[0]))
		ex.assume(st, t)
		return
	}
	for _, p := range st.pc {
		if p == t {
			return
		}
	}
	if negForall(t, false) {
		if s := ex.skolemNeg(t, false); s != t {
			defer ex.assume(st, s)
		}
	}
	st.pc = append(st.pc, t)
	if st.model != nil {
		if t.op == OForall {
			st.model.weak = true
		} else if st.model.Eval(t) == 0 || st.model.bad {
			st.model = nil
		}
	}
}

// negForall tells if a quantified part occurs negatively in t (neg: t itself is negated)
func negForall(t *Term, neg bool) bool {
	switch t.op {
	case OForall:
		return neg
	case ONot:
		return negForall(t.args[0], !neg)
	case OBAnd, OBOr:
		for _, a := range t.args {
			if negForall(a, neg) {
				return true
			}
		}
	}
	return false
}

// skolemNeg gives the parts of an assumption that say "not for all" a witness
func (ex *Exec) skolemNeg(t *Term, neg bool) *Term {
	switch t.op {
	case OForall:
		if neg {
			return ex.skolem(t)
		}
	case ONot:
		return ex.Not(ex.skolemNeg(t.args[0], !neg))
	case OBAnd, OBOr:
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = ex.skolemNeg(a, neg)
		}
		if t.op == OBAnd {
			return ex.BAnd(as...)
		}
		return ex.BOr(as...)
	}
	return t
}
func (ex *Exec) skolem(f *Term) *Term {
	bv := f.args[1]
	v := ex.Fresh("sk", bv.w)
	return ex.Subst(f.args[0], map[*Term]*Term{bv: v}, map[*Term]*Term{})
}

func (ex *Exec) known(st *State, c *Term) (bool, bool) {
	if c.IsConst() {
		return c.val == 1, true
	}
	n := ex.Not(c)
	for _, p := range st.pc {
		if p == c {
			return true, true
		}
		if p == n {
			return false, true
		}
	}
	return false, false
}

// instantiate positive foralls in the assumptions with relevant indices
func (ex *Exec) instantiate(as []*Term) []*Term {
	var fs, out []*Term
	for _, a := range as {
		collectForall(a, &fs)
	}
	if len(fs) == 0 {
		return as
	}
	for _, a := range as {
		out = append(out, a)
	}
	done := map[string]bool{}
	for round := 0; round < 3; round++ {
		// collect select terms by base name
		idx := map[string][]*Term{}
		for _, l := range leaves(out) {
			if l.op == OSel || l.op == OUF {
				if !l.hasB {
					idx[l.name] = append(idx[l.name], l)
				}
			}
		}
		added := false
		for _, f := range fs {
			bv := f.args[1]
			for _, pat := range patterns(f.args[0], bv) {
				for _, g := range idx[pat.name] {
					// solve pat.args == g.args for bv
					v := ex.matchIdx(pat, g, bv)
					if v == nil || v.hasB {
						continue
					}
					k := fmt.Sprintf("%d/%d", f.id, v.id)
					if done[k] || len(done) > 400 {
						continue
					}
					done[k] = true
					inst := ex.Subst(f.args[0], map[*Term]*Term{bv: v}, map[*Term]*Term{})
					// the body was simplified under the range of the bound variable
					in := ex.BAnd(ex.Ule(ex.BV(64, bv.lo), v), ex.Ule(v, ex.BV(64, bv.hi)))
					out = append(out, ex.Implies(ex.BAnd(f, in), inst))
					added = true
				}
			}
		}
		if !added {
			break
		}
	}
	return out
}

// replace foralls by boolean proxies after instantiation (sound for unsat)
func (ex *Exec) proxyForall(ts []*Term) []*Term {
	memo := map[*Term]*Term{}
	m := map[*Term]*Term{}
	var fs []*Term
	for _, t := range ts {
		collectForall(t, &fs)
	}
	for _, f := range fs {
		m[f] = ex.Var(fmt.Sprintf("fa!%d", f.id), 0)
	}
	if len(fs) == 0 {
		return ts
	}
	out := make([]*Term, len(ts))
	for i, t := range ts {
		out[i] = ex.Subst(t, m, memo)
	}
	return out
}
func collectForall(t *Term, out *[]*Term) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OForall {
			for _, o := range *out {
				if o == t {
					return
				}
			}
			*out = append(*out, t)
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
}
func patterns(b, bv *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.hasB {
			return
		}
		seen[t] = true
		if t.op == OSel || t.op == OUF {
			out = append(out, t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(b)
	return out
}
func (ex *Exec) matchIdx(pat, g *Term, bv *Term) *Term {
	if len(pat.args) != len(g.args) {
		return nil
	}
	for i, a := range pat.args {
		if !a.hasB {
			continue
		}
		if a == bv {
			return g.args[i]
		}
		if a.op == OLin {
			for j, x := range a.args {
				if x == bv && (a.coef[j] == 1) {
					rest := ex.Sub(a, bv)
					return ex.Sub(g.args[i], rest)
				}
			}
		}
	}
	return nil
}

const quickMs = 60

var slowQ = os.Getenv("GOVC_SLOW") != ""

func (ex *Exec) query(as []*Term, model bool) (Res, *Model) {
	if slowQ {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > 300*time.Millisecond {
				fmt.Fprintf(os.Stderr, "SLOW %v quick=%v deciding=%v quiet=%d last: %s\n", d, ex.quickOnly, ex.deciding, ex.quiet, trunc(as[len(as)-1].String(), 300))
			}
		}()
	}
	if time.Now().After(ex.deadline) {
		panic(budget("time budget exceeded"))
	}
	as2 := as
	hf := hasForall(as)
	if hf {
		as2 = ex.proxyForall(ex.instantiate(as))
	}
	as3, els := ex.solveEqs(as2)
	if len(as3) == 1 && as3[0].IsFalse() {
		return Unsat, nil
	}
	if ex.likely && len(as3) > 4 {
		if ex.lia.CheckText(liaText(ex.Ctx, as3), 100) == Unsat {
			return Unsat, nil
		}
	}
	r, m, err := ex.solver.CheckT(as3, model, quickMs)
	if err != nil {
		if os.Getenv("GOVC_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "solver error:", err)
		}
		r, m, err = ex.solver.CheckT(as3, model, quickMs)
	}
	if r == Unknown && !ex.quickOnly {
		if ex.deciding {
			r, m = ex.mediumCheck(as3, model)
		} else {
			r, m = ex.hardCheck(as3, model)
		}
	}
	m = fixModel(m, els)
	if r == Sat && hf && m != nil {
		m.weak = true // not a model of the quantified formulas
	}
	return r, m
}

// feasible checks pc ∧ c
func (ex *Exec) feasible(st *State, c *Term) bool {
	if c.IsFalse() {
		return false
	}
	if st.model != nil && !st.model.bad && (!st.model.weak || ex.deciding) && st.model.Eval(c) == 1 && !st.model.bad {
		return true
	}
	as := append(append([]*Term(nil), st.pc...), c)
	t0 := time.Now()
	r, m := ex.queryRel(as, true)
	if qlog {
		_, at := ex.where(st)
		fmt.Fprintf(os.Stderr, "Q %d %s %v %.150s\n", time.Since(t0).Milliseconds(), at, r, c)
	}
	if r == Unsat {
		return false
	}
	if r == Sat && m != nil && !m.bad && !m.part {
		// remember for the caller (only valid when c is then assumed)
		ex.lastModel(st, c, m)
	}
	return true
}

var _ = os.Stderr

type pend struct {
	c *Term
	m *Model
}

func (ex *Exec) lastModel(st *State, c *Term, m *Model) {
	if st.model == nil {
		st.model = m // m satisfies pc
	}
}

// decide returns the truth value of c on this path, forking if both are possible
func (ex *Exec) decide(st *State, c *Term) bool {
	if v, ok := ex.known(st, c); ok {
		return v
	}
	// only "unsat" matters here: a branch wrongly taken for possible is explored, and what is
	// asserted on it is still proved from its contradictory path condition
	ex.deciding = true
	defer func() { ex.deciding = false }()
	if n := len(st.frames); n > 0 && (st.model == nil || st.model.bad) && ex.w.isSpec(st.frames[n-1].fn) {
		// what a contract asks after the call usually holds
		ex.likely = true
		f := ex.feasible(st, ex.Not(c))
		ex.likely = false
		if !f {
			ex.addFact(st, c)
			return true
		}
	}
	t := ex.feasible(st, c)
	if !t {
		ex.addFact(st, ex.Not(c))
		return false
	}
	f := ex.feasible(st, ex.Not(c))
	if !f {
		ex.addFact(st, c)
		return true
	}
	panic(needFork{c})
}

// add implied fact (already entailed) to pc for syntactic lookups
func (ex *Exec) addFact(st *State, c *Term) {
	if len(st.pc) < 400 {
		m := st.model
		n := len(st.pc)
		ex.assume(st, c)
		for ; n < len(st.pc); n++ {
			st.ent = append(st.ent, n)
		}
		st.model = m
	}
}

// mustBe: is c entailed (no fork, no side effect)
func (ex *Exec) mustBe(st *State, c *Term) bool {
	if v, ok := ex.known(st, c); ok {
		return v
	}
	return !ex.feasible(st, ex.Not(c))
}

func (ex *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := ex.w.fset.Position(p)
	f := ps.Filename
	f = strings.TrimPrefix(f, ex.w.repo+"/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (ex *Exec) where(st *State) (string, string) {
	for i := len(st.frames) - 1; i >= 0; i-- {
		fr := st.frames[i]
		if fr.fn.Pkg != nil && ex.w.isRepoPkg(fr.fn.Pkg) {
			pos := token.NoPos
			if i == len(st.frames)-1 {
				pos = ex.curPos
			}
			if !pos.IsValid() {
				for k := fr.ip - 1; k >= 0 && k < len(fr.blk.Instrs); k-- {
					if p := fr.blk.Instrs[k].Pos(); p.IsValid() {
						pos = p
						break
					}
				}
			}
			return fr.fn.RelString(nil), ex.posStr(pos)
		}
	}
	return st.top().fn.String(), ""
}

// prove checks an obligation on the current path and then assumes it
func (ex *Exec) prove(st *State, goal *Term, kind, name string) bool {
	if ex.quiet > 0 {
		ex.assume(st, goal)
		if goal.IsFalse() {
			panic(pathEnd{})
		}
		return true
	}
	ex.nobl++
	fn, pos := ex.where(st)
	ob := &Obligation{Kind: kind, Name: name, Fn: fn, Pos: pos}
	if v, ok := ex.known(st, goal); ok && v {
		ob.Status, ob.By = "discharged", "simplifier"
		ex.obls = append(ex.obls, ob)
		return true
	}
	ng := ex.Not(goal)
	g2 := ng
	if goal.op == OForall {
		g2 = ex.Not(ex.skolem(goal))
	} else if goal.op == OBAnd || goal.op == OBOr {
		g2 = ex.Not(ex.skolemPos(goal))
	}
	as := append(append([]*Term(nil), st.pc...), g2)
	var r Res
	var m *Model
	if st.model != nil && !st.model.bad && !st.model.weak && st.model.Eval(g2) == 1 && !st.model.bad {
		r, m = Sat, st.model
	} else {
		ex.likely = true
		r, m = ex.queryGoal(st.pc, goal, g2, true)
		ex.likely = false
	}
	switch r {
	case Unsat:
		ob.Status, ob.By = "discharged", "z3"
		ex.obls = append(ex.obls, ob)
	default:
		ob.Status = "failed"
		if r == Unknown {
			ob.Status = "unknown"
		}
		ob.By = ex.solver.bin
		ob.Detail = goal.String()
		if m != nil {
			m = ex.smallModel(as, m)
			ob.Model = ex.extractInputs(st, m)
			if os.Getenv("GOVC_DUMP") != "" {
				for _, a := range as {
					fmt.Fprintln(os.Stderr, "  AS", a)
				}
				fmt.Fprintln(os.Stderr, "  INST")
				for _, a := range ex.instantiate(as)[len(as):] {
					fmt.Fprintln(os.Stderr, "  IN", a)
				}
			}
			if m.bad || m.weak {
				ob.Detail += " [quantified facts only instantiated]"
			}
		}
		if os.Getenv("GOVC_PATH") != "" {
			for n := st.path; n != nil; n = n.up {
				ob.Detail += "\n    <- " + n.desc
			}
		}
		ex.obls = append(ex.obls, ob)
	}
	if r != Unsat {
		if goal.IsFalse() || !ex.feasible(st, goal) {
			panic(pathEnd{})
		}
	}
	n := len(st.pc)
	ex.assume(st, goal)
	for ; r == Unsat && n < len(st.pc); n++ {
		st.ent = append(st.ent, n)
	}
	return r == Unsat
}

// skolemise universally quantified parts in positive position
func (ex *Exec) skolemPos(t *Term) *Term {
	switch t.op {
	case OForall:
		return ex.skolem(t)
	case OBAnd, OBOr:
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = ex.skolemPos(a)
		}
		if t.op == OBAnd {
			return ex.BAnd(as...)
		}
		return ex.BOr(as...)
	}
	return t
}

func (ex *Exec) fail(st *State, kind, name, detail string) {
	if ex.quiet > 0 {
		panic(pathEnd{})
	}
	fn, pos := ex.where(st)
	ob := &Obligation{Kind: kind, Name: name, Fn: fn, Pos: pos, Status: "failed", By: "engine", Detail: detail}
	r, m := ex.query(st.pc, true)
	if r == Unsat {
		ob.Status = "discharged"
		ob.By = "z3"
		ob.Detail = ""
	} else if m != nil {
		m = ex.smallModel(st.pc, m)
		ob.Model = ex.extractInputs(st, m)
	}
	ex.nobl++
	ex.obls = append(ex.obls, ob)
	panic(pathEnd{})
}

// ---------- running
type runCtx struct {
	work      []*State
	out       []*State
	stop      func(st *State) bool
	maxStates int
}

func (ex *Exec) runAll(start *State, stop func(*State) bool) []*State {
	rc := &runCtx{work: []*State{start}, stop: stop}
	for len(rc.work) > 0 {
		st := rc.work[len(rc.work)-1]
		rc.work = rc.work[:len(rc.work)-1]
		ex.runState(rc, st)
	}
	return rc.out
}

func (ex *Exec) runState(rc *runCtx, st *State) {
	for {
		if st.done || (rc.stop != nil && rc.stop(st)) {
			rc.out = append(rc.out, st)
			ex.paths++
			return
		}
		alive := ex.step(rc, st)
		if !alive {
			ex.paths++
			return
		}
	}
}

// step executes one instruction; forks push onto rc.work
func (ex *Exec) step(rc *runCtx, st *State) (alive bool) {
	st.steps++
	if st.steps&1023 == 0 && time.Now().After(ex.deadline) {
		panic(budget("time budget exceeded"))
	}
	if st.steps > 3000000 {
		ex.safeFail(st, "limit", "step limit exceeded")
		return false
	}
	heap0, npc, nfr := st.heap, len(st.pc), len(st.frames)
	fr := st.top()
	ip0, blk0, prev0 := fr.ip, fr.blk, fr.prev
	ncatch := len(st.catch)
	nd := len(fr.defers)
	nobl := len(ex.obls)
	pan0, rd0 := fr.pan, fr.rundef
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case needFork:
			// roll back and fork
			ex.forkCount++
			if ex.siteStat != nil {
				ex.siteStat[blk0.Parent().String()+" "+ex.posStr(ex.curPos)]++
			}
			st.heap = heap0
			st.pc = st.pc[:npc]
			st.frames = st.frames[:nfr]
			st.catch = st.catch[:min(ncatch, len(st.catch))]
			fr.ip, fr.blk, fr.prev = ip0, blk0, prev0
			fr.defers = fr.defers[:nd]
			fr.pan, fr.rundef = pan0, rd0
			st.frames[nfr-1] = fr
			ex.obls = ex.obls[:nobl]
			other := st.clone()
			ex.forked = true
			for i := range fr.loops {
				fr.loops[i].fork++
			}
			for i := range other.top().loops {
				other.top().loops[i].fork++
			}
			ex.assume(st, x.c)
			ex.assume(other, ex.Not(x.c))
			ps := ex.posStr(ex.curPos)
			st.path = &pathNode{st.path, ps + " " + x.c.String()}
			other.path = &pathNode{other.path, ps + " not " + x.c.String()}
			rc.work = append(rc.work, other)
			alive = true
		case pathEnd:
			alive = false
		case goPanic:
			alive = ex.unwindSafe(rc, st, &panicInfo{val: x.val, what: x.what})
		case unsupported:
			alive = false
			ex.safeFail(st, "unsupported", string(x))
		default:
			panic(r)
		}
	}()
	if fr.ip >= len(fr.blk.Instrs) {
		panic("ip out of block")
	}
	in := fr.blk.Instrs[fr.ip]
	if p := in.Pos(); p.IsValid() {
		ex.curPos = p
	}
	fr.ip++
	ex.exec(rc, st, fr, in)
	return true
}

func (ex *Exec) safeFail(st *State, kind, msg string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(pathEnd); !ok {
				panic(r)
			}
		}
	}()
	if ex.quiet > 0 {
		ex.quietUnsup(msg)
		return
	}
	ex.fail(st, kind, msg, msg)
}
func (ex *Exec) quietUnsup(msg string) { ex.quietMsgs = append(ex.quietMsgs, msg) }

func (ex *Exec) unwindSafe(rc *runCtx, st *State, pi *panicInfo) (alive bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				alive = false
			case unsupported:
				alive = false
				ex.safeFail(st, "unsupported", string(x))
			default:
				panic(r)
			}
		}
	}()
	return ex.unwind(st, pi)
}

func (ex *Exec) unwind(st *State, pi *panicInfo) bool {
	for len(st.frames) > 0 {
		f := st.top()
		d := len(st.frames)
		if n := len(f.defers); n > 0 {
			f.pan = pi
			dr := f.defers[n-1]
			f.defers = f.defers[:n-1]
			ex.invoke(st, dr.fn, dr.args, func(st *State, v Value) {
				g := st.frames[d-1]
				if g.pan == nil { // recovered
					ex.finishRecovered(st, d)
					return
				}
				if !ex.unwind(st, pi) {
					panic(pathEnd{})
				}
			}, d)
			return true
		}
		if nc := len(st.catch); nc > 0 && st.catch[nc-1].depth == d {
			k := st.catch[nc-1].k
			st.catch = st.catch[:nc-1]
			st.frames = st.frames[:d-1]
			k(st, ex.True)
			return true
		}
		st.frames = st.frames[:d-1]
	}
	ex.quietUnsup("uncaught panic: " + pi.what)
	if ex.quiet == 0 {
		ex.nobl++
		ob := &Obligation{Kind: "panic", Name: pi.what, Fn: ex.contract, Pos: ex.posStr(ex.curPos), Status: "failed", By: "engine"}
		r, m := ex.query(st.pc, true)
		if r == Unsat {
			// the path was only thought possible
			ob.Status, ob.By = "discharged", "z3"
		} else if m != nil {
			m = ex.smallModel(st.pc, m)
			ob.Model = ex.extractInputs(st, m)
		}
		ex.obls = append(ex.obls, ob)
	}
	return false
}

func (ex *Exec) finishRecovered(st *State, d int) {
	f := st.frames[d-1]
	if n := len(f.defers); n > 0 {
		dr := f.defers[n-1]
		f.defers = f.defers[:n-1]
		ex.invoke(st, dr.fn, dr.args, func(st *State, v Value) { ex.finishRecovered(st, d) }, d)
		return
	}
	if f.fn.Recover != nil {
		f.blk = f.fn.Recover
		f.ip = 0
		f.loops = nil
		return
	}
	panic(unsupported("recovered function without recover block"))
}

func (fr *Frame) set(v ssa.Value, x Value) { fr.env[fr.fi.num[v]] = x }

func (ex *Exec) val(st *State, fr *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Global:
		return ex.globalPtr(st, x)
	case *ssa.Function:
		return FuncV{fn: x}
	case *ssa.Builtin:
		return FuncV{builtin: x.Name()}
	}
	i, ok := fr.fi.num[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %s in %s", v.Name(), fr.fn))
	}
	r := fr.env[i]
	if r == nil {
		panic(unsupported(fmt.Sprintf("undefined value %s in %s", v.Name(), fr.fn)))
	}
	return r
}

func (ex *Exec) constVal(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return ex.zeroVal(t)
	}
	if isString(t) {
		return ex.strConst(constant.StringVal(k.Value))
	}
	w := scalarW(t)
	if w == 0 {
		return ex.Bool(constant.BoolVal(k.Value))
	}
	if isFloat(t) {
		f, _ := constant.Float64Val(k.Value)
		return ex.floatConst(f, w)
	}
	if w > 0 {
		return ex.BV(w, constU64(k.Value))
	}
	panic(unsupported("const of type " + t.String()))
}
func constU64(v constant.Value) uint64 {
	v = constant.ToInt(v)
	if u, ok := constant.Uint64Val(v); ok {
		return u
	}
	i, _ := constant.Int64Val(v)
	return uint64(i)
}

const globalBase = 1 << 20

func (ex *Exec) globalPtr(st *State, g *ssa.Global) Ptr {
	id, ok := ex.globals[g]
	if !ok {
		id = globalBase + len(ex.globals)
		ex.globals[g] = id
	}
	if st.heap.get(id) == nil {
		t := g.Type().(*types.Pointer).Elem()
		var v Value
		if isIface(t) && types.Implements(t, ex.w.errType) {
			v = IfaceV{t: ex.w.opaqueErr, v: OpaqueV{kind: "error", id: -id, data: &errData{name: g.String()}}}
		} else if g.String() == "io.Discard" {
			dt := ex.w.prog.ImportedPackage("io").Type("discard").Type()
			v = IfaceV{t: dt, v: ex.zeroVal(dt)}
		} else {
			v = ex.zeroVal(t)
		}
		st.heap = st.heap.set(id, &Obj{val: v, typ: t, name: g.String(), global: true})
	}
	return Ptr{obj: id}
}

type errData struct {
	name  string
	wraps []IfaceV
}

func (ex *Exec) newError(name string, wraps ...IfaceV) IfaceV {
	ex.nfresh++
	return IfaceV{t: ex.w.opaqueErr, v: OpaqueV{kind: "error", id: ex.nfresh, data: &errData{name: name, wraps: wraps}}}
}

// ---------- memory
func (ex *Exec) alloc(st *State, t types.Type, v Value, name string) Ptr {
	h, id := st.heap.alloc(&Obj{val: v, typ: t, name: name})
	st.heap = h
	return Ptr{obj: id}
}

func (ex *Exec) nilCheck(st *State, p Ptr, what string) {
	if p.obj == 0 {
		ex.rtPanic(st, "nil dereference", ex.False)
	}
}

// rtPanic: the operation panics unless ok holds
func (ex *Exec) rtPanic(st *State, what string, ok *Term) {
	if ok.IsTrue() {
		return
	}
	if len(st.catch) > 0 {
		// a vcPanics catcher (or recover) is active: explore the panic as a path
		if ex.decide(st, ok) {
			return
		}
		panic(goPanic{what: what})
	}
	if ex.hasRecover(st) {
		if ex.decide(st, ok) {
			return
		}
		panic(goPanic{what: what})
	}
	ex.prove(st, ok, "panic", what)
	if ok.IsFalse() {
		panic(pathEnd{})
	}
}

type goPanic struct {
	what string
	val  Value
}

func (ex *Exec) hasRecover(st *State) bool {
	for _, f := range st.frames {
		if f.fn.Recover != nil && len(f.defers) > 0 {
			return true
		}
	}
	return false
}

func (ex *Exec) load(st *State, p Ptr) Value {
	o := st.heap.get(p.obj)
	if o == nil {
		panic(unsupported("load from invalid object"))
	}
	if o.stale {
		panic(unsupported("load through stale view of symbolic vector element"))
	}
	return ex.walkLoad(st, o.val, p.path, p, 0)
}

func (ex *Exec) walkLoad(st *State, v Value, path []PE, p Ptr, d int) Value {
	for i, pe := range path {
		switch x := v.(type) {
		case *StructV:
			if pe.idx != nil {
				panic("index into struct")
			}
			v = x.f[pe.field]
		case *ArrV:
			return ex.Sel(x.arr, pe.idx)
		case *VecV:
			v = x.e[ex.pickIndex(st, pe.idx, len(x.e))]
		case *SymVec:
			return ex.svLoad(st, x, Ptr{p.obj, p.path[:d+i]}, pe.idx, path[i+1:])
		default:
			panic(unsupported(fmt.Sprintf("path into %T", v)))
		}
	}
	return v
}

// pickIndex: choose a concrete index (forking)
func (ex *Exec) pickIndex(st *State, idx *Term, n int) int {
	if idx.IsConst() {
		if idx.val >= uint64(n) {
			panic(unsupported("index outside concrete vector"))
		}
		return int(idx.val)
	}
	for i := 0; i < n; i++ {
		if ex.decide(st, ex.Eq(idx, ex.I(i))) {
			return i
		}
	}
	panic(pathEnd{})
}

func (ex *Exec) store(st *State, p Ptr, nv Value) {
	o := st.heap.get(p.obj)
	if o == nil {
		panic(unsupported("store to invalid object"))
	}
	if o.stale {
		panic(unsupported("store through stale view"))
	}
	if st.wlog != nil {
		st.wlog.add(p)
	}
	n := *o
	n.val = ex.walkStore(st, o.val, p.path, nv, p, 0)
	st.heap = st.heap.set(p.obj, &n)
	if o.origin != nil {
		ex.svWriteBack(st, o.origin, n.val)
		ex.touchViews(st, o.origin.base, o.origin.idx, o.origin.leaf, p.obj, false)
	}
}

func (ex *Exec) walkStore(st *State, v Value, path []PE, nv Value, p Ptr, d int) Value {
	if len(path) == 0 {
		if _, ok := v.(*SymVec); ok {
			panic(unsupported("whole store over symbolic vector"))
		}
		return nv
	}
	pe := path[0]
	switch x := v.(type) {
	case *StructV:
		f := append([]Value(nil), x.f...)
		f[pe.field] = ex.walkStore(st, f[pe.field], path[1:], nv, p, d+1)
		return &StructV{f: f}
	case *ArrV:
		return &ArrV{arr: ex.AStore(x.arr, pe.idx, nv.(*Term)), n: x.n}
	case *VecV:
		i := ex.pickIndex(st, pe.idx, len(x.e))
		e := append([]Value(nil), x.e...)
		e[i] = ex.walkStore(st, e[i], path[1:], nv, p, d+1)
		return &VecV{e: e}
	case *SymVec:
		return ex.svStore(st, x, Ptr{p.obj, p.path[:d]}, pe.idx, path[1:], nv)
	}
	panic(unsupported(fmt.Sprintf("store path into %T", v)))
}

func fieldsOf(path []PE) []int {
	var f []int
	for _, p := range path {
		if p.idx != nil {
			return nil
		}
		f = append(f, p.field)
	}
	return f
}

// load element idx, remaining path, from symbolic vector
func (ex *Exec) svLoad(st *State, sv *SymVec, base Ptr, idx *Term, rest []PE) Value {
	// split rest into fields and trailing index
	var fpath []int
	k := 0
	for k < len(rest) && rest[k].idx == nil {
		fpath = append(fpath, rest[k].field)
		k++
	}
	v := ex.svBuild(st, sv, base, idx, fpath)
	if k < len(rest) {
		return ex.walkLoad(st, v, rest[k:], Ptr{}, 0)
	}
	return v
}

func typeAt(t types.Type, path []int) types.Type {
	for _, f := range path {
		t = t.Underlying().(*types.Struct).Field(f).Type()
	}
	return t
}

func (ex *Exec) svBuild(st *State, sv *SymVec, base Ptr, idx *Term, fpath []int) Value {
	t := typeAt(sv.elem, fpath)
	for li, l := range sv.leaves {
		if len(l.path) == len(fpath) && hasPrefix(l.path, fpath) {
			return ex.leafLoad(st, sv, base, idx, li, l)
		}
	}
	su, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(unsupported("svBuild " + t.String()))
	}
	s := &StructV{f: make([]Value, su.NumFields())}
	for i := range s.f {
		s.f[i] = ex.svBuild(st, sv, base, idx, append(append([]int(nil), fpath...), i))
	}
	return s
}

func (ex *Exec) leafLoad(st *State, sv *SymVec, base Ptr, idx *Term, li int, l *Leaf) Value {
	switch l.kind {
	case LScalar:
		return ex.Sel(l.arr, idx)
	case LFixed:
		return &ArrV{arr: ex.Row(l.rows, idx), n: ex.I(l.fixed)}
	case LSeq:
		row := ex.Row(l.rows, idx)
		ln := ex.Sel(l.lens, idx)
		if !ln.IsConst() && ln.hi > maxLen {
			ex.assumeQuiet(st, ex.Ule(ln, ex.BV(64, maxLen)))
			// tighten recorded range of base selections
			if ln.op == OSel {
				ex.rng[ln] = [2]uint64{0, maxLen}
				ln.hi = maxLen
			}
		}
		if isString(l.typ) {
			return &Str{arr: row, off: ex.I(0), len: ln}
		}
		nl := ex.Sel(l.nils, idx)
		if ln.IsConst() && ln.val == 0 && nl.IsTrue() {
			return ex.nilSlice()
		}
		h, id := st.heap.alloc(&Obj{val: &ArrV{arr: row, n: ln}, typ: l.typ, origin: &Origin{base: base, idx: idx, leaf: li}})
		st.heap = h
		st.views = append(st.views, id)
		return &SliceV{base: Ptr{obj: id}, off: ex.I(0), len: ln, cap: ln, isNil: nl}
	case LOther:
		for i := len(l.upd) - 1; i >= 0; i-- {
			if ex.decide(st, ex.Eq(l.upd[i].idx, idx)) {
				return l.upd[i].val
			}
		}
		if l.hasDef {
			return l.def
		}
		if isIface(l.typ) {
			return IfaceV{t: opaqueType, v: OpaqueV{kind: "unknown value", id: 0}}
		}
		panic(unsupported("load of opaque symbolic vector leaf " + l.typ.String()))
	}
	panic("leafLoad")
}
func (ex *Exec) assumeQuiet(st *State, t *Term) { ex.assume(st, t) }

func (ex *Exec) svStore(st *State, sv *SymVec, base Ptr, idx *Term, rest []PE, nv Value) Value {
	var fpath []int
	k := 0
	for k < len(rest) && rest[k].idx == nil {
		fpath = append(fpath, rest[k].field)
		k++
	}
	n := sv.clone()
	if k < len(rest) {
		// store inside a fixed array leaf
		for li, l := range n.leaves {
			if l.kind == LFixed && len(l.path) == len(fpath) && hasPrefix(l.path, fpath) {
				c := *l
				row := ex.AStore(ex.Row(l.rows, idx), rest[k].idx, nv.(*Term))
				c.rows = &Arr2{k: AStore, w: l.w, a: l.rows, x: idx, row: row}
				n.leaves[li] = &c
				return n
			}
		}
		panic(unsupported("store into nested index of symbolic vector"))
	}
	ex.svPut(st, n, base, idx, fpath, nv)
	return n
}

func (ex *Exec) svPut(st *State, n *SymVec, base Ptr, idx *Term, fpath []int, nv Value) {
	for li, l := range n.leaves {
		if !hasPrefix(l.path, fpath) {
			continue
		}
		v := nv
		for _, f := range l.path[len(fpath):] {
			v = v.(*StructV).f[f]
		}
		c := *l
		switch l.kind {
		case LScalar:
			c.arr = ex.AStore(l.arr, idx, v.(*Term))
		case LFixed:
			c.rows = &Arr2{k: AStore, w: l.w, a: l.rows, x: idx, row: v.(*ArrV).arr}
		case LSeq:
			var arr *Arr
			var ln, nl *Term
			if s, ok := v.(*Str); ok {
				arr, ln, nl = ex.rebase(s.arr, s.off, s.len), s.len, ex.False
			} else {
				s := v.(*SliceV)
				nl, ln = s.isNil, s.len
				if s.base.obj == 0 {
					arr = ex.AZero(l.w)
				} else {
					cv := ex.load(st, s.base).(*ArrV)
					arr = ex.rebase(cv.arr, s.off, s.len)
					// the stored slice's backing becomes a view of this element
					o := st.heap.get(s.base.obj)
					if len(s.base.path) == 0 && s.off.IsConst() && s.off.val == 0 && o.origin == nil {
						ex.touchViews(st, base, idx, li, s.base.obj, true)
						st.views = append(st.views, s.base.obj)
						m := *o
						m.origin = &Origin{base: base, idx: idx, leaf: li}
						st.heap = st.heap.set(s.base.obj, &m)
					} else if o.origin == nil || !(o.origin.idx == idx && o.origin.leaf == li && ptrEqSyn(o.origin.base, base)) {
						// shared backing: later writes through the original are not tracked
						ex.markShared(st, s.base.obj)
					}
				}
			}
			c.rows = &Arr2{k: AStore, w: l.w, a: l.rows, x: idx, row: arr}
			c.lens = ex.AStore(l.lens, idx, ln)
			c.nils = ex.AStore(l.nils, idx, nl)
		case LOther:
			c.upd = append(append([]updEnt(nil), l.upd...), updEnt{idx, v})
		}
		n.leaves[li] = &c
	}
}

// touchViews: element (idx,leaf) of the vector at base changed; other views of it are detached (overwritten) or stale (aliased write)
func (ex *Exec) touchViews(st *State, base Ptr, idx *Term, leaf, self int, overwrite bool) {
	for _, id := range st.views {
		if id == self {
			continue
		}
		o := st.heap.get(id)
		if o == nil || o.origin == nil || o.stale || o.origin.leaf != leaf || !ptrEqSyn(o.origin.base, base) {
			continue
		}
		e := ex.Eq(o.origin.idx, idx)
		if e.IsFalse() {
			continue
		}
		m := *o
		if e.IsTrue() && overwrite {
			m.origin = nil
		} else {
			m.stale = true
		}
		st.heap = st.heap.set(id, &m)
	}
}
func (ex *Exec) markShared(st *State, obj int) {
	ex.assumes["byte slices stored into symbolic-length vectors are not mutated afterwards through another alias"] = true
}
func (ex *Exec) rebase(a *Arr, off, n *Term) *Arr {
	if off.IsConst() && off.val == 0 {
		return a
	}
	return ex.ACopy(ex.AZero(a.w), ex.I(0), a, off, n)
}
func ptrEqSyn(a, b Ptr) bool {
	if a.obj != b.obj || len(a.path) != len(b.path) {
		return false
	}
	for i := range a.path {
		if a.path[i] != b.path[i] {
			return false
		}
	}
	return true
}

func (ex *Exec) svWriteBack(st *State, og *Origin, v Value) {
	o := st.heap.get(og.base.obj)
	sv, ok := ex.walkLoadRaw(o.val, og.base.path).(*SymVec)
	if !ok {
		return
	}
	n := sv.clone()
	l := *n.leaves[og.leaf]
	l.rows = &Arr2{k: AStore, w: l.w, a: l.rows, x: og.idx, row: v.(*ArrV).arr}
	n.leaves[og.leaf] = &l
	st.heap = st.heap.set(og.base.obj, &Obj{val: ex.replaceRaw(o.val, og.base.path, n), typ: o.typ, name: o.name, origin: o.origin})
	if st.wlog != nil {
		st.wlog.add(og.base)
	}
}
func (ex *Exec) walkLoadRaw(v Value, path []PE) Value {
	for _, pe := range path {
		switch x := v.(type) {
		case *StructV:
			v = x.f[pe.field]
		case *VecV:
			if !pe.idx.IsConst() {
				return nil
			}
			v = x.e[pe.idx.val]
		default:
			return nil
		}
	}
	return v
}
func (ex *Exec) replaceRaw(v Value, path []PE, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	switch x := v.(type) {
	case *StructV:
		f := append([]Value(nil), x.f...)
		f[path[0].field] = ex.replaceRaw(f[path[0].field], path[1:], nv)
		return &StructV{f: f}
	case *VecV:
		e := append([]Value(nil), x.e...)
		i := path[0].idx.val
		e[i] = ex.replaceRaw(e[i], path[1:], nv)
		return &VecV{e: e}
	}
	panic("replaceRaw")
}

func (p Ptr) field(i int) Ptr {
	return Ptr{p.obj, append(append([]PE(nil), p.path...), PE{field: i})}
}
func (p Ptr) index(t *Term) Ptr {
	return Ptr{p.obj, append(append([]PE(nil), p.path...), PE{field: -1, idx: t})}
}

// ---------- equality
func (ex *Exec) ptrEq(st *State, a, b Ptr) *Term {
	if a.obj != b.obj {
		return ex.False
	}
	if len(a.path) != len(b.path) {
		return ex.False
	}
	r := ex.True
	for i := range a.path {
		x, y := a.path[i], b.path[i]
		if x.idx == nil {
			if x.field != y.field {
				return ex.False
			}
		} else {
			r = ex.BAnd(r, ex.Eq(x.idx, y.idx))
		}
	}
	return r
}

func (ex *Exec) eqSeq(a *Arr, ao, al *Term, b *Arr, bo, bl *Term) *Term {
	le := ex.Eq(al, bl)
	if le.IsFalse() {
		return le
	}
	if a == b && ao == bo {
		return le
	}
	n := al
	if bl.IsConst() {
		n = bl
	}
	if n.IsConst() && n.val <= 600 {
		r := le
		for i := 0; i < int(n.val); i++ {
			e := ex.Eq(ex.Sel(a, ex.AddI(ao, i)), ex.Sel(b, ex.AddI(bo, i)))
			if e.IsFalse() {
				return e
			}
			r = ex.BAnd(r, e)
		}
		return r
	}
	key := eqKey{a, b, ao, bo, n}
	if r, ok := ex.eqMem[key]; ok {
		return ex.BAnd(le, r)
	}
	bv := ex.Bound("q", 64)
	// range of bound variable known to be sane
	ex.rng[bv] = [2]uint64{0, maxLen * 2}
	bv.lo, bv.hi = 0, maxLen*2
	body := ex.Implies(ex.Ult(bv, n), ex.Eq(ex.Sel(a, ex.Add(ao, bv)), ex.Sel(b, ex.Add(bo, bv))))
	r := ex.Forall(bv, body)
	if ex.eqMem == nil {
		ex.eqMem = map[eqKey]*Term{}
	}
	ex.eqMem[key] = r
	return ex.BAnd(le, r)
}

type eqKey struct {
	a, b      *Arr
	ao, bo, n *Term
}

func (ex *Exec) eqStr(st *State, a, b *Str) *Term {
	if a.parts != nil || b.parts != nil || a.itoa != nil || b.itoa != nil {
		if r := ex.eqRope(st, ex.partsOf(a), ex.partsOf(b)); r != nil {
			return r
		}
	}
	return ex.eqSeq(a.arr, a.off, a.len, b.arr, b.off, b.len)
}

// eqRope compares concatenations part by part, nil when that does not settle it
func (ex *Exec) eqRope(st *State, a, b []*Str) *Term {
	a, b = append([]*Str(nil), a...), append([]*Str(nil), b...)
	same := func(x, y *Str) bool {
		return x == y || x.itoa != nil && x.itoa == y.itoa || x.itoa == nil && y.itoa == nil && x.arr == y.arr && x.off == y.off && x.len == y.len
	}
	digit := func(c byte) bool { return c >= '0' && c <= '9' || c == '-' }
	r := ex.True
	for len(a) > 0 && len(b) > 0 {
		x, y := a[0], b[0]
		if same(x, y) {
			a, b = a[1:], b[1:]
			continue
		}
		cx, okx := ex.concStr(x)
		cy, oky := ex.concStr(y)
		switch {
		case okx && cx == "":
			a = a[1:]
		case oky && cy == "":
			b = b[1:]
		case okx && oky:
			n := len(cx)
			if len(cy) < n {
				n = len(cy)
			}
			if cx[:n] != cy[:n] {
				return ex.False
			}
			a[0], b[0] = ex.strConst(cx[n:]), ex.strConst(cy[n:])
		case okx && y.itoa != nil && !digit(cx[0]) || oky && x.itoa != nil && !digit(cy[0]):
			return ex.False
		case x.itoa != nil && y.itoa != nil:
			end := func(p []*Str) bool {
				if len(p) == 1 {
					return true
				}
				c, ok := ex.concStr(p[1])
				return ok && c != "" && !digit(c[0])
			}
			if !end(a) || !end(b) {
				return nil
			}
			r = ex.BAnd(r, ex.Eq(x.itoa, y.itoa))
			a, b = a[1:], b[1:]
		default:
			if len(a) == 1 && len(b) == 1 && x.itoa == nil && y.itoa == nil {
				return ex.BAnd(r, ex.eqSeq(x.arr, x.off, x.len, y.arr, y.off, y.len))
			}
			if x.itoa == nil && y.itoa == nil && ex.mustBe(st, ex.Eq(x.len, y.len)) {
				r = ex.BAnd(r, ex.eqSeq(x.arr, x.off, x.len, y.arr, y.off, y.len))
				a, b = a[1:], b[1:]
				continue
			}
			return nil
		}
	}
	for _, p := range append(a, b...) {
		if p.itoa != nil {
			return ex.False
		}
		r = ex.BAnd(r, ex.Eq(p.len, ex.I(0)))
	}
	return r
}

func (ex *Exec) eqVal(st *State, a, b Value, t types.Type) *Term {
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		if t != nil && isFloat(t) {
			return ex.floatCmp(token.EQL, x, y)
		}
		return ex.Eq(x, y)
	case *Str:
		return ex.eqStr(st, x, b.(*Str))
	case Ptr:
		return ex.ptrEq(st, x, b.(Ptr))
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			panic(unsupported("interface compared with concrete value"))
		}
		notOpaque(x)
		notOpaque(y)
		if x.t == nil || y.t == nil {
			return ex.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return ex.False
		}
		return ex.eqVal(st, x.v, y.v, x.t)
	case OpaqueV:
		y, ok := b.(OpaqueV)
		return ex.Bool(ok && x.id == y.id && x.kind == y.kind)
	case *StructV:
		y := b.(*StructV)
		r := ex.True
		for i := range x.f {
			var ft types.Type
			if t != nil {
				ft = t.Underlying().(*types.Struct).Field(i).Type()
			}
			r = ex.BAnd(r, ex.eqVal(st, x.f[i], y.f[i], ft))
		}
		return r
	case *ArrV:
		y := b.(*ArrV)
		return ex.eqSeq(x.arr, ex.I(0), x.n, y.arr, ex.I(0), y.n)
	case *VecV:
		y := b.(*VecV)
		r := ex.True
		for i := range x.e {
			r = ex.BAnd(r, ex.eqVal(st, x.e[i], y.e[i], nil))
		}
		return r
	case *SliceV: // comparison with nil only
		y := b.(*SliceV)
		if y.base.obj == 0 && y.isNil.IsTrue() {
			return x.isNil
		}
		if x.base.obj == 0 && x.isNil.IsTrue() {
			return y.isNil
		}
	case MapRef:
		return ex.Bool(x.obj == b.(MapRef).obj)
	case ChanV:
		return ex.Bool(x.obj == b.(ChanV).obj)
	case FuncV:
		y := b.(FuncV)
		if y.fn == nil && y.builtin == "" && y.native == nil {
			return ex.Bool(x.fn == nil && x.builtin == "" && x.native == nil)
		}
		if x.fn == nil && x.native == nil {
			return ex.Bool(y.fn == nil && y.native == nil)
		}
	case *RType:
		if y, ok := b.(*RType); ok {
			return ex.Bool(types.Identical(x.t, y.t))
		}
	}
	panic(unsupported(fmt.Sprintf("equality on %T", a)))
}

package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Result of verifying one contract
type Result struct {
	C        *Contract
	Obls     []*Obligation
	Err      string // engine failure
	Covers   map[string]bool
	Inlined  []string
	SpecUsed []string
	Models   []string
	Assumes  []string
	LoopsInv []string
	LoopsUnr []string
	Paths    int
	Queries  int64
	SolverNS int64
	Wall     time.Duration
	Refuted  []map[string]any
}

func newExec(w *World, c *Contract, deadline time.Time) *Exec {
	ctx := NewCtx()
	ex := &Exec{Ctx: ctx, w: w, fnInfo: map[*ssa.Function]*FnInfo{}, globals: map[*ssa.Global]int{}, contract: c.Name, runsGo: callsIn(c.Fn, "vcGo"),
		covers: map[string]bool{}, inlined: map[string]bool{}, specUsed: map[string]bool{}, models: map[string]bool{}, target: map[string]bool{},
		loopsInv: map[string]bool{}, loopsCut: map[string]bool{}, loopsUnr: map[string]bool{}, assumes: map[string]bool{}, natArgs: map[string]Value{}, maxUnroll: 6, deadline: deadline}
	if c.Unroll > 0 {
		ex.maxUnroll = c.Unroll
	}
	ex.merge = c.Merge
	for _, v := range c.Verify {
		ex.target[v] = true
	}
	to := 15000
	ex.solver = NewSolver(ctx, &ex.st, "z3", to)
	ex.alt = NewSolver(ctx, &ex.st, "z3-new", to)
	ex.lia = NewSolver(ctx, &ex.st, "z3-new", 4000)
	return ex
}

func (ex *Exec) verify(c *Contract) {
	st := &State{}
	fn := c.Fn
	ex.runInits(st)
	var args []Value
	for _, p := range fn.Params {
		v := ex.freshVal(st, p.Name(), p.Type())
		ip := inputParam{name: p.Name(), typ: p.Type(), val: v}
		if s, ok := v.(*SliceV); ok {
			switch a := ex.container(st, s.base).(type) {
			case *ArrV:
				ip.arr = a.arr
			case *SymVec:
				ip.sv = a
			}
		}
		ex.inputs = append(ex.inputs, ip)
		args = append(args, v)
	}
	ex.push(st, fn, args, nil, true)
	ex.runAll(st, nil)
}

func runContract(w *World, c *Contract, refute bool, budgetS int) (res *Result) {
	t0 := time.Now()
	res = &Result{C: c}
	if c.Dropped != "" {
		res.Err = c.Dropped
		return
	}
	ex := newExec(w, c, t0.Add(time.Duration(budgetS)*time.Second))
	ex.refute = refute
	if refute {
		ex.maxUnroll = 4
	}
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case budget:
				res.Err = string(x)
			case unsupported:
				res.Err = "unsupported: " + string(x)
			case pathEnd:
			case needFork:
				res.Err = "engine: unhandled fork"
			case loopOverflow:
				res.Err = "loop could not be unrolled"
			default:
				if os.Getenv("GOVC_DEBUG") != "" {
					panic(r)
				}
				res.Err = fmt.Sprintf("engine: %v", r)
			}
		}
		ex.solver.Close()
		ex.alt.Close()
		ex.lia.Close()
		res.Obls = ex.obls
		res.Covers = ex.covers
		res.Inlined = keys(ex.inlined)
		res.SpecUsed = keys(ex.specUsed)
		res.Models = keys(ex.models)
		res.Assumes = keys(ex.assumes)
		res.LoopsInv = keys(ex.loopsInv)
		res.LoopsUnr = keys(ex.loopsUnr)
		res.Paths = ex.paths
		res.Queries = ex.st.queries
		res.SolverNS = ex.st.solverNS
		res.Wall = time.Since(t0)
	}()
	ex.verify(c)
	return
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- package initialisation
func (ex *Exec) runInits(st *State) {
	ex.quiet++
	defer func() { ex.quiet-- }()
	for _, p := range ex.w.pkgs {
		if ex.initGlobals(st, p) != nil {
			continue
		}
	}
}

// initGlobals executes the straight-line package initialiser up to its guard, ignoring imported initialisers
func (ex *Exec) initGlobals(st *State, p *ssa.Package) (err any) {
	fn := p.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return nil
	}
	s := st.clone()
	s.frames = nil
	ex.push(s, fn, nil, nil, true)
	ex.initing = true
	defer func() { ex.initing = false }()
	out := ex.runAll(s, nil)
	if len(out) == 1 {
		st.heap = out[0].heap
	}
	for _, q := range ex.quietMsgs {
		if os.Getenv("GOVC_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "init:", q)
		}
	}
	ex.quietMsgs = nil
	return nil
}

// ---- counterexample inputs
func (ex *Exec) smallModel(as []*Term, m0 *Model) *Model {
	var lens []*Term
	for _, ip := range ex.inputs {
		switch v := ip.val.(type) {
		case *SliceV:
			lens = append(lens, v.len)
			if ip.sv != nil {
				for _, l := range ip.sv.leaves {
					if l.lens != nil {
						for i := 0; i < 4; i++ {
							lens = append(lens, ex.Sel(l.lens, ex.I(i)))
						}
					}
				}
			}
		case *Str:
			lens = append(lens, v.len)
		}
	}
	if len(lens) == 0 {
		return m0
	}
	for _, lim := range []int{4, 16, 100, 600, 5000, 70000} {
		q := append([]*Term(nil), as...)
		for _, l := range lens {
			q = append(q, ex.Ule(l, ex.I(lim)))
		}
		r, m := ex.query(q, true)
		if r == Sat && m != nil {
			return m
		}
		if r == Unknown {
			break
		}
	}
	return m0
}

func (ex *Exec) extractInputs(st *State, m *Model) map[string]any {
	out := map[string]any{}
	for _, ip := range ex.inputs {
		out[ip.name] = ex.modelVal(m, ip.val, ip.typ, ip)
	}
	return out
}
func (ex *Exec) scalarJSON(v uint64, t types.Type) any {
	w := scalarW(t)
	if w == 0 {
		return v == 1
	}
	if isFloat(t) {
		// floats travel as bit patterns
		return json.Number(fmt.Sprint(v))
	}
	if isSigned(t) {
		return json.Number(fmt.Sprint(sext(v, w)))
	}
	return json.Number(fmt.Sprint(v))
}

const maxReplayLen = 1 << 20

func (ex *Exec) modelVal(m *Model, v Value, t types.Type, ip inputParam) any {
	switch x := v.(type) {
	case *Term:
		return ex.scalarJSON(m.Eval(x), t)
	case *Str:
		n := m.Eval(x.len)
		if n > maxReplayLen {
			return nil
		}
		b := make([]any, n)
		for i := range b {
			b[i] = json.Number(fmt.Sprint(m.Eval(ex.Sel(x.arr, ex.AddI(x.off, i)))))
		}
		return b
	case *SliceV:
		n := m.Eval(x.len)
		if n > maxReplayLen {
			return nil
		}
		et := t.Underlying().(*types.Slice).Elem()
		b := make([]any, n)
		if ip.arr != nil {
			for i := range b {
				b[i] = ex.scalarJSON(m.Eval(ex.Sel(ip.arr, ex.I(i))), et)
			}
			return b
		}
		if ip.sv != nil && len(ip.sv.leaves) == 1 && ip.sv.leaves[0].kind == LSeq && n < 5000 {
			l := ip.sv.leaves[0]
			for i := range b {
				ln := m.Eval(ex.Sel(l.lens, ex.I(i)))
				if ln > 5000 {
					return nil
				}
				e := make([]any, ln)
				for j := range e {
					e[j] = json.Number(fmt.Sprint(m.Eval(ex.Sel(ex.Row(l.rows, ex.I(i)), ex.I(j)))))
				}
				b[i] = e
			}
			return b
		}
		return nil
	case *ArrV:
		et := t.Underlying().(*types.Array).Elem()
		n := int(x.n.val)
		b := make([]any, n)
		for i := range b {
			b[i] = ex.scalarJSON(m.Eval(ex.Sel(x.arr, ex.I(i))), et)
		}
		return b
	case *StructV:
		s := t.Underlying().(*types.Struct)
		b := make([]any, len(x.f))
		for i := range b {
			b[i] = ex.modelVal(m, x.f[i], s.Field(i).Type(), inputParam{})
		}
		return b
	}
	return nil
}

var _ = math.Pi
var _ = strings.Join
var _ sync.Mutex

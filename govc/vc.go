package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type inputParam struct {
	name string
	typ  types.Type
	val  Value
	arr  *Arr // initial contents of slices
	sv   *SymVec
}

func vcIntrinsics(pkg string) {
	p := pkg + "."
	m(p+"vcRequires", func(ex *Exec, st *State, a []Value) Value {
		c := a[0].(*Term)
		if len(st.frames) == 1 && !ex.forked && ex.quiet == 0 {
			ex.narrow(c)
		}
		ex.assume(st, c)
		if c.IsFalse() {
			panic(pathEnd{})
		}
		if len(st.frames) == 1 {
			if st.model == nil {
				r, _ := ex.query(st.pc, false)
				if r == Unsat {
					panic(pathEnd{})
				}
			}
			ex.covers["precondition satisfiable"] = true
		}
		return TupleV{}
	})
	m(p+"vcEnsures", func(ex *Exec, st *State, a []Value) Value {
		n, _ := ex.concStr(a[0].(*Str))
		if ex.quiet == 0 {
			ex.covers["ensures:"+n] = true
		}
		ex.prove(st, a[1].(*Term), "ensures", n)
		return TupleV{}
	})
	m(p+"vcBytesEq", func(ex *Exec, st *State, a []Value) Value {
		x, y := a[0].(*SliceV), a[1].(*SliceV)
		xa, xo := ex.seqOf(st, x, 8)
		ya, yo := ex.seqOf(st, y, 8)
		return ex.eqSeq(xa, xo, x.len, ya, yo, y.len)
	})
	m(p+"vcForall", func(ex *Exec, st *State, a []Value) Value {
		lo, hi, f := a[0].(*Term), a[1].(*Term), a[2].(FuncV)
		if lo.IsConst() && hi.IsConst() && hi.S()-lo.S() <= 128 {
			r := ex.True
			for i := lo.S(); i < hi.S(); i++ {
				t := ex.evalPure(st, f, []Value{ex.I(int(i))})
				if t.IsFalse() {
					return t
				}
				r = ex.BAnd(r, t)
			}
			return r
		}
		// the bound variable ranges over 0..2*maxLen: the bounds must lie in it
		if lo.hi > maxLen*2 || hi.hi > maxLen*2 {
			s := st.clone()
			ex.assume(s, ex.Not(ex.BAnd(ex.Ule(lo, ex.BV(64, maxLen*2)), ex.Ule(hi, ex.BV(64, maxLen*2)))))
			ex.assume(s, ex.Slt(lo, hi))
			if r, _ := ex.query(s.pc, false); r != Unsat {
				panic(unsupported("vcForall over a range that may be negative or too large"))
			}
		}
		v := ex.VarR(ex.fresh("all"), 64, 0, maxLen*2)
		s := st.clone()
		s.model = nil
		g := ex.BAnd(ex.Sle(lo, v), ex.Slt(v, hi))
		ex.assume(s, g)
		npc := len(s.pc)
		_ = npc
		if r, _ := ex.query(s.pc, false); r == Unsat {
			return ex.True
		}
		t := ex.evalPure(s, f, []Value{v})
		bv := ex.boundVar()
		body := ex.Subst(ex.Implies(g, t), map[*Term]*Term{v: bv}, map[*Term]*Term{})
		return ex.Forall(bv, body)
	})
	models[p+"vcPanics"] = func(ex *Exec, st *State, fn *ssa.Function, a []Value, k func(*State, Value)) {
		f := a[0].(FuncV)
		depth := len(st.frames)
		st.catch = append(st.catch, catchRec{depth: depth + 1, k: func(st *State, v Value) { k(st, ex.True) }})
		ex.push(st, f.fn, f.binds, func(st *State, v Value) { k(st, ex.False) }, true)
	}
	// vcMonitor: from here on the mutex has an invariant
	m(p+"vcMonitor", func(ex *Exec, st *State, a []Value) Value {
		v := a[0]
		if iv, ok := v.(IfaceV); ok {
			v = iv.v
		}
		st.mons = append(st.mons[:len(st.mons):len(st.mons)], monitor{v.(Ptr), a[1].(FuncV), a[2].(FuncV)})
		return TupleV{}
	})
	// vcGo: the goroutines started so far run, one after the other
	models[p+"vcGo"] = func(ex *Exec, st *State, fn *ssa.Function, a []Value, k func(*State, Value)) {
		depth := len(st.frames)
		var next func(st *State, _ Value)
		next = func(st *State, _ Value) {
			if len(st.goes) == 0 {
				k(st, TupleV{})
				return
			}
			g := st.goes[0]
			st.goes = st.goes[1:]
			ex.invoke(st, g.f, g.args, next, depth)
		}
		next(st, nil)
	}
	// vcWaits: what others may do while this goroutine waits for a channel
	m(p+"vcWaits", func(ex *Exec, st *State, a []Value) Value {
		f := a[0].(FuncV)
		st.waits = &f
		return TupleV{}
	})
	// vcAny: an arbitrary boolean
	m(p+"vcAny", func(ex *Exec, st *State, a []Value) Value { return ex.Eq(ex.Fresh("any", 8), ex.BV(8, 1)) })
	m(p+"vcAnyInt", func(ex *Exec, st *State, a []Value) Value { return ex.Fresh("any", 64) })
	m(p+"vcAnyString", func(ex *Exec, st *State, a []Value) Value {
		return &Str{arr: ex.ABase(ex.fresh("any"), 8), off: ex.I(0), len: ex.FreshLen("anyl")}
	})
	m(p+"vcLocked", func(ex *Exec, st *State, a []Value) Value {
		v := a[0]
		if iv, ok := v.(IfaceV); ok {
			v = iv.v
		}
		o, ok := ex.load(st, v.(Ptr)).(OpaqueV)
		return ex.Bool(ok && o.kind == "mutex" && o.data.(string) != "")
	})
	m(p+"vcRWLocked", func(ex *Exec, st *State, a []Value) Value {
		o, ok := ex.load(st, a[0].(Ptr)).(OpaqueV)
		return ex.Bool(ok && o.kind == "mutex" && o.data.(string) != "")
	})
	m(p+"vcSameErr", func(ex *Exec, st *State, a []Value) Value { return ex.eqVal(st, a[0], a[1], nil) })
}

// narrow turns a bound that holds on every path into the range of the variable
func (ex *Exec) narrow(c *Term) {
	neg := false
	if c.op == ONot {
		neg, c = true, c.args[0]
	}
	if c.op == OBAnd && !neg {
		for _, a := range c.args {
			ex.narrow(a)
		}
		return
	}
	if len(c.args) != 2 {
		return
	}
	x, y := c.args[0], c.args[1]
	strict := c.op == OUlt || c.op == OSlt
	switch c.op {
	case OUle, OUlt:
	case OSle, OSlt:
		if x.hi > mask(x.w)>>1 || y.hi > mask(y.w)>>1 {
			return
		}
	default:
		return
	}
	if neg {
		x, y, strict = y, x, !strict
	}
	if x.op != OVar || !y.IsConst() {
		return
	}
	hi := y.val
	if strict {
		if hi == 0 {
			return
		}
		hi--
	}
	if hi < x.hi && hi >= x.lo {
		x.hi = hi
		ex.rng[x] = [2]uint64{x.lo, hi}
	}
}

type goCall struct {
	f    FuncV
	args []Value
}

// callsIn reports whether a function (or a function literal in it) calls a function of this name
func callsIn(fn *ssa.Function, name string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && f.Name() == name {
					return true
				}
			}
		}
	}
	for _, f := range fn.AnonFuncs {
		if callsIn(f, name) {
			return true
		}
	}
	return false
}

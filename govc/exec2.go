package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) ext64(t *Term, typ types.Type) *Term {
	if t.w == 64 {
		return t
	}
	if isSigned(typ) {
		return ex.SExt(t, 64)
	}
	return ex.ZExt(t, 64)
}

func (ex *Exec) exec(rc *runCtx, st *State, fr *Frame, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		fr.set(x, ex.alloc(st, t, ex.zeroVal(t), x.Comment))
	case *ssa.Phi:
		// handled at block entry
	case *ssa.BinOp:
		fr.set(x, ex.binop(st, x.Op, ex.val(st, fr, x.X), ex.val(st, fr, x.Y), x.X.Type(), x.Y.Type()))
	case *ssa.UnOp:
		if x.Op == token.ARROW && st.waits != nil {
			w := st.waits
			ex.push(st, w.fn, w.binds, func(st *State, _ Value) {
				f := st.top()
				f.set(x, ex.unop(st, x, ex.val(st, f, x.X)))
			}, true)
			return
		}
		fr.set(x, ex.unop(st, x, ex.val(st, fr, x.X)))
	case *ssa.ChangeType:
		fr.set(x, ex.val(st, fr, x.X))
	case *ssa.Convert:
		fr.set(x, ex.convert(st, ex.val(st, fr, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		fr.set(x, ex.convert(st, ex.val(st, fr, x.X), x.X.Type(), x.Type()))
	case *ssa.ChangeInterface:
		fr.set(x, ex.val(st, fr, x.X))
	case *ssa.MakeInterface:
		fr.set(x, IfaceV{t: x.X.Type(), v: ex.val(st, fr, x.X)})
	case *ssa.MakeClosure:
		f := FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.binds = append(f.binds, ex.val(st, fr, b))
		}
		fr.set(x, f)
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		h, id := st.heap.alloc(&Obj{val: &MapV{kt: mt.Key(), vt: mt.Elem()}, typ: x.Type()})
		st.heap = h
		fr.set(x, MapRef{id})
	case *ssa.MakeChan:
		h, id := st.heap.alloc(&Obj{val: OpaqueV{kind: "chan"}, typ: x.Type()})
		st.heap = h
		fr.set(x, ChanV{id})
	case *ssa.MakeSlice:
		l := ex.ext64(ex.val(st, fr, x.Len).(*Term), x.Len.Type())
		cp := ex.ext64(ex.val(st, fr, x.Cap).(*Term), x.Cap.Type())
		et := x.Type().Underlying().(*types.Slice).Elem()
		fr.set(x, ex.makeSlice(st, et, l, cp))
	case *ssa.Slice:
		fr.set(x, ex.sliceOp(st, fr, x))
	case *ssa.SliceToArrayPointer:
		s := ex.val(st, fr, x.X).(*SliceV)
		n := x.Type().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		ex.rtPanic(st, "slice to array pointer length", ex.Ule(ex.I(int(n)), s.len))
		panic(unsupported("slice to array pointer"))
	case *ssa.FieldAddr:
		p, ok := ex.val(st, fr, x.X).(Ptr)
		if !ok {
			panic(unsupported("field address of opaque pointer"))
		}
		ex.nilCheck(st, p, "field")
		fr.set(x, p.field(x.Field))
	case *ssa.Field:
		s := ex.val(st, fr, x.X)
		sv, ok := s.(*StructV)
		if !ok {
			panic(unsupported(fmt.Sprintf("field of %T", s)))
		}
		fr.set(x, sv.f[x.Field])
	case *ssa.IndexAddr:
		idx := ex.ext64(ex.val(st, fr, x.Index).(*Term), x.Index.Type())
		switch b := ex.val(st, fr, x.X).(type) {
		case *SliceV:
			ex.rtPanic(st, "index out of range", ex.Ult(idx, b.len))
			fr.set(x, b.base.index(ex.Add(b.off, idx)))
		case Ptr:
			ex.nilCheck(st, b, "index")
			n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			ex.rtPanic(st, "index out of range", ex.Ult(idx, ex.I(int(n))))
			fr.set(x, b.index(idx))
		default:
			panic(unsupported(fmt.Sprintf("IndexAddr on %T", b)))
		}
	case *ssa.Index:
		idx := ex.ext64(ex.val(st, fr, x.Index).(*Term), x.Index.Type())
		switch b := ex.val(st, fr, x.X).(type) {
		case *Str:
			ex.rtPanic(st, "index out of range", ex.Ult(idx, b.len))
			fr.set(x, ex.Sel(b.arr, ex.Add(b.off, idx)))
		case *ArrV:
			ex.rtPanic(st, "index out of range", ex.Ult(idx, b.n))
			fr.set(x, ex.Sel(b.arr, idx))
		case *VecV:
			ex.rtPanic(st, "index out of range", ex.Ult(idx, ex.I(len(b.e))))
			fr.set(x, b.e[ex.pickIndex(st, idx, len(b.e))])
		default:
			panic(unsupported(fmt.Sprintf("Index on %T", b)))
		}
	case *ssa.Lookup:
		fr.set(x, ex.lookup(st, fr, x))
	case *ssa.MapUpdate:
		m := ex.val(st, fr, x.Map).(MapRef)
		ex.rtPanic(st, "assignment to entry in nil map", ex.Bool(m.obj != 0))
		ex.mapSet(st, m, ex.val(st, fr, x.Key), ex.val(st, fr, x.Value))
	case *ssa.Range:
		switch v := ex.val(st, fr, x.X).(type) {
		case *Str:
			fr.set(x, &IterV{isStr: true, str: v, pos: ex.I(0)})
		case MapRef:
			it := &IterV{m: &MapV{}}
			if v.obj != 0 {
				m := st.heap.get(v.obj).val.(*MapV)
				if m.base != "" {
					panic(unsupported("range over symbolic map"))
				}
				it.m = m
			}
			fr.set(x, it)
		default:
			panic(unsupported(fmt.Sprintf("range over %T", v)))
		}
	case *ssa.Next:
		ex.next(st, fr, x)
	case *ssa.TypeAssert:
		fr.set(x, ex.typeAssert(st, ex.val(st, fr, x.X), x.AssertedType, x.CommaOk))
	case *ssa.Extract:
		fr.set(x, ex.val(st, fr, x.Tuple).(TupleV)[x.Index])
	case *ssa.Store:
		p, ok := ex.val(st, fr, x.Addr).(Ptr)
		if !ok {
			panic(unsupported("store to opaque pointer"))
		}
		ex.nilCheck(st, p, "store")
		ex.store(st, p, ex.val(st, fr, x.Val))
	case *ssa.Jump:
		ex.goTo(rc, st, fr, fr.blk.Succs[0])
	case *ssa.If:
		c := ex.val(st, fr, x.Cond).(*Term)
		if ex.merge && !c.IsConst() && ex.tryMerge(st, fr, c) {
			return
		}
		if ex.decide(st, c) {
			ex.goTo(rc, st, fr, fr.blk.Succs[0])
		} else {
			ex.goTo(rc, st, fr, fr.blk.Succs[1])
		}
	case *ssa.Return:
		var v Value
		switch len(x.Results) {
		case 0:
			v = TupleV{}
		case 1:
			v = ex.val(st, fr, x.Results[0])
		default:
			tv := make(TupleV, len(x.Results))
			for i, r := range x.Results {
				tv[i] = ex.val(st, fr, r)
			}
			v = tv
		}
		ex.doReturn(st, v)
	case *ssa.Call:
		ex.call(st, fr, x, &x.Call, x)
	case *ssa.Defer:
		fv, args := ex.resolveCall(st, fr, &x.Call)
		fr.defers = append(fr.defers, deferRec{fv, args})
	case *ssa.RunDefers:
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			fr.ip-- // come back here
			depth := len(st.frames)
			ex.invoke(st, d.fn, d.args, func(st *State, v Value) {}, depth)
		}
	case *ssa.Panic:
		v := ex.val(st, fr, x.X)
		ex.doPanic(st, "explicit panic", v)
	case *ssa.Go:
		if !x.Call.IsInvoke() {
			if fv, ok := ex.val(st, fr, x.Call.Value).(FuncV); ok && fv.fn != nil && !ex.refute && ex.w.specOf(ex.contract, fnName(fv.fn)) != nil {
				// what a goroutine runs is verified against its contract: its precondition is due here
				f, args := ex.resolveCall(st, fr, &x.Call)
				ex.invoke(st, f, args, func(*State, Value) {}, len(st.frames))
				return
			}
		}
		if ex.runsGo && !x.Call.IsInvoke() {
			f, args := ex.resolveCall(st, fr, &x.Call)
			st.goes = append(st.goes[:len(st.goes):len(st.goes)], goCall{f, args})
			ex.assumes["goroutines started with go are executed after the function under contract, in the order they were started ("+ex.posStr(x.Pos())+")"] = true
			return
		}
		ex.assumes["goroutines started with go are not executed by the verifier ("+ex.posStr(x.Pos())+")"] = true
	case *ssa.Send:
		ex.assumes["channel sends are treated as no-ops"] = true
	case *ssa.Select:
		// any case may be the one that proceeds
		n := len(x.States)
		if !x.Blocking {
			n++
		}
		pick := n - 1
		for i := 0; i < n-1; i++ {
			if ex.decide(st, ex.Eq(ex.Var(fmt.Sprintf("select!%d!%d", st.selN, i), 8), ex.BV(8, 1))) {
				pick = i
				break
			}
		}
		st.selN++
		if pick == len(x.States) {
			for _, ss := range x.States {
				if ss.Dir == types.RecvOnly && ex.closedChan(st, ex.val(st, fr, ss.Chan)) {
					panic(pathEnd{}) // that case is ready, the default isn't taken
				}
			}
		}
		tv := TupleV{ex.BV(64, uint64(int64(pick))), ex.Eq(ex.Fresh("recvok", 8), ex.BV(8, 1))}
		if pick < len(x.States) && ex.closedChan(st, ex.val(st, fr, x.States[pick].Chan)) {
			tv[1] = ex.False
		}
		if pick == len(x.States) {
			tv[0] = ex.BV(64, ^uint64(0))
		}
		for i, ss := range x.States {
			if ss.Dir == types.RecvOnly {
				et := ss.Chan.Type().Underlying().(*types.Chan).Elem()
				if i == pick {
					tv = append(tv, ex.received(st, ex.val(st, fr, ss.Chan), et))
				} else {
					tv = append(tv, ex.zeroVal(et))
				}
			} else if i == pick {
				ex.assumes["channel sends are treated as no-ops"] = true
			}
		}
		fr.set(x, tv)
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
}

func (ex *Exec) doPanic(st *State, what string, v Value) {
	if len(st.catch) > 0 || ex.hasRecover(st) {
		panic(goPanic{what: what, val: v})
	}
	ex.prove(st, ex.False, "panic", what)
	panic(pathEnd{})
}

func (ex *Exec) doReturn(st *State, v Value) {
	fr := st.top()
	if len(st.frames) == 1 && st.held > 0 && fr.onRet == nil {
		ex.prove(st, ex.False, "lock", "no lock is still held in the end")
	}
	st.frames = st.frames[:len(st.frames)-1]
	for len(st.catch) > 0 && st.catch[len(st.catch)-1].depth >= len(st.frames)+1 {
		st.catch = st.catch[:len(st.catch)-1]
	}
	if fr.onRet != nil {
		fr.onRet(st, v)
		return
	}
	if len(st.frames) == 0 {
		st.done = true
		st.ret = v
		return
	}
	if fr.dst != nil {
		st.top().set(fr.dst, v)
	}
}

func (ex *Exec) goTo(rc *runCtx, st *State, fr *Frame, b *ssa.BasicBlock) {
	// loop bookkeeping
	for len(fr.loops) > 0 && !fr.fi.loops[fr.loops[len(fr.loops)-1].hdr].body[b] {
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	from := fr.blk
	if l := fr.fi.loops[b]; l != nil {
		back := l.body[from]
		ex.loopHeader(rc, st, fr, l, from, back)
		return
	}
	ex.enterBlock(st, fr, b, from)
}

// pureSide evaluates a block that only computes scalars and goes on to another block
// and writes some of them to places already known
func (ex *Exec) pureSide(st *State, fr *Frame, b *ssa.BasicBlock, wrote *[]Ptr) bool {
	if len(b.Preds) != 1 || len(b.Succs) != 1 {
		return false
	}
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Jump:
		case *ssa.BinOp:
			a, ok1 := ex.val(st, fr, x.X).(*Term)
			c, ok2 := ex.val(st, fr, x.Y).(*Term)
			if !ok1 || !ok2 {
				return false
			}
			switch x.Op {
			case token.QUO, token.REM:
				return false
			case token.SHL, token.SHR:
				if !c.IsConst() || int64(c.val) < 0 {
					return false
				}
			}
			if isFloat(x.X.Type()) {
				return false
			}
			fr.set(x, ex.binop(st, x.Op, a, c, x.X.Type(), x.Y.Type()))
		case *ssa.Convert:
			a, ok := ex.val(st, fr, x.X).(*Term)
			if !ok || isFloat(x.X.Type()) || isFloat(x.Type()) || scalarW(x.Type()) < 0 {
				return false
			}
			fr.set(x, ex.convert(st, a, x.X.Type(), x.Type()))
		case *ssa.FieldAddr:
			p, ok := ex.val(st, fr, x.X).(Ptr)
			if !ok || p.obj <= 0 {
				return false
			}
			fr.set(x, p.field(x.Field))
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
			p, ok := ex.val(st, fr, x.X).(Ptr)
			if !ok || ex.plainCell(st, p) == nil {
				return false
			}
			fr.set(x, ex.plainCell(st, p))
		case *ssa.Store:
			p, ok := ex.val(st, fr, x.Addr).(Ptr)
			if !ok {
				return false
			}
			old, ok1 := ex.plainCell(st, p).(*Term)
			v, ok2 := ex.val(st, fr, x.Val).(*Term)
			if !ok1 || !ok2 || old.w != v.w {
				return false
			}
			ex.store(st, p, v)
			*wrote = append(*wrote, p)
		default:
			return false
		}
	}
	return true
}

// plainCell is the value at a place reached through fields and known elements only, nil when it is not such a place
func (ex *Exec) plainCell(st *State, p Ptr) Value {
	o := st.heap.get(p.obj)
	if o == nil || o.stale || o.origin != nil {
		return nil
	}
	v := o.val
	for _, pe := range p.path {
		switch x := v.(type) {
		case *StructV:
			if pe.idx != nil {
				return nil
			}
			v = x.f[pe.field]
		case *VecV:
			if pe.idx == nil || !pe.idx.IsConst() || pe.idx.val >= uint64(len(x.e)) {
				return nil
			}
			v = x.e[pe.idx.val]
		default:
			return nil
		}
	}
	return v
}

// tryMerge turns a branch whose sides only compute scalars into conditional values
func (ex *Exec) tryMerge(st *State, fr *Frame, c *Term) bool {
	b := fr.blk
	t, f := b.Succs[0], b.Succs[1]
	var j, tf, ff *ssa.BasicBlock // the join, and where each side comes from
	switch {
	case t == f:
		return false
	case len(t.Succs) == 1 && t.Succs[0] == f:
		j, tf, ff = f, t, b
	case len(f.Succs) == 1 && f.Succs[0] == t:
		j, tf, ff = t, b, f
	case len(t.Succs) == 1 && len(f.Succs) == 1 && t.Succs[0] == f.Succs[0]:
		j, tf, ff = t.Succs[0], t, f
	default:
		return false
	}
	if fr.fi.loops[j] != nil || len(j.Preds) != 2 {
		return false
	}
	heap := st.heap
	var wrote []Ptr
	merged := false
	defer func() {
		if !merged {
			st.heap = heap
		}
	}()
	if tf != b && !ex.pureSide(st, fr, tf, &wrote) {
		return false
	}
	heapT := st.heap
	st.heap = heap
	if ff != b && !ex.pureSide(st, fr, ff, &wrote) {
		return false
	}
	heapF := st.heap
	st.heap = heap
	if _, ok := j.Instrs[0].(*ssa.Phi); !ok && len(wrote) == 0 {
		return false
	}
	var phis []*ssa.Phi
	var vals []Value
	for _, in := range j.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var v [2]*Term
		for i, e := range ph.Edges {
			if n, ok := fr.fi.num[e]; ok && fr.env[n] == nil {
				return false
			}
			x, ok := ex.val(st, fr, e).(*Term)
			if !ok {
				return false
			}
			if j.Preds[i] == tf {
				v[0] = x
			} else {
				v[1] = x
			}
		}
		if v[0] == nil || v[1] == nil || v[0].w != v[1].w {
			return false
		}
		phis = append(phis, ph)
		vals = append(vals, ex.Ite(c, v[0], v[1]))
	}
	for len(fr.loops) > 0 && !fr.fi.loops[fr.loops[len(fr.loops)-1].hdr].body[j] {
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	for _, p := range wrote {
		st.heap = heapT
		a := ex.plainCell(st, p).(*Term)
		st.heap = heapF
		d := ex.plainCell(st, p).(*Term)
		st.heap = heap
		ex.store(st, p, ex.Ite(c, a, d))
		heap = st.heap
	}
	merged = true
	for i, ph := range phis {
		fr.set(ph, vals[i])
	}
	fr.prev = tf
	fr.blk = j
	fr.ip = len(phis)
	return true
}

func (ex *Exec) enterBlock(st *State, fr *Frame, b, from *ssa.BasicBlock) {
	pi := -1
	for i, p := range b.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var phis []*ssa.Phi
	var vals []Value
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		e := ph.Edges[pi]
		if i, ok := fr.fi.num[e]; ok && fr.env[i] == nil {
			// value not defined on this path (dead)
			vals = append(vals, nil)
			continue
		}
		vals = append(vals, ex.val(st, fr, e))
	}
	for i, ph := range phis {
		fr.set(ph, vals[i])
	}
	fr.prev = from
	fr.blk = b
	fr.ip = len(phis)
}

// ---------- calls
func (ex *Exec) resolveCall(st *State, fr *Frame, c *ssa.CallCommon) (FuncV, []Value) {
	var args []Value
	if c.IsInvoke() {
		iv, ok := ex.val(st, fr, c.Value).(IfaceV)
		if !ok {
			panic(unsupported("invoke on non-interface"))
		}
		if iv.t == nil {
			ex.rtPanic(st, "nil interface method call", ex.False)
		}
		for _, a := range c.Args {
			args = append(args, ex.val(st, fr, a))
		}
		return ex.method(iv, c.Method), append([]Value{iv.v}, args...)
	}
	f, ok := ex.val(st, fr, c.Value).(FuncV)
	if !ok {
		panic(unsupported("call of opaque function value"))
	}
	for _, a := range c.Args {
		args = append(args, ex.val(st, fr, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		f.builtin = b.Name()
	}
	return f, args
}

func (ex *Exec) method(iv IfaceV, m *types.Func) FuncV {
	if o, ok := iv.v.(OpaqueV); ok {
		name := m.Name()
		return FuncV{native: func(ex *Exec, st *State, args []Value) Value { return ex.opaqueMethod(st, o, name, args) }}
	}
	if _, ok := iv.v.(*RType); ok {
		name := m.Name()
		return FuncV{native: func(ex *Exec, st *State, args []Value) Value { return ex.rtypeMethod(st, name, args) }}
	}
	fn := ex.w.prog.LookupMethod(iv.t, m.Pkg(), m.Name())
	if fn == nil {
		panic(unsupported("no method " + m.Name() + " on " + iv.t.String()))
	}
	return FuncV{fn: fn}
}

func (ex *Exec) call(st *State, fr *Frame, in ssa.Instruction, c *ssa.CallCommon, dst ssa.Value) {
	f, args := ex.resolveCall(st, fr, c)
	if f.builtin != "" {
		fr.set(dst, ex.builtin(st, fr, f.builtin, c, args))
		return
	}
	depth := len(st.frames)
	ex.invoke(st, f, args, func(st *State, v Value) {
		st.frames[depth-1].set(dst, v)
	}, depth)
}

// invoke calls a function value; k is run with the result when it returns (in the state at that time)
func (ex *Exec) invoke(st *State, f FuncV, args []Value, k func(st *State, v Value), depth int) {
	if f.native != nil {
		k(st, f.native(ex, st, args))
		return
	}
	if f.fn == nil {
		if f.builtin != "" {
			k(st, ex.builtinArgs(st, f.builtin, args))
			return
		}
		ex.rtPanic(st, "call of nil function", ex.False)
	}
	fn := f.fn
	name := fnName(fn)
	if m, ok := models[name]; ok {
		ex.models[name] = true
		m(ex, st, fn, args, k)
		return
	}
	if o := fn.Origin(); o != nil {
		if m, ok := models[fnName(o)]; ok {
			ex.models[fnName(o)] = true
			m(ex, st, fn, args, k)
			return
		}
	}
	// contract substitution
	if sp := ex.w.specOf(ex.contract, name); sp != nil && !ex.refute {
		direct := len(st.frames) == 1 || st.top().spec
		if !(ex.target[name] && len(st.frames) == 1) && !ex.w.noSpec[ex.contract][name] && !(direct && ex.target[name]) {
			ex.specUsed[name] = true
			ex.push(st, sp, append(append([]Value(nil), args...), f.binds...), k, true)
			return
		}
	}
	if len(fn.Blocks) == 0 {
		ex.w.build(fn)
	}
	if fn.Synthetic == "package initializer" && len(st.frames) > 0 {
		k(st, nil)
		return
	}
	if len(fn.Blocks) == 0 || !ex.w.inlinable(fn) {
		if fn.Name() == "init" && ex.initing {
			k(st, nil)
			return
		}
		panic(unsupported("call to " + name))
	}
	if len(st.frames) > 60 {
		panic(unsupported("recursion too deep: " + name))
	}
	spec := ex.w.isSpec(fn)
	if spec && ex.w.pure[fn] && ex.pureDepth == 0 {
		ex.pureDepth++
		v := func() Value {
			defer func() { ex.pureDepth-- }()
			return ex.evalMergeQ(st, f, args)
		}()
		k(st, v)
		return
	}
	if !spec && fn.Pkg != nil && ex.w.isRepoPkg(fn.Pkg) {
		ex.inlined[name] = true
	}
	ex.push(st, fn, append(append([]Value(nil), args...), f.binds...), k, spec)
}

func (ex *Exec) push(st *State, fn *ssa.Function, args []Value, k func(st *State, v Value), spec bool) {
	if len(fn.Blocks) == 0 {
		ex.w.build(fn)
	}
	fi := ex.info(fn)
	nf := &Frame{fn: fn, fi: fi, blk: fn.Blocks[0], env: make([]Value, fi.n), onRet: k, spec: spec}
	if len(args) != len(fn.Params)+len(fn.FreeVars) {
		panic(fmt.Sprintf("arg count %s: %d vs %d+%d", fn, len(args), len(fn.Params), len(fn.FreeVars)))
	}
	for i, p := range fn.Params {
		nf.set(p, args[i])
	}
	for i, p := range fn.FreeVars {
		nf.set(p, args[len(fn.Params)+i])
	}
	st.frames = append(st.frames, nf)
	// functions whose entry block is a loop header
	if l := fi.loops[nf.blk]; l != nil {
		panic(unsupported("entry block is a loop header"))
	}
}

func fnName(fn *ssa.Function) string {
	return fn.RelString(nil)
}

// ---------- slices
const concretizeMax = 8

func (ex *Exec) makeSlice(st *State, et types.Type, l, cp *Term) *SliceV {
	ex.rtPanic(st, "makeslice: len out of range", ex.BAnd(ex.Sle(ex.I(0), l), ex.Ule(l, ex.BV(64, maxLen))))
	ex.rtPanic(st, "makeslice: cap out of range", ex.BAnd(ex.Ule(l, cp), ex.Ule(cp, ex.BV(64, maxLen))))
	return ex.makeSliceRaw(st, et, l, cp)
}
func (ex *Exec) makeSliceRaw(st *State, et types.Type, l, cp *Term) *SliceV {
	var cont Value
	if w := scalarW(et); w >= 0 {
		cont = &ArrV{arr: ex.AZero(w), n: cp}
	} else if cp.IsConst() && cp.val <= 4096 {
		v := &VecV{e: make([]Value, cp.val)}
		for i := range v.e {
			v.e[i] = ex.zeroVal(et)
		}
		cont = v
	} else {
		if cp == l || ex.refute {
			lim := uint64(concretizeMax)
			if ex.refute {
				lim = 4
			}
			if ex.refute || ex.mustBe(st, ex.Ule(l, ex.BV(64, lim))) {
				for i := 0; i <= int(lim); i++ {
					if ex.decide(st, ex.Eq(l, ex.I(i))) {
						return ex.makeSliceRaw(st, et, ex.I(i), ex.I(i))
					}
				}
				panic(pathEnd{})
			}
		}
		cont = ex.newSymVec(et, cp, "")
	}
	h, id := st.heap.alloc(&Obj{val: cont, typ: types.NewSlice(et), name: "make"})
	st.heap = h
	return &SliceV{base: Ptr{obj: id}, off: ex.I(0), len: l, cap: cp, isNil: ex.False, capKnown: true}
}

func (ex *Exec) sliceOp(st *State, fr *Frame, x *ssa.Slice) Value {
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return ex.ext64(ex.val(st, fr, v).(*Term), v.Type())
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = ex.I(0)
	}
	switch b := ex.val(st, fr, x.X).(type) {
	case *Str:
		if hi == nil {
			hi = b.len
		}
		ex.rtPanic(st, "slice bounds out of range", ex.BAnd(ex.Ule(lo, hi), ex.Ule(hi, b.len)))
		return ex.subStr(st, b, lo, hi)
	case *SliceV:
		if hi == nil {
			hi = b.len
		}
		cp := b.cap
		if mx != nil {
			ex.rtPanic(st, "slice bounds out of range", ex.Ule(mx, cp))
			cp = mx
		}
		if x.High == nil {
			ex.rtPanic(st, "slice bounds out of range", ex.Ule(lo, hi))
		} else {
			ex.rtPanic(st, "slice bounds out of range", ex.BAnd(ex.Ule(lo, hi), ex.Ule(hi, cp)))
		}
		return &SliceV{base: b.base, off: ex.Add(b.off, lo), len: ex.subLen(hi, lo), cap: ex.subLen(cp, lo), isNil: b.isNil, capKnown: b.capKnown || mx != nil}
	case Ptr:
		ex.nilCheck(st, b, "slice")
		n := ex.I(int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		if hi == nil {
			hi = n
		}
		cp := n
		if mx != nil {
			cp = mx
		}
		ex.rtPanic(st, "slice bounds out of range", ex.BAnd(ex.Ule(lo, hi), ex.Ule(hi, cp), ex.Ule(cp, n)))
		return &SliceV{base: b, off: lo, len: ex.subLen(hi, lo), cap: ex.subLen(cp, lo), isNil: ex.False, capKnown: true}
	default:
		panic(unsupported(fmt.Sprintf("slice of %T", b)))
	}
}

// hi-lo where lo<=hi is established on this path (no range is recorded: the term may occur on other paths)
func (ex *Exec) subLen(hi, lo *Term) *Term { return ex.Sub(hi, lo) }

func (ex *Exec) subStr(st *State, b *Str, lo, hi *Term) *Str {
	if lo.IsConst() && lo.val == 0 && hi == b.len {
		return b
	}
	if r := ex.ropeSlice(st, b, lo, hi); r != nil {
		return r
	}
	return &Str{arr: b.arr, off: ex.Add(b.off, lo), len: ex.subLen(hi, lo)}
}

func (ex *Exec) container(st *State, p Ptr) Value {
	o := st.heap.get(p.obj)
	if o == nil {
		panic(unsupported("container of invalid object"))
	}
	if o.stale {
		panic(unsupported("stale view"))
	}
	return ex.walkLoad(st, o.val, p.path, p, 0)
}
func (ex *Exec) setContainer(st *State, p Ptr, v Value) {
	o := st.heap.get(p.obj)
	if st.wlog != nil {
		st.wlog.add(p.index(ex.I(0)))
	}
	n := *o
	n.val = ex.replaceRaw2(st, o.val, p.path, v)
	st.heap = st.heap.set(p.obj, &n)
	if o.origin != nil {
		ex.svWriteBack(st, o.origin, n.val)
		ex.touchViews(st, o.origin.base, o.origin.idx, o.origin.leaf, p.obj, false)
	}
}
func (ex *Exec) replaceRaw2(st *State, v Value, path []PE, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	switch x := v.(type) {
	case *StructV:
		f := append([]Value(nil), x.f...)
		f[path[0].field] = ex.replaceRaw2(st, f[path[0].field], path[1:], nv)
		return &StructV{f: f}
	case *VecV:
		e := append([]Value(nil), x.e...)
		i := ex.pickIndex(st, path[0].idx, len(e))
		e[i] = ex.replaceRaw2(st, e[i], path[1:], nv)
		return &VecV{e: e}
	case *SymVec:
		panic(unsupported("write to array inside symbolic vector"))
	}
	panic(unsupported(fmt.Sprintf("container path %T", v)))
}

// seqOf returns the scalar array behind a slice
func (ex *Exec) seqOf(st *State, s *SliceV, w int) (*Arr, *Term) {
	if s.base.obj == 0 {
		return ex.AZero(w), ex.I(0)
	}
	a, ok := ex.container(st, s.base).(*ArrV)
	if !ok {
		panic(unsupported("scalar view of composite slice"))
	}
	return a.arr, s.off
}

// bytes slice from a raw array
func (ex *Exec) newBytes(st *State, arr *Arr, n *Term) *SliceV {
	h, id := st.heap.alloc(&Obj{val: &ArrV{arr: arr, n: n}, name: "bytes"})
	st.heap = h
	return &SliceV{base: Ptr{obj: id}, off: ex.I(0), len: n, cap: n, isNil: ex.False}
}

func (ex *Exec) doCopy(st *State, d *SliceV, w int, sa *Arr, so, sl *Term, et types.Type, src *SliceV) *Term {
	var n *Term
	le := ex.Ule(sl, d.len)
	if v, ok := ex.known(st, le); ok {
		if v {
			n = sl
		} else {
			n = d.len
		}
	} else if ex.quiet == 0 {
		if ex.decide(st, le) {
			n = sl
		} else {
			n = d.len
		}
	} else if ex.mustBe(st, le) {
		n = sl
	} else if ex.mustBe(st, ex.Ule(d.len, sl)) {
		n = d.len
	} else {
		n = ex.Ite(le, sl, d.len)
	}
	if d.base.obj == 0 || (n.IsConst() && n.val == 0) {
		return n
	}
	if w >= 0 {
		c := ex.container(st, d.base).(*ArrV)
		ex.setContainer(st, d.base, &ArrV{arr: ex.ACopy(c.arr, d.off, sa, so, n), n: c.n})
		return n
	}
	// composite copy
	if !n.IsConst() {
		panic(unsupported("copy of symbolic number of composite elements"))
	}
	var tmp []Value
	for i := 0; i < int(n.val); i++ {
		tmp = append(tmp, ex.load(st, src.base.index(ex.AddI(src.off, i))))
	}
	for i := 0; i < int(n.val); i++ {
		ex.store(st, d.base.index(ex.AddI(d.off, i)), tmp[i])
	}
	return n
}

// append n elements from (sa,so)
func (ex *Exec) appendSeq(st *State, s *SliceV, w int, sa *Arr, so, n *Term, noFork bool) *SliceV {
	if n.IsConst() && n.val == 0 {
		return s
	}
	nl := ex.Add(s.len, n)
	if s.base.obj != 0 && s.capKnown {
		fits := ex.Ule(nl, s.cap)
		in := false
		if noFork {
			in = ex.mustBe(st, fits)
		} else {
			in = ex.decide(st, fits)
		}
		if in {
			c := ex.container(st, s.base).(*ArrV)
			ex.setContainer(st, s.base, &ArrV{arr: ex.ACopy(c.arr, ex.Add(s.off, s.len), sa, so, n), n: c.n})
			return &SliceV{base: s.base, off: s.off, len: nl, cap: s.cap, isNil: ex.False, capKnown: true}
		}
	}
	var arr *Arr
	if s.base.obj == 0 {
		arr = ex.AZero(w)
	} else {
		c := ex.container(st, s.base).(*ArrV)
		arr = ex.rebase(c.arr, s.off, s.len)
	}
	arr = ex.ACopy(arr, s.len, sa, so, n)
	h, id := st.heap.alloc(&Obj{val: &ArrV{arr: arr, n: nl}, name: "append"})
	st.heap = h
	isNil := ex.False
	if !n.IsConst() {
		isNil = ex.BAnd(s.isNil, ex.Eq(n, ex.I(0)))
	}
	return &SliceV{base: Ptr{obj: id}, off: ex.I(0), len: nl, cap: nl, isNil: isNil}
}

func (ex *Exec) appendComposite(st *State, s, t *SliceV, et types.Type) *SliceV {
	if t.len.IsConst() && t.len.val == 0 {
		return s
	}
	if !t.len.IsConst() {
		if ex.mustBe(st, ex.Ule(t.len, ex.I(concretizeMax))) || ex.refute {
			t = ex.concretizeLen(st, t)
			return ex.appendComposite(st, s, t, et)
		}
		panic(unsupported("append of symbolic number of composite elements"))
	}
	n := int(t.len.val)
	var el []Value
	for i := 0; i < n; i++ {
		el = append(el, ex.load(st, t.base.index(ex.AddI(t.off, i))))
	}
	nl := ex.AddI(s.len, n)
	if s.base.obj != 0 && s.capKnown && ex.decide(st, ex.Ule(nl, s.cap)) {
		for i, e := range el {
			ex.store(st, s.base.index(ex.Add(s.off, ex.AddI(s.len, i))), e)
		}
		return &SliceV{base: s.base, off: s.off, len: nl, cap: s.cap, isNil: ex.False, capKnown: true}
	}
	var cont Value
	off := ex.I(0)
	if s.base.obj == 0 {
		cont = &VecV{e: el}
	} else {
		switch c := ex.container(st, s.base).(type) {
		case *VecV:
			if !s.len.IsConst() || !s.off.IsConst() {
				s = ex.concretizeLen(st, s)
			}
			o, l := int(s.off.val), int(s.len.val)
			e := append([]Value(nil), c.e[o:o+l]...)
			cont = &VecV{e: append(e, el...)}
		case *SymVec:
			sv := c.clone()
			sv.n = nl
			off = s.off
			h, id := st.heap.alloc(&Obj{val: sv, typ: types.NewSlice(et), name: "append"})
			st.heap = h
			b := Ptr{obj: id}
			// the copied elements keep their contents; new ones are stored after them
			for i, e := range el {
				ex.svPut(st, sv, b, ex.Add(s.off, ex.AddI(s.len, i)), nil, e)
			}
			return &SliceV{base: b, off: off, len: nl, cap: nl, isNil: ex.False}
		default:
			panic(unsupported("append container"))
		}
	}
	h, id := st.heap.alloc(&Obj{val: cont, typ: types.NewSlice(et), name: "append"})
	st.heap = h
	return &SliceV{base: Ptr{obj: id}, off: off, len: nl, cap: nl, isNil: ex.False}
}

func (ex *Exec) concretizeLen(st *State, s *SliceV) *SliceV {
	if s.len.IsConst() && s.off.IsConst() {
		return s
	}
	lim := concretizeMax
	r := *s
	found := s.len.IsConst()
	for i := 0; i <= lim && !found; i++ {
		if ex.decide(st, ex.Eq(s.len, ex.I(i))) {
			r.len = ex.I(i)
			found = true
		}
	}
	if !found {
		if ex.refute {
			panic(pathEnd{})
		}
		panic(unsupported("slice length cannot be made concrete"))
	}
	return &r
}

// ---------- builtins
func (ex *Exec) builtin(st *State, fr *Frame, name string, c *ssa.CallCommon, args []Value) Value {
	switch name {
	case "append":
		s := args[0].(*SliceV)
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		w := scalarW(et)
		switch t := args[1].(type) {
		case *Str:
			return ex.appendSeq(st, s, 8, t.arr, t.off, t.len, false)
		case *SliceV:
			if w >= 0 {
				a, o := ex.seqOf(st, t, w)
				return ex.appendSeq(st, s, w, a, o, t.len, false)
			}
			return ex.appendComposite(st, s, t, et)
		}
	case "copy":
		d := args[0].(*SliceV)
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		w := scalarW(et)
		switch t := args[1].(type) {
		case *Str:
			return ex.doCopy(st, d, 8, t.arr, t.off, t.len, et, nil)
		case *SliceV:
			if w >= 0 {
				a, o := ex.seqOf(st, t, w)
				return ex.doCopy(st, d, w, a, o, t.len, et, t)
			}
			return ex.doCopy(st, d, -1, nil, nil, t.len, et, t)
		}
	case "min", "max":
		r := args[0].(*Term)
		typ := c.Args[0].Type()
		for _, a := range args[1:] {
			b := a.(*Term)
			var lt *Term
			if isSigned(typ) {
				lt = ex.Slt(b, r)
			} else {
				lt = ex.Ult(b, r)
			}
			if name == "max" {
				if isSigned(typ) {
					lt = ex.Slt(r, b)
				} else {
					lt = ex.Ult(r, b)
				}
			}
			r = ex.Ite(lt, b, r)
		}
		return r
	case "ssa:wrapnilchk":
		return args[0]
	}
	return ex.builtinArgs(st, name, args)
}

func (ex *Exec) builtinArgs(st *State, name string, args []Value) Value {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case *Str:
			return x.len
		case *SliceV:
			return x.len
		case *ArrV:
			return x.n
		case *VecV:
			return ex.I(len(x.e))
		case MapRef:
			if x.obj == 0 {
				return ex.I(0)
			}
			m := st.heap.get(x.obj).val.(*MapV)
			return ex.mapLen(st, m)
		case Ptr:
			switch y := ex.load(st, x).(type) {
			case *ArrV:
				return y.n
			case *VecV:
				return ex.I(len(y.e))
			}
		}
	case "cap":
		switch x := args[0].(type) {
		case *SliceV:
			return x.cap
		}
	case "delete":
		m := args[0].(MapRef)
		if m.obj != 0 {
			ex.mapDelete(st, m, args[1])
		}
		return TupleV{}
	case "clear":
		if m, ok := args[0].(MapRef); ok && m.obj != 0 {
			o := *st.heap.get(m.obj)
			mv := o.val.(*MapV)
			o.val = &MapV{kt: mv.kt, vt: mv.vt}
			st.heap = st.heap.set(m.obj, &o)
			return TupleV{}
		}
	case "print", "println":
		return TupleV{}
	case "close":
		c, ok := args[0].(ChanV)
		if !ok {
			panic(unsupported("close of an unknown channel"))
		}
		if c.obj == 0 {
			ex.rtPanic(st, "close of nil channel", ex.False)
		}
		o := *st.heap.get(c.obj)
		if ov, ok := o.val.(OpaqueV); ok && ov.kind == "closed" {
			ex.rtPanic(st, "close of closed channel", ex.False)
		}
		o.val = OpaqueV{kind: "closed"}
		st.heap = st.heap.set(c.obj, &o)
		return TupleV{}
	case "recover":
		// only meaningful while panicking
		for i := len(st.frames) - 1; i >= 0; i-- {
			if p := st.frames[i].pan; p != nil {
				st.frames[i].pan = nil
				st.frames[i].recov = true
				if iv, ok := p.val.(IfaceV); ok && iv.t != nil {
					return iv
				}
				return ex.newError("runtime error: " + p.what)
			}
		}
		return IfaceV{}
	case "ssa:wrapnilchk":
		return args[0]
	}
	panic(unsupported("builtin " + name))
}

// ---------- operators
func (ex *Exec) binop(st *State, op token.Token, a, b Value, ta, tb types.Type) Value {
	switch op {
	case token.EQL:
		return ex.eqMixed(st, a, b, ta, tb)
	case token.NEQ:
		return ex.Not(ex.eqMixed(st, a, b, ta, tb))
	}
	if s, ok := a.(*Str); ok {
		t := b.(*Str)
		switch op {
		case token.ADD:
			return ex.concat(st, s, t)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			x, ok1 := ex.concStr(s)
			y, ok2 := ex.concStr(t)
			if ok1 && ok2 {
				switch op {
				case token.LSS:
					return ex.Bool(x < y)
				case token.GTR:
					return ex.Bool(x > y)
				case token.LEQ:
					return ex.Bool(x <= y)
				default:
					return ex.Bool(x >= y)
				}
			}
			panic(unsupported("string ordering on symbolic strings"))
		}
	}
	x, ok := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok || !ok2 {
		panic(unsupported(fmt.Sprintf("binop %s on %T", op, a)))
	}
	if isFloat(ta) {
		return ex.floatOp(op, x, y)
	}
	sg := isSigned(ta)
	switch op {
	case token.ADD:
		return ex.Add(x, y)
	case token.SUB:
		return ex.Sub(x, y)
	case token.MUL:
		return ex.Mul(x, y)
	case token.QUO, token.REM:
		ex.rtPanic(st, "integer divide by zero", ex.Not(ex.Eq(y, ex.BV(y.w, 0))))
		if sg {
			if op == token.QUO {
				return ex.SDiv(x, y)
			}
			return ex.SRem(x, y)
		}
		if op == token.QUO {
			return ex.UDiv(x, y)
		}
		return ex.URem(x, y)
	case token.AND:
		return ex.And(x, y)
	case token.OR:
		return ex.Or(x, y)
	case token.XOR:
		return ex.Xor(x, y)
	case token.AND_NOT:
		return ex.And(x, ex.BNotW(y))
	case token.SHL, token.SHR:
		// shift count: unsigned view, may be wider or narrower
		if isSigned(tb) {
			ex.rtPanic(st, "negative shift amount", ex.Sle(ex.BV(y.w, 0), y))
		}
		var s *Term
		big := ex.False
		if y.w > x.w {
			big = ex.Ult(ex.BV(y.w, uint64(x.w-1)), y)
			s = ex.Extract(y, x.w-1, 0)
		} else {
			s = ex.ZExt(y, x.w)
			if !isSigned(tb) || true {
				big = ex.Ult(ex.BV(x.w, uint64(x.w-1)), s)
			}
		}
		var r, ov *Term
		if op == token.SHL {
			r, ov = ex.Shl(x, s), ex.BV(x.w, 0)
		} else if sg {
			r, ov = ex.AShr(x, s), ex.AShr(x, ex.BV(x.w, uint64(x.w-1)))
		} else {
			r, ov = ex.LShr(x, s), ex.BV(x.w, 0)
		}
		return ex.Ite(big, ov, r)
	case token.LSS:
		if sg {
			return ex.Slt(x, y)
		}
		return ex.Ult(x, y)
	case token.LEQ:
		if sg {
			return ex.Sle(x, y)
		}
		return ex.Ule(x, y)
	case token.GTR:
		if sg {
			return ex.Slt(y, x)
		}
		return ex.Ult(y, x)
	case token.GEQ:
		if sg {
			return ex.Sle(y, x)
		}
		return ex.Ule(y, x)
	case token.LAND:
		return ex.BAnd(x, y)
	case token.LOR:
		return ex.BOr(x, y)
	}
	panic(unsupported("binop " + op.String()))
}

func (ex *Exec) eqMixed(st *State, a, b Value, ta, tb types.Type) *Term {
	ia, ib := isIface(ta), isIface(tb)
	if ia && !ib {
		b = IfaceV{t: tb, v: b}
		ta = nil
	} else if ib && !ia {
		a = IfaceV{t: ta, v: a}
		ta = nil
	}
	return ex.eqVal(st, a, b, ta)
}

func (ex *Exec) floatConst(f float64, w int) *Term {
	if w == 32 {
		return ex.BV(32, uint64(math.Float32bits(float32(f))))
	}
	return ex.BV(64, math.Float64bits(f))
}
func fval(t *Term) float64 {
	if t.w == 32 {
		return float64(math.Float32frombits(uint32(t.val)))
	}
	return math.Float64frombits(t.val)
}
func (ex *Exec) floatOp(op token.Token, x, y *Term) Value {
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
		return ex.floatCmp(op, x, y)
	}
	if x.IsConst() && y.IsConst() {
		a, b := fval(x), fval(y)
		switch op {
		case token.ADD:
			return ex.floatConst(a+b, x.w)
		case token.SUB:
			return ex.floatConst(a-b, x.w)
		case token.MUL:
			return ex.floatConst(a*b, x.w)
		case token.QUO:
			return ex.floatConst(a/b, x.w)
		}
	}
	return ex.UF("f"+fmt.Sprint(x.w)+op.String(), x.w, x, y)
}
func (ex *Exec) floatCmp(op token.Token, x, y *Term) *Term {
	if x.IsConst() && y.IsConst() {
		a, b := fval(x), fval(y)
		switch op {
		case token.LSS:
			return ex.Bool(a < b)
		case token.LEQ:
			return ex.Bool(a <= b)
		case token.GTR:
			return ex.Bool(a > b)
		case token.GEQ:
			return ex.Bool(a >= b)
		case token.EQL:
			return ex.Bool(a == b)
		case token.NEQ:
			return ex.Bool(a != b)
		}
	}
	switch op {
	case token.GTR:
		return ex.floatCmp(token.LSS, y, x)
	case token.GEQ:
		return ex.floatCmp(token.LEQ, y, x)
	case token.NEQ:
		return ex.Not(ex.floatCmp(token.EQL, x, y))
	}
	// IEEE comparison on bit patterns
	return ex.ieeeCmp(op, x, y)
}
func (ex *Exec) ieeeCmp(op token.Token, x, y *Term) *Term {
	w := x.w
	mant := 23
	if w == 64 {
		mant = 52
	}
	nan := func(t *Term) *Term {
		e := ex.Extract(t, w-2, mant)
		m := ex.Extract(t, mant-1, 0)
		return ex.BAnd(ex.Eq(e, ex.BV(w-1-mant, mask(w-1-mant))), ex.Not(ex.Eq(m, ex.BV(mant, 0))))
	}
	ord := ex.BAnd(ex.Not(nan(x)), ex.Not(nan(y)))
	mag := func(t *Term) *Term { return ex.Extract(t, w-2, 0) }
	zero := ex.BAnd(ex.Eq(mag(x), ex.BV(w-1, 0)), ex.Eq(mag(y), ex.BV(w-1, 0)))
	eq := ex.BOr(ex.Eq(x, y), zero)
	if op == token.EQL {
		return ex.BAnd(ord, eq)
	}
	sx := ex.Eq(ex.Extract(x, w-1, w-1), ex.BV(1, 1))
	sy := ex.Eq(ex.Extract(y, w-1, w-1), ex.BV(1, 1))
	lt := ex.Ite(sx, ex.Ite(sy, ex.Ult(mag(y), mag(x)), ex.Not(zero)), ex.Ite(sy, ex.False, ex.Ult(mag(x), mag(y))))
	if op == token.LSS {
		return ex.BAnd(ord, lt)
	}
	return ex.BAnd(ord, ex.BOr(lt, eq))
}

func (ex *Exec) unop(st *State, x *ssa.UnOp, v Value) Value {
	switch x.Op {
	case token.MUL:
		p, ok := v.(Ptr)
		if !ok {
			panic(unsupported("load through opaque pointer"))
		}
		ex.nilCheck(st, p, "load")
		return ex.load(st, p)
	case token.NOT:
		return ex.Not(v.(*Term))
	case token.SUB:
		t := v.(*Term)
		if isFloat(x.Type()) {
			return ex.Xor(t, ex.BV(t.w, 1<<uint(t.w-1)))
		}
		return ex.Neg(t)
	case token.XOR:
		return ex.BNotW(v.(*Term))
	case token.ARROW:
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		r := ex.received(st, v, et)
		if x.CommaOk {
			if ex.closedChan(st, v) {
				return TupleV{r, ex.False}
			}
			return TupleV{r, ex.Eq(ex.Fresh("recvok", 8), ex.BV(8, 1))}
		}
		return r
	}
	panic(unsupported("unop " + x.Op.String()))
}

func (ex *Exec) convert(st *State, v Value, from, to types.Type) Value {
	fw, tw := scalarW(from), scalarW(to)
	if fw > 0 && tw > 0 {
		t := v.(*Term)
		ff, tf := isFloat(from), isFloat(to)
		switch {
		case !ff && !tf:
			if tw <= fw {
				return ex.Extract(t, tw-1, 0)
			}
			if isSigned(from) {
				return ex.SExt(t, tw)
			}
			return ex.ZExt(t, tw)
		case ff && tf:
			if fw == tw {
				return t
			}
			if t.IsConst() {
				return ex.floatConst(fval(t), tw)
			}
			r := ex.UF(fmt.Sprintf("f%dtof%d", fw, tw), tw, t)
			// not a number stays so, and nothing else becomes it
			ex.assume(st, ex.Eq(ex.floatCmpEq(r), ex.floatCmpEq(t)))
			return r
		case !ff && tf:
			if t.IsConst() {
				if isSigned(from) {
					return ex.floatConst(float64(t.S()), tw)
				}
				return ex.floatConst(float64(t.val), tw)
			}
			r := ex.UF(fmt.Sprintf("i%v%dtof%d", isSigned(from), fw, tw), tw, t)
			ex.assume(st, ex.floatCmpEq(r))
			return r
		default:
			if t.IsConst() {
				f := fval(t)
				if isSigned(to) {
					return ex.BV(tw, uint64(int64(f)))
				}
				return ex.BV(tw, uint64(f))
			}
			return ex.UF(fmt.Sprintf("f%dtoi%v%d", fw, isSigned(to), tw), tw, t)
		}
	}
	if isString(to) {
		switch s := v.(type) {
		case *Str:
			return s
		case *SliceV:
			sl := from.Underlying().(*types.Slice)
			if scalarW(sl.Elem()) == 8 {
				a, o := ex.seqOf(st, s, 8)
				return &Str{arr: a, off: o, len: s.len}
			}
		case *Term: // rune -> string
			if s.IsConst() {
				return ex.strConst(string(rune(s.S())))
			}
			if s.hi < 0x80 {
				return &Str{arr: ex.AVec(8, []*Term{ex.Extract(s, 7, 0)}), off: ex.I(0), len: ex.I(1)}
			}
		}
	}
	if s, ok := v.(*Str); ok {
		if sl, ok := to.Underlying().(*types.Slice); ok && scalarW(sl.Elem()) == 8 {
			a := ex.rebase(s.arr, s.off, s.len)
			return ex.newBytes(st, a, s.len)
		}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return v
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	panic(unsupported(fmt.Sprintf("convert %s to %s", from, to)))
}

func (ex *Exec) typeAssert(st *State, v Value, at types.Type, commaOk bool) Value {
	iv, ok := v.(IfaceV)
	if !ok {
		panic(unsupported(fmt.Sprintf("type assertion on %T", v)))
	}
	notOpaque(iv)
	good := false
	var res Value
	if iv.t != nil {
		if isIface(at) {
			it := at.Underlying().(*types.Interface)
			good = ex.implements(iv, it)
			res = iv
		} else {
			good = types.Identical(iv.t, at)
			res = iv.v
		}
	}
	if commaOk {
		if !good {
			res = ex.zeroVal(at)
		}
		return TupleV{res, ex.Bool(good)}
	}
	if !good {
		ex.rtPanic(st, "interface conversion to "+at.String(), ex.False)
	}
	return res
}
func (ex *Exec) implements(iv IfaceV, it *types.Interface) bool {
	if o, ok := iv.v.(OpaqueV); ok && o.kind == "error" {
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Name() != "Error" {
				return false
			}
		}
		return true
	}
	return types.Implements(iv.t, it)
}

// ---------- maps
func (ex *Exec) keyEq(st *State, a, b Value, kt types.Type) *Term {
	if isIface(kt) {
		return ex.eqVal(st, a, b, nil)
	}
	return ex.eqVal(st, a, b, kt)
}
func (ex *Exec) concKey(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.IsConst() {
			return fmt.Sprintf("i%d", x.val), true
		}
	case *Str:
		if s, ok := ex.concStr(x); ok {
			return "s" + s, true
		}
	}
	return "", false
}

func (ex *Exec) mapFind(st *State, m *MapV, k Value) int {
	ck, conc := ex.concKey(k)
	if conc && m.idx != nil {
		if i, ok := m.idx[ck]; ok {
			return i
		}
		return -1
	}
	for i := len(m.ents) - 1; i >= 0; i-- {
		if ex.decide(st, ex.keyEq(st, m.ents[i].k, k, m.kt)) {
			return i
		}
	}
	return -1
}
func (ex *Exec) mapGet(st *State, ref MapRef, k Value) (Value, bool) {
	if ref.obj == 0 {
		return nil, false
	}
	m := st.heap.get(ref.obj).val.(*MapV)
	i := ex.mapFind(st, m, k)
	if i >= 0 {
		if m.ents[i].deleted {
			return nil, false
		}
		return m.ents[i].v, true
	}
	if m.base != "" {
		// unknown base: membership is a fresh choice memoised as an entry
		present := ex.decide(st, ex.mapHas(m, k))
		if !present {
			ex.mapPut(st, ref, mapEntry{k: k, deleted: true})
			return nil, false
		}
		v := ex.freshVal(st, m.base+"$v"+ex.keyName(k), m.vt)
		ex.mapPut(st, ref, mapEntry{k: k, v: v})
		return v, true
	}
	return nil, false
}
func (ex *Exec) keyName(k Value) string {
	switch x := k.(type) {
	case *Term:
		return fmt.Sprintf("%d", x.id)
	case *Str:
		return fmt.Sprintf("%d_%d_%d", x.arr.id, x.off.id, x.len.id)
	}
	return "?"
}
func (ex *Exec) mapHas(m *MapV, k Value) *Term {
	return ex.Var(m.base+"$has"+ex.keyName(k), 0)
}
func (ex *Exec) mapPut(st *State, ref MapRef, e mapEntry) {
	o := *st.heap.get(ref.obj)
	m := o.val.(*MapV)
	n := &MapV{ents: append(append([]mapEntry(nil), m.ents...), e), kt: m.kt, vt: m.vt, base: m.base, count: m.count}
	o.val = n
	st.heap = st.heap.set(ref.obj, &o)
}
func (ex *Exec) mapSet(st *State, ref MapRef, k, v Value) {
	if st.wlog != nil {
		st.wlog.add(Ptr{obj: ref.obj})
	}
	o := *st.heap.get(ref.obj)
	m := o.val.(*MapV)
	ck, conc := ex.concKey(k)
	if conc && (m.idx != nil || len(m.ents) == 0) && m.base == "" {
		n := &MapV{kt: m.kt, vt: m.vt}
		if i, ok := m.idx[ck]; ok {
			n.ents = append([]mapEntry(nil), m.ents...)
			n.ents[i] = mapEntry{k: k, v: v}
			n.idx = m.idx
		} else if ex.initing {
			m.ents = append(m.ents, mapEntry{k: k, v: v})
			if m.idx == nil {
				m.idx = map[string]int{}
			}
			m.idx[ck] = len(m.ents) - 1
			return
		} else {
			n.ents = append(append([]mapEntry(nil), m.ents...), mapEntry{k: k, v: v})
			n.idx = map[string]int{}
			for kk, vv := range m.idx {
				n.idx[kk] = vv
			}
			n.idx[ck] = len(n.ents) - 1
		}
		o.val = n
		st.heap = st.heap.set(ref.obj, &o)
		return
	}
	i := ex.mapFind(st, m, k)
	n := &MapV{kt: m.kt, vt: m.vt, base: m.base, count: m.count}
	n.ents = append([]mapEntry(nil), m.ents...)
	if i >= 0 {
		if n.ents[i].deleted && m.base == "" {
			// re-inserted keys go to the end
			n.ents = append(n.ents[:i:i], n.ents[i+1:]...)
			n.ents = append(n.ents, mapEntry{k: k, v: v})
		} else {
			n.ents[i] = mapEntry{k: n.ents[i].k, v: v}
		}
	} else {
		n.ents = append(n.ents, mapEntry{k: k, v: v})
	}
	o.val = n
	st.heap = st.heap.set(ref.obj, &o)
}
func (ex *Exec) mapDelete(st *State, ref MapRef, k Value) {
	if st.wlog != nil {
		st.wlog.add(Ptr{obj: ref.obj})
	}
	o := *st.heap.get(ref.obj)
	m := o.val.(*MapV)
	i := ex.mapFind(st, m, k)
	n := &MapV{kt: m.kt, vt: m.vt, base: m.base, count: m.count}
	n.ents = append([]mapEntry(nil), m.ents...)
	if i >= 0 {
		if m.base != "" {
			n.ents[i] = mapEntry{k: n.ents[i].k, deleted: true}
		} else {
			n.ents = append(n.ents[:i:i], n.ents[i+1:]...)
		}
	} else if m.base != "" {
		n.ents = append(n.ents, mapEntry{k: k, deleted: true})
	}
	o.val = n
	st.heap = st.heap.set(ref.obj, &o)
}
func (ex *Exec) mapLen(st *State, m *MapV) *Term {
	if m.base != "" {
		panic(unsupported("len of symbolic map"))
	}
	n := 0
	for _, e := range m.ents {
		if !e.deleted {
			n++
		}
	}
	return ex.I(n)
}

func (ex *Exec) lookup(st *State, fr *Frame, x *ssa.Lookup) Value {
	b := ex.val(st, fr, x.X)
	k := ex.val(st, fr, x.Index)
	if s, ok := b.(*Str); ok {
		idx := ex.ext64(k.(*Term), x.Index.Type())
		ex.rtPanic(st, "index out of range", ex.Ult(idx, s.len))
		return ex.Sel(s.arr, ex.Add(s.off, idx))
	}
	v, ok := ex.mapGet(st, b.(MapRef), k)
	if !ok {
		v = ex.zeroVal(x.X.Type().Underlying().(*types.Map).Elem())
	}
	if x.CommaOk {
		return TupleV{v, ex.Bool(ok)}
	}
	return v
}

func (ex *Exec) next(st *State, fr *Frame, x *ssa.Next) {
	it := ex.val(st, fr, x.Iter).(*IterV)
	if it.isStr {
		// ASCII strings only: each byte is one rune
		more := ex.Ult(it.pos, it.str.len)
		if !ex.decide(st, more) {
			fr.set(x, TupleV{ex.False, ex.I(0), ex.BV(32, 0)})
			return
		}
		b := ex.Sel(it.str.arr, ex.Add(it.str.off, it.pos))
		if ex.decide(st, ex.Ult(b, ex.BV(8, 0x80))) {
			fr.set(x, TupleV{ex.True, it.pos, ex.ZExt(b, 32)})
			np := &IterV{isStr: true, str: it.str, pos: ex.AddI(it.pos, 1)}
			fr.set(x.Iter, np)
			return
		}
		panic(unsupported("range over non-ASCII string"))
	}
	i := it.i
	for i < len(it.m.ents) && it.m.ents[i].deleted {
		i++
	}
	tt := x.Type().(*types.Tuple)
	if i >= len(it.m.ents) {
		fr.set(x, TupleV{ex.False, ex.zeroOr(tt.At(1).Type()), ex.zeroOr(tt.At(2).Type())})
		return
	}
	e := it.m.ents[i]
	fr.set(x, TupleV{ex.True, e.k, e.v})
	fr.set(x.Iter, &IterV{m: it.m, i: i + 1})
}
func (ex *Exec) zeroOr(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return ex.I(0)
	}
	return ex.zeroVal(t)
}

// fresh symbolic value of a type
func (ex *Exec) freshVal(st *State, name string, t types.Type) Value {
	if w := scalarW(t); w >= 0 {
		return ex.Var(name, w)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return &Str{arr: ex.ABase(name, 8), off: ex.I(0), len: ex.VarR(name+"$len", 64, 0, maxLen)}
		}
	case *types.Struct:
		s := &StructV{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = ex.freshVal(st, name+"."+u.Field(i).Name(), u.Field(i).Type())
		}
		return s
	case *types.Array:
		if w := scalarW(u.Elem()); w >= 0 {
			return &ArrV{arr: ex.ABase(name, w), n: ex.I(int(u.Len()))}
		}
		v := &VecV{e: make([]Value, u.Len())}
		for i := range v.e {
			v.e[i] = ex.freshVal(st, fmt.Sprintf("%s[%d]", name, i), u.Elem())
		}
		return v
	case *types.Slice:
		n := ex.VarR(name+"$len", 64, 0, maxLen)
		var c Value
		if w := scalarW(u.Elem()); w >= 0 {
			c = &ArrV{arr: ex.ABase(name, w), n: n}
		} else {
			c = ex.newSymVec(u.Elem(), n, name)
		}
		h, id := st.heap.alloc(&Obj{val: c, typ: t, name: name})
		st.heap = h
		return &SliceV{base: Ptr{obj: id}, off: ex.I(0), len: n, cap: n, isNil: ex.False, capKnown: true}
	case *types.Pointer:
		h, id := st.heap.alloc(&Obj{typ: u.Elem(), name: name})
		st.heap = h
		v := ex.freshVal(st, name+"*", u.Elem())
		o := *st.heap.get(id)
		o.val = v
		st.heap = st.heap.set(id, &o)
		return Ptr{obj: id}
	case *types.Map:
		h, id := st.heap.alloc(&Obj{val: &MapV{kt: u.Key(), vt: u.Elem(), base: name}, typ: t, name: name})
		st.heap = h
		return MapRef{id}
	}
	panic(unsupported("fresh value of " + t.String()))
}

func shortFn(s string) string {
	return strings.ReplaceAll(s, "github.com/danomagnum/gologix", "gologix")
}

// received is what comes out of a channel: any value
func (ex *Exec) received(st *State, ch Value, et types.Type) Value {
	if c, ok := ch.(ChanV); ok && c.obj == 0 {
		panic(pathEnd{}) // waits for ever
	}
	if ex.closedChan(st, ch) {
		return ex.zeroVal(et)
	}
	if z, ok := ex.zeroVal(et).(OpaqueV); ok {
		return z
	}
	if n, ok := et.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time" {
		return OpaqueV{kind: "time", id: 1}
	}
	if s, ok := et.Underlying().(*types.Struct); ok && s.NumFields() == 0 {
		return ex.zeroVal(et)
	}
	if scalarW(et) > 0 {
		return ex.freshVal(st, "received", et)
	}
	panic(unsupported("receive of " + et.String()))
}

// closedChan: this channel has been closed by the code under verification
func (ex *Exec) closedChan(st *State, ch Value) bool {
	c, ok := ch.(ChanV)
	if !ok || c.obj == 0 {
		return false
	}
	o, ok := st.heap.get(c.obj).val.(OpaqueV)
	return ok && o.kind == "closed"
}

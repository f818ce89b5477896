package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type writeLog struct {
	parent *writeLog
	maxObj int
	ents   map[string]Ptr
}

func (w *writeLog) add(p Ptr) {
	for x := w; x != nil; x = x.parent {
		if p.obj > x.maxObj && p.obj < globalBase {
			continue
		}
		// truncate at first index
		q := Ptr{obj: p.obj}
		k := fmt.Sprint(p.obj)
		for _, e := range p.path {
			if e.idx != nil {
				if !e.idx.IsConst() {
					break
				}
				q.path = append(q.path, e)
				k += fmt.Sprintf(".i%d", e.idx.val)
				continue
			}
			q.path = append(q.path, e)
			k += fmt.Sprintf(".%d", e.field)
		}
		x.ents[k] = q
	}
}

type havocLoc struct {
	phi         *ssa.Phi // nil => memory
	mem         Ptr
	typ         types.Type
	v0          Value
	cur         Value
	mode        string
	d           uint64
	ld          uint64 // length delta
	lenMode     string
	nn          bool // candidate bounds
	ge, le, ueq bool
	tried       map[string]bool
	nextOK      bool
	alts        []Value // mode "set": the values this location takes at the loop head
	choice      int
}

type invCtx struct {
	loop     *Loop
	fn       *ssa.Function
	k        *Term
	locs     []*havocLoc
	capture  bool
	backs    []*State
	backFrom []*ssa.BasicBlock
	invs     []*invSpec
	entry    *State
	n0       int
	depth    int
	fresh0   int
	variant  *Term
}

func (ex *Exec) loopHeader(rc *runCtx, st *State, fr *Frame, l *Loop, from *ssa.BasicBlock, back bool) {
	if back && len(fr.loops) > 0 && fr.loops[len(fr.loops)-1].hdr == l.hdr {
		rec := &fr.loops[len(fr.loops)-1]
		if rec.mode == 1 {
			if rec.inv.capture {
				rec.inv.backs = append(rec.inv.backs, st.clone())
				rec.inv.backFrom = append(rec.inv.backFrom, from)
				panic(pathEnd{})
			}
			ex.checkBack(st, fr, rec.inv, from)
			panic(pathEnd{})
		}
		rec.n++
		lim := ex.maxUnroll
		if rec.fork > lim && rec.n > 2 || rec.n > 20000 {
			if ex.refute {
				panic(pathEnd{})
			}
			panic(loopOverflow{l.hdr, len(st.frames)})
		}
		ex.enterBlock(st, fr, l.hdr, from)
		return
	}
	// entering the loop
	key := fmt.Sprintf("%s#%d", fnName(fr.fn), l.ord)
	if ex.refute {
		fr.loops = append(fr.loops, loopRec{hdr: l.hdr})
		ex.enterBlock(st, fr, l.hdr, from)
		return
	}
	invs := ex.applicable(st, fr, ex.w.invsFor(ex.contract, fnName(fr.fn), l.ord))
	if len(invs) == 0 {
		invs = ex.applicable(st, fr, ex.movedInvs(st, fr.fn, l.ord))
	}
	ckey := key
	for _, f := range st.frames[:len(st.frames)-1] {
		ckey += fmt.Sprintf("<%p:%d.%d", f.fn, f.blk.Index, f.ip)
	}
	if len(invs) == 0 && !ex.loopsCut[ckey] {
		// speculative complete unrolling
		if ex.tryUnroll(rc, st, fr, l, from) {
			ex.loopsUnr[key] = true
			panic(pathEnd{})
		}
		ex.loopsInv[key] = true
		ex.loopsCut[ckey] = true
	}
	ex.loopInv(rc, st, fr, l, from, invs)
}

type loopOverflow struct {
	hdr   *ssa.BasicBlock
	depth int
}

// tryUnroll runs the loop to completion; its exit states replace st in the work list
func (ex *Exec) tryUnroll(rc *runCtx, st *State, fr *Frame, l *Loop, from *ssa.BasicBlock) (ok bool) {
	nob, npaths := len(ex.obls), ex.paths
	depth := len(st.frames)
	s := st.clone()
	f := s.top()
	f.loops = append(f.loops, loopRec{hdr: l.hdr})
	cpos := ex.curPos
	defer func() {
		if r := recover(); r != nil {
			if lo, is := r.(loopOverflow); is && lo.hdr == l.hdr && lo.depth == depth {
				ex.obls = ex.obls[:nob]
				ex.paths = npaths
				ex.curPos = cpos
				ok = false
				return
			}
			panic(r)
		}
	}()
	ex.enterBlock(s, f, l.hdr, from)
	stop := func(x *State) bool {
		if len(x.frames) < depth {
			return true
		}
		return len(x.frames) == depth && !l.body[x.top().blk]
	}
	out := ex.runAll(s, stop)
	for i := len(out) - 1; i >= 0; i-- {
		rc.work = append(rc.work, out[i])
	}
	return true
}

func (ex *Exec) loopInv(rc *runCtx, st *State, fr *Frame, l *Loop, from *ssa.BasicBlock, invs []*invSpec) {
	depth := len(st.frames)
	kname := ex.fresh("k")
	ic := &invCtx{loop: l, fn: fr.fn, invs: invs, depth: depth, n0: st.heap.n, fresh0: ex.nfresh}
	ic.k = ex.VarR(kname, 64, 0, maxLen)
	// entry phi values
	pi := -1
	for i, p := range l.hdr.Preds {
		if p == from {
			pi = i
		}
	}
	for _, in := range l.hdr.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		e := ph.Edges[pi]
		if i, ok := fr.fi.num[e]; ok && fr.env[i] == nil {
			continue
		}
		ic.locs = append(ic.locs, &havocLoc{phi: ph, typ: ph.Type(), v0: ex.val(st, fr, e), tried: map[string]bool{}})
	}
	ic.entry = st.clone()
	for _, loc := range ic.locs {
		ex.initMode(st, loc)
		loc.cur = loc.v0
	}
	if len(invs) > 1 {
		if kept := ex.bindable(st, ic, invs); len(kept) > 0 {
			invs, ic.invs = kept, kept
		}
	}
	// Houdini-style discovery
	for iter := 0; ; iter++ {
		if iter > 40 {
			panic(unsupported("loop invariant discovery did not converge"))
		}
		changed := false
		for _, ch := range combos(ic.locs) {
			ch()
			s := st.clone()
			ic.capture = true
			ic.backs, ic.backFrom = nil, nil
			wl := &writeLog{parent: st.wlog, maxObj: ic.n0, ents: map[string]Ptr{}}
			s.wlog = nil
			ex.applyHavoc(s, s.top(), ic)
			s.wlog = wl
			ex.quiet++
			nq := len(ex.quietMsgs)
			f := s.top()
			f.loops = append(append([]loopRec(nil), f.loops...), loopRec{hdr: l.hdr, mode: 1, inv: ic})
			stop := func(x *State) bool {
				if len(x.frames) < depth {
					return true
				}
				return len(x.frames) == depth && !l.body[x.top().blk]
			}
			ok := ex.assumeInvs(s, ic)
			if ok {
				ex.runAll(s, stop)
			}
			ex.quiet--
			_ = nq
			changed = false
			// newly written memory
			var keys []string
			for k := range wl.ents {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				p := wl.ents[k]
				if ex.addMemLoc(st, ic, p) {
					changed = true
				}
			}
			if changed {
				break
			}
			for i, b := range ic.backs {
				for _, loc := range ic.locs {
					if ex.refine(b, ic, loc, ic.backFrom[i]) {
						changed = true
					}
				}
			}
			if changed {
				break
			}
		}
		if !changed {
			break
		}
	}
	ic.capture = false
	key := fmt.Sprintf("%s#%d", fnName(fr.fn), l.ord)
	ex.loopsInv[key] = true
	// establish user invariants on entry
	s := st.clone()
	for _, loc := range ic.locs {
		loc.cur = loc.v0
	}
	kk := ic.k
	ic.k = ex.I(0)
	for _, iv := range invs {
		if iv.fact {
			continue
		}
		t := ex.evalInv(s, ic, iv)
		ex.prove(s, t, "loop-invariant-entry", iv.name)
	}
	ic.k = kk
	// real run
	ex.forked = true
	if st.wlog != nil {
		for _, loc := range ic.locs {
			if loc.phi == nil {
				st.wlog.add(loc.mem)
			}
		}
	}
	for _, ch := range combos(ic.locs) {
		ch()
		s := st.clone()
		wl := s.wlog
		s.wlog = nil
		ex.applyHavoc(s, s.top(), ic)
		s.wlog = wl
		s.model = nil
		f := s.top()
		f.loops = append(append([]loopRec(nil), f.loops...), loopRec{hdr: l.hdr, mode: 1, inv: ic})
		ic2 := *ic
		icp := &ic2
		icp.locs = nil
		for _, loc := range ic.locs {
			c := *loc
			icp.locs = append(icp.locs, &c)
		}
		f.loops[len(f.loops)-1].inv = icp
		if !ex.assumeInvs(s, icp) {
			continue
		}
		rc.work = append(rc.work, s)
	}
	panic(pathEnd{})
}

// combos: one setter per combination of the values of "set" locations
func combos(locs []*havocLoc) []func() {
	var sl []*havocLoc
	n := 1
	for _, l := range locs {
		if l.mode == "set" {
			sl = append(sl, l)
			n *= len(l.alts)
		}
	}
	if n > 64 {
		panic(unsupported("too many value combinations at a loop head"))
	}
	var out []func()
	for i := 0; i < n; i++ {
		i := i
		out = append(out, func() {
			x := i
			for _, l := range sl {
				l.choice = x % len(l.alts)
				x /= len(l.alts)
			}
		})
	}
	return out
}

// altKey classifies a non-scalar value at a loop head; errors made inside the loop form one class per shape
func (ex *Exec) altKey(ic *invCtx, v Value) (string, bool) {
	switch x := v.(type) {
	case IfaceV:
		if x.t == nil {
			return "nil", true
		}
		if o, ok := x.v.(OpaqueV); ok && o.kind == "error" {
			if o.id < 0 || o.id <= ic.fresh0 {
				return fmt.Sprintf("err%d", o.id), true
			}
			d, _ := o.data.(*errData)
			k := "new(" + d.name
			for _, w := range d.wraps {
				wk, ok := ex.altKey(ic, w)
				if !ok {
					return "", false
				}
				k += "," + wk
			}
			return k + ")", true
		}
		k, ok := ex.altKey(ic, x.v)
		return x.t.String() + ":" + k, ok
	case Ptr:
		if len(x.path) == 0 && (x.obj <= ic.n0 || x.obj >= globalBase) {
			return fmt.Sprintf("ptr%d", x.obj), true
		}
	case OpaqueV:
		return fmt.Sprintf("%s%d", x.kind, x.id), true
	}
	return "", false
}
func (ex *Exec) refreshAlt(ic *invCtx, v Value) Value {
	if x, ok := v.(IfaceV); ok && x.t != nil {
		if o, ok := x.v.(OpaqueV); ok && o.kind == "error" && o.id > ic.fresh0 {
			d := o.data.(*errData)
			var ws []IfaceV
			for _, w := range d.wraps {
				ws = append(ws, ex.refreshAlt(ic, w).(IfaceV))
			}
			return ex.newError(d.name, ws...)
		}
	}
	return v
}

// refineSet adds nv to the values of a location; ok=false when it cannot be classified
func (ex *Exec) refineSet(ic *invCtx, loc *havocLoc, nv Value) (changed, ok bool) {
	k, ok := ex.altKey(ic, nv)
	if !ok {
		return false, false
	}
	if loc.mode != "set" {
		k0, ok := ex.altKey(ic, loc.v0)
		if !ok {
			return false, false
		}
		if k == k0 {
			return false, true
		}
		loc.mode = "set"
		loc.alts = []Value{loc.v0, nv}
		return true, true
	}
	for _, a := range loc.alts {
		if ak, _ := ex.altKey(ic, a); ak == k {
			return false, true
		}
	}
	loc.alts = append(append([]Value(nil), loc.alts...), nv)
	return true, true
}

func (ex *Exec) assumeInvs(s *State, ic *invCtx) bool {
	for _, iv := range ic.invs {
		t := ex.evalInv(s, ic, iv)
		ex.assume(s, t)
		if iv.fact {
			ex.assumes["ghost definition "+iv.name] = true
		}
	}
	if len(ic.invs) > 0 {
		s.model = nil
		r, _ := ex.query(s.pc, false)
		if r == Unsat {
			return false
		}
	}
	// a counter that the assumptions keep small gets that range (the variable lives under them only)
	for _, loc := range ic.locs {
		t, ok := loc.cur.(*Term)
		if !ok || loc.mode != "fresh" || t.op != OVar || t.w != 64 || t.hi <= maxLen {
			continue
		}
		c := ex.Ule(t, ex.BV(64, maxLen))
		if r, _ := ex.query(append(append([]*Term(nil), s.pc...), ex.Not(c)), false); r == Unsat {
			t.hi = maxLen
			ex.rng[t] = [2]uint64{t.lo, maxLen}
		}
	}
	return true
}

func (ex *Exec) initMode(st *State, loc *havocLoc) {
	switch v := loc.v0.(type) {
	case *Term:
		loc.mode = "same" // start optimistic: unchanged
	case *SliceV:
		loc.mode = "same"
		_ = v
	default:
		loc.mode = "same"
	}
	loc.ge, loc.le = true, true
}

func memKey(p Ptr) string {
	k := fmt.Sprint(p.obj)
	for _, e := range p.path {
		if e.idx != nil {
			k += fmt.Sprintf(".i%d", e.idx.val)
			continue
		}
		k += fmt.Sprintf(".%d", e.field)
	}
	return k
}

func (ex *Exec) addMemLoc(st *State, ic *invCtx, p Ptr) bool {
	o := st.heap.get(p.obj)
	if o == nil {
		return false
	}
	// elements of symbolic containers are havocked with their container
	w := o.val
	for i, e := range p.path {
		if e.idx != nil {
			if _, ok := w.(*VecV); !ok {
				p = Ptr{obj: p.obj, path: p.path[:i:i]}
				break
			}
		}
		if w = ex.walkLoadRaw(w, p.path[i:i+1]); w == nil {
			break
		}
	}
	k := memKey(p)
	v := ex.walkLoadRaw(o.val, p.path)
	if v == nil {
		panic(unsupported("loop writes memory that cannot be havocked"))
	}
	for _, loc := range ic.locs {
		if loc.phi == nil && loc.mem.obj == p.obj {
			lk := memKey(loc.mem)
			if lk == k || strings.HasPrefix(k, lk+".") {
				return false
			}
		}
	}
	// expand structs to leaves
	added := false
	var walk func(q Ptr, v Value)
	walk = func(q Ptr, v Value) {
		if sv, ok := v.(*StructV); ok {
			for i := range sv.f {
				walk(q.field(i), sv.f[i])
			}
			return
		}
		if vv, ok := v.(*VecV); ok {
			for i := range vv.e {
				walk(q.index(ex.I(i)), vv.e[i])
			}
			return
		}
		qk := memKey(q)
		for _, loc := range ic.locs {
			if loc.phi == nil && memKey(loc.mem) == qk {
				return
			}
		}
		loc := &havocLoc{mem: q, v0: v, tried: map[string]bool{}}
		ex.initMode(st, loc)
		ic.locs = append(ic.locs, loc)
		added = true
	}
	walk(p, v)
	return added
}

func (ex *Exec) applyHavoc(s *State, fr *Frame, ic *invCtx) {
	for _, loc := range ic.locs {
		loc.cur = ex.havocVal(s, ic, loc)
		if loc.phi != nil {
			fr.set(loc.phi, loc.cur)
		} else if loc.mode != "same" {
			o := *s.heap.get(loc.mem.obj)
			o.val = ex.replaceRaw(o.val, loc.mem.path, loc.cur)
			s.heap = s.heap.set(loc.mem.obj, &o)
		}
	}
	s.model = nil
	nphi := 0
	for _, in := range ic.loop.hdr.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		nphi++
	}
	fr.blk = ic.loop.hdr
	fr.ip = nphi
	// bounds candidates
	for _, loc := range ic.locs {
		if t, ok := loc.cur.(*Term); ok && loc.mode == "fresh" && t.w > 0 {
			v0 := loc.v0.(*Term)
			if loc.ge {
				ex.assume(s, ex.Sle(v0, t))
			}
			if loc.le {
				ex.assume(s, ex.Sle(t, v0))
			}
		}
	}
	ex.assumePrevCond(s, fr, ic)
}

// assumePrevCond: every arrival at the loop head but the first came through an iteration in which
// the header's condition let it into the body
func (ex *Exec) assumePrevCond(s *State, fr *Frame, ic *invCtx) {
	h := ic.loop.hdr
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || !ic.loop.body[h.Succs[0]] || ic.loop.body[h.Succs[1]] {
		return
	}
	b, ok := iff.Cond.(*ssa.BinOp)
	if !ok || b.Block() != h || (b.Op != token.LSS && b.Op != token.LEQ) {
		return
	}
	x := b.X
	add := int64(0)
	if a, ok := x.(*ssa.BinOp); ok && a.Block() == h && a.Op == token.ADD {
		c, ok := a.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return
		}
		add = c.Int64()
		x = a.X
	}
	ph, ok := x.(*ssa.Phi)
	if !ok || ph.Block() != h {
		return
	}
	bt, ok := ph.Type().Underlying().(*types.Basic)
	if !ok || bt.Info()&types.IsUnsigned != 0 {
		return
	}
	for _, loc := range ic.locs {
		if loc.phi != ph || loc.mode != "delta" {
			continue
		}
		cur, ok := loc.cur.(*Term)
		if !ok {
			return
		}
		var y *Term
		outside := func(v ssa.Value) bool {
			switch z := v.(type) {
			case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
				return true
			case ssa.Instruction:
				return !ic.loop.body[z.Block()]
			}
			return false
		}
		if outside(b.Y) {
			y, _ = ex.val(s, fr, b.Y).(*Term)
		} else if c, ok := b.Y.(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && outside(c.Call.Args[0]) {
				switch z := ex.val(s, fr, c.Call.Args[0]).(type) {
				case *SliceV:
					y = z.len
				case *Str:
					y = z.len
				}
			}
		}
		if y == nil || y.w != cur.w {
			return
		}
		prev := ex.Add(ex.Sub(cur, ex.BV(cur.w, loc.d)), ex.BV(cur.w, uint64(add)))
		c := ex.Slt(prev, y)
		if b.Op == token.LEQ {
			c = ex.Sle(prev, y)
		}
		ex.assume(s, ex.BOr(ex.Eq(ic.k, ex.I(0)), c))
		return
	}
}

func (ex *Exec) havocVal(s *State, ic *invCtx, loc *havocLoc) Value {
	switch loc.mode {
	case "same":
		return loc.v0
	case "set":
		return ex.refreshAlt(ic, loc.alts[loc.choice])
	case "delta":
		v0 := loc.v0.(*Term)
		return ex.Add(v0, ex.MulK(ex.Extract(ic.k, v0.w-1, 0), loc.d))
	case "fresh":
		switch v := loc.v0.(type) {
		case *Term:
			return ex.Fresh("h", v.w)
		case *Str:
			return &Str{arr: ex.ABase(ex.fresh("hs"), 8), off: ex.I(0), len: ex.FreshLen("hsl")}
		case *SliceV:
			return ex.havocSlice(s, ic, loc, v, false)
		case *ArrV:
			return &ArrV{arr: ex.ABase(ex.fresh("ha"), v.arr.w), n: v.n}
		case *SymVec:
			return ex.newSymVec(v.elem, v.n, ex.fresh("hv"))
		case *MapV:
			return &MapV{kt: v.kt, vt: v.vt, base: ex.fresh("hm")}
		}
	case "append":
		return ex.havocSlice(s, ic, loc, loc.v0.(*SliceV), true)
	case "reslice":
		v := loc.v0.(*SliceV)
		d := ex.MulK(ic.k, loc.d)
		return &SliceV{base: v.base, off: ex.Add(v.off, d), len: ex.Sub(v.len, d), cap: ex.Sub(v.cap, d), isNil: v.isNil, capKnown: v.capKnown}
	case "resliceF":
		v := loc.v0.(*SliceV)
		d := ex.FreshLen("ho")
		ex.assume(s, ex.Ule(d, v.len))
		return &SliceV{base: v.base, off: ex.Add(v.off, d), len: ex.Sub(v.len, d), cap: ex.Sub(v.cap, d), isNil: v.isNil, capKnown: v.capKnown}
	case "prefix": // container content: elements below the counter changed only
		switch v := loc.v0.(type) {
		case *ArrV:
			return &ArrV{arr: ex.ACopy(v.arr, ex.I(0), ex.ABase(ex.fresh("ha"), v.arr.w), ex.I(0), ic.k), n: v.n}
		}
	}
	panic(unsupported(fmt.Sprintf("havoc of %T (mode %s, %s)", loc.v0, loc.mode, ex.locName(loc))))
}

func (ex *Exec) locName(loc *havocLoc) string {
	if loc.phi != nil {
		return loc.phi.Comment
	}
	return "mem " + memKey(loc.mem)
}

func (ex *Exec) havocSlice(s *State, ic *invCtx, loc *havocLoc, v *SliceV, app bool) *SliceV {
	var cont Value
	var n *Term
	switch loc.lenMode {
	case "delta":
		n = ex.Add(v.len, ex.MulK(ic.k, loc.ld))
	default:
		n = ex.FreshLen("hl")
		if app {
			ex.assume(s, ex.Ule(v.len, n))
		}
	}
	var old Value
	et := ex.sliceElem(s, loc, v)
	w := -1
	if et != nil {
		w = scalarW(et)
	}
	if v.base.obj != 0 {
		old = ex.container(s, v.base)
		if a, ok := old.(*ArrV); ok {
			w = a.arr.w
		}
	}
	if w >= 0 {
		arr := ex.ABase(ex.fresh("hb"), w)
		if app && old != nil {
			a := old.(*ArrV)
			arr = ex.ACopy(arr, ex.I(0), a.arr, v.off, v.len)
		}
		cont = &ArrV{arr: arr, n: n}
	} else {
		if et == nil {
			panic(unsupported("havoc of slice with unknown element type: " + ex.locName(loc)))
		}
		sv := ex.newSymVec(et, n, ex.fresh("hv"))
		if app && v.len.IsConst() && v.len.val > 0 {
			// keep the initial elements
			h, id := s.heap.alloc(&Obj{val: sv, name: "havoc"})
			s.heap = h
			for i := 0; i < int(v.len.val); i++ {
				ex.svPut(s, sv, Ptr{obj: id}, ex.I(i), nil, ex.load(s, v.base.index(ex.AddI(v.off, i))))
			}
			return &SliceV{base: Ptr{obj: id}, off: ex.I(0), len: n, cap: n, isNil: ex.False}
		}
		cont = sv
	}
	h, id := s.heap.alloc(&Obj{val: cont, name: "havoc"})
	s.heap = h
	return &SliceV{base: Ptr{obj: id}, off: ex.I(0), len: n, cap: n, isNil: ex.Eq(n, ex.I(0))}
}

func (ex *Exec) sliceElem(s *State, loc *havocLoc, v *SliceV) types.Type {
	if loc.typ != nil {
		if sl, ok := loc.typ.Underlying().(*types.Slice); ok {
			return sl.Elem()
		}
	}
	if loc.phi == nil {
		o := s.heap.get(loc.mem.obj)
		if o != nil && o.typ != nil {
			t := o.typ
			for _, e := range loc.mem.path {
				if st, ok := t.Underlying().(*types.Struct); ok {
					t = st.Field(e.field).Type()
				} else if at, ok := t.Underlying().(*types.Array); ok {
					t = at.Elem()
				}
			}
			if sl, ok := t.Underlying().(*types.Slice); ok {
				return sl.Elem()
			}
		}
	}
	return nil
}

// next value of a location in a back-edge state
func (ex *Exec) nextVal(b *State, ic *invCtx, loc *havocLoc, from *ssa.BasicBlock) Value {
	if loc.phi != nil {
		for i, p := range ic.loop.hdr.Preds {
			if p == from {
				return ex.val(b, b.frames[ic.depth-1], loc.phi.Edges[i])
			}
		}
		panic("nextVal")
	}
	o := b.heap.get(loc.mem.obj)
	return ex.walkLoadRaw(o.val, loc.mem.path)
}

// refine adapts the mode of a location to a back-edge state; returns true when it changed
func (ex *Exec) refine(b *State, ic *invCtx, loc *havocLoc, from *ssa.BasicBlock) bool {
	nv := ex.nextVal(b, ic, loc, from)
	cur := loc.cur
	switch v0 := loc.v0.(type) {
	case *Term:
		n, ok := nv.(*Term)
		if !ok {
			panic(unsupported("loop variable changes kind"))
		}
		c := cur.(*Term)
		switch loc.mode {
		case "same":
			if n == c || ex.mustBe(b, ex.Eq(n, c)) {
				return false
			}
			if v0.w > 0 {
				d := ex.Sub(n, c)
				if d.IsConst() {
					loc.mode, loc.d = "delta", d.val
					return true
				}
			}
			loc.mode = "fresh"
			return true
		case "delta":
			want := ex.Add(c, ex.BV(c.w, loc.d))
			if n == want || ex.mustBe(b, ex.Eq(n, want)) {
				return false
			}
			loc.mode = "fresh"
			return true
		case "fresh":
			ch := false
			if v0.w > 0 {
				if loc.ge && !ex.mustBe(b, ex.Sle(v0, n)) {
					loc.ge = false
					ch = true
				}
				if loc.le && !ex.mustBe(b, ex.Sle(n, v0)) {
					loc.le = false
					ch = true
				}
			}
			return ch
		}
	case *SliceV:
		return ex.refineSlice(b, ic, loc, v0, nv.(*SliceV))
	case *Str:
		if loc.mode == "same" {
			n := nv.(*Str)
			if n == v0 || ex.mustBe(b, ex.eqStr(b, n, cur.(*Str))) {
				return false
			}
			loc.mode = "fresh"
			return true
		}
		return false
	case *ArrV:
		n := nv.(*ArrV)
		c := cur.(*ArrV)
		if n.arr == c.arr {
			return false
		}
		switch loc.mode {
		case "same":
			loc.mode = "prefix"
			return true
		case "prefix":
			// elements at or beyond k+1 must be unchanged
			i := ex.Fresh("i", 64)
			ex.rng[i] = [2]uint64{0, maxLen}
			i.lo, i.hi = 0, maxLen
			s2 := b.clone()
			ex.assume(s2, ex.Ult(ic.k, i))
			ex.assume(s2, ex.Ult(i, n.n))
			if ex.mustBe(s2, ex.Eq(ex.Sel(n.arr, i), ex.Sel(v0.arr, i))) {
				return false
			}
			loc.mode = "fresh"
			return true
		}
		return false
	case *MapV:
		if nv == cur {
			return false
		}
		if loc.mode == "same" {
			loc.mode = "fresh"
			return true
		}
		return false
	case *SymVec:
		if nv == cur {
			return false
		}
		if loc.mode == "same" {
			loc.mode = "fresh"
			return true
		}
		return false
	case *VecV:
		if nv == cur {
			return false
		}
		// element-wise: convert to symbolic vector is not possible; require syntactic equality
		panic(unsupported("loop writes concrete vector " + ex.locName(loc)))
	case Ptr:
		if p, ok := nv.(Ptr); ok && loc.mode != "set" && ex.ptrEq(b, p, v0).IsTrue() {
			return false
		}
	case IfaceV:
		if n, ok := nv.(IfaceV); ok && loc.mode != "set" {
			if n.t == nil && v0.t == nil {
				return false
			}
			if n.t != nil && v0.t != nil && types.Identical(n.t, v0.t) {
				if ex.mustBe(b, ex.eqVal(b, n.v, v0.v, n.t)) {
					return false
				}
			}
		}
	case MapRef:
		if n, ok := nv.(MapRef); ok && n.obj == v0.obj {
			return false
		}
	case FuncV:
		return false
	case *IterV:
		if nv == cur {
			return false
		}
	case TupleV:
		return false
	}
	if ch, ok := ex.refineSet(ic, loc, nv); ok {
		return ch
	}
	panic(unsupported(fmt.Sprintf("loop changes %s of kind %T", ex.locName(loc), loc.v0)))
}

func (ex *Exec) refineSlice(b *State, ic *invCtx, loc *havocLoc, v0, n *SliceV) bool {
	c := loc.cur.(*SliceV)
	sameRef := func() bool {
		return ptrEqSyn(n.base, c.base) && n.off == c.off && n.len == c.len
	}
	lenCheck := func() bool { // returns changed
		if loc.lenMode == "delta" {
			want := ex.AddI(c.len, int(loc.ld))
			if n.len == want || ex.mustBe(b, ex.Eq(n.len, want)) {
				return false
			}
			loc.lenMode = "free"
			return true
		}
		return false
	}
	switch loc.mode {
	case "same":
		if sameRef() {
			return false
		}
		if ptrEqSyn(n.base, c.base) && v0.base.obj != 0 {
			d := ex.Sub(n.off, c.off)
			if ex.Add(n.len, d) == c.len || ex.mustBe(b, ex.Eq(ex.Add(n.len, d), c.len)) {
				if d.IsConst() {
					loc.mode, loc.d = "reslice", d.val
				} else {
					loc.mode = "resliceF"
				}
				return true
			}
		}
		loc.mode = "append"
		d := ex.Sub(n.len, c.len)
		if d.IsConst() {
			loc.lenMode, loc.ld = "delta", d.val
		} else {
			loc.lenMode = "free"
		}
		return true
	case "reslice":
		d := ex.Sub(n.off, c.off)
		if ptrEqSyn(n.base, c.base) && d.IsConst() && d.val == loc.d && ex.mustBe(b, ex.Eq(ex.Add(n.len, d), c.len)) {
			return false
		}
		loc.mode = "resliceF"
		return true
	case "resliceF":
		d := ex.Sub(n.off, c.off)
		if ptrEqSyn(n.base, c.base) && ex.mustBe(b, ex.BAnd(ex.Eq(ex.Add(n.len, d), c.len), ex.Ule(n.len, c.len))) {
			return false
		}
		loc.mode = "append"
		loc.lenMode = "free"
		return true
	case "append":
		ch := lenCheck()
		// prefix preserved?
		if !ex.mustBe(b, ex.Ule(v0.len, n.len)) {
			loc.mode = "fresh"
			loc.lenMode = "free"
			return true
		}
		if v0.base.obj != 0 && !(v0.len.IsConst() && v0.len.val == 0) {
			if !ex.prefixKept(b, ic, v0, n) {
				loc.mode = "fresh"
				return true
			}
		}
		return ch
	case "fresh":
		return lenCheck()
	}
	return false
}

func (ex *Exec) prefixKept(b *State, ic *invCtx, v0, n *SliceV) bool {
	old, ok := ex.container(ic.entry, v0.base).(*ArrV)
	if !ok {
		return true // composite: initial elements re-checked by user invariants only
	}
	if n.base.obj == 0 {
		return false
	}
	nw := ex.container(b, n.base).(*ArrV)
	i := ex.Fresh("i", 64)
	ex.rng[i] = [2]uint64{0, maxLen}
	i.lo, i.hi = 0, maxLen
	s2 := b.clone()
	ex.assume(s2, ex.Ult(i, v0.len))
	return ex.mustBe(s2, ex.Eq(ex.Sel(nw.arr, ex.Add(n.off, i)), ex.Sel(old.arr, ex.Add(v0.off, i))))
}

// checkBack: the real run reached the back edge; re-verify everything
func (ex *Exec) checkBack(st *State, fr *Frame, ic *invCtx, from *ssa.BasicBlock) {
	// auto invariants
	saved := make([]Value, len(ic.locs))
	for i, loc := range ic.locs {
		saved[i] = loc.cur
		c := *loc
		if ex.refine(st, ic, &c, from) {
			ex.prove(st, ex.False, "loop-invariant-auto", ex.locName(loc)+" "+loc.mode)
		} else {
			ex.nobl++
			fn, pos := ex.where(st)
			ex.obls = append(ex.obls, &Obligation{Kind: "loop-invariant-auto", Name: ex.locName(loc) + " " + loc.mode, Fn: fn, Pos: pos, Status: "discharged", By: "z3"})
		}
	}
	for _, loc := range ic.locs {
		loc.cur = ex.nextVal(st, ic, loc, from)
	}
	k := ic.k
	ic.k = ex.AddI(k, 1)
	fr.blk = ic.loop.hdr
	// bind phis to next values for invariant evaluation
	for _, loc := range ic.locs {
		if loc.phi != nil {
			fr.set(loc.phi, loc.cur)
		}
	}
	for _, iv := range ic.invs {
		if iv.fact {
			continue
		}
		t := ex.evalInv(st, ic, iv)
		ex.prove(st, t, "loop-invariant", iv.name)
	}
	ic.k = k
	for i, loc := range ic.locs {
		loc.cur = saved[i]
	}
}

// ---------- user invariants
type invSpec struct {
	name         string
	fn           *ssa.Function
	fact         bool   // assumed, not proved
	whenP, whenT string // applies only when this parameter has this dynamic type
}

// applicable keeps the invariants whose condition on a parameter's dynamic type holds
func (ex *Exec) applicable(st *State, fr *Frame, invs []*invSpec) []*invSpec {
	var out []*invSpec
	for _, iv := range invs {
		if iv.whenP != "" {
			ok := false
			for _, p := range fr.fn.Params {
				if p.Name() == iv.whenP {
					if i, is := ex.val(st, fr, p).(IfaceV); is && i.t != nil {
						ok = types.TypeString(i.t, func(p *types.Package) string { return "" }) == iv.whenT
					}
				}
			}
			if !ok {
				continue
			}
		}
		out = append(out, iv)
	}
	return out
}

// movedInvs: the invariants of a loop that its function no longer has, for the same loop in a helper called from
// there (they are proved like any other, so trying them is sound)
func (ex *Exec) movedInvs(st *State, g *ssa.Function, ord int) []*invSpec {
	if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), "github.com/danomagnum/gologix") {
		return nil
	}
	for i := 0; i < 8; i++ {
		if len(ex.w.invsFor(ex.contract, fnName(g), i)) > 0 {
			return nil
		}
	}
	for d := len(st.frames) - 2; d > 0; d-- {
		f := st.frames[d].fn
		n := ord
		for i := len(ex.info(f).loops); i < 8; i++ {
			if invs := ex.w.invsFor(ex.contract, fnName(f), i); len(invs) > 0 {
				if n == 0 {
					return invs
				}
				n--
			}
		}
	}
	return nil
}

// bindable keeps the invariants whose variables the loop has: fewer invariants are proved, and fewer are assumed
func (ex *Exec) bindable(st *State, ic *invCtx, invs []*invSpec) []*invSpec {
	var out []*invSpec
	for _, iv := range invs {
		if func() (ok bool) {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(unsupported); !is {
						panic(r)
					}
					ok = false
				}
			}()
			for _, p := range iv.fn.Params {
				if !strings.HasPrefix(p.Name(), "pre_") {
					ex.bindInv(st, ic, iv, p.Name(), p.Type())
				}
			}
			return true
		}() {
			out = append(out, iv)
		}
	}
	return out
}

// byType is the only local variable of a type that is set before the loop, or the value of the only one in memory
func (ex *Exec) byType(st *State, fr *Frame, l *Loop, t types.Type) (Value, bool) {
	var hit ssa.Value
	for _, b := range fr.fn.Blocks {
		if !b.Dominates(l.hdr) || b == l.hdr {
			continue
		}
		for _, in := range b.Instrs {
			var v ssa.Value
			switch d := in.(type) {
			case *ssa.DebugRef:
				if o := d.Object(); o != nil && !d.IsAddr && types.Identical(o.Type(), t) && types.Identical(d.X.Type(), t) {
					v = d.X
				}
			case *ssa.Alloc:
				if types.Identical(d.Type().Underlying().(*types.Pointer).Elem(), t) {
					v = d
				}
			}
			if v == nil || v == hit {
				continue
			}
			if _, load := v.(*ssa.UnOp); load {
				continue // the variable in memory is the one meant
			}
			if i, ok := fr.fi.num[v]; !ok || fr.env[i] == nil {
				continue
			}
			if hit != nil {
				return nil, false
			}
			hit = v
		}
	}
	if hit == nil {
		return nil, false
	}
	if _, ok := hit.(*ssa.Alloc); ok {
		return ex.adapt(st, fr.env[fr.fi.num[hit]], hit.Type(), t), true
	}
	return fr.env[fr.fi.num[hit]], true
}

func (ex *Exec) evalInv(st *State, ic *invCtx, iv *invSpec) *Term {
	var args []Value
	for _, p := range iv.fn.Params {
		args = append(args, ex.bindInv(st, ic, iv, p.Name(), p.Type()))
	}
	return ex.evalPure(st, FuncV{fn: iv.fn}, args)
}

func (ex *Exec) bindInv(st *State, ic *invCtx, iv *invSpec, name string, t types.Type) Value {
	v := ex.bindInv1(st, ic, iv, name, t)
	if i, ok := v.(IfaceV); ok && i.t != nil && !types.IsInterface(t) {
		if !types.Identical(i.t, t) {
			panic(unsupported("invariant variable " + name + " has dynamic type " + i.t.String()))
		}
		return i.v
	}
	return v
}
func (ex *Exec) bindInv1(st *State, ic *invCtx, iv *invSpec, name string, t types.Type) Value {
	if name == "k" {
		return ic.k
	}
	fr := st.frames[ic.depth-1]
	if strings.HasPrefix(name, "c_") {
		// parameter of the contract function
		cf := st.frames[0]
		for _, p := range cf.fn.Params {
			if p.Name() == name[2:] {
				return ex.val(st, cf, p)
			}
		}
		for _, b := range cf.fn.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && a.Comment == name[2:] {
					return ex.adapt(st, ex.val(st, cf, a), a.Type(), t)
				}
			}
		}
		if v := debugVal(cf.fn, name[2:]); v != nil {
			return ex.val(st, cf, v)
		}
		panic(unsupported("invariant cannot bind contract variable " + name))
	}
	if strings.HasPrefix(name, "pre_") {
		// a spec function evaluated in the state at loop entry
		f := iv.fn.Pkg.Func(name[4:])
		if f == nil {
			panic(unsupported("invariant refers to unknown function " + name[4:]))
		}
		fr := ic.entry.frames[ic.depth-1]
		save := make([]Value, len(ic.locs))
		for i, l := range ic.locs {
			save[i] = l.cur
			l.cur = l.v0
		}
		var args []Value
		for _, p := range f.Params {
			args = append(args, ex.bindInv(ic.entry, ic, iv, p.Name(), p.Type()))
		}
		for i, l := range ic.locs {
			l.cur = save[i]
		}
		_ = fr
		return ex.evalMerge(ic.entry, FuncV{fn: f}, args)
	}
	entry := false
	nm := name
	if strings.HasPrefix(nm, "old_") {
		entry = true
		nm = nm[4:]
	}
	// by name among phis
	var hit *havocLoc
	for _, loc := range ic.locs {
		if loc.phi != nil && loc.phi.Comment == nm {
			hit = loc
		}
	}
	if hit == nil {
		for _, p := range fr.fn.Params {
			if p.Name() == nm {
				if entry {
					return ex.val(ic.entry, ic.entry.frames[ic.depth-1], p)
				}
				return ex.val(st, fr, p)
			}
		}
		for _, p := range fr.fn.FreeVars {
			if p.Name() == nm {
				return ex.adapt(st, ex.val(st, fr, p), p.Type(), t)
			}
		}
		for _, b := range fr.fn.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && a.Comment == nm {
					if i := fr.fi.num[a]; fr.env[i] != nil {
						if entry {
							return ex.adapt(ic.entry, fr.env[i], a.Type(), t)
						}
						return ex.adapt(st, fr.env[i], a.Type(), t)
					}
				}
			}
		}
		if v := debugVal(fr.fn, nm); v != nil {
			if i, ok := fr.fi.num[v]; ok && fr.env[i] != nil {
				if !types.Identical(v.Type(), t) && !types.IsInterface(v.Type()) {
					panic(unsupported("invariant variable " + name + " has type " + v.Type().String()))
				}
				return fr.env[i]
			}
		}
		// by unique type among phis
		n := 0
		for _, loc := range ic.locs {
			if loc.phi != nil && types.Identical(loc.phi.Type(), t) && loc.mode != "same" {
				hit = loc
				n++
			}
		}
		if n != 1 {
			// unique type among parameters
			var pv *ssa.Parameter
			m := 0
			for _, p := range fr.fn.Params {
				if types.Identical(p.Type(), t) {
					pv = p
					m++
				}
			}
			if m == 1 && n == 0 {
				return ex.val(st, fr, pv)
			}
			if n == 0 && m == 0 {
				if entry {
					st, fr = ic.entry, ic.entry.frames[ic.depth-1]
				}
				if v, ok := ex.byType(st, fr, ic.loop, t); ok {
					return v
				}
			}
			panic(unsupported("loop invariant cannot bind variable " + name))
		}
	}
	if entry {
		return hit.v0
	}
	return hit.cur
}

func (ex *Exec) adapt(st *State, v Value, have, want types.Type) Value {
	if types.Identical(have, want) {
		return v
	}
	if p, ok := have.(*types.Pointer); ok && types.Identical(p.Elem(), want) {
		return ex.load(st, v.(Ptr))
	}
	panic(unsupported("invariant variable has unexpected type " + have.String()))
}

func debugVal(fn *ssa.Function, name string) ssa.Value {
	var best ssa.Value
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.DebugRef); ok && !d.IsAddr {
				if o := d.Object(); o != nil && o.Name() == name {
					best = d.X
				}
			}
		}
	}
	return best
}

// evalPure evaluates a boolean Go function on the current state, merging its paths into one term
func (ex *Exec) evalPure(st *State, f FuncV, args []Value) *Term {
	v := ex.evalMerge(st, f, args)
	return v.(*Term)
}
func (ex *Exec) evalMerge(st *State, f FuncV, args []Value) Value {
	ex.quiet++
	defer func() { ex.quiet-- }()
	return ex.evalMergeQ(st, f, args)
}

type mpath struct {
	lits []*Term
	t    *Term
}

// evalMergeQ evaluates a side-effect free function on all its paths and joins the results into one term
func (ex *Exec) evalMergeQ(st *State, f FuncV, args []Value) Value {
	s := st.clone()
	s.wlog = nil
	s.catch = nil
	base := len(s.pc)
	depth := len(s.frames)
	var ps []mpath
	var single Value
	n := 0
	ex.invokeSub(s, f, args, func(x *State, v Value) {
		x.ret = v
		n++
		t, ok := v.(*Term)
		if !ok {
			single = v
			return
		}
		ent := map[int]bool{}
		for _, i := range x.ent {
			ent[i] = true
		}
		var l []*Term
		for i := base; i < len(x.pc); i++ {
			if !ent[i] {
				l = append(l, x.pc[i])
			}
		}
		ps = append(ps, mpath{l, t})
	}, depth)
	if len(s.frames) > depth {
		ex.runAll(s, func(x *State) bool { return len(x.frames) <= depth })
	}
	if n == 0 {
		return ex.False
	}
	if single != nil {
		if n == 1 {
			return single
		}
		panic(unsupported("evalMerge of non-scalar"))
	}
	if ps[0].t.w == 0 {
		return ex.mergeBool(ps)
	}
	return ex.mergeBV(ps)
}

func headGroups(ps []mpath, not func(*Term) *Term) (l *Term, same, rest []mpath, compl bool) {
	for _, p := range ps {
		if len(p.lits) == 0 {
			return nil, nil, nil, false
		}
	}
	l = ps[0].lits[0]
	nl := not(l)
	compl = true
	for _, p := range ps {
		switch p.lits[0] {
		case l:
			same = append(same, mpath{p.lits[1:], p.t})
		case nl:
			rest = append(rest, mpath{p.lits[1:], p.t})
		default:
			compl = false
		}
	}
	if !compl {
		rest = nil
		for _, p := range ps {
			if p.lits[0] != l {
				rest = append(rest, p)
			}
		}
	}
	return
}

// mergeBool: the disjunction over the paths of (path condition and result)
func (ex *Exec) mergeBool(ps []mpath) *Term {
	if len(ps) == 0 {
		return ex.False
	}
	if len(ps) == 1 {
		return ex.BAnd(append(append([]*Term(nil), ps[0].lits...), ps[0].t)...)
	}
	l, same, rest, compl := headGroups(ps, ex.Not)
	if l == nil {
		r := ex.False
		for _, p := range ps {
			r = ex.BOr(r, ex.BAnd(append(append([]*Term(nil), p.lits...), p.t)...))
		}
		return r
	}
	if len(rest) == 0 {
		return ex.BAnd(l, ex.mergeBool(same))
	}
	if compl {
		return ex.Ite(l, ex.mergeBool(same), ex.mergeBool(rest))
	}
	return ex.BOr(ex.BAnd(l, ex.mergeBool(same)), ex.mergeBool(rest))
}

func (ex *Exec) mergeBV(ps []mpath) *Term {
	if len(ps) == 1 {
		return ps[0].t
	}
	l, same, rest, compl := headGroups(ps, ex.Not)
	if l == nil || !compl && len(rest) == 0 {
		r := ps[len(ps)-1].t
		for i := len(ps) - 2; i >= 0; i-- {
			r = ex.Ite(ex.BAnd(ps[i].lits...), ps[i].t, r)
		}
		return r
	}
	if len(rest) == 0 {
		return ex.mergeBV(same)
	}
	if compl {
		return ex.Ite(l, ex.mergeBV(same), ex.mergeBV(rest))
	}
	var g []*Term
	for _, p := range same {
		g = append(g, ex.BAnd(p.lits...))
	}
	return ex.Ite(ex.BAnd(l, ex.BOr(g...)), ex.mergeBV(same), ex.mergeBV(rest))
}
func (ex *Exec) invokeSub(st *State, f FuncV, args []Value, k func(*State, Value), depth int) {
	ex.invoke(st, f, args, k, depth)
}

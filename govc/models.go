package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(ex *Exec, st *State, fn *ssa.Function, args []Value, k func(*State, Value))

var models = map[string]modelFn{}

func simple(f func(ex *Exec, st *State, args []Value) Value) modelFn {
	return func(ex *Exec, st *State, fn *ssa.Function, args []Value, k func(*State, Value)) {
		k(st, f(ex, st, args))
	}
}
func m(name string, f func(ex *Exec, st *State, args []Value) Value) { models[name] = simple(f) }
func (ex *Exec) monitorOf(st *State, p Ptr) *monitor {
	for i := range st.mons {
		if ex.ptrEq(st, st.mons[i].p, p).IsTrue() {
			return &st.mons[i]
		}
	}
	return nil
}
func nop(names ...string) {
	for _, n := range names {
		models[n] = simple(func(ex *Exec, st *State, args []Value) Value { return TupleV{} })
	}
}

var nilErr = IfaceV{}

func (ex *Exec) globalErr(st *State, pkg, name string) IfaceV {
	g := ex.w.global(pkg, name)
	if g == nil {
		panic(unsupported("no global " + pkg + "." + name))
	}
	return ex.load(st, ex.globalPtr(st, g)).(IfaceV)
}

// elements of a variadic interface slice
func (ex *Exec) variadic(st *State, v Value) []Value {
	s := v.(*SliceV)
	if s.base.obj == 0 {
		return nil
	}
	if !s.len.IsConst() || !s.off.IsConst() {
		panic(unsupported("variadic slice of symbolic length"))
	}
	var out []Value
	for i := 0; i < int(s.len.val); i++ {
		out = append(out, ex.load(st, s.base.index(ex.AddI(s.off, i))))
	}
	return out
}

func (ex *Exec) freshStr(p string) *Str {
	return &Str{arr: ex.ABase(ex.fresh(p), 8), off: ex.I(0), len: ex.FreshLen(p + "len")}
}

func (ex *Exec) concat(st *State, a, b *Str) Value {
	if a.len.IsConst() && a.len.val == 0 {
		return b
	}
	if b.len.IsConst() && b.len.val == 0 {
		return a
	}
	parts := func(s *Str) []*Str {
		if s.parts != nil {
			return s.parts
		}
		return []*Str{s}
	}
	pa := append(append([]*Str(nil), parts(a)...), parts(b)...)
	arr := ex.ACopy(ex.AZero(8), ex.I(0), a.arr, a.off, a.len)
	arr = ex.ACopy(arr, a.len, b.arr, b.off, b.len)
	return &Str{arr: arr, off: ex.I(0), len: ex.Add(a.len, b.len), parts: pa}
}
func (ex *Exec) ropeSlice(st *State, s *Str, lo, hi *Term) *Str {
	if s.parts == nil {
		return nil
	}
	// find the part and the constant offset within it where each bound lies
	locate := func(x *Term, hi bool) (int, *Term) {
		pos := ex.I(0)
		for i, p := range s.parts {
			d := ex.Sub(x, pos)
			if d.IsConst() && d.val == 0 && !hi {
				return i, d
			}
			pos = ex.Add(pos, p.len)
			if pos == x && hi {
				return i, p.len
			}
			if d.IsConst() && p.len.IsConst() && p.itoa == nil && d.S() >= 0 && d.val < p.len.val {
				return i, d
			}
		}
		if pos == x {
			return len(s.parts) - 1, s.parts[len(s.parts)-1].len
		}
		return -1, nil
	}
	i0, d0 := locate(lo, false)
	i1, d1 := locate(hi, true)
	if i0 >= 0 && i1 >= i0 {
		cut := func(p *Str, a, b *Term) *Str {
			if a.IsConst() && a.val == 0 && b == p.len {
				return p
			}
			return ex.subStr(st, p, a, b)
		}
		if i0 == i1 {
			return cut(s.parts[i0], d0, d1)
		}
		r := cut(s.parts[i0], d0, s.parts[i0].len)
		for _, q := range s.parts[i0+1 : i1] {
			r = ex.concat(st, r, q).(*Str)
		}
		return ex.concat(st, r, cut(s.parts[i1], ex.I(0), d1)).(*Str)
	}
	return nil
}

func (ex *Exec) itoaStr(t *Term) *Str {
	if t.IsConst() {
		return ex.strConst(strconv.FormatInt(t.S(), 10))
	}
	// decimal rendering of a symbolic integer: characters unknown except that they are digits or '-'
	nm := fmt.Sprintf("itoa%d", t.id)
	n := ex.VarR(nm+"$len", 64, 1, 20)
	return &Str{arr: ex.ABase(nm, 8), off: ex.I(0), len: n, itoa: t}
}

func (ex *Exec) fmtVal(st *State, v Value, verb byte, flags string) *Str {
	iv, ok := v.(IfaceV)
	if !ok || iv.t == nil {
		return nil
	}
	switch x := iv.v.(type) {
	case *Str:
		if _, isNamed := iv.t.(*types.Named); isNamed || flags != "" {
			return nil
		}
		if verb == 's' || verb == 'v' {
			return x
		}
	case *Term:
		w := scalarW(iv.t)
		if w <= 0 || isFloat(iv.t) || flags != "" {
			return nil
		}
		if n, isNamed := iv.t.(*types.Named); isNamed && n.NumMethods() > 0 {
			return nil
		}
		if verb == 'd' || verb == 'v' {
			t := x
			if w < 64 {
				if isSigned(iv.t) {
					t = ex.SExt(x, 64)
				} else {
					t = ex.ZExt(x, 64)
				}
			} else if !isSigned(iv.t) && !x.IsConst() {
				return nil
			}
			return ex.itoaStr(t)
		}
		if x.IsConst() && (verb == 'x' || verb == 'X') {
			f := "%" + string(verb)
			if isSigned(iv.t) {
				return ex.strConst(fmt.Sprintf(f, sext(x.val, w)))
			}
			return ex.strConst(fmt.Sprintf(f, x.val))
		}
	}
	return nil
}

func (ex *Exec) sprintf(st *State, format *Str, args []Value) *Str {
	f, ok := ex.concStr(format)
	if !ok {
		return ex.freshStr("fmt")
	}
	r := ex.strConst("")
	ai := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			r = ex.concat(st, r, ex.strConst(f[i:i+j])).(*Str)
			i += j
			continue
		}
		i++
		fl := ""
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			fl += string(f[i])
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			r = ex.concat(st, r, ex.strConst("%")).(*Str)
			i++
			continue
		}
		if ai >= len(args) {
			return ex.freshStr("fmt")
		}
		s := ex.fmtVal(st, args[ai], f[i], fl)
		if s == nil {
			s = ex.freshStr("fmt")
		}
		ai++
		i++
		r = ex.concat(st, r, s).(*Str)
	}
	return r
}

func (ex *Exec) errorf(st *State, args []Value) Value {
	f, ok := ex.concStr(args[0].(*Str))
	var wraps []IfaceV
	if ok {
		av := ex.variadic(st, args[1])
		ai := 0
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				continue
			}
			i++
			for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
				i++
			}
			if i >= len(f) {
				break
			}
			if f[i] == '%' {
				continue
			}
			if f[i] == 'w' && ai < len(av) {
				if iv, ok := av[ai].(IfaceV); ok && iv.t != nil {
					wraps = append(wraps, iv)
				}
			}
			ai++
		}
	}
	return ex.newError(f, wraps...)
}

func (ex *Exec) opaqueMethod(st *State, o OpaqueV, name string, args []Value) Value {
	switch o.kind {
	case "error":
		if name == "Error" {
			nm := fmt.Sprintf("errtext%d", o.id)
			return &Str{arr: ex.ABase(nm, 8), off: ex.I(0), len: ex.VarR(nm+"$len", 64, 0, maxLen)}
		}
	case "logger":
		if name == "With" {
			return IfaceV{t: ex.w.opaqueErr, v: o}
		}
		return TupleV{}
	case "addr":
		return ex.freshStr("addr")
	}
	panic(unsupported("method " + name + " on opaque " + o.kind))
}

// errorsIs follows the wrap structure of modelled errors
func (ex *Exec) errorsIs(st *State, e, target IfaceV) *Term {
	if e.t == nil || target.t == nil {
		return ex.Bool(e.t == nil && target.t == nil)
	}
	r := ex.False
	if types.Comparable(e.t) {
		r = ex.eqVal(st, e, target, nil)
	}
	if o, ok := e.v.(OpaqueV); ok {
		if d, ok := o.data.(*errData); ok {
			for _, w := range d.wraps {
				r = ex.BOr(r, ex.errorsIs(st, w, target))
			}
		}
		return r
	}
	if ex.w.prog.LookupMethod(e.t, nil, "Is") != nil || ex.w.prog.LookupMethod(e.t, nil, "Unwrap") != nil {
		if !strings.HasSuffix(e.t.String(), "multiError") {
			panic(unsupported("errors.Is on " + e.t.String()))
		}
		// multiError: errs[0], then the unwrap chain = every element
		sl := e.v.(*StructV).f[0].(*SliceV)
		for _, x := range ex.variadic(st, sl) {
			r = ex.BOr(r, ex.errorsIs(st, x.(IfaceV), target))
		}
	}
	return r
}
func (ex *Exec) errorsAs(st *State, e IfaceV, t types.Type) (Value, bool) {
	if e.t == nil {
		return nil, false
	}
	if types.Identical(e.t, t) {
		return e.v, true
	}
	if o, ok := e.v.(OpaqueV); ok {
		if d, ok := o.data.(*errData); ok {
			for _, w := range d.wraps {
				if v, ok := ex.errorsAs(st, w, t); ok {
					return v, true
				}
			}
		}
	}
	return nil, false
}

// ---- bytes.Buffer on the real struct layout {buf, off, lastRead}
func (ex *Exec) bufParts(st *State, p Value) (Ptr, *SliceV, *Term) {
	q := p.(Ptr)
	ex.nilCheck(st, q, "Buffer")
	return q, ex.load(st, q.field(0)).(*SliceV), ex.load(st, q.field(1)).(*Term)
}
func (ex *Exec) bufAppend(st *State, p Value, arr *Arr, off, n *Term) {
	q, b, _ := ex.bufParts(st, p)
	nb := ex.appendSeq(st, b, 8, arr, off, n, true)
	// the buffer owns its backing array: growth never aliases
	ex.store(st, q.field(0), nb)
}

func (ex *Exec) global64(name string) {}

func init() {
	m("fmt.Errorf", func(ex *Exec, st *State, a []Value) Value { return ex.errorf(st, a) })
	m("fmt.Sprintf", func(ex *Exec, st *State, a []Value) Value {
		return ex.sprintf(st, a[0].(*Str), ex.variadic(st, a[1]))
	})
	for _, n := range []string{"fmt.Sprint", "fmt.Sprintln"} {
		m(n, func(ex *Exec, st *State, a []Value) Value { return ex.freshStr("fmt") })
	}
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf"} {
		m(n, func(ex *Exec, st *State, a []Value) Value { return TupleV{ex.I(0), nilErr} })
	}
	m("errors.New", func(ex *Exec, st *State, a []Value) Value {
		s, _ := ex.concStr(a[0].(*Str))
		return ex.newError(s)
	})
	m("errors.Is", func(ex *Exec, st *State, a []Value) Value { return ex.errorsIs(st, a[0].(IfaceV), a[1].(IfaceV)) })
	m("errors.As", func(ex *Exec, st *State, a []Value) Value {
		tp := a[1].(IfaceV)
		t := tp.t.(*types.Pointer).Elem()
		v, ok := ex.errorsAs(st, a[0].(IfaceV), t)
		if ok {
			ex.store(st, tp.v.(Ptr), v)
		}
		return ex.Bool(ok)
	})
	m("errors.Join", func(ex *Exec, st *State, a []Value) Value {
		var ws []IfaceV
		for _, v := range ex.variadic(st, a[0]) {
			if iv := v.(IfaceV); iv.t != nil {
				ws = append(ws, iv)
			}
		}
		if len(ws) == 0 {
			return nilErr
		}
		return ex.newError("join", ws...)
	})
	// slog / log
	for _, n := range []string{"Debug", "Error", "Info", "Warn"} {
		nop("(*log/slog.Logger)."+n, "log/slog."+n)
	}
	nop("log.Printf", "log.Println", "log.Print", "math/rand.Seed", "(*time.Ticker).Stop")
	m("(*log/slog.Logger).With", func(ex *Exec, st *State, a []Value) Value { return a[0] })
	m("log/slog.Default", func(ex *Exec, st *State, a []Value) Value { return OpaqueV{kind: "slog", id: 1} })
	m("log/slog.New", func(ex *Exec, st *State, a []Value) Value { return OpaqueV{kind: "slog", id: 1} })
	for _, n := range []string{"Any", "String", "Int"} {
		m("log/slog."+n, func(ex *Exec, st *State, a []Value) Value { return OpaqueV{kind: "attr", id: 1} })
	}
	models["log.Panicf"] = func(ex *Exec, st *State, fn *ssa.Function, args []Value, k func(*State, Value)) {
		ex.doPanic(st, "log.Panicf", ex.newError("panic"))
	}
	// time / rand
	m("time.NewTicker", func(ex *Exec, st *State, a []Value) Value {
		d := a[0].(*Term)
		ex.rtPanic(st, "non-positive interval for NewTicker", ex.Slt(ex.BV(64, 0), d))
		t := ex.w.prog.ImportedPackage("time").Type("Ticker").Type()
		f := append([]Value(nil), ex.zeroVal(t).(*StructV).f...)
		h, id := st.heap.alloc(&Obj{val: OpaqueV{kind: "chan"}, typ: t})
		st.heap = h
		f[0] = ChanV{id}
		return ex.alloc(st, t, &StructV{f: f}, "Ticker")
	})
	m("time.Now", func(ex *Exec, st *State, a []Value) Value { return OpaqueV{kind: "time", id: 1} })
	m("time.Since", func(ex *Exec, st *State, a []Value) Value { return ex.Fresh("since", 64) })
	m("(time.Time).Add", func(ex *Exec, st *State, a []Value) Value { return a[0] })
	m("(time.Time).UnixMicro", func(ex *Exec, st *State, a []Value) Value { return ex.Fresh("time", 64) })
	m("(time.Time).UnixMilli", func(ex *Exec, st *State, a []Value) Value { return ex.Fresh("time", 64) })
	m("math/rand.Uint32", func(ex *Exec, st *State, a []Value) Value { return ex.Fresh("rand", 32) })
	m("math/rand.Int", func(ex *Exec, st *State, a []Value) Value {
		t := ex.Fresh("rand", 64)
		ex.assume(st, ex.Sle(ex.I(0), t))
		return t
	})
	// atomics (sequential semantics)
	for _, ty := range []string{"Int32", "Uint32", "Int64", "Uint64", "Uintptr"} {
		m("sync/atomic.Add"+ty, func(ex *Exec, st *State, a []Value) Value {
			p := a[0].(Ptr)
			ex.nilCheck(st, p, "atomic")
			v := ex.Add(ex.load(st, p).(*Term), a[1].(*Term))
			ex.store(st, p, v)
			return v
		})
		m("sync/atomic.Load"+ty, func(ex *Exec, st *State, a []Value) Value {
			ex.nilCheck(st, a[0].(Ptr), "atomic")
			return ex.load(st, a[0].(Ptr))
		})
		m("sync/atomic.Store"+ty, func(ex *Exec, st *State, a []Value) Value {
			ex.nilCheck(st, a[0].(Ptr), "atomic")
			ex.store(st, a[0].(Ptr), a[1])
			return TupleV{}
		})
		m("sync/atomic.Swap"+ty, func(ex *Exec, st *State, a []Value) Value {
			ex.nilCheck(st, a[0].(Ptr), "atomic")
			v := ex.load(st, a[0].(Ptr))
			ex.store(st, a[0].(Ptr), a[1])
			return v
		})
		m("sync/atomic.CompareAndSwap"+ty, func(ex *Exec, st *State, a []Value) Value {
			p := a[0].(Ptr)
			ex.nilCheck(st, p, "atomic")
			v := ex.load(st, p).(*Term)
			eq := ex.Eq(v, a[1].(*Term))
			ex.store(st, p, ex.Ite(eq, a[2].(*Term), v))
			return eq
		})
	}
	// sync
	lock := func(rw bool, want string) func(ex *Exec, st *State, a []Value) Value {
		return func(ex *Exec, st *State, a []Value) Value {
			p := a[0].(Ptr)
			ex.nilCheck(st, p, "mutex")
			cur := ex.load(st, p)
			held := ""
			n := 0
			if o, ok := cur.(OpaqueV); ok && o.kind == "mutex" {
				held, n = o.data.(string), o.id
			}
			switch want {
			case "L":
				if held != "" {
					ex.prove(st, ex.False, "deadlock", "Lock of a mutex this goroutine already holds")
				}
				st.held++
				ex.store(st, p, OpaqueV{kind: "mutex", data: "W", id: 1})
			case "U":
				if held != "W" {
					ex.prove(st, ex.False, "panic", "Unlock of a mutex that is not locked")
				}
				st.held--
				ex.store(st, p, OpaqueV{kind: "mutex", data: "", id: 0})
			case "RL":
				if held == "W" {
					ex.prove(st, ex.False, "deadlock", "RLock of a mutex this goroutine holds for writing")
				}
				st.held++
				ex.store(st, p, OpaqueV{kind: "mutex", data: "R", id: n + 1})
			case "RU":
				if held != "R" {
					ex.prove(st, ex.False, "panic", "RUnlock of a mutex that is not read-locked")
				}
				st.held--
				if n <= 1 {
					ex.store(st, p, OpaqueV{kind: "mutex", data: "", id: 0})
				} else {
					ex.store(st, p, OpaqueV{kind: "mutex", data: "R", id: n - 1})
				}
			}
			return TupleV{}
		}
	}
	// a mutex with a monitor: others may change what it protects while it is not held, keeping
	// its invariant, and the invariant holds whenever it is released
	mlock := func(rw bool) modelFn {
		f := lock(rw, "L")
		return func(ex *Exec, st *State, fn *ssa.Function, a []Value, k func(*State, Value)) {
			r := f(ex, st, a)
			mo := ex.monitorOf(st, a[0].(Ptr))
			if mo == nil {
				k(st, r)
				return
			}
			ex.push(st, mo.change.fn, mo.change.binds, func(st *State, _ Value) {
				ex.push(st, mo.inv.fn, mo.inv.binds, func(st *State, v Value) {
					t := v.(*Term)
					if t.IsFalse() || !ex.feasible(st, t) {
						panic(pathEnd{})
					}
					ex.assume(st, t)
					k(st, r)
				}, true)
			}, true)
		}
	}
	munlock := func(rw bool) modelFn {
		f := lock(rw, "U")
		return func(ex *Exec, st *State, fn *ssa.Function, a []Value, k func(*State, Value)) {
			mo := ex.monitorOf(st, a[0].(Ptr))
			if mo == nil {
				k(st, f(ex, st, a))
				return
			}
			ex.push(st, mo.inv.fn, mo.inv.binds, func(st *State, v Value) {
				ex.prove(st, v.(*Term), "monitor", "what the lock protects is in order when it is released")
				k(st, f(ex, st, a))
			}, true)
		}
	}
	models["(*sync.Mutex).Lock"] = mlock(false)
	models["(*sync.Mutex).Unlock"] = munlock(false)
	models["(*sync.RWMutex).Lock"] = mlock(true)
	models["(*sync.RWMutex).Unlock"] = munlock(true)
	m("(*sync.RWMutex).RLock", lock(true, "RL"))
	m("(*sync.RWMutex).RUnlock", lock(true, "RU"))
	m("(*sync.Mutex).TryLock", func(ex *Exec, st *State, a []Value) Value {
		p := a[0].(Ptr)
		if o, ok := ex.load(st, p).(OpaqueV); ok && o.kind == "mutex" && o.data.(string) != "" {
			return ex.False
		}
		st.held++
		ex.store(st, p, OpaqueV{kind: "mutex", data: "W", id: 1})
		return ex.True
	})
	m("(*sync.RWMutex).TryLock", func(ex *Exec, st *State, a []Value) Value {
		p := a[0].(Ptr)
		if o, ok := ex.load(st, p).(OpaqueV); ok && o.kind == "mutex" && o.data.(string) != "" {
			return ex.False
		}
		st.held++
		ex.store(st, p, OpaqueV{kind: "mutex", data: "W", id: 1})
		return ex.True
	})
	// math bit casts
	id := func(ex *Exec, st *State, a []Value) Value { return a[0] }
	for _, n := range []string{"math.Float32bits", "math.Float32frombits", "math.Float64bits", "math.Float64frombits"} {
		m(n, id)
	}
	m("math.IsNaN", func(ex *Exec, st *State, a []Value) Value {
		t := a[0].(*Term)
		return ex.Not(ex.floatCmpEq(t))
	})
	_ = math.Pi

	// bytes.Buffer
	m("bytes.NewBuffer", func(ex *Exec, st *State, a []Value) Value {
		t := ex.w.prog.ImportedPackage("bytes").Type("Buffer").Type()
		z := ex.zeroVal(t).(*StructV)
		f := append([]Value(nil), z.f...)
		s := *(a[0].(*SliceV))
		s.capKnown = false
		f[0] = &s
		return ex.alloc(st, t, &StructV{f: f}, "Buffer")
	})
	m("bytes.NewBufferString", func(ex *Exec, st *State, a []Value) Value {
		t := ex.w.prog.ImportedPackage("bytes").Type("Buffer").Type()
		z := ex.zeroVal(t).(*StructV)
		f := append([]Value(nil), z.f...)
		s := a[0].(*Str)
		f[0] = ex.newBytes(st, ex.rebase(s.arr, s.off, s.len), s.len)
		return ex.alloc(st, t, &StructV{f: f}, "Buffer")
	})
	m("(*bytes.Buffer).Len", func(ex *Exec, st *State, a []Value) Value {
		_, b, off := ex.bufParts(st, a[0])
		return ex.Sub(b.len, off)
	})
	m("(*bytes.Buffer).Bytes", func(ex *Exec, st *State, a []Value) Value {
		_, b, off := ex.bufParts(st, a[0])
		if off.IsConst() && off.val == 0 {
			r := *b
			r.capKnown = false
			return &r
		}
		return &SliceV{base: b.base, off: ex.Add(b.off, off), len: ex.Sub(b.len, off), cap: ex.Sub(b.cap, off), isNil: b.isNil}
	})
	m("(*bytes.Buffer).String", func(ex *Exec, st *State, a []Value) Value {
		_, b, off := ex.bufParts(st, a[0])
		arr, o := ex.seqOf(st, b, 8)
		return &Str{arr: arr, off: ex.Add(o, off), len: ex.Sub(b.len, off)}
	})
	m("(*bytes.Buffer).Cap", func(ex *Exec, st *State, a []Value) Value {
		_, b, _ := ex.bufParts(st, a[0])
		return b.cap
	})
	nop("(*bytes.Buffer).Grow")
	m("(*bytes.Buffer).Reset", func(ex *Exec, st *State, a []Value) Value {
		q, _, _ := ex.bufParts(st, a[0])
		ex.store(st, q.field(0), ex.nilSlice())
		ex.store(st, q.field(1), ex.I(0))
		return TupleV{}
	})
	m("(*bytes.Buffer).Truncate", func(ex *Exec, st *State, a []Value) Value {
		q, b, off := ex.bufParts(st, a[0])
		n := a[1].(*Term)
		ex.rtPanic(st, "bytes.Buffer: truncation out of range", ex.Ule(n, ex.Sub(b.len, off)))
		r := *b
		r.len = ex.Add(off, n)
		r.capKnown = false
		ex.store(st, q.field(0), &r)
		return TupleV{}
	})
	m("(*bytes.Buffer).Write", func(ex *Exec, st *State, a []Value) Value {
		s := a[1].(*SliceV)
		arr, o := ex.seqOf(st, s, 8)
		ex.bufAppend(st, a[0], arr, o, s.len)
		return TupleV{s.len, nilErr}
	})
	m("(*bytes.Buffer).WriteString", func(ex *Exec, st *State, a []Value) Value {
		s := a[1].(*Str)
		ex.bufAppend(st, a[0], s.arr, s.off, s.len)
		return TupleV{s.len, nilErr}
	})
	m("(*bytes.Buffer).WriteByte", func(ex *Exec, st *State, a []Value) Value {
		ex.bufAppend(st, a[0], ex.AVec(8, []*Term{a[1].(*Term)}), ex.I(0), ex.I(1))
		return nilErr
	})
	m("(*bytes.Buffer).ReadByte", func(ex *Exec, st *State, a []Value) Value {
		q, b, off := ex.bufParts(st, a[0])
		if !ex.decide(st, ex.Ult(off, b.len)) {
			return TupleV{ex.BV(8, 0), ex.globalErr(st, "io", "EOF")}
		}
		arr, o := ex.seqOf(st, b, 8)
		v := ex.Sel(arr, ex.Add(o, off))
		ex.store(st, q.field(1), ex.AddI(off, 1))
		return TupleV{v, nilErr}
	})
	m("(*bytes.Buffer).Next", func(ex *Exec, st *State, a []Value) Value {
		q, b, off := ex.bufParts(st, a[0])
		n := a[1].(*Term)
		left := ex.Sub(b.len, off)
		ex.rtPanic(st, "bytes.Buffer.Next negative", ex.Sle(ex.I(0), n))
		if !ex.decide(st, ex.Ule(n, left)) {
			n = left
		}
		ex.store(st, q.field(1), ex.Add(off, n))
		return &SliceV{base: b.base, off: ex.Add(b.off, off), len: n, cap: n, isNil: ex.False}
	})
	m("(*bytes.Buffer).Read", func(ex *Exec, st *State, a []Value) Value { return ex.bufRead(st, a[0], a[1].(*SliceV)) })
	m("(*bytes.Buffer).ReadString", func(ex *Exec, st *State, a []Value) Value {
		q, b, off := ex.bufParts(st, a[0])
		arr, o := ex.seqOf(st, b, 8)
		start := ex.Add(o, off)
		n := ex.Sub(b.len, off)
		i, found := ex.indexByte(st, arr, start, n, a[1].(*Term))
		if !found {
			ex.store(st, q.field(1), b.len)
			return TupleV{&Str{arr: arr, off: start, len: n}, ex.globalErr(st, "io", "EOF")}
		}
		ln := ex.AddI(i, 1)
		ex.store(st, q.field(1), ex.Add(off, ln))
		return TupleV{&Str{arr: arr, off: start, len: ln}, nilErr}
	})
	models["(*bytes.Buffer).WriteTo"] = func(ex *Exec, st *State, fn *ssa.Function, a []Value, k func(*State, Value)) {
		q, b, off := ex.bufParts(st, a[0])
		n := ex.Sub(b.len, off)
		if !ex.decide(st, ex.Ult(ex.I(0), n)) {
			k(st, TupleV{ex.I(0), nilErr})
			return
		}
		s := &SliceV{base: b.base, off: ex.Add(b.off, off), len: n, cap: n, isNil: ex.False}
		ex.callWrite(st, a[1].(IfaceV), s, func(st *State, wn *Term, err IfaceV) {
			ex.store(st, q.field(1), ex.Add(off, wn))
			if err.t != nil {
				k(st, TupleV{wn, err})
				return
			}
			k(st, TupleV{wn, nilErr})
		})
	}
	m("bytes.NewReader", func(ex *Exec, st *State, a []Value) Value {
		t := ex.w.prog.ImportedPackage("bytes").Type("Reader").Type()
		return ex.alloc(st, t, &StructV{f: []Value{a[0], ex.I(0), ex.I(-1)}}, "Reader")
	})
	m("(*bytes.Reader).Read", func(ex *Exec, st *State, a []Value) Value { return ex.bufRead(st, a[0], a[1].(*SliceV)) })
	m("(*bytes.Reader).Len", func(ex *Exec, st *State, a []Value) Value {
		_, b, off := ex.bufParts(st, a[0])
		return ex.Sub(b.len, off)
	})
	m("bytes.Equal", func(ex *Exec, st *State, a []Value) Value {
		x, y := a[0].(*SliceV), a[1].(*SliceV)
		xa, xo := ex.seqOf(st, x, 8)
		ya, yo := ex.seqOf(st, y, 8)
		return ex.eqSeq(xa, xo, x.len, ya, yo, y.len)
	})
	for _, n := range []string{"internal/bytealg.IndexByte", "bytes.IndexByte"} {
		m(n, func(ex *Exec, st *State, a []Value) Value {
			s := a[0].(*SliceV)
			arr, o := ex.seqOf(st, s, 8)
			i, f := ex.indexByte(st, arr, o, s.len, a[1].(*Term))
			if !f {
				return ex.I(-1)
			}
			return i
		})
	}
	for _, n := range []string{"internal/bytealg.IndexByteString", "strings.IndexByte"} {
		m(n, func(ex *Exec, st *State, a []Value) Value {
			s := a[0].(*Str)
			i, f := ex.indexByte(st, s.arr, s.off, s.len, a[1].(*Term))
			if !f {
				return ex.I(-1)
			}
			return i
		})
	}
	m("bytes.TrimRight", func(ex *Exec, st *State, a []Value) Value {
		s := a[0].(*SliceV)
		cut, ok := ex.concStr(a[1].(*Str))
		if !ok || len(cut) != 1 {
			panic(unsupported("bytes.TrimRight cutset"))
		}
		arr, o := ex.seqOf(st, s, 8)
		c := ex.BV(8, uint64(cut[0]))
		n := ex.trimRightLen(st, fmt.Sprintf("eq%d", cut[0]), arr, o, s.len, func(b *Term) *Term { return ex.Eq(b, c) })
		return &SliceV{base: s.base, off: s.off, len: n, cap: s.cap, isNil: ex.BOr(s.isNil, ex.Eq(n, ex.I(0)))}
	})
	models["io.CopyN"] = func(ex *Exec, st *State, fn *ssa.Function, a []Value, k func(*State, Value)) {
		src := a[1].(IfaceV)
		n := a[2].(*Term)
		if src.t == nil || (src.t.String() != "*bytes.Buffer" && src.t.String() != "*bytes.Reader") {
			ex.copyNGeneric(st, a[0].(IfaceV), src, n, n, 0, k)
			return
		}
		q, b, off := ex.bufParts(st, src.v)
		if ex.decide(st, ex.Sle(n, ex.I(0))) {
			k(st, TupleV{ex.I(0), nilErr})
			return
		}
		left := ex.Sub(b.len, off)
		short := !ex.decide(st, ex.Ule(n, left))
		if short {
			n = left
		}
		s := &SliceV{base: b.base, off: ex.Add(b.off, off), len: n, cap: n, isNil: ex.False}
		ex.store(st, q.field(1), ex.Add(off, n))
		fin := func(st *State, wn *Term, err IfaceV) {
			if err.t == nil && short {
				err = ex.globalErr(st, "io", "EOF")
			}
			k(st, TupleV{wn, err})
		}
		if ex.mustBe(st, ex.Eq(n, ex.I(0))) {
			fin(st, n, nilErr)
			return
		}
		ex.callWrite(st, a[0].(IfaceV), s, fin)
	}
	models["io.ReadFull"] = func(ex *Exec, st *State, fn *ssa.Function, a []Value, k func(*State, Value)) {
		ex.readFull(st, a[0].(IfaceV), a[1].(*SliceV), func(st *State, n *Term, err IfaceV) { k(st, TupleV{n, err}) })
	}
	// binary byte order helpers are inlined from source; Read/Write/Size:
	m("encoding/binary.Size", func(ex *Exec, st *State, a []Value) Value {
		iv := a[0].(IfaceV)
		n, _ := ex.binSize(st, iv)
		if n == nil {
			return ex.I(-1)
		}
		return n
	})
	models["encoding/binary.Read"] = binRead
	models["encoding/binary.Write"] = binWrite
	m("slices.Equal", func(ex *Exec, st *State, a []Value) Value {
		x, y := a[0].(*SliceV), a[1].(*SliceV)
		w := 8
		if x.base.obj != 0 {
			if c, ok := ex.container(st, x.base).(*ArrV); ok {
				w = c.arr.w
			} else {
				panic(unsupported("slices.Equal on composites"))
			}
		}
		xa, xo := ex.seqOf(st, x, w)
		ya, yo := ex.seqOf(st, y, w)
		return ex.eqSeq(xa, xo, x.len, ya, yo, y.len)
	})
	for _, n := range []string{"github.com/danomagnum/gologix", "github.com/danomagnum/gologix/l5x", "github.com/danomagnum/gologix/lgxtypes"} {
		vcIntrinsics(n)
	}
	m("github.com/npat-efault/crc16.Checksum", func(ex *Exec, st *State, a []Value) Value {
		s := a[1].(*SliceV)
		arr, o := ex.seqOf(st, s, 8)
		conf, ok := ex.load(st, a[0].(Ptr)).(*StructV)
		if !ok {
			return ex.Fresh("crc", 16)
		}
		poly, rev, ini, fin := conf.f[0].(*Term), conf.f[1].(*Term), conf.f[2].(*Term), conf.f[3].(*Term)
		if s.len.IsConst() && s.len.val <= 1024 {
			args := []*Term{poly, ex.Ite(rev, ex.BV(16, 1), ex.BV(16, 0)), ini, fin}
			concrete := true
			for _, t := range args {
				concrete = concrete && t.IsConst()
			}
			for i := 0; i < int(s.len.val); i++ {
				b := ex.Sel(arr, ex.AddI(o, i))
				concrete = concrete && b.IsConst()
				args = append(args, b)
			}
			if concrete {
				d := make([]byte, len(args)-4)
				for i := range d {
					d[i] = byte(args[4+i].val)
				}
				return ex.BV(16, uint64(crc16(uint16(poly.val), args[1].val != 0, uint16(ini.val), uint16(fin.val), d)))
			}
			return ex.UF(fmt.Sprintf("crc16_%d", s.len.val), 16, args...)
		}
		return ex.Fresh("crc", 16)
	})
	stringModels()
}

func (ex *Exec) floatCmpEq(t *Term) *Term { return ex.floatCmp(39, t, t) } // token.EQL

// indexByte finds the first occurrence; forks on found / not found
func (ex *Exec) indexByte(st *State, arr *Arr, off, n, c *Term) (*Term, bool) {
	if n.IsConst() && n.val <= 64 {
		for i := 0; i < int(n.val); i++ {
			if ex.decide(st, ex.Eq(ex.Sel(arr, ex.AddI(off, i)), c)) {
				return ex.I(i), true
			}
		}
		return nil, false
	}
	r := ex.VarR(fmt.Sprintf("idx%d_%d_%d_%d", arr.id, off.id, n.id, c.id), 64, 0, maxLen)
	bv := ex.Bound("q", 64)
	ex.rng[bv] = [2]uint64{0, maxLen * 2}
	bv.lo, bv.hi = 0, maxLen*2
	body := ex.Implies(ex.Ult(bv, r), ex.Not(ex.Eq(ex.Sel(arr, ex.Add(off, bv)), c)))
	// r == n encodes "not found"
	ex.assume(st, ex.Ule(r, n))
	ex.assume(st, ex.Forall(bv, body))
	ex.assume(st, ex.BOr(ex.Eq(r, n), ex.Eq(ex.Sel(arr, ex.Add(off, r)), c)))
	if ex.decide(st, ex.Ult(r, n)) {
		return r, true
	}
	return nil, false
}

// length after trimming trailing bytes satisfying pred
func (ex *Exec) trimRightLen(st *State, key string, arr *Arr, off, n *Term, pred func(*Term) *Term) *Term {
	if n.IsConst() && n.val <= 128 {
		r := ex.I(0)
		for i := 0; i < int(n.val); i++ {
			r = ex.Ite(pred(ex.Sel(arr, ex.AddI(off, i))), r, ex.I(i+1))
		}
		return r
	}
	name := fmt.Sprintf("trim%d_%d_%d_%x", arr.id, off.id, n.id, key)
	r := ex.VarR(name, 64, 0, maxLen)
	f, ok := ex.trimMem[name]
	if !ok {
		bv := ex.Bound("q", 64)
		ex.rng[bv] = [2]uint64{0, maxLen * 2}
		bv.lo, bv.hi = 0, maxLen*2
		f = ex.BAnd(ex.Ule(r, n),
			ex.BAnd(ex.Forall(bv, ex.Implies(ex.BAnd(ex.Ule(r, bv), ex.Ult(bv, n)), pred(ex.Sel(arr, ex.Add(off, bv))))),
				ex.BAnd(ex.BOr(ex.Eq(r, ex.I(0)), ex.Not(pred(ex.Sel(arr, ex.Sub(ex.Add(off, r), ex.I(1)))))),
					ex.BOr(ex.Eq(r, n), pred(ex.Sel(arr, ex.Add(off, r)))))))
		if ex.trimMem == nil {
			ex.trimMem = map[string]*Term{}
		}
		ex.trimMem[name] = f
	}
	ex.assume(st, f)
	return r
}

func (ex *Exec) bufRead(st *State, p Value, d *SliceV) Value {
	q, b, off := ex.bufParts(st, p)
	left := ex.Sub(b.len, off)
	if ex.decide(st, ex.Ule(left, ex.I(0))) {
		if ex.decide(st, ex.Eq(d.len, ex.I(0))) {
			return TupleV{ex.I(0), nilErr}
		}
		return TupleV{ex.I(0), ex.globalErr(st, "io", "EOF")}
	}
	arr, o := ex.seqOf(st, b, 8)
	n := ex.doCopy(st, d, 8, arr, ex.Add(o, off), left, nil, nil)
	ex.store(st, q.field(1), ex.Add(off, n))
	return TupleV{n, nilErr}
}

// io.CopyN from an arbitrary reader: reads of at most the remaining count, written on, until done or an error
func (ex *Exec) copyNGeneric(st *State, dst, src IfaceV, total, left *Term, round int, k func(*State, Value)) {
	if ex.decide(st, ex.Sle(left, ex.I(0))) {
		k(st, TupleV{total, nilErr})
		return
	}
	if round > 3 {
		panic(unsupported("io.CopyN: too many rounds"))
	}
	bt := types.Typ[types.Uint8]
	arr := &ArrV{arr: ex.AZero(8), n: left}
	p := ex.alloc(st, types.NewArray(bt, 0), arr, "copy")
	s := &SliceV{base: p, off: ex.I(0), len: left, cap: left, isNil: ex.False}
	ex.callRead(st, src, s, func(st *State, n *Term, err IfaceV) {
		s2 := &SliceV{base: p, off: ex.I(0), len: n, cap: left, isNil: ex.False}
		ex.callWrite(st, dst, s2, func(st *State, wn *Term, werr IfaceV) {
			rest := ex.Sub(left, n)
			if err.t != nil {
				if ex.decide(st, ex.Eq(rest, ex.I(0))) {
					k(st, TupleV{total, nilErr})
					return
				}
				k(st, TupleV{ex.Sub(total, rest), err})
				return
			}
			ex.copyNGeneric(st, dst, src, total, rest, round+1, k)
		})
	})
}

func (ex *Exec) callWrite(st *State, w IfaceV, s *SliceV, k func(st *State, n *Term, err IfaceV)) {
	if w.t == nil {
		ex.rtPanic(st, "nil interface method call", ex.False)
	}
	fn := ex.w.prog.LookupMethod(w.t, nil, "Write")
	if fn == nil {
		panic(unsupported("no Write on " + w.t.String()))
	}
	ex.invoke(st, FuncV{fn: fn}, []Value{w.v, s}, func(st *State, v Value) {
		tv := v.(TupleV)
		k(st, tv[0].(*Term), tv[1].(IfaceV))
	}, len(st.frames))
}
func (ex *Exec) callRead(st *State, r IfaceV, s *SliceV, k func(st *State, n *Term, err IfaceV)) {
	if r.t == nil {
		ex.rtPanic(st, "nil interface method call", ex.False)
	}
	fn := ex.w.prog.LookupMethod(r.t, nil, "Read")
	if fn == nil {
		panic(unsupported("no Read on " + r.t.String()))
	}
	ex.invoke(st, FuncV{fn: fn}, []Value{r.v, s}, func(st *State, v Value) {
		tv := v.(TupleV)
		k(st, tv[0].(*Term), tv[1].(IfaceV))
	}, len(st.frames))
}

// readFull: io.ReadFull; exact for bytes.Buffer/Reader, otherwise the io.ReadAtLeast source is executed
func (ex *Exec) readFull(st *State, r IfaceV, s *SliceV, k func(st *State, n *Term, err IfaceV)) {
	if r.t != nil && (r.t.String() == "*bytes.Buffer" || r.t.String() == "*bytes.Reader") {
		q, b, off := ex.bufParts(st, r.v)
		left := ex.Sub(b.len, off)
		if ex.decide(st, ex.Ule(s.len, left)) {
			arr, o := ex.seqOf(st, b, 8)
			if s.base.obj != 0 {
				ex.copyInto(st, s, arr, ex.Add(o, off), s.len)
			}
			ex.store(st, q.field(1), ex.Add(off, s.len))
			k(st, s.len, nilErr)
			return
		}
		if ex.decide(st, ex.Eq(left, ex.I(0))) {
			k(st, ex.I(0), ex.globalErr(st, "io", "EOF"))
			return
		}
		arr, o := ex.seqOf(st, b, 8)
		ex.copyInto(st, s, arr, ex.Add(o, off), left)
		ex.store(st, q.field(1), b.len)
		k(st, left, ex.globalErr(st, "io", "ErrUnexpectedEOF"))
		return
	}
	ra := ex.w.prog.ImportedPackage("io").Func("ReadAtLeast")
	ex.push(st, ra, []Value{r, s, s.len}, func(st *State, v Value) {
		tv := v.(TupleV)
		k(st, tv[0].(*Term), tv[1].(IfaceV))
	}, false)
}
func (ex *Exec) copyInto(st *State, d *SliceV, arr *Arr, off, n *Term) {
	if n.IsConst() && n.val == 0 || d.base.obj == 0 {
		return
	}
	c := ex.container(st, d.base).(*ArrV)
	ex.setContainer(st, d.base, &ArrV{arr: ex.ACopy(c.arr, d.off, arr, off, n), n: c.n})
}

// ---- encoding/binary
// fixed size of a type, -1 if not fixed
func fixedSize(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.Int8, types.Uint8:
			return 1
		case types.Int16, types.Uint16:
			return 2
		case types.Int32, types.Uint32, types.Float32:
			return 4
		case types.Int64, types.Uint64, types.Float64:
			return 8
		}
		return -1
	case *types.Array:
		n := fixedSize(u.Elem())
		if n < 0 {
			return -1
		}
		return n * int(u.Len())
	case *types.Struct:
		s := 0
		for i := 0; i < u.NumFields(); i++ {
			n := fixedSize(u.Field(i).Type())
			if n < 0 {
				return -1
			}
			s += n
		}
		return s
	}
	return -1
}

// size of the data of an interface value as encoding/binary sees it; second result: the element type
func (ex *Exec) binSize(st *State, iv IfaceV) (*Term, types.Type) {
	if notOpaque(iv).t == nil {
		return nil, nil
	}
	t := iv.t
	v := iv.v
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		if q, ok := v.(Ptr); !ok || q.obj == 0 {
			return nil, nil
		}
		if _, isSl := t.Underlying().(*types.Slice); isSl {
			v = ex.load(st, v.(Ptr))
		}
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		n := fixedSize(sl.Elem())
		if n < 0 {
			return nil, nil
		}
		return ex.MulK(v.(*SliceV).len, uint64(n)), t
	}
	n := fixedSize(t)
	if n < 0 {
		return nil, nil
	}
	return ex.I(n), t
}

func (ex *Exec) isBig(order Value) bool {
	iv := order.(IfaceV)
	if iv.t == nil {
		panic(unsupported("nil byte order"))
	}
	return strings.Contains(strings.ToLower(iv.t.String()), "big")
}

func (ex *Exec) leTerm(arr *Arr, off *Term, n int, big bool) *Term {
	var r *Term
	for i := 0; i < n; i++ {
		j := i
		if big {
			j = n - 1 - i
		}
		b := ex.Sel(arr, ex.AddI(off, j))
		if r == nil {
			r = b
		} else {
			r = ex.Concat(b, r)
		}
	}
	return r
}

// decode a value of type t; old supplies values of skipped (blank) fields
func (ex *Exec) decode(st *State, t types.Type, arr *Arr, off *Term, big bool, old Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		n := fixedSize(t)
		if u.Kind() == types.Bool {
			return ex.Not(ex.Eq(ex.Sel(arr, off), ex.BV(8, 0)))
		}
		return ex.leTerm(arr, off, n, big)
	case *types.Array:
		n := int(u.Len())
		sz := fixedSize(u.Elem())
		w := scalarW(u.Elem())
		if w == 8 {
			return &ArrV{arr: ex.ACopy(ex.AZero(8), ex.I(0), arr, off, ex.I(n)), n: ex.I(n)}
		}
		if w >= 0 {
			el := make([]*Term, n)
			for i := range el {
				el[i] = ex.decode(st, u.Elem(), arr, ex.AddI(off, i*sz), big, nil).(*Term)
			}
			return &ArrV{arr: ex.AVec(w, el), n: ex.I(n)}
		}
		v := &VecV{e: make([]Value, n)}
		for i := range v.e {
			var o Value
			if ov, ok := old.(*VecV); ok {
				o = ov.e[i]
			}
			v.e[i] = ex.decode(st, u.Elem(), arr, ex.AddI(off, i*sz), big, o)
		}
		return v
	case *types.Struct:
		s := &StructV{f: make([]Value, u.NumFields())}
		for i := range s.f {
			ft := u.Field(i).Type()
			var o Value
			if ov, ok := old.(*StructV); ok {
				o = ov.f[i]
			}
			if u.Field(i).Name() == "_" {
				if o == nil {
					o = ex.zeroVal(ft)
				}
				s.f[i] = o
			} else {
				s.f[i] = ex.decode(st, ft, arr, off, big, o)
			}
			off = ex.AddI(off, fixedSize(ft))
		}
		return s
	}
	panic(unsupported("binary decode of " + t.String()))
}

func (ex *Exec) encode(st *State, t types.Type, v Value, big bool, out []*Term) []*Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		n := fixedSize(t)
		x := v.(*Term)
		if u.Kind() == types.Bool {
			return append(out, ex.Ite(x, ex.BV(8, 1), ex.BV(8, 0)))
		}
		for i := 0; i < n; i++ {
			j := i
			if big {
				j = n - 1 - i
			}
			out = append(out, ex.Extract(x, 8*j+7, 8*j))
		}
		return out
	case *types.Array:
		n := int(u.Len())
		if a, ok := v.(*ArrV); ok {
			for i := 0; i < n; i++ {
				out = ex.encode(st, u.Elem(), ex.Sel(a.arr, ex.I(i)), big, out)
			}
			return out
		}
		for i := 0; i < n; i++ {
			out = ex.encode(st, u.Elem(), v.(*VecV).e[i], big, out)
		}
		return out
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if u.Field(i).Name() == "_" {
				for j := 0; j < fixedSize(ft); j++ {
					out = append(out, ex.BV(8, 0))
				}
				continue
			}
			out = ex.encode(st, ft, v.(*StructV).f[i], big, out)
		}
		return out
	}
	panic(unsupported("binary encode of " + t.String()))
}

func (ex *Exec) boundVar() *Term {
	bv := ex.Bound("q", 64)
	ex.rng[bv] = [2]uint64{0, maxLen * 2}
	bv.lo, bv.hi = 0, maxLen*2
	return bv
}

func binWrite(ex *Exec, st *State, fn *ssa.Function, a []Value, k func(*State, Value)) {
	w := a[0].(IfaceV)
	big := ex.isBig(a[1])
	iv := a[2].(IfaceV)
	size, t := ex.binSize(st, iv)
	if size == nil {
		k(st, ex.newError("binary.Write: some values are not fixed-sized"))
		return
	}
	v := iv.v
	if _, ok := iv.t.Underlying().(*types.Pointer); ok {
		v = ex.load(st, v.(Ptr))
	}
	var s *SliceV
	if sl, ok := t.Underlying().(*types.Slice); ok {
		sv := v.(*SliceV)
		et := sl.Elem()
		ew := scalarW(et)
		switch {
		case ew == 8:
			arr, o := ex.seqOf(st, sv, 8)
			s = ex.newBytes(st, ex.rebase(arr, o, sv.len), sv.len)
		case sv.len.IsConst() && sv.len.val <= 4096 && sv.off.IsConst():
			var out []*Term
			for i := 0; i < int(sv.len.val); i++ {
				out = ex.encode(st, et, ex.load(st, sv.base.index(ex.AddI(sv.off, i))), big, out)
			}
			s = ex.newBytes(st, ex.AVec(8, out), ex.I(len(out)))
		case ew > 0:
			// symbolic length: bytes described by a quantified fact
			es := ew / 8
			arr, o := ex.seqOf(st, sv, ew)
			nb := ex.ABase(fmt.Sprintf("enc%d_%d_%d_%v", arr.id, o.id, ew, big), 8)
			bv := ex.boundVar()
			x := ex.Sel(arr, ex.Add(o, bv))
			body := ex.True
			for i := 0; i < es; i++ {
				j := i
				if big {
					j = es - 1 - i
				}
				body = ex.BAnd(body, ex.Eq(ex.Sel(nb, ex.AddI(ex.MulK(bv, uint64(es)), i)), ex.Extract(x, 8*j+7, 8*j)))
			}
			ex.assume(st, ex.Forall(bv, ex.Implies(ex.Ult(bv, sv.len), body)))
			s = ex.newBytes(st, nb, size)
		case ew == 0:
			arr, o := ex.seqOf(st, sv, 0)
			nb := ex.ABase(fmt.Sprintf("encb%d_%d", arr.id, o.id), 8)
			bv := ex.boundVar()
			ex.assume(st, ex.Forall(bv, ex.Implies(ex.Ult(bv, sv.len), ex.Eq(ex.Sel(nb, bv), ex.Ite(ex.Sel(arr, ex.Add(o, bv)), ex.BV(8, 1), ex.BV(8, 0))))))
			s = ex.newBytes(st, nb, size)
		default:
			if ex.refute {
				c := ex.concretizeLen(st, sv)
				binWrite(ex, st, fn, []Value{a[0], a[1], IfaceV{t: t, v: c}}, k)
				return
			}
			panic(unsupported("binary.Write of symbolic slice of " + et.String()))
		}
	} else {
		out := ex.encode(st, t, v, big, nil)
		s = ex.newBytes(st, ex.AVec(8, out), ex.I(len(out)))
	}
	ex.callWrite(st, w, s, func(st *State, n *Term, err IfaceV) { k(st, err) })
}

func binRead(ex *Exec, st *State, fn *ssa.Function, a []Value, k func(*State, Value)) {
	r := a[0].(IfaceV)
	big := ex.isBig(a[1])
	iv := a[2].(IfaceV)
	bad := func() { k(st, ex.newError("binary.Read: invalid type")) }
	if iv.t == nil {
		bad()
		return
	}
	size, t := ex.binSize(st, iv)
	_, isPtr := iv.t.Underlying().(*types.Pointer)
	_, isSl := iv.t.Underlying().(*types.Slice)
	if size == nil || (!isPtr && !isSl) {
		bad()
		return
	}
	buf := ex.makeSliceRaw(st, types.Typ[types.Byte], size, size)
	ex.readFull(st, r, buf, func(st *State, n *Term, err IfaceV) {
		if err.t != nil {
			k(st, err)
			return
		}
		arr, off := ex.seqOf(st, buf, 8)
		if isPtr {
			p := iv.v.(Ptr)
			if sl, ok := t.Underlying().(*types.Slice); ok {
				ex.decodeSlice(st, sl.Elem(), ex.load(st, p).(*SliceV), arr, off, big)
			} else {
				old := ex.load(st, p)
				ex.store(st, p, ex.decode(st, t, arr, off, big, old))
			}
		} else {
			ex.decodeSlice(st, t.Underlying().(*types.Slice).Elem(), iv.v.(*SliceV), arr, off, big)
		}
		k(st, nilErr)
	})
}

func (ex *Exec) decodeSlice(st *State, et types.Type, d *SliceV, arr *Arr, off *Term, big bool) {
	if d.base.obj == 0 {
		return
	}
	sz := fixedSize(et)
	w := scalarW(et)
	if w == 8 {
		ex.copyInto(st, d, arr, off, d.len)
		return
	}
	if d.len.IsConst() && d.len.val <= 4096 {
		for i := 0; i < int(d.len.val); i++ {
			p := d.base.index(ex.AddI(d.off, i))
			ex.store(st, p, ex.decode(st, et, arr, ex.AddI(off, i*sz), big, nil))
		}
		return
	}
	if w >= 0 {
		na := ex.ABase(ex.fresh("dec"), w)
		bv := ex.boundVar()
		var x *Term
		if w == 0 {
			x = ex.Not(ex.Eq(ex.Sel(arr, ex.Add(off, bv)), ex.BV(8, 0)))
		} else {
			x = ex.leTerm(arr, ex.Add(off, ex.MulK(bv, uint64(sz))), sz, big)
		}
		ex.assume(st, ex.Forall(bv, ex.Implies(ex.Ult(bv, d.len), ex.Eq(ex.Sel(na, bv), x))))
		ex.copyInto(st, d, na, ex.I(0), d.len)
		return
	}
	if ex.refute {
		c := ex.concretizeLen(st, d)
		ex.decodeSlice(st, et, c, arr, off, big)
		return
	}
	panic(unsupported("binary.Read into symbolic slice of " + et.String()))
}

// crc16 is the checksum of the crc16 package for a configuration
func crc16(poly uint16, reversed bool, crc, fin uint16, d []byte) uint16 {
	if reversed {
		poly = bits.Reverse16(poly)
	}
	for _, b := range d {
		if reversed {
			crc ^= uint16(b)
		} else {
			crc ^= uint16(b) << 8
		}
		for k := 0; k < 8; k++ {
			switch {
			case reversed && crc&1 != 0:
				crc = crc>>1 ^ poly
			case reversed:
				crc >>= 1
			case crc&0x8000 != 0:
				crc = crc<<1 ^ poly
			default:
				crc <<= 1
			}
		}
	}
	return crc ^ fin
}

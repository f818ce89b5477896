package main

import (
	"fmt"
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

type RType struct{ t types.Type }

type rval struct {
	t    types.Type
	v    Value
	p    Ptr
	addr bool
	ro   bool // obtained through an unexported field
	emb  bool // ro only because of an unexported embedded field
}

var gcSizes = types.SizesFor("gc", "amd64")

func (ex *Exec) mkRVal(r *rval) Value {
	ex.nfresh++
	return OpaqueV{kind: "rval", data: r, id: ex.nfresh}
}
func (ex *Exec) rv(v Value) *rval {
	if o, ok := v.(OpaqueV); ok && o.kind == "rval" {
		return o.data.(*rval)
	}
	return &rval{}
}
func (ex *Exec) rget(st *State, r *rval) Value {
	if r.addr {
		return ex.load(st, r.p)
	}
	return r.v
}
func (ex *Exec) mkRType(t types.Type) Value {
	return IfaceV{t: ex.w.rtypeT, v: &RType{t}}
}

func kindOf(t types.Type) reflect.Kind {
	if t == nil {
		return reflect.Invalid
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Struct:
		return reflect.Struct
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	panic(unsupported("reflect kind of " + t.String()))
}

func (ex *Exec) rpanic(st *State, what string) {
	ex.rtPanic(st, "reflect: "+what, ex.False)
	panic(pathEnd{})
}

func (ex *Exec) rtypeMethod(st *State, name string, args []Value) Value {
	t := args[0].(*RType).t
	switch name {
	case "Kind":
		return ex.BV(64, uint64(kindOf(t)))
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return ex.mkRType(u.Elem())
		case *types.Slice:
			return ex.mkRType(u.Elem())
		case *types.Array:
			return ex.mkRType(u.Elem())
		case *types.Map:
			return ex.mkRType(u.Elem())
		}
		ex.rpanic(st, "Elem of invalid type")
	case "NumField":
		if s, ok := t.Underlying().(*types.Struct); ok {
			return ex.I(s.NumFields())
		}
		ex.rpanic(st, "NumField of non-struct type")
	case "Field":
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			ex.rpanic(st, "Field of non-struct type")
		}
		i := args[1].(*Term)
		if !i.IsConst() {
			panic(unsupported("reflect Field with symbolic index"))
		}
		return ex.structField(st, s, int(i.val))
	case "Name":
		if n, ok := t.(*types.Named); ok {
			return ex.strConst(n.Obj().Name())
		}
		if b, ok := types.Unalias(t).(*types.Basic); ok {
			n := b.Name()
			if n == "byte" {
				n = "uint8"
			}
			if n == "rune" {
				n = "int32"
			}
			return ex.strConst(n)
		}
		return ex.strConst("")
	case "String":
		return ex.strConst(types.TypeString(t, func(p *types.Package) string { return p.Name() }))
	case "Size":
		return ex.I(int(gcSizes.Sizeof(t)))
	case "Align":
		return ex.I(int(gcSizes.Alignof(t)))
	case "Len":
		if a, ok := t.Underlying().(*types.Array); ok {
			return ex.I(int(a.Len()))
		}
	case "AssignableTo":
		return ex.Bool(types.AssignableTo(t, args[1].(IfaceV).v.(*RType).t))
	case "ConvertibleTo":
		return ex.Bool(types.ConvertibleTo(t, args[1].(IfaceV).v.(*RType).t))
	case "Bits":
		if k := kindOf(t); k >= reflect.Int && k <= reflect.Complex128 {
			return ex.I(8 * int(gcSizes.Sizeof(t)))
		}
	case "Comparable":
		return ex.Bool(types.Comparable(t))
	}
	panic(unsupported("reflect.Type." + name))
}

func (ex *Exec) rfield(r *rval, s *types.Struct, n int) *rval {
	f := s.Field(n)
	x := &rval{t: f.Type(), ro: r.ro && !r.emb}
	if !f.Exported() {
		x.emb = f.Embedded() && !x.ro
		x.ro = true
	}
	if r.addr {
		x.p, x.addr = r.p.field(n), true
	} else {
		x.v = r.v.(*StructV).f[n]
	}
	return x
}

func (ex *Exec) structField(st *State, s *types.Struct, i int) Value {
	return ex.structFieldAt(st, s, i, []int{i})
}

func (ex *Exec) structFieldAt(st *State, s *types.Struct, i int, path []int) Value {
	f := s.Field(i)
	var fs []*types.Var
	for j := 0; j < s.NumFields(); j++ {
		fs = append(fs, s.Field(j))
	}
	offs := gcSizes.Offsetsof(fs)
	var idx []*Term
	for _, k := range path {
		idx = append(idx, ex.I(k))
	}
	h, id := st.heap.alloc(&Obj{val: &ArrV{arr: ex.AVec(64, idx), n: ex.I(len(path))}, name: "fieldindex"})
	st.heap = h
	one := ex.I(len(path))
	pp := ""
	if !f.Exported() {
		pp = f.Pkg().Path()
	}
	return &StructV{f: []Value{
		ex.strConst(f.Name()), ex.strConst(pp), ex.mkRType(f.Type()), ex.strConst(s.Tag(i)),
		ex.I(int(offs[i])), &SliceV{base: Ptr{obj: id}, off: ex.I(0), len: one, cap: one, isNil: ex.False}, ex.Bool(f.Embedded()),
	}}
}

func init() {
	m("reflect.TypeOf", func(ex *Exec, st *State, a []Value) Value {
		iv := notOpaque(a[0].(IfaceV))
		if iv.t == nil {
			return IfaceV{}
		}
		return ex.mkRType(iv.t)
	})
	m("reflect.ValueOf", func(ex *Exec, st *State, a []Value) Value {
		iv := notOpaque(a[0].(IfaceV))
		return ex.mkRVal(&rval{t: iv.t, v: iv.v})
	})
	m("reflect.Indirect", func(ex *Exec, st *State, a []Value) Value {
		r := ex.rv(a[0])
		if kindOf(r.t) != reflect.Pointer {
			return a[0]
		}
		return ex.relem(st, r)
	})
	m("reflect.New", func(ex *Exec, st *State, a []Value) Value {
		t := a[0].(IfaceV).v.(*RType).t
		p := ex.alloc(st, t, ex.zeroVal(t), "reflect.New")
		return ex.mkRVal(&rval{t: types.NewPointer(t), v: p})
	})
	m("reflect.Zero", func(ex *Exec, st *State, a []Value) Value {
		t := a[0].(IfaceV).v.(*RType).t
		return ex.mkRVal(&rval{t: t, v: ex.zeroVal(t)})
	})
	m("reflect.SliceOf", func(ex *Exec, st *State, a []Value) Value {
		return ex.mkRType(types.NewSlice(a[0].(IfaceV).v.(*RType).t))
	})
	m("reflect.MakeSlice", func(ex *Exec, st *State, a []Value) Value {
		t := a[0].(IfaceV).v.(*RType).t
		s := ex.makeSlice(st, t.Underlying().(*types.Slice).Elem(), a[1].(*Term), a[2].(*Term))
		return ex.mkRVal(&rval{t: t, v: s})
	})
	m("reflect.Copy", func(ex *Exec, st *State, a []Value) Value {
		dst, src := ex.rv(a[0]), ex.rv(a[1])
		if kindOf(dst.t) != reflect.Slice || kindOf(src.t) != reflect.Slice {
			panic(unsupported("reflect.Copy of something other than slices"))
		}
		et := dst.t.Underlying().(*types.Slice).Elem()
		if !types.Identical(et, src.t.Underlying().(*types.Slice).Elem()) {
			ex.rpanic(st, "reflect.Copy of different element types")
		}
		d, s := ex.rget(st, dst).(*SliceV), ex.rget(st, src).(*SliceV)
		if w := scalarW(et); w >= 0 {
			arr, off := ex.seqOf(st, s, w)
			return ex.doCopy(st, d, w, arr, off, s.len, et, s)
		}
		return ex.doCopy(st, d, -1, nil, nil, s.len, et, s)
	})
	m("reflect.Append", func(ex *Exec, st *State, a []Value) Value {
		r := ex.rv(a[0])
		if kindOf(r.t) != reflect.Slice {
			ex.rpanic(st, "Append to something other than a slice")
		}
		et := r.t.Underlying().(*types.Slice).Elem()
		xs := a[1].(*SliceV)
		if !xs.len.IsConst() {
			panic(unsupported("reflect.Append of an unknown number of elements"))
		}
		s := ex.rget(st, r).(*SliceV)
		for i := 0; i < int(xs.len.val); i++ {
			x := ex.rv(ex.load(st, xs.base.index(ex.AddI(xs.off, i))))
			if x.t == nil || r.ro || x.ro {
				ex.rpanic(st, "Append of a value that can not be used")
			}
			if !types.AssignableTo(x.t, et) {
				ex.rtPanic(st, "reflect.Append: value of type "+x.t.String()+" is not assignable to type "+et.String(), ex.False)
			}
			v := ex.rget(st, x)
			if isIface(et) && !isIface(x.t) {
				v = IfaceV{t: x.t, v: v}
			}
			if w := scalarW(et); w >= 0 {
				s = ex.appendSeq(st, s, w, ex.AStore(ex.AZero(w), ex.I(0), v.(*Term)), ex.I(0), ex.I(1), false)
			} else {
				n := ex.strSlice(st, []Value{v})
				s = ex.appendComposite(st, s, n, et)
			}
		}
		return ex.mkRVal(&rval{t: r.t, v: s})
	})
	m("reflect.AppendSlice", func(ex *Exec, st *State, a []Value) Value {
		r, x := ex.rv(a[0]), ex.rv(a[1])
		if kindOf(r.t) != reflect.Slice || kindOf(x.t) != reflect.Slice {
			ex.rpanic(st, "AppendSlice of something other than slices")
		}
		et := r.t.Underlying().(*types.Slice).Elem()
		if !types.Identical(et, x.t.Underlying().(*types.Slice).Elem()) || r.ro || x.ro {
			ex.rpanic(st, "AppendSlice of different element types")
		}
		s, t := ex.rget(st, r).(*SliceV), ex.rget(st, x).(*SliceV)
		if w := scalarW(et); w >= 0 {
			arr, off := ex.seqOf(st, t, w)
			s = ex.appendSeq(st, s, w, arr, off, t.len, false)
		} else {
			s = ex.appendComposite(st, s, t, et)
		}
		return ex.mkRVal(&rval{t: r.t, v: s})
	})
	m("reflect.VisibleFields", func(ex *Exec, st *State, a []Value) Value {
		t := a[0].(IfaceV).v.(*RType).t
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			ex.rpanic(st, "VisibleFields of non-struct type")
		}
		var el []Value
		for _, f := range visibleFields(s, nil, 0) {
			el = append(el, ex.structFieldAt(st, f.s, f.path[len(f.path)-1], f.path))
		}
		return ex.strSlice(st, el)
	})
	tag := func(ex *Exec, a []Value) (string, bool) {
		s, ok1 := ex.concStr(a[0].(*Str))
		k, ok2 := ex.concStr(a[1].(*Str))
		if !ok1 || !ok2 {
			panic(unsupported("symbolic struct tag"))
		}
		return reflect.StructTag(s).Lookup(k)
	}
	m("(reflect.StructTag).Get", func(ex *Exec, st *State, a []Value) Value {
		s, _ := tag(ex, a)
		return ex.strConst(s)
	})
	m("(reflect.StructTag).Lookup", func(ex *Exec, st *State, a []Value) Value {
		s, ok := tag(ex, a)
		return TupleV{ex.strConst(s), ex.Bool(ok)}
	})
	m("(reflect.StructField).IsExported", func(ex *Exec, st *State, a []Value) Value {
		return ex.Eq(a[0].(*StructV).f[1].(*Str).len, ex.I(0))
	})
	rm := func(name string, f func(ex *Exec, st *State, r *rval, a []Value) Value) {
		m("(reflect.Value)."+name, func(ex *Exec, st *State, a []Value) Value { return f(ex, st, ex.rv(a[0]), a[1:]) })
	}
	rm("IsValid", func(ex *Exec, st *State, r *rval, a []Value) Value { return ex.Bool(r.t != nil) })
	rm("Kind", func(ex *Exec, st *State, r *rval, a []Value) Value { return ex.BV(64, uint64(kindOf(r.t))) })
	rm("Type", func(ex *Exec, st *State, r *rval, a []Value) Value {
		if r.t == nil {
			ex.rpanic(st, "Type of zero Value")
		}
		return ex.mkRType(r.t)
	})
	rm("IsNil", func(ex *Exec, st *State, r *rval, a []Value) Value {
		switch x := ex.rget(st, r).(type) {
		case Ptr:
			return ex.Bool(x.obj == 0)
		case *SliceV:
			return x.isNil
		case IfaceV:
			return ex.Bool(x.t == nil)
		case MapRef:
			return ex.Bool(x.obj == 0)
		}
		panic(unsupported("reflect IsNil"))
	})
	rm("Elem", func(ex *Exec, st *State, r *rval, a []Value) Value { return ex.relem(st, r) })
	rm("CanSet", func(ex *Exec, st *State, r *rval, a []Value) Value { return ex.Bool(r.addr && !r.ro) })
	rm("CanAddr", func(ex *Exec, st *State, r *rval, a []Value) Value { return ex.Bool(r.addr) })
	rm("CanInterface", func(ex *Exec, st *State, r *rval, a []Value) Value { return ex.Bool(!r.ro) })
	rm("Addr", func(ex *Exec, st *State, r *rval, a []Value) Value {
		if !r.addr {
			ex.rpanic(st, "Addr of unaddressable value")
		}
		return ex.mkRVal(&rval{t: types.NewPointer(r.t), v: r.p, ro: r.ro})
	})
	rm("Interface", func(ex *Exec, st *State, r *rval, a []Value) Value {
		if r.t == nil {
			ex.rpanic(st, "Interface of zero Value")
		}
		if r.ro {
			ex.rpanic(st, "Interface of unexported field")
		}
		v := ex.rget(st, r)
		if isIface(r.t) {
			return v
		}
		return IfaceV{t: r.t, v: v}
	})
	rm("CanInt", func(ex *Exec, st *State, r *rval, a []Value) Value {
		k := kindOf(r.t)
		return ex.Bool(k >= reflect.Int && k <= reflect.Int64)
	})
	rm("CanUint", func(ex *Exec, st *State, r *rval, a []Value) Value {
		k := kindOf(r.t)
		return ex.Bool(k >= reflect.Uint && k <= reflect.Uintptr)
	})
	rm("CanFloat", func(ex *Exec, st *State, r *rval, a []Value) Value {
		k := kindOf(r.t)
		return ex.Bool(k == reflect.Float32 || k == reflect.Float64)
	})
	rm("Bool", func(ex *Exec, st *State, r *rval, a []Value) Value {
		if kindOf(r.t) != reflect.Bool {
			ex.rpanic(st, "Bool of non-bool")
		}
		return ex.rget(st, r)
	})
	isInt := func(k reflect.Kind) bool { return k >= reflect.Int && k <= reflect.Int64 }
	isUint := func(k reflect.Kind) bool { return k >= reflect.Uint && k <= reflect.Uintptr }
	isFlt := func(k reflect.Kind) bool { return k == reflect.Float32 || k == reflect.Float64 }
	rm("Int", func(ex *Exec, st *State, r *rval, a []Value) Value {
		if !isInt(kindOf(r.t)) {
			ex.rpanic(st, "Int of another kind")
		}
		return ex.SExt(ex.rget(st, r).(*Term), 64)
	})
	rm("Uint", func(ex *Exec, st *State, r *rval, a []Value) Value {
		if !isUint(kindOf(r.t)) {
			ex.rpanic(st, "Uint of another kind")
		}
		return ex.ZExt(ex.rget(st, r).(*Term), 64)
	})
	rm("Float", func(ex *Exec, st *State, r *rval, a []Value) Value {
		if !isFlt(kindOf(r.t)) {
			ex.rpanic(st, "Float of another kind")
		}
		return ex.convert(st, ex.rget(st, r), r.t, types.Typ[types.Float64])
	})
	rm("String", func(ex *Exec, st *State, r *rval, a []Value) Value {
		if kindOf(r.t) != reflect.String {
			panic(unsupported("reflect String of another kind"))
		}
		return ex.rget(st, r)
	})
	set := func(name string, is func(reflect.Kind) bool, from types.BasicKind) {
		rm(name, func(ex *Exec, st *State, r *rval, a []Value) Value {
			if !r.addr || r.ro || !is(kindOf(r.t)) {
				ex.rpanic(st, name)
			}
			v := a[0]
			if from != types.String {
				v = ex.convert(st, v, types.Typ[from], r.t)
			}
			ex.store(st, r.p, v)
			return TupleV{}
		})
	}
	set("SetInt", isInt, types.Int64)
	set("SetUint", isUint, types.Uint64)
	set("SetFloat", isFlt, types.Float64)
	set("SetString", func(k reflect.Kind) bool { return k == reflect.String }, types.String)
	rm("CanConvert", func(ex *Exec, st *State, r *rval, a []Value) Value {
		t := a[0].(IfaceV).v.(*RType).t
		if kindOf(r.t) == reflect.Slice {
			panic(unsupported("reflect CanConvert of a slice"))
		}
		return ex.Bool(types.ConvertibleTo(r.t, t))
	})
	rm("Cap", func(ex *Exec, st *State, r *rval, a []Value) Value {
		s, ok := ex.rget(st, r).(*SliceV)
		if !ok || !s.capKnown {
			panic(unsupported("reflect Cap"))
		}
		return s.cap
	})
	rm("SetBool", func(ex *Exec, st *State, r *rval, a []Value) Value {
		if !r.addr || r.ro || kindOf(r.t) != reflect.Bool {
			ex.rpanic(st, "SetBool")
		}
		ex.store(st, r.p, a[0])
		return TupleV{}
	})
	rm("NumField", func(ex *Exec, st *State, r *rval, a []Value) Value {
		s, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			ex.rpanic(st, "NumField of non-struct")
		}
		return ex.I(s.NumFields())
	})
	rm("Field", func(ex *Exec, st *State, r *rval, a []Value) Value {
		i := a[0].(*Term)
		var s *types.Struct
		if r.t != nil {
			s, _ = r.t.Underlying().(*types.Struct)
		}
		if s == nil {
			ex.rpanic(st, "Field of non-struct")
		}
		if !i.IsConst() {
			panic(unsupported("reflect Field with symbolic index"))
		}
		n := int(i.val)
		if n >= s.NumFields() {
			ex.rpanic(st, "Field index out of range")
		}
		return ex.mkRVal(ex.rfield(r, s, n))
	})
	byIndex := func(ex *Exec, st *State, r *rval, idx Value) (*rval, bool) {
		sl := idx.(*SliceV)
		if !sl.len.IsConst() {
			panic(unsupported("FieldByIndex with symbolic path"))
		}
		for k := 0; k < int(sl.len.val); k++ {
			if k > 0 && kindOf(r.t) == reflect.Ptr {
				if ex.rget(st, r).(Ptr).obj == 0 {
					return r, false
				}
				r = ex.rv(ex.relem(st, r))
			}
			i := ex.load(st, sl.base.index(ex.Add(sl.off, ex.I(k)))).(*Term)
			u, ok := r.t.Underlying().(*types.Struct)
			if !i.IsConst() || !ok {
				panic(unsupported("FieldByIndex"))
			}
			r = ex.rfield(r, u, int(i.val))
		}
		return r, true
	}
	rm("FieldByIndex", func(ex *Exec, st *State, r *rval, a []Value) Value {
		f, ok := byIndex(ex, st, r, a[0])
		if !ok {
			ex.rpanic(st, "FieldByIndex: indirection through nil pointer to embedded struct")
		}
		return ex.mkRVal(f)
	})
	rm("FieldByIndexErr", func(ex *Exec, st *State, r *rval, a []Value) Value {
		f, ok := byIndex(ex, st, r, a[0])
		if !ok {
			return TupleV{ex.mkRVal(&rval{}), ex.newError("embedded")}
		}
		return TupleV{ex.mkRVal(f), IfaceV{}}
	})
	rm("FieldByName", func(ex *Exec, st *State, r *rval, a []Value) Value {
		nm, ok := ex.concStr(a[0].(*Str))
		s, ok2 := r.t.Underlying().(*types.Struct)
		if !ok || !ok2 {
			panic(unsupported("FieldByName"))
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == nm {
				return ex.mkRVal(ex.rfield(r, s, i))
			}
		}
		return ex.mkRVal(&rval{})
	})
	rm("Len", func(ex *Exec, st *State, r *rval, a []Value) Value {
		switch kindOf(r.t) {
		case reflect.Slice, reflect.Array, reflect.String, reflect.Map:
			return ex.builtinArgs(st, "len", []Value{ex.rget(st, r)})
		}
		ex.rpanic(st, "Len of "+fmt.Sprint(r.t))
		return nil
	})
	rm("Index", func(ex *Exec, st *State, r *rval, a []Value) Value {
		i := a[0].(*Term)
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			s := ex.rget(st, r).(*SliceV)
			ex.rtPanic(st, "reflect: slice index out of range", ex.Ult(i, s.len))
			return ex.mkRVal(&rval{t: u.Elem(), p: s.base.index(ex.Add(s.off, i)), addr: true, ro: r.ro})
		case *types.Array:
			ex.rtPanic(st, "reflect: array index out of range", ex.Ult(i, ex.I(int(u.Len()))))
			if r.addr {
				return ex.mkRVal(&rval{t: u.Elem(), p: r.p.index(i), addr: true, ro: r.ro})
			}
			switch x := r.v.(type) {
			case *ArrV:
				return ex.mkRVal(&rval{t: u.Elem(), v: ex.Sel(x.arr, i), ro: r.ro})
			case *VecV:
				return ex.mkRVal(&rval{t: u.Elem(), v: x.e[ex.pickIndex(st, i, len(x.e))], ro: r.ro})
			}
		}
		ex.rpanic(st, "Index of "+fmt.Sprint(r.t))
		return nil
	})
	rm("Slice", func(ex *Exec, st *State, r *rval, a []Value) Value {
		s, ok := ex.rget(st, r).(*SliceV)
		if !ok {
			panic(unsupported("reflect Slice"))
		}
		lo, hi := a[0].(*Term), a[1].(*Term)
		ex.rtPanic(st, "reflect: slice bounds out of range", ex.BAnd(ex.Ule(lo, hi), ex.Ule(hi, s.cap)))
		return ex.mkRVal(&rval{t: r.t, v: &SliceV{base: s.base, off: ex.Add(s.off, lo), len: ex.Sub(hi, lo), cap: ex.Sub(s.cap, lo), isNil: s.isNil, capKnown: s.capKnown}})
	})
	rm("Set", func(ex *Exec, st *State, r *rval, a []Value) Value {
		x := ex.rv(a[0])
		if r.ro || x.ro {
			ex.rpanic(st, "Set of unexported field")
		}
		if !r.addr {
			ex.rpanic(st, "Set of unaddressable value")
		}
		if x.t == nil {
			ex.rpanic(st, "Set of zero Value")
		}
		if !types.AssignableTo(x.t, r.t) {
			ex.rtPanic(st, "reflect.Set: value of type "+x.t.String()+" is not assignable to type "+r.t.String(), ex.False)
		}
		v := ex.rget(st, x)
		if isIface(r.t) && !isIface(x.t) {
			v = IfaceV{t: x.t, v: v}
		}
		ex.store(st, r.p, v)
		return TupleV{}
	})
	rm("Convert", func(ex *Exec, st *State, r *rval, a []Value) Value {
		t := a[0].(IfaceV).v.(*RType).t
		if !types.ConvertibleTo(r.t, t) {
			ex.rpanic(st, "Convert")
		}
		v := ex.rget(st, r)
		if isIface(t) {
			if !isIface(r.t) {
				v = IfaceV{t: r.t, v: v}
			}
		} else {
			v = ex.convert(st, v, r.t, t)
		}
		return ex.mkRVal(&rval{t: t, v: v})
	})
	_ = ssa.NaiveForm
}

func (ex *Exec) relem(st *State, r *rval) Value {
	if r.t == nil {
		ex.rpanic(st, "Elem of zero Value")
	}
	v := ex.rget(st, r)
	switch u := r.t.Underlying().(type) {
	case *types.Pointer:
		p := v.(Ptr)
		if p.obj == 0 {
			return ex.mkRVal(&rval{})
		}
		return ex.mkRVal(&rval{t: u.Elem(), p: p, addr: true, ro: r.ro})
	case *types.Interface:
		iv := v.(IfaceV)
		return ex.mkRVal(&rval{t: iv.t, v: iv.v, ro: r.ro})
	}
	ex.rpanic(st, "Elem of "+r.t.String())
	return nil
}

type visField struct {
	s    *types.Struct
	path []int
}

// visibleFields lists the fields of a struct and those promoted from its embedded structs, as reflect does
func visibleFields(s *types.Struct, path []int, depth int) []visField {
	if depth > 8 {
		panic(unsupported("reflect.VisibleFields of deeply embedded structs"))
	}
	var out []visField
	for i := 0; i < s.NumFields(); i++ {
		p := append(append([]int{}, path...), i)
		out = append(out, visField{s, p})
		if f := s.Field(i); f.Embedded() {
			t := f.Type().Underlying()
			if q, ok := t.(*types.Pointer); ok {
				t = q.Elem().Underlying()
			}
			if u, ok := t.(*types.Struct); ok {
				out = append(out, visibleFields(u, p, depth+1)...)
			}
		}
	}
	if depth > 0 {
		return out
	}
	name := func(f visField) string { return f.s.Field(f.path[len(f.path)-1]).Name() }
	var res []visField
	for i, f := range out {
		keep := true
		for j, g := range out {
			if i != j && name(f) == name(g) && len(g.path) <= len(f.path) {
				keep = false
			}
		}
		if keep {
			res = append(res, f)
		}
	}
	return res
}

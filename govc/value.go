package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Str struct {
	arr      *Arr
	off, len *Term
	parts    []*Str // rope structure (optional): concatenation of parts
	itoa     *Term  // when this is the decimal rendering of a signed 64 bit term
	tag      string // abstract identity (e.g. opaque error text)
}

type PE struct {
	field int
	idx   *Term // nil => field
}

type Ptr struct {
	obj  int
	path []PE
}

type SliceV struct {
	base          Ptr // location of the array container
	off, len, cap *Term
	isNil         *Term
	capKnown      bool
}
type StructV struct{ f []Value }
type ArrV struct {
	arr *Arr
	n   *Term
}
type VecV struct{ e []Value }
type IfaceV struct {
	t types.Type // nil => nil interface
	v Value
}
type FuncV struct {
	fn      *ssa.Function
	binds   []Value
	builtin string
	native  func(ex *Exec, st *State, args []Value) Value
}
type MapRef struct{ obj int }
type TupleV []Value
type OpaqueV struct {
	kind string
	id   int
	data any
}
type mapEntry struct {
	k, v    Value
	deleted bool
}
type MapV struct {
	ents  []mapEntry // newest last; keys may be symbolic
	kt    types.Type
	vt    types.Type
	idx   map[string]int // concrete-string-key index when all keys concrete
	base  string         // non-empty: symbolic unknown base map
	count *Term          // length when base symbolic
}
type IterV struct {
	isStr bool
	str   *Str
	pos   *Term
	m     *MapV
	i     int
}
type ChanV struct{ obj int }

// ---- symbolic vectors of composites
type LeafKind int

const (
	LScalar LeafKind = iota
	LSeq             // slice of scalars or string (owned)
	LFixed           // [N]scalar
	LOther           // anything else: update list only
)

type updEnt struct {
	idx *Term
	val Value
}
type Leaf struct {
	path   []int
	kind   LeafKind
	w      int
	typ    types.Type
	arr    *Arr
	rows   *Arr2
	lens   *Arr
	nils   *Arr
	fixed  int
	upd    []updEnt
	def    Value
	hasDef bool
}
type SymVec struct {
	elem   types.Type
	n      *Term
	leaves []*Leaf
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// scalarW returns the bit width of scalar types, -1 otherwise
func scalarW(t types.Type) int {
	switch b := t.Underlying().(type) {
	case *types.Basic:
		switch b.Kind() {
		case types.Bool, types.UntypedBool:
			return 0
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
			return 32
		case types.Int, types.Uint, types.Int64, types.Uint64, types.Float64, types.Uintptr, types.UntypedInt, types.UntypedFloat:
			return 64
		}
	}
	return -1
}
func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func (c *Ctx) zeroVal(t types.Type) Value {
	if w := scalarW(t); w >= 0 {
		return c.zero(w)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return c.strConst("")
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return Ptr{}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return c.nilSlice()
	case *types.Struct:
		s := &StructV{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = c.zeroVal(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if w := scalarW(u.Elem()); w >= 0 {
			return &ArrV{arr: c.AZero(w), n: c.I(int(u.Len()))}
		}
		v := &VecV{e: make([]Value, u.Len())}
		for i := range v.e {
			v.e[i] = c.zeroVal(u.Elem())
		}
		return v
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return FuncV{}
	case *types.Map:
		return MapRef{}
	case *types.Chan:
		return ChanV{}
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = c.zeroVal(u.At(i).Type())
		}
		return tv
	}
	panic(unsupported(fmt.Sprintf("zero value of %s", t)))
}
func (c *Ctx) nilSlice() *SliceV {
	z := c.I(0)
	return &SliceV{off: z, len: z, cap: z, isNil: c.True, capKnown: true}
}
func (c *Ctx) strConst(s string) *Str {
	return &Str{arr: c.ABytes(s), off: c.I(0), len: c.I(len(s))}
}

// concrete string, if fully constant
func (c *Ctx) concStr(s *Str) (string, bool) {
	if !s.len.IsConst() || s.len.val > 1<<16 {
		return "", false
	}
	b := make([]byte, s.len.val)
	for i := range b {
		t := c.Sel(s.arr, c.AddI(s.off, i))
		if !t.IsConst() {
			return "", false
		}
		b[i] = byte(t.val)
	}
	return string(b), true
}

type unsupported string

func (c *Ctx) newSymVec(elem types.Type, n *Term, base string) *SymVec {
	sv := &SymVec{elem: elem, n: n}
	var walk func(t types.Type, path []int)
	walk = func(t types.Type, path []int) {
		p := append([]int(nil), path...)
		nm := fmt.Sprintf("%s%v", base, p)
		if w := scalarW(t); w >= 0 {
			l := &Leaf{path: p, kind: LScalar, w: w, typ: t}
			if base == "" {
				l.arr = c.AZero(w)
			} else {
				l.arr = c.ABase(nm, w)
			}
			sv.leaves = append(sv.leaves, l)
			return
		}
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				walk(st.Field(i).Type(), append(p, i))
			}
			return
		}
		ew := -1
		fixed := -1
		if isString(t) {
			ew = 8
		} else if s, ok := t.Underlying().(*types.Slice); ok {
			ew = scalarW(s.Elem())
		} else if a, ok := t.Underlying().(*types.Array); ok {
			ew = scalarW(a.Elem())
			fixed = int(a.Len())
		}
		if ew >= 0 {
			l := &Leaf{path: p, kind: LSeq, w: ew, typ: t, fixed: fixed}
			if fixed >= 0 {
				l.kind = LFixed
			}
			if base == "" {
				l.rows = &Arr2{k: AConst, w: ew, row: c.AZero(ew)}
				l.lens = c.AZero(64)
				l.nils = c.AConst(0, c.True)
			} else {
				l.rows = &Arr2{k: ABase, w: ew, name: nm + "$r"}
				l.lens = c.ABase(nm+"$l", 64)
				l.nils = c.ABase(nm+"$n", 0)
			}
			sv.leaves = append(sv.leaves, l)
			return
		}
		l := &Leaf{path: p, kind: LOther, typ: t}
		if base == "" {
			l.def = c.zeroVal(t)
			l.hasDef = true
		}
		sv.leaves = append(sv.leaves, l)
	}
	walk(elem, nil)
	return sv
}
func (sv *SymVec) clone() *SymVec {
	n := &SymVec{elem: sv.elem, n: sv.n, leaves: make([]*Leaf, len(sv.leaves))}
	copy(n.leaves, sv.leaves)
	return n
}
func hasPrefix(p, pre []int) bool {
	if len(p) < len(pre) {
		return false
	}
	for i := range pre {
		if p[i] != pre[i] {
			return false
		}
	}
	return true
}

// ---- persistent heap
const hbits = 5

type hnode struct {
	kids [1 << hbits]*hnode
	objs [1 << hbits]*Obj
}
type Obj struct {
	val    Value
	typ    types.Type
	name   string
	origin *Origin // view of an element leaf in a symbolic vector
	stale  bool
	global bool
}
type Origin struct {
	base Ptr
	idx  *Term
	leaf int
}
type Heap struct {
	root *hnode
	n    int
}

func (h Heap) get(id int) *Obj {
	if id <= 0 {
		return nil
	}
	n := h.root
	for s := 20; s > 0; s -= hbits {
		if n == nil {
			return nil
		}
		n = n.kids[(id>>s)&31]
	}
	if n == nil {
		return nil
	}
	return n.objs[id&31]
}
func (h Heap) set(id int, o *Obj) Heap {
	h.root = hset(h.root, 20, id, o)
	return h
}
func hset(n *hnode, s int, id int, o *Obj) *hnode {
	m := &hnode{}
	if n != nil {
		*m = *n
	}
	if s == 0 {
		m.objs[id&31] = o
	} else {
		m.kids[(id>>s)&31] = hset(m.kids[(id>>s)&31], s-hbits, id, o)
	}
	return m
}
func (h Heap) alloc(o *Obj) (Heap, int) {
	h.n++
	id := h.n
	h = h.set(id, o)
	return h, id
}

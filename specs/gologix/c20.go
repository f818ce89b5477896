package gologix

import (
	"math"
	"reflect"
)

// C20: tag groups deliver each value to the field that asked for it.

type vcInner struct {
	B int16 `gologix:"cd"`
}

type VcGroup struct {
	vcInner
	Z int32
	A int32 `gologix:"ab"`
	y string
}

// fields of embedded structures are tagged fields too
//
//vc:bounded structures of two tagged fields
func VC_C20_read(d []byte, p int, q int, z int32, y string) {
	cl, c := vcBatch(d)
	vcRequires(len(y) <= 100)
	vcRequires(vcBatchOK(d, 2))
	vcRequires(p == vcPart(d, 0) && q == vcPart(d, 1))
	vcRequires(vcPartOK(d, 0, 4) && vcPartOK(d, 1, 4))
	vcRequires(d[p+4] == byte(CIPTypeINT) && d[q+4] == byte(CIPTypeDINT))
	v := VcGroup{Z: z, y: y}
	err := cl.ReadMulti(&v)
	vcEnsures("one request with a part per tagged field", c.nwr == 1 && vcBatchReq(c.out, vcReadPart('c', 'd', 1), vcReadPart('a', 'b', 1)))
	vcEnsures("a complete reply is accepted", err == nil)
	vcEnsures("the embedded field has the value of its tag", uint64(uint16(v.B)) == vcLE(d, p+6, 2))
	vcEnsures("the field has the value of its tag", uint64(uint32(v.A)) == vcLE(d, q+6, 4))
	vcEnsures("untagged fields are left alone", v.Z == z && v.y == y)
}

// two fields of one tag both get its value
type VcSame struct {
	A int32 `gologix:"ab"`
	B int32 `gologix:"ab"`
}

//vc:bounded structures of two tagged fields
func VC_C20_same(d []byte, p int, q int) {
	cl, _ := vcBatch(d)
	vcRequires(vcBatchOK(d, 2))
	vcRequires(p == vcPart(d, 0) && q == vcPart(d, 1))
	vcRequires(vcPartOK(d, 0, 4) && vcPartOK(d, 1, 4))
	vcRequires(d[p+4] == byte(CIPTypeDINT) && d[q+4] == byte(CIPTypeDINT))
	v := VcSame{}
	err := cl.ReadMulti(&v)
	vcEnsures("a complete reply is accepted", err == nil)
	vcEnsures("the first field has the value of its part", uint64(uint32(v.A)) == vcLE(d, p+6, 4))
	vcEnsures("the second field has the value of its part", uint64(uint32(v.B)) == vcLE(d, q+6, 4))
}

type VcOneField struct {
	A int32 `gologix:"ab"`
}

// a value of another type than the field's is an error and is not stored
func VC_C20_type(d []byte, p int, a int32) {
	cl, _ := vcBatch(d)
	vcRequires(vcBatchOK(d, 1))
	vcRequires(p == vcPart(d, 0))
	vcRequires(vcPartOK(d, 0, 8))
	v := VcOneField{A: a}
	err := cl.ReadMulti(&v)
	good := d[p+4] == byte(CIPTypeDINT)
	vcEnsures("a value is stored exactly when it has the field's type", (err == nil) == good)
	vcEnsures("a value of another type leaves the field alone", good || v.A == a)
}

type VcListField struct {
	A []int16 `gologix:"ab"`
	Z int32
}

//vc:bounded lists of three elements
func VC_C20_list(d []byte, p int, z int32) {
	cl, c := vcBatchOne(d, p, 6, CIPTypeINT)
	v := VcListField{A: make([]int16, 3), Z: z}
	err := cl.ReadMulti(&v)
	vcEnsures("every element is requested", c.nwr == 1 && vcBatchReq(c.out, vcReadPart('a', 'b', 3)))
	vcEnsures("a complete reply is accepted", err == nil && len(v.A) == 3 && v.Z == z)
	for j := 0; j < 3; j++ {
		vcEnsures("every element is the reply's", uint64(uint16(v.A[j])) == vcLE(d, p+6+2*j, 2))
	}
}

//vc:bounded lists of one element
func VC_C20_list1(d []byte, p int) {
	cl, _ := vcBatchOne(d, p, 2, CIPTypeINT)
	v := VcListField{A: make([]int16, 1)}
	err := cl.ReadMulti(&v)
	vcEnsures("a complete reply is accepted", err == nil && len(v.A) == 1)
	vcEnsures("the element is the reply's", uint64(uint16(v.A[0])) == vcLE(d, p+6, 2))
}

type VcRecField struct {
	A VcRec `gologix:"ab"`
}

func VC_C20_struct(d []byte, p int) {
	cl, _ := vcBatchOne(d, p, 2+12, CIPTypeStruct)
	v := VcRecField{}
	err := cl.ReadMulti(&v)
	vcEnsures("a complete reply is accepted", err == nil)
	vcEnsures("the field has the structure of its part", uint64(uint32(v.A.A)) == vcLE(d, p+8, 4) && uint64(uint16(v.A.B)) == vcLE(d, p+12, 2) && v.A.C == (d[p+14]&1 != 0) && v.A.D == (d[p+14]&2 != 0))
}

type VcTemplate struct {
	A int32 `gologix:"m{0}.{1}"`
}

// placeholders in the tags are replaced by the arguments
func VC_C20_args(v int32) {
	cl, c := vcBatch([]byte{0, 0, 0x8A, 0, 0, 0, 1, 0, 4, 0, 0xCC, 0, 0, 0, 0xC4, 0, byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)})
	x := VcTemplate{}
	err := cl.ReadMulti(&x, 7, "ab")
	vcEnsures("the tag named by the arguments is read", c.nwr == 1 && vcBatchReq(c.out, []byte{0x4C, 4, 0x91, 2, 'm', '7', 0x91, 2, 'a', 'b', 1, 0}))
	vcEnsures("its value is stored", err == nil && x.A == v)
}

// a nil value, and a list of another length, are errors
func VC_C20_set(n uint8, a int16, b int16, v int16) {
	f := VcListField{A: []int16{a, b}}
	l := []any{}
	for i := 0; i < 4; i++ {
		if int(n) > i {
			l = append(l, v)
		}
	}
	err := setField(reflect.ValueOf(&f).Elem().Field(0), l)
	vcEnsures("a list of another length is an error", (err == nil) == (n == 2))
	if n == 2 {
		vcEnsures("every element is stored", f.A[0] == v && f.A[1] == v)
	} else {
		vcEnsures("a list of another length is not stored", f.A[0] == a && f.A[1] == b)
	}
	err = setField(reflect.ValueOf(&f).Elem().Field(1), nil)
	vcEnsures("no value is an error", err != nil)
}

type VcPut struct {
	vcInner
	Z int32
	A int32 `gologix:"ab"`
	y string
}

// each tagged field is written to its tag, and others are not
//
//vc:bounded structures of two tagged fields
func VC_C20_write(a int32, b int16, z int32, y string) {
	vcRequires(len(y) <= 100)
	d, err := multi_to_dict(VcPut{vcInner: vcInner{b}, Z: z, A: a, y: y})
	vcEnsures("tagged fields are collected", err == nil && len(d) == 2)
	if err == nil {
		x, ok := d["ab"].(int32)
		vcEnsures("a tag is written with the value of its field", ok && x == a)
		w, ok := d["cd"].(int16)
		vcEnsures("a tag is written with the value of its embedded field", ok && w == b)
	}
}

type VcNest struct {
	N VcRec
	A int32
}

type VcPutArray struct {
	A [3]int16 `gologix:"ab"`
	B []int16  `gologix:"cd"`
	R VcNest   `gologix:"ef"`
}

//vc:bounded arrays of three elements
func VC_C20_write_array(a [3]int16, b []int16, r VcNest, j int) {
	vcRequires(len(b) <= 1000)
	d, err := multi_to_dict(VcPutArray{A: a, B: b, R: r})
	vcEnsures("tagged fields are collected", err == nil && len(d) == 8)
	if err == nil {
		x, ok := d["ab"].([]int16)
		vcEnsures("an array is written whole", ok && len(x) == 3 && x[0] == a[0] && x[1] == a[1] && x[2] == a[2])
		w, ok := d["cd"].([]int16)
		vcEnsures("a list is written whole", ok && len(w) == len(b))
		if j >= 0 && j < len(b) {
			vcEnsures("a list is written with every element", w[j] == b[j])
		}
		rA, ok := d["ef.A"].(int32)
		vcEnsures("a member is written with its value", ok && rA == r.A)
		rN, ok := d["ef.N.A"].(int32)
		vcEnsures("a member of a member is written with its value", ok && rN == r.N.A)
		rB, ok := d["ef.N.B"].(int16)
		vcEnsures("another member is written with its value", ok && rB == r.N.B)
		rC, ok := d["ef.N.C"].(bool)
		vcEnsures("a bit is written with its value", ok && rC == r.N.C)
	}
}

// the value a tag definition asks for has the type of the definition
func VC_C20_zero(t byte, n uint8) {
	vcRequires(n <= 3)
	def := TagDef{Name: "ab", Type: CIPType(t), Elements: int(n)}
	v := zeroValueForTagDef(def)
	g, e := GoVarToCIPType(v)
	if n > 1 {
		vcEnsures("a list is asked for whole", e == int(n))
	} else {
		vcEnsures("one value is asked for", e == 1)
	}
	switch CIPType(t) {
	case CIPTypeBOOL, CIPTypeSINT, CIPTypeINT, CIPTypeUINT, CIPTypeDINT, CIPTypeUDINT, CIPTypeLINT, CIPTypeLWORD, CIPTypeREAL, CIPTypeLREAL, CIPTypeSTRING, CIPTypeBYTE:
		vcEnsures("the value has the type of the definition", g == CIPType(t))
	}
	switch CIPType(t) {
	case CIPTypeUSINT, CIPTypeWORD, CIPTypeDWORD, CIPTypeULINT:
		vcEnsures("the value has the size of the definition", g.Size() == CIPType(t).Size())
	}
}

//vc:bounded groups of two tags
func VC_C20_group(v0 int32, v1 float32) {
	w := math.Float32bits(v1)
	cl, c := vcBatch([]byte{0, 0, 0x8A, 0, 0, 0, 2, 0, 6, 0, 16, 0, 0xCC, 0, 0, 0, 0xC4, 0, byte(v0), byte(v0 >> 8), byte(v0 >> 16), byte(v0 >> 24),
		0xCC, 0, 0, 0, 0xCA, 0, byte(w), byte(w >> 8), byte(w >> 16), byte(w >> 24)})
	cl.Controller.Path = nil
	r, err := cl.ReadTagGroup(NewTagGroup(TagDef{Name: "a{0}", Type: CIPTypeDINT}, TagDef{Name: "c{0}", Type: CIPTypeREAL, Elements: 1}), "x")
	vcEnsures("a complete reply is accepted", err == nil && c.nwr == 1 && len(c.out) == 74)
	if err == nil && len(c.out) == 74 {
		first, second := "ax", "cx"
		if c.out[62] == 'c' {
			first, second = second, first
		}
		x, err := r.Int32(first)
		vcEnsures("a tag has the value of its part", err == nil && x == v0)
		y, err := r.Float32(second)
		vcEnsures("the other tag has the value of its part", err == nil && math.Float32bits(y) == w)
		_, err = r.Int32(second)
		vcEnsures("a value of another type is an error", err != nil)
		_, err = r.Value("none")
		vcEnsures("a tag that was not read is an error", err != nil)
	}
}

// a group that can't be read is an error
func VC_C20_group_failed(d []byte, a []byte) {
	vcRequires(len(a) <= 30000)
	vcRequires(len(d) <= 30000)
	vcRequires(len(d) < 5 || d[4] != 0 && d[4] != 0x1E)
	cl, _ := vcReplyClient(0x70, vcItems(a, d))
	cl.Controller.Path = nil
	r, err := cl.ReadTagGroup(NewTagGroup(TagDef{Name: "a", Type: CIPTypeDINT}))
	vcEnsures("a failed read is an error", err != nil && r == nil)
}

// the accessors of a result give the value of that type or an error
func VC_C20_access(v int16, w int32, u uint32, f float32, g float64, s string, b bool, k uint8) {
	vcRequires(len(s) <= 100)
	var x any
	switch k {
	case 0:
		x = v
	case 1:
		x = w
	case 2:
		x = u
	case 3:
		x = f
	case 4:
		x = g
	case 5:
		x = s
	case 6:
		x = b
	case 7:
		x = []any{w, w}
	}
	r := &TagGroupResult{values: map[string]any{"ab": x, "cd": nil}}
	i16, err := r.Int16("ab")
	vcEnsures("Int16 gives an int16", (err == nil) == (k == 0) && (k != 0 || i16 == v))
	i32, err := r.Int32("ab")
	vcEnsures("Int32 gives an int32", (err == nil) == (k == 1) && (k != 1 || i32 == w))
	u32, err := r.Uint32("ab")
	vcEnsures("Uint32 gives a uint32 or the bits of an int32", (err == nil) == (k == 1 || k == 2) && (k != 1 || u32 == uint32(w)) && (k != 2 || u32 == u))
	f32, err := r.Float32("ab")
	vcEnsures("Float32 gives a float32", (err == nil) == (k == 3) && (k != 3 || math.Float32bits(f32) == math.Float32bits(f)))
	f64, err := r.Float64("ab")
	vcEnsures("Float64 gives a float64", (err == nil) == (k == 4) && (k != 4 || math.Float64bits(f64) == math.Float64bits(g)))
	str, err := r.String("ab")
	vcEnsures("String gives a string", (err == nil) == (k == 5) && (k != 5 || str == s))
	bb, err := r.Bool("ab")
	vcEnsures("Bool gives a bool", (err == nil) == (k == 6) && (k != 6 || bb == b))
	l, err := r.Int32Slice("ab")
	vcEnsures("Int32Slice gives a list of int32", (err == nil) == (k == 7) && (k != 7 || (len(l) == 2 && l[0] == w && l[1] == w)))
	_, err = r.Float32Slice("ab")
	vcEnsures("a list of another type is an error", err != nil)
	y, err := r.Value("ab")
	vcEnsures("Value gives any value", err == nil && (k > 7 || y != nil))
	_, err = r.Int32("ef")
	vcEnsures("a tag that was not read is an error", err != nil)
}

// the list accessors give every element of a list of their type, and an error for a list with another element
//
//vc:bounded lists of five elements
func VC_C20_lists(v [5]int32, f [5]float32, m int, t bool) {
	vcRequires(m >= 0)
	vcRequires(m <= 5)
	l := []any{v[0], v[1], v[2], v[3], v[4]}
	g := []any{f[0], f[1], f[2], f[3], f[4]}
	if m < 5 {
		if t {
			l[m], g[m] = int16(1), float64(1)
		} else {
			l[m], g[m] = nil, nil
		}
	}
	r := &TagGroupResult{values: map[string]any{"ab": l, "cd": g}}
	x, err := r.Int32Slice("ab")
	vcEnsures("Int32Slice gives lists of int32 only", (err == nil) == (m == 5))
	if err == nil {
		vcEnsures("Int32Slice gives every element", len(x) == 5 && x[0] == v[0] && x[1] == v[1] && x[2] == v[2] && x[3] == v[3] && x[4] == v[4])
	}
	y, err := r.Float32Slice("cd")
	vcEnsures("Float32Slice gives lists of float32 only", (err == nil) == (m == 5))
	if err == nil && len(y) == 5 {
		for i := 0; i < 5; i++ {
			vcEnsures("Float32Slice gives every element", math.Float32bits(y[i]) == math.Float32bits(f[i]))
		}
	}
	vcEnsures("Float32Slice gives as many elements", err != nil || len(y) == 5)
}

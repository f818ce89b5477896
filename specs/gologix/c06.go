package gologix

import (
	"bytes"
	"math"
)

// C06: controller types and Go values.

// size of the atomic types that can be decoded, 0 for all others
//vc:pure
func vcTypeSize(t CIPType) int {
	switch t {
	case CIPTypeBOOL, CIPTypeBYTE, CIPTypeSINT, CIPTypeUSINT:
		return 1
	case CIPTypeINT, CIPTypeUINT, CIPTypeWORD:
		return 2
	case CIPTypeDINT, CIPTypeUDINT, CIPTypeDWORD, CIPTypeREAL:
		return 4
	case CIPTypeLINT, CIPTypeLWORD, CIPTypeULINT, CIPTypeLREAL:
		return 8
	}
	return 0
}

// the bits of v when its Go type is the one belonging to t
func vcTypedBits(t CIPType, v any) (uint64, bool) {
	switch t {
	case CIPTypeBOOL:
		x, ok := v.(bool)
		if x {
			return 1, ok
		}
		return 0, ok
	case CIPTypeBYTE, CIPTypeUSINT:
		x, ok := v.(byte)
		return uint64(x), ok
	case CIPTypeSINT:
		x, ok := v.(int8)
		return uint64(uint8(x)), ok
	case CIPTypeINT:
		x, ok := v.(int16)
		return uint64(uint16(x)), ok
	case CIPTypeUINT, CIPTypeWORD:
		x, ok := v.(uint16)
		return uint64(x), ok
	case CIPTypeDINT:
		x, ok := v.(int32)
		return uint64(uint32(x)), ok
	case CIPTypeUDINT, CIPTypeDWORD:
		x, ok := v.(uint32)
		return uint64(x), ok
	case CIPTypeLINT:
		x, ok := v.(int64)
		return uint64(x), ok
	case CIPTypeLWORD, CIPTypeULINT:
		x, ok := v.(uint64)
		return x, ok
	case CIPTypeREAL:
		x, ok := v.(float32)
		return uint64(math.Float32bits(x)), ok
	case CIPTypeLREAL:
		x, ok := v.(float64)
		return math.Float64bits(x), ok
	}
	return 0, false
}

func VC_C06_read(code byte, data []byte) {
	t := CIPType(code)
	vcRequires(t != CIPTypeSTRING)
	n := vcTypeSize(t)
	r := bytes.NewBuffer(data)
	v, err := readValue(t, r)
	if n == 0 {
		vcEnsures("a type without an atomic value is an error that consumes nothing", err != nil && v == nil && r.Len() == len(data))
		return
	}
	vcEnsures("the size of the type is the size decoded", t.Size() == n)
	if len(data) < n {
		vcEnsures("short data is an error", err != nil && v == nil)
		return
	}
	vcEnsures("a whole value is decoded, consuming exactly its size", err == nil && r.Len() == len(data)-n)
	bits, ok := vcTypedBits(t, v)
	vcEnsures("the value has the Go type of its controller type", ok)
	if t == CIPTypeBOOL {
		vcEnsures("a bool is true when its byte is not zero", (bits == 1) == (data[0] != 0))
	} else {
		vcEnsures("the value is the little endian content", bits == vcLE(data, 0, n))
	}
}

func VC_C06_read_item(code byte, data []byte, pos int) {
	t := CIPType(code)
	n := vcTypeSize(t)
	it := vcItem(data, pos)
	vcRequires(n > 0 && t != CIPTypeBOOL && len(data)-pos >= n)
	v, err := t.readValue(it)
	bits, ok := vcTypedBits(t, v)
	vcEnsures("a value in an item is decoded at the cursor", err == nil && ok && bits == vcLE(data, pos, n) && it.Pos == pos+n)
}

// is v a value of an integer type whose bits can be addressed, how many has it, what are they
func vcIntBits(t CIPType) int {
	if t == CIPTypeREAL || t == CIPTypeLREAL {
		return 0
	}
	if t == CIPTypeBOOL {
		return 1
	}
	return 8 * vcTypeSize(t)
}

func VC_C06_bit(code byte, data []byte, bit int) {
	t := CIPType(code)
	n := vcTypeSize(t)
	vcRequires(n > 0 && len(data) == n)
	v, err := readValue(t, bytes.NewBuffer(data))
	if err != nil {
		return
	}
	bits, _ := vcTypedBits(t, v)
	got, err := getBit(t, v, bit)
	if bit < 0 || bit >= vcIntBits(t) {
		vcEnsures("a bit the type does not have is an error", err != nil && !got)
		return
	}
	vcEnsures("a bit of a decoded value is that bit of its binary representation", err == nil && got == (bits>>uint(bit)&1 == 1))
}

func VC_C06_bit_mismatch(code byte, v int32, s string, bit int) {
	t := CIPType(code)
	if t != CIPTypeDINT {
		got, err := getBit(t, v, bit)
		vcEnsures("a value of another type has no bits", err != nil && !got)
	}
	got, err := getBit(t, s, bit)
	vcEnsures("text has no bits", err != nil && !got)
}

func vcTypeOf(v any, p any, bits uint64) {
	t, n := GoVarToCIPType(v)
	got, ok := vcTypedBits(t, v)
	vcEnsures("the type chosen for a Go value is the one that decodes to it", ok && got == bits && n == 1)
	tp, np := GoVarToCIPType(p)
	vcEnsures("a pointer has the type of what it points to", tp == t && np == 1)
}

func VC_C06_types(a bool, b byte, c int8, d uint16, e int16, f uint32, g int32, h uint64, i int64, j float32, k float64, s string) {
	ab := uint64(0)
	if a {
		ab = 1
	}
	vcTypeOf(a, &a, ab)
	vcTypeOf(b, &b, uint64(b))
	vcTypeOf(c, &c, uint64(uint8(c)))
	vcTypeOf(d, &d, uint64(d))
	vcTypeOf(e, &e, uint64(uint16(e)))
	vcTypeOf(f, &f, uint64(f))
	vcTypeOf(g, &g, uint64(uint32(g)))
	vcTypeOf(h, &h, h)
	vcTypeOf(i, &i, uint64(i))
	vcTypeOf(j, &j, uint64(math.Float32bits(j)))
	vcTypeOf(k, &k, math.Float64bits(k))
	t, n := GoVarToCIPType(s)
	tp, np := GoVarToCIPType(&s)
	vcEnsures("text is a string", t == CIPTypeSTRING && n == 1 && tp == CIPTypeSTRING && np == 1)
}

func VC_C06_slices(b []byte, c []int8, d []uint16, e []int16, f []uint32, g []int32, h []uint64, i []int64, j []float32, k []float64, s []string, l []bool) {
	eq := func(v any, n int, one any) {
		t, m := GoVarToCIPType(v)
		t1, _ := GoVarToCIPType(one)
		vcEnsures("a list has the type of its elements and their number", t == t1 && m == n)
	}
	eq(b, len(b), byte(0))
	eq(c, len(c), int8(0))
	eq(d, len(d), uint16(0))
	eq(e, len(e), int16(0))
	eq(f, len(f), uint32(0))
	eq(g, len(g), int32(0))
	eq(h, len(h), uint64(0))
	eq(i, len(i), int64(0))
	eq(j, len(j), float32(0))
	eq(k, len(k), float64(0))
	eq(s, len(s), "")
	eq(l, len(l), false)
}

type vcOther struct{ A int32 }

func VC_C06_struct(v vcOther) {
	t, n := GoVarToCIPType(v)
	vcEnsures("a structure is a struct", t == CIPTypeStruct && n == 1)
	t, n = GoVarToCIPType(&v)
	vcEnsures("a pointer to a structure is a struct", t == CIPTypeStruct && n == 1)
	t, _ = GoVarToCIPType(nil)
	vcEnsures("nothing has no type", t == CIPTypeUnknown)
}

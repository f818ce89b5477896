package gologix

import (
	"bytes"
	"math"

	"github.com/danomagnum/gologix/lgxtypes"
)

// C11: structures are packed and unpacked with the controller's layout.

// vcLay lays out fields: the bytes so far, and the booleans waiting to fill a byte
type vcLay struct {
	out []byte
	n   int
	cur byte
}

//vc:pure
func vcBit(b bool, n int) byte {
	if b {
		return 1 << n
	}
	return 0
}

// bit adds a boolean, which shares a byte with those next to it
func (l *vcLay) bit(b bool) {
	l.cur |= vcBit(b, l.n)
	l.n++
	if l.n == 8 {
		l.flush()
	}
}
func (l *vcLay) flush() {
	if l.n > 0 {
		l.out = append(l.out, l.cur)
	}
	l.n, l.cur = 0, 0
}

// at goes on at a multiple of a
func (l *vcLay) at(a int) {
	l.flush()
	for len(l.out)%a != 0 {
		l.out = append(l.out, 0)
	}
}

// num adds an n byte number at a multiple of n
func (l *vcLay) num(v uint64, n int) {
	l.at(n)
	for i := 0; i < n; i++ {
		l.out = append(l.out, byte(v))
		v >>= 8
	}
}

// vcShape packs s, which is k bytes, j booleans, a field, a boolean and a number, and compares
// the bytes with the layout
func vcShape[T any](s any, p [8]int8, q [8]bool, f bool, z int16, k, j int, x T, lay func(l *vcLay, x T)) []byte {
	b := new(bytes.Buffer)
	n, err := Pack(b, s)
	vcEnsures("packed", err == nil)
	if err != nil {
		return nil
	}
	l := &vcLay{}
	for i := 0; i < k; i++ {
		l.num(uint64(uint8(p[i])), 1)
	}
	for i := 0; i < j; i++ {
		l.bit(q[i])
	}
	lay(l, x)
	l.bit(f)
	l.num(uint64(uint16(z)), 2)
	vcEnsures("layout", vcBytesEq(b.Bytes(), l.out))
	vcEnsures("count", n == b.Len())
	return b.Bytes()
}

// vcUnpacked unpacks all of b into u
func vcUnpacked(b []byte, u any) {
	n, err := Unpack(bytes.NewBuffer(b), u)
	vcEnsures("unpacked", err == nil)
	vcEnsures("consumed", n == len(b))
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_int8(p [8]int8, q [8]bool, x int8, f bool, z int16) {
	vcShapesP(p, q, x, f, z, true, func(l *vcLay, x int8) {
		l.num(uint64(x), 1)
	})
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_uint8(p [8]int8, q [8]bool, x uint8, f bool, z int16) {
	vcShapesP(p, q, x, f, z, true, func(l *vcLay, x uint8) {
		l.num(uint64(x), 1)
	})
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_int16(p [8]int8, q [8]bool, x int16, f bool, z int16) {
	vcShapesP(p, q, x, f, z, true, func(l *vcLay, x int16) {
		l.num(uint64(x), 2)
	})
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_uint16(p [8]int8, q [8]bool, x uint16, f bool, z int16) {
	vcShapesP(p, q, x, f, z, true, func(l *vcLay, x uint16) {
		l.num(uint64(x), 2)
	})
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_int32(p [8]int8, q [8]bool, x int32, f bool, z int16) {
	vcShapesP(p, q, x, f, z, true, func(l *vcLay, x int32) {
		l.num(uint64(x), 4)
	})
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_uint32(p [8]int8, q [8]bool, x uint32, f bool, z int16) {
	vcShapesP(p, q, x, f, z, true, func(l *vcLay, x uint32) {
		l.num(uint64(x), 4)
	})
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_int64(p [8]int8, q [8]bool, x int64, f bool, z int16) {
	vcShapesP(p, q, x, f, z, true, func(l *vcLay, x int64) {
		l.num(uint64(x), 8)
	})
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_uint64(p [8]int8, q [8]bool, x uint64, f bool, z int16) {
	vcShapesP(p, q, x, f, z, true, func(l *vcLay, x uint64) {
		l.num(uint64(x), 8)
	})
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_float32(p [8]int8, q [8]bool, x float32, f bool, z int16) {
	vcShapesP(p, q, x, f, z, x == x, func(l *vcLay, x float32) {
		l.num(uint64(math.Float32bits(x)), 4)
	})
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_float64(p [8]int8, q [8]bool, x float64, f bool, z int16) {
	vcShapesP(p, q, x, f, z, x == x, func(l *vcLay, x float64) {
		l.num(math.Float64bits(x), 8)
	})
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_bool(p [8]int8, q [8]bool, x bool, f bool, z int16) {
	vcShapesP(p, q, x, f, z, true, func(l *vcLay, x bool) {
		l.bit(x)
	})
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_bools5(p [8]int8, q [8]bool, x [5]bool, f bool, z int16) {
	vcShapesP(p, q, x, f, z, true, func(l *vcLay, x [5]bool) {
		for i := range x {
			l.bit(x[i])
		}
	})
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_bools11(p [8]int8, q [8]bool, x [11]bool, f bool, z int16) {
	vcShapesP(p, q, x, f, z, true, func(l *vcLay, x [11]bool) {
		for i := range x {
			l.bit(x[i])
		}
	})
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_bool_nopack(p [8]int8, q [8]bool, x bool, f bool, z int16) {
	vcShapesN(p, q, x, f, z, true, func(l *vcLay, x bool) {
		l.num(uint64(vcBit(x, 0)), 1)
	})
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_bools_nopack(p [8]int8, q [8]bool, x [3]bool, f bool, z int16) {
	vcShapesN(p, q, x, f, z, true, func(l *vcLay, x [3]bool) {
		for i := range x {
			l.num(uint64(vcBit(x[i], 0)), 1)
		}
	})
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_int16s(p [8]int8, q [8]bool, x [3]int16, f bool, z int16) {
	vcShapesP(p, q, x, f, z, true, func(l *vcLay, x [3]int16) {
		for i := range x {
			l.num(uint64(x[i]), 2)
		}
	})
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_int16x2(p [8]int8, q [8]bool, x [2]int16, f bool, z int16) {
	vcShapesP(p, q, x, f, z, true, func(l *vcLay, x [2]int16) {
		for i := range x {
			l.num(uint64(x[i]), 2)
		}
	})
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_int8s(p [8]int8, q [8]bool, x [4]int8, f bool, z int16) {
	vcShapesP(p, q, x, f, z, true, func(l *vcLay, x [4]int8) {
		for i := range x {
			l.num(uint64(x[i]), 1)
		}
	})
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_int8x2(p [8]int8, q [8]bool, x [2]uint8, f bool, z int16) {
	vcShapesP(p, q, x, f, z, true, func(l *vcLay, x [2]uint8) {
		for i := range x {
			l.num(uint64(x[i]), 1)
		}
	})
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_int16s_2(p [8]int8, q [8]bool, x [2][2]int16, f bool, z int16) {
	vcShapesP(p, q, x, f, z, true, func(l *vcLay, x [2][2]int16) {
		for i := range x {
			for j := range x[i] {
				l.num(uint64(x[i][j]), 2)
			}
		}
	})
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_int32s(p [8]int8, q [8]bool, x [3]int32, f bool, z int16) {
	vcShapesP(p, q, x, f, z, true, func(l *vcLay, x [3]int32) {
		for i := range x {
			l.num(uint64(x[i]), 4)
		}
	})
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_int64s(p [8]int8, q [8]bool, x [2]int64, f bool, z int16) {
	vcShapesP(p, q, x, f, z, true, func(l *vcLay, x [2]int64) {
		for i := range x {
			l.num(uint64(x[i]), 8)
		}
	})
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_float32s(p [8]int8, q [8]bool, x [2]float32, f bool, z int16) {
	vcShapesP(p, q, x, f, z, x == x, func(l *vcLay, x [2]float32) {
		for i := range x {
			l.num(uint64(math.Float32bits(x[i])), 4)
		}
	})
}

type vcNest1 struct {
	A bool
	B int8
	C bool
}

func vcLay1(l *vcLay, x vcNest1) {
	l.at(1)
	l.bit(x.A)
	l.num(uint64(x.B), 1)
	l.bit(x.C)
	l.flush()
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_nested1(p [8]int8, q [8]bool, x vcNest1, f bool, z int16) {
	vcShapesP(p, q, x, f, z, true, func(l *vcLay, x vcNest1) {
		vcLay1(l, x)
	})
}

type vcNest2 struct {
	A int8
	B [2]bool
	C int16
	D bool
}

func vcLay2(l *vcLay, x vcNest2) {
	l.at(2)
	l.num(uint64(x.A), 1)
	l.bit(x.B[0])
	l.bit(x.B[1])
	l.num(uint64(x.C), 2)
	l.bit(x.D)
	l.flush()
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_nested2(p [8]int8, q [8]bool, x vcNest2, f bool, z int16) {
	vcShapesP(p, q, x, f, z, true, func(l *vcLay, x vcNest2) {
		vcLay2(l, x)
	})
}

type vcNest8 struct {
	A int8
	B vcNest2
	C uint64
	D int16
}

func vcLay8(l *vcLay, x vcNest8) {
	l.at(8)
	l.num(uint64(x.A), 1)
	vcLay2(l, x.B)
	l.num(x.C, 8)
	l.num(uint64(x.D), 2)
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_nested8(p [8]int8, q [8]bool, x vcNest8, f bool, z int16) {
	vcShapesP(p, q, x, f, z, true, func(l *vcLay, x vcNest8) {
		vcLay8(l, x)
	})
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_array2(p [8]int8, q [8]bool, x [2]vcNest2, f bool, z int16) {
	vcShapesP(p, q, x, f, z, true, func(l *vcLay, x [2]vcNest2) {
		for i := range x {
			vcLay2(l, x[i])
			l.at(2)
		}
	})
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_array8(p [8]int8, q [8]bool, x [2]vcNest8, f bool, z int16) {
	vcShapesP(p, q, x, f, z, true, func(l *vcLay, x [2]vcNest8) {
		for i := range x {
			vcLay8(l, x[i])
			l.at(8)
		}
	})
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_array22(p [8]int8, q [8]bool, x [2][2]vcNest2, f bool, z int16) {
	vcShapesP(p, q, x, f, z, true, func(l *vcLay, x [2][2]vcNest2) {
		for i := range x {
			for j := range x[i] {
				vcLay2(l, x[i][j])
				l.at(2)
			}
		}
	})
}

// the control word of a timer, counter or control and the two numbers after it
func vcLayCtl(l *vcLay, a, b int32, bits ...bool) {
	l.at(4)
	w := uint64(0)
	for i, v := range bits {
		w |= uint64(vcBit(v, 7-i)) << 24
	}
	l.num(w, 4)
	l.num(uint64(a), 4)
	l.num(uint64(b), 4)
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_timer(p [8]int8, q [8]bool, x lgxtypes.TIMER, f bool, z int16) {
	vcShapesP(p, q, x, f, z, true, func(l *vcLay, x lgxtypes.TIMER) {
		vcLayCtl(l, x.PRE, x.ACC, x.EN, x.TT, x.DN, x.FS, x.LS, x.OV, x.ER)
	})
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_counter(p [8]int8, q [8]bool, x lgxtypes.COUNTER, f bool, z int16) {
	vcShapesP(p, q, x, f, z, true, func(l *vcLay, x lgxtypes.COUNTER) {
		vcLayCtl(l, x.PRE, x.ACC, x.CU, x.CD, x.DN, x.OV, x.UN)
	})
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_control(p [8]int8, q [8]bool, x lgxtypes.CONTROL, f bool, z int16) {
	vcShapesP(p, q, x, f, z, true, func(l *vcLay, x lgxtypes.CONTROL) {
		vcLayCtl(l, x.LEN, x.POS, x.EN, x.EU, x.DN, x.EM, x.ER, x.UL, x.IN, x.FD)
	})
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_timers(p [8]int8, q [8]bool, x [2]lgxtypes.TIMER, f bool, z int16) {
	vcShapesP(p, q, x, f, z, true, func(l *vcLay, x [2]lgxtypes.TIMER) {
		for _, t := range x {
			vcLayCtl(l, t.PRE, t.ACC, t.EN, t.TT, t.DN, t.FS, t.LS, t.OV, t.ER)
		}
	})
}

//vc:bounded a field of each kind listed, after up to seven bytes and up to seven booleans, and before a boolean and a number
//vc:unroll 100
//vc:merge
func VC_C11_string(p [8]int8, q [8]bool, x lgxtypes.STRING, f bool, z int16) {
	vcShapesP(p, q, x, f, z, true, func(l *vcLay, x lgxtypes.STRING) {
		l.num(uint64(x.Len), 4)
		for i := range x.Data {
			l.num(uint64(x.Data[i]), 1)
		}
	})
}

type vcPackAll struct {
	A bool
	B [9]bool
	C int16
	D vcNest8
	E lgxtypes.TIMER
	F [2]vcNest2
	G int8
	H bool `pack:"nopack"`
	I [2]int32
	J float64
	K bool
}

// where the fields of a vcPackAll are: A, B at 0, C at 2, D at 8 (18 bytes), E at 28, F at 40
// (two of 6 bytes), G at 52, H at 53, I at 56, J at 64, K at 72
const vcPackAllLen = 73

//vc:bounded a structure with fields of every kind
//vc:unroll 100
//vc:merge
func VC_C11_short(d []byte) {
	vcRequires(len(d) < vcPackAllLen)
	var u vcPackAll
	_, err := Unpack(bytes.NewBuffer(d), &u)
	vcEnsures("short data is an error", err != nil)
}

//vc:bounded a structure with fields of every kind
//vc:unroll 100
//vc:merge
func VC_C11_long(d []byte) {
	vcRequires(len(d) >= vcPackAllLen)
	var u vcPackAll
	n, err := Unpack(bytes.NewBuffer(d), &u)
	vcEnsures("unpacked", err == nil)
	vcEnsures("consumed", n == vcPackAllLen)
	vcEnsures("field", u.A == (d[0]&1 != 0) && u.B[0] == (d[0]&2 != 0) && u.B[6] == (d[0]&0x80 != 0) && u.B[7] == (d[1]&1 != 0) && u.B[8] == (d[1]&2 != 0))
	vcEnsures("field", uint64(uint16(u.C)) == vcLE(d, 2, 2))
	vcEnsures("field", uint64(uint8(u.D.A)) == vcLE(d, 8, 1))
	vcEnsures("field", u.D.C == vcLE(d, 16, 8))
	vcEnsures("field", uint64(uint16(u.D.D)) == vcLE(d, 24, 2))
	vcEnsures("field", uint64(uint32(u.E.PRE)) == vcLE(d, 32, 4))
	vcEnsures("field", uint64(uint16(u.F[0].C)) == vcLE(d, 42, 2) && uint64(uint16(u.F[1].C)) == vcLE(d, 48, 2))
	vcEnsures("field", uint64(uint8(u.G)) == vcLE(d, 52, 1) && u.H == (d[53] != 0))
	vcEnsures("field", uint64(uint32(u.I[1])) == vcLE(d, 60, 4))
	vcEnsures("field", u.K == (d[72]&1 != 0))
}

// vcShortW is a writer that fails after some writes
type vcShortW struct {
	left, bad int
}

func (w *vcShortW) Write(p []byte) (int, error) {
	if w.left == 0 {
		w.bad++
		return 0, errVCConn
	}
	w.left--
	return len(p), nil
}

//vc:bounded a structure with fields of every kind
//vc:unroll 100
//vc:merge
func VC_C11_write_fails(s vcPackAll, left int) {
	vcRequires(left >= 0)
	w := &vcShortW{left: left}
	n, err := Pack(w, s)
	if err == nil {
		vcEnsures("all written", w.bad == 0 && n == vcPackAllLen)
	} else {
		vcEnsures("stopped at the failure", w.bad == 1)
	}
}

// vcSer is a value with an encoding of its own
type vcSer struct{ b []byte }

func (s vcSer) Bytes() []byte { return s.b }
func (s vcSer) Len() int      { return len(s.b) }

func VC_C11_serializable(b []byte, left int) {
	vcRequires(left >= 0)
	w := &vcShortW{left: left}
	n, err := Pack(w, vcSer{b})
	vcEnsures("failed write is an error", (err != nil) == (w.bad > 0))
	vcEnsures("count", err != nil || n == len(b))
	o := new(bytes.Buffer)
	_, err = Pack(o, vcSer{b})
	vcEnsures("written", err == nil && vcBytesEq(o.Bytes(), b))
}

// a slice of structures: each one padded to its alignment
//
//vc:bounded slices of three structures
//vc:unroll 100
//vc:merge
func VC_C11_slice(d []byte) {
	u := make([]vcNest2, 3)
	n, err := Unpack(bytes.NewBuffer(d), &u)
	vcEnsures("short data is an error", (err == nil) == (len(d) >= 18))
	if err == nil {
		vcEnsures("consumed", n == 18)
		for i := range u {
			vcEnsures("field", uint64(uint8(u[i].A)) == vcLE(d, 6*i, 1))
			vcEnsures("field", u[i].B[0] == (d[6*i+1]&1 != 0) && u[i].B[1] == (d[6*i+1]&2 != 0))
			vcEnsures("field", uint64(uint16(u[i].C)) == vcLE(d, 6*i+2, 2))
			vcEnsures("field", u[i].D == (d[6*i+4]&1 != 0))
		}
	}
}

func VC_C11_kinds(x int32, d []byte) {
	_, err := Unpack(bytes.NewBuffer(d), &x)
	vcEnsures("not a structure", err != nil)
}

// a reader that delivers its data in pieces of any size
//
//vc:bounded a structure of five bytes
//vc:unroll 20
//vc:merge
func VC_C11_pieces(d []byte, chunk []byte) {
	var u, v vcNest2
	n, err := Unpack(&vcConn{in: d, chunk: chunk}, &u)
	vcEnsures("short data is an error", (err == nil) == (len(d) >= 5))
	if err == nil {
		vcEnsures("consumed", n == 5)
		_, err = Unpack(bytes.NewBuffer(d), &v)
		vcEnsures("the same", err == nil && u == v)
	}
}

// a structure the controller knows takes all of its data or is an error
//
//vc:unroll 100
func VC_C11_known_short(d []byte) {
	vcRequires(len(d) <= 1000)
	var t lgxtypes.TIMER
	n, err := Unpack(bytes.NewBuffer(d), &t)
	vcEnsures("a timer", (err == nil) == (len(d) >= 12))
	vcEnsures("all of it", err != nil || n == 12)
	var c lgxtypes.COUNTER
	n, err = Unpack(bytes.NewBuffer(d), &c)
	vcEnsures("a counter", (err == nil) == (len(d) >= 12))
	vcEnsures("all of that", err != nil || n == 12)
	var k lgxtypes.CONTROL
	n, err = Unpack(bytes.NewBuffer(d), &k)
	vcEnsures("a control", (err == nil) == (len(d) >= 12))
	vcEnsures("all of this", err != nil || n == 12)
}

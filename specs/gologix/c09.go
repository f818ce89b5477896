package gologix

import (
	"bytes"
	"math"
)

// C09: reads return the controller's data, whole and in order, or an error.

// vcReadReq: out is the frame of a read of n elements of the tag "tag" (service 0x4C), or of its data from
// offset off on (service 0x52)
func vcReadReq(out []byte, n uint16, frag bool, off uint32) bool {
	k, svc := 12, byte(0x4C)
	if frag {
		k, svc = 16, 0x52
	}
	return len(out) == 44+k && vcFrameHdr(out, 0x70, 20+k, 0x11223344, 0, 0, 0) &&
		vcBytesEq(out[24:44], []byte{0, 0, 0, 0, 0, 0, 2, 0, 0xA1, 0, 4, 0, 0x0D, 0x0C, 0x0B, 0x0A, 0xB1, 0, byte(k), 0}) &&
		vcBytesEq(out[46:56], []byte{svc, 3, 0x91, 3, 't', 'a', 'g', 0, byte(n), byte(n >> 8)}) && (!frag || vcLE(out, 56, 4) == uint64(off))
}

// vcReadReply is a client that will receive this reply
func vcReadReply(status uint32, d []byte) (*Client, *vcConn) {
	vcRequires(len(d) <= 30000)
	vcRequires(len(d) < 5 || d[4] != 6) // see the fragments below
	cl, c := vcReplyClient(0x70, vcItems([]byte{0, 0, 0, 0}, d))
	c.in[8], c.in[9], c.in[10], c.in[11] = byte(status), byte(status>>8), byte(status>>16), byte(status>>24)
	return cl, c
}

// vcGood: the reply reports success and carries n bytes of values of type t or t2
func vcGood(status uint32, d []byte, t, t2 CIPType, n int) bool {
	return status == 0 && len(d) >= 8+n && d[4] == 0 && (CIPType(d[6]) == t || CIPType(d[6]) == t2)
}

func VC_C09_int8(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	var v int8
	err := cl.Read("tag", &v)
	vcEnsures("one element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 1, false, 0))
	good := vcGood(status, d, CIPTypeSINT, CIPTypeSINT, 1)
	vcEnsures("a value is read exactly when the reply carries one", (err == nil) == good)
	if good {
		vcEnsures("the value is the reply's", v == int8(d[8]))
		vcEnsures("one request is sent", c.nwr == 1)
	}
}

func VC_C09_byte(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	var v byte
	err := cl.Read("tag", &v)
	vcEnsures("one element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 1, false, 0))
	good := vcGood(status, d, CIPTypeBYTE, CIPTypeUSINT, 1)
	vcEnsures("a value is read exactly when the reply carries one", (err == nil) == good)
	if good {
		vcEnsures("the value is the reply's", v == d[8])
		vcEnsures("one request is sent", c.nwr == 1)
	}
}

func VC_C09_bool(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	var v bool
	err := cl.Read("tag", &v)
	vcEnsures("one element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 1, false, 0))
	good := vcGood(status, d, CIPTypeBOOL, CIPTypeBOOL, 1)
	vcEnsures("a value is read exactly when the reply carries one", (err == nil) == good)
	if good {
		vcEnsures("the value is the reply's", v == (d[8] != 0))
		vcEnsures("one request is sent", c.nwr == 1)
	}
}

func VC_C09_int16(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	var v int16
	err := cl.Read("tag", &v)
	vcEnsures("one element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 1, false, 0))
	good := vcGood(status, d, CIPTypeINT, CIPTypeINT, 2)
	vcEnsures("a value is read exactly when the reply carries one", (err == nil) == good)
	if good {
		vcEnsures("the value is the reply's", uint64(uint16(v)) == vcLE(d, 8, 2))
		vcEnsures("one request is sent", c.nwr == 1)
	}
}

func VC_C09_uint16(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	var v uint16
	err := cl.Read("tag", &v)
	vcEnsures("one element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 1, false, 0))
	good := vcGood(status, d, CIPTypeUINT, CIPTypeWORD, 2)
	vcEnsures("a value is read exactly when the reply carries one", (err == nil) == good)
	if good {
		vcEnsures("the value is the reply's", uint64(v) == vcLE(d, 8, 2))
		vcEnsures("one request is sent", c.nwr == 1)
	}
}

func VC_C09_int32(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	var v int32
	err := cl.Read("tag", &v)
	vcEnsures("one element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 1, false, 0))
	good := vcGood(status, d, CIPTypeDINT, CIPTypeDINT, 4)
	vcEnsures("a value is read exactly when the reply carries one", (err == nil) == good)
	if good {
		vcEnsures("the value is the reply's", uint64(uint32(v)) == vcLE(d, 8, 4))
		vcEnsures("one request is sent", c.nwr == 1)
	}
}

func VC_C09_uint32(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	var v uint32
	err := cl.Read("tag", &v)
	vcEnsures("one element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 1, false, 0))
	good := vcGood(status, d, CIPTypeUDINT, CIPTypeDWORD, 4)
	vcEnsures("a value is read exactly when the reply carries one", (err == nil) == good)
	if good {
		vcEnsures("the value is the reply's", uint64(v) == vcLE(d, 8, 4))
		vcEnsures("one request is sent", c.nwr == 1)
	}
}

func VC_C09_int64(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	var v int64
	err := cl.Read("tag", &v)
	vcEnsures("one element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 1, false, 0))
	good := vcGood(status, d, CIPTypeLINT, CIPTypeLINT, 8)
	vcEnsures("a value is read exactly when the reply carries one", (err == nil) == good)
	if good {
		vcEnsures("the value is the reply's", uint64(v) == vcLE(d, 8, 8))
		vcEnsures("one request is sent", c.nwr == 1)
	}
}

func VC_C09_uint64(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	var v uint64
	err := cl.Read("tag", &v)
	vcEnsures("one element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 1, false, 0))
	good := vcGood(status, d, CIPTypeULINT, CIPTypeLWORD, 8)
	vcEnsures("a value is read exactly when the reply carries one", (err == nil) == good)
	if good {
		vcEnsures("the value is the reply's", v == vcLE(d, 8, 8))
		vcEnsures("one request is sent", c.nwr == 1)
	}
}

func VC_C09_float32(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	var v float32
	err := cl.Read("tag", &v)
	vcEnsures("one element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 1, false, 0))
	good := vcGood(status, d, CIPTypeREAL, CIPTypeREAL, 4)
	vcEnsures("a value is read exactly when the reply carries one", (err == nil) == good)
	if good {
		vcEnsures("the value is the reply's", uint64(math.Float32bits(v)) == vcLE(d, 8, 4))
		vcEnsures("one request is sent", c.nwr == 1)
	}
}

func VC_C09_float64(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	var v float64
	err := cl.Read("tag", &v)
	vcEnsures("one element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 1, false, 0))
	good := vcGood(status, d, CIPTypeLREAL, CIPTypeLREAL, 8)
	vcEnsures("a value is read exactly when the reply carries one", (err == nil) == good)
	if good {
		vcEnsures("the value is the reply's", math.Float64bits(v) == vcLE(d, 8, 8))
		vcEnsures("one request is sent", c.nwr == 1)
	}
}

//vc:bounded lists of one and three elements
func VC_C09_list1_int8(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	v := make([]int8, 1)
	err := cl.Read("tag", v)
	vcEnsures("every element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 1, false, 0))
	good := vcGood(status, d, CIPTypeSINT, CIPTypeSINT, 1)
	vcEnsures("a list is read exactly when the reply carries all of it", (err == nil) == good)
	if good {
		for j := 0; j < 1; j++ {
			vcEnsures("every element is the reply's", v[j] == int8(d[8+j]))
		}
	}
}

//vc:bounded lists of one and three elements
func VC_C09_list3_int8(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	v := make([]int8, 3)
	err := cl.Read("tag", v)
	vcEnsures("every element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 3, false, 0))
	good := vcGood(status, d, CIPTypeSINT, CIPTypeSINT, 3)
	vcEnsures("a list is read exactly when the reply carries all of it", (err == nil) == good)
	if good {
		for j := 0; j < 3; j++ {
			vcEnsures("every element is the reply's", v[j] == int8(d[8+j]))
		}
	}
}

//vc:bounded lists of one and three elements
func VC_C09_list1_byte(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	v := make([]byte, 1)
	err := cl.Read("tag", v)
	vcEnsures("every element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 1, false, 0))
	good := vcGood(status, d, CIPTypeBYTE, CIPTypeUSINT, 1)
	vcEnsures("a list is read exactly when the reply carries all of it", (err == nil) == good)
	if good {
		for j := 0; j < 1; j++ {
			vcEnsures("every element is the reply's", v[j] == d[8+j])
		}
	}
}

//vc:bounded lists of one and three elements
func VC_C09_list3_byte(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	v := make([]byte, 3)
	err := cl.Read("tag", v)
	vcEnsures("every element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 3, false, 0))
	good := vcGood(status, d, CIPTypeBYTE, CIPTypeUSINT, 3)
	vcEnsures("a list is read exactly when the reply carries all of it", (err == nil) == good)
	if good {
		for j := 0; j < 3; j++ {
			vcEnsures("every element is the reply's", v[j] == d[8+j])
		}
	}
}

//vc:bounded lists of one and three elements
func VC_C09_list1_int16(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	v := make([]int16, 1)
	err := cl.Read("tag", v)
	vcEnsures("every element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 1, false, 0))
	good := vcGood(status, d, CIPTypeINT, CIPTypeINT, 2)
	vcEnsures("a list is read exactly when the reply carries all of it", (err == nil) == good)
	if good {
		for j := 0; j < 1; j++ {
			vcEnsures("every element is the reply's", uint64(uint16(v[j])) == vcLE(d, 8+2*j, 2))
		}
	}
}

//vc:bounded lists of one and three elements
func VC_C09_list3_int16(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	v := make([]int16, 3)
	err := cl.Read("tag", v)
	vcEnsures("every element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 3, false, 0))
	good := vcGood(status, d, CIPTypeINT, CIPTypeINT, 6)
	vcEnsures("a list is read exactly when the reply carries all of it", (err == nil) == good)
	if good {
		for j := 0; j < 3; j++ {
			vcEnsures("every element is the reply's", uint64(uint16(v[j])) == vcLE(d, 8+2*j, 2))
		}
	}
}

//vc:bounded lists of one and three elements
func VC_C09_list1_uint16(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	v := make([]uint16, 1)
	err := cl.Read("tag", v)
	vcEnsures("every element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 1, false, 0))
	good := vcGood(status, d, CIPTypeUINT, CIPTypeWORD, 2)
	vcEnsures("a list is read exactly when the reply carries all of it", (err == nil) == good)
	if good {
		for j := 0; j < 1; j++ {
			vcEnsures("every element is the reply's", uint64(v[j]) == vcLE(d, 8+2*j, 2))
		}
	}
}

//vc:bounded lists of one and three elements
func VC_C09_list3_uint16(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	v := make([]uint16, 3)
	err := cl.Read("tag", v)
	vcEnsures("every element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 3, false, 0))
	good := vcGood(status, d, CIPTypeUINT, CIPTypeWORD, 6)
	vcEnsures("a list is read exactly when the reply carries all of it", (err == nil) == good)
	if good {
		for j := 0; j < 3; j++ {
			vcEnsures("every element is the reply's", uint64(v[j]) == vcLE(d, 8+2*j, 2))
		}
	}
}

//vc:bounded lists of one and three elements
func VC_C09_list1_int32(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	v := make([]int32, 1)
	err := cl.Read("tag", v)
	vcEnsures("every element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 1, false, 0))
	good := vcGood(status, d, CIPTypeDINT, CIPTypeDINT, 4)
	vcEnsures("a list is read exactly when the reply carries all of it", (err == nil) == good)
	if good {
		for j := 0; j < 1; j++ {
			vcEnsures("every element is the reply's", uint64(uint32(v[j])) == vcLE(d, 8+4*j, 4))
		}
	}
}

//vc:bounded lists of one and three elements
func VC_C09_list3_int32(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	v := make([]int32, 3)
	err := cl.Read("tag", v)
	vcEnsures("every element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 3, false, 0))
	good := vcGood(status, d, CIPTypeDINT, CIPTypeDINT, 12)
	vcEnsures("a list is read exactly when the reply carries all of it", (err == nil) == good)
	if good {
		for j := 0; j < 3; j++ {
			vcEnsures("every element is the reply's", uint64(uint32(v[j])) == vcLE(d, 8+4*j, 4))
		}
	}
}

//vc:bounded lists of one and three elements
func VC_C09_list1_uint32(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	v := make([]uint32, 1)
	err := cl.Read("tag", v)
	vcEnsures("every element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 1, false, 0))
	good := vcGood(status, d, CIPTypeUDINT, CIPTypeDWORD, 4)
	vcEnsures("a list is read exactly when the reply carries all of it", (err == nil) == good)
	if good {
		for j := 0; j < 1; j++ {
			vcEnsures("every element is the reply's", uint64(v[j]) == vcLE(d, 8+4*j, 4))
		}
	}
}

//vc:bounded lists of one and three elements
func VC_C09_list3_uint32(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	v := make([]uint32, 3)
	err := cl.Read("tag", v)
	vcEnsures("every element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 3, false, 0))
	good := vcGood(status, d, CIPTypeUDINT, CIPTypeDWORD, 12)
	vcEnsures("a list is read exactly when the reply carries all of it", (err == nil) == good)
	if good {
		for j := 0; j < 3; j++ {
			vcEnsures("every element is the reply's", uint64(v[j]) == vcLE(d, 8+4*j, 4))
		}
	}
}

//vc:bounded lists of one and three elements
func VC_C09_list1_int64(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	v := make([]int64, 1)
	err := cl.Read("tag", v)
	vcEnsures("every element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 1, false, 0))
	good := vcGood(status, d, CIPTypeLINT, CIPTypeLINT, 8)
	vcEnsures("a list is read exactly when the reply carries all of it", (err == nil) == good)
	if good {
		for j := 0; j < 1; j++ {
			vcEnsures("every element is the reply's", uint64(v[j]) == vcLE(d, 8+8*j, 8))
		}
	}
}

//vc:bounded lists of one and three elements
func VC_C09_list3_int64(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	v := make([]int64, 3)
	err := cl.Read("tag", v)
	vcEnsures("every element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 3, false, 0))
	good := vcGood(status, d, CIPTypeLINT, CIPTypeLINT, 24)
	vcEnsures("a list is read exactly when the reply carries all of it", (err == nil) == good)
	if good {
		for j := 0; j < 3; j++ {
			vcEnsures("every element is the reply's", uint64(v[j]) == vcLE(d, 8+8*j, 8))
		}
	}
}

//vc:bounded lists of one and three elements
func VC_C09_list1_uint64(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	v := make([]uint64, 1)
	err := cl.Read("tag", v)
	vcEnsures("every element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 1, false, 0))
	good := vcGood(status, d, CIPTypeULINT, CIPTypeLWORD, 8)
	vcEnsures("a list is read exactly when the reply carries all of it", (err == nil) == good)
	if good {
		for j := 0; j < 1; j++ {
			vcEnsures("every element is the reply's", v[j] == vcLE(d, 8+8*j, 8))
		}
	}
}

//vc:bounded lists of one and three elements
func VC_C09_list3_uint64(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	v := make([]uint64, 3)
	err := cl.Read("tag", v)
	vcEnsures("every element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 3, false, 0))
	good := vcGood(status, d, CIPTypeULINT, CIPTypeLWORD, 24)
	vcEnsures("a list is read exactly when the reply carries all of it", (err == nil) == good)
	if good {
		for j := 0; j < 3; j++ {
			vcEnsures("every element is the reply's", v[j] == vcLE(d, 8+8*j, 8))
		}
	}
}

//vc:bounded lists of one and three elements
func VC_C09_list1_float32(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	v := make([]float32, 1)
	err := cl.Read("tag", v)
	vcEnsures("every element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 1, false, 0))
	good := vcGood(status, d, CIPTypeREAL, CIPTypeREAL, 4)
	vcEnsures("a list is read exactly when the reply carries all of it", (err == nil) == good)
	if good {
		for j := 0; j < 1; j++ {
			vcEnsures("every element is the reply's", uint64(math.Float32bits(v[j])) == vcLE(d, 8+4*j, 4))
		}
	}
}

//vc:bounded lists of one and three elements
func VC_C09_list3_float32(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	v := make([]float32, 3)
	err := cl.Read("tag", v)
	vcEnsures("every element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 3, false, 0))
	good := vcGood(status, d, CIPTypeREAL, CIPTypeREAL, 12)
	vcEnsures("a list is read exactly when the reply carries all of it", (err == nil) == good)
	if good {
		for j := 0; j < 3; j++ {
			vcEnsures("every element is the reply's", uint64(math.Float32bits(v[j])) == vcLE(d, 8+4*j, 4))
		}
	}
}

//vc:bounded lists of one and three elements
func VC_C09_list1_float64(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	v := make([]float64, 1)
	err := cl.Read("tag", v)
	vcEnsures("every element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 1, false, 0))
	good := vcGood(status, d, CIPTypeLREAL, CIPTypeLREAL, 8)
	vcEnsures("a list is read exactly when the reply carries all of it", (err == nil) == good)
	if good {
		for j := 0; j < 1; j++ {
			vcEnsures("every element is the reply's", math.Float64bits(v[j]) == vcLE(d, 8+8*j, 8))
		}
	}
}

//vc:bounded lists of one and three elements
func VC_C09_list3_float64(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	v := make([]float64, 3)
	err := cl.Read("tag", v)
	vcEnsures("every element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 3, false, 0))
	good := vcGood(status, d, CIPTypeLREAL, CIPTypeLREAL, 24)
	vcEnsures("a list is read exactly when the reply carries all of it", (err == nil) == good)
	if good {
		for j := 0; j < 3; j++ {
			vcEnsures("every element is the reply's", math.Float64bits(v[j]) == vcLE(d, 8+8*j, 8))
		}
	}
}

func VC_C09_bit(status uint32, d []byte, bit uint8) {
	vcRequires(bit <= 9)
	cl, c := vcReadReply(status, d)
	var v bool
	err := cl.Read("tag."+string([]byte{'0' + bit}), &v)
	vcEnsures("the integer is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 1, false, 0))
	if err == nil {
		n := vcTypeSize(CIPType(d[6]))
		vcEnsures("the reply reports success and carries the integer", status == 0 && d[4] == 0 && n > 0 && len(d) >= 8+n)
		if CIPType(d[6]) != CIPTypeBOOL {
			vcEnsures("the value is the bit of the reply's integer", int(bit) < 8*n && v == (vcLE(d, 8, n)>>bit&1 == 1))
		}
	}
	if vcGood(status, d, CIPTypeDINT, CIPTypeINT, 4) {
		vcEnsures("a bit of an integer is read", err == nil)
	}
}

// a text is in a structure: its checksum, 32 bit length and text
func VC_C09_string(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	var v string
	err := cl.Read("tag", &v)
	vcEnsures("one element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 1, false, 0))
	good := vcGood(status, d, CIPTypeStruct, CIPTypeStruct, 6) && uint64(len(d)-14) >= vcLE(d, 10, 4)
	if good {
		n := int(vcLE(d, 10, 4))
		vcEnsures("a text is read", err == nil && v == string(d[14:14+n]))
	} else if !vcGood(status, d, CIPTypeSTRING, CIPTypeSTRING, 0) {
		vcEnsures("anything else is an error", err != nil)
	}
}

//vc:bounded two texts
func VC_C09_strings(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	v := make([]string, 2)
	err := cl.Read("tag", v)
	vcEnsures("every element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 2, false, 0))
	good := vcGood(status, d, CIPTypeStruct, CIPTypeStruct, 176) && vcLE(d, 10, 4) <= 82 && vcLE(d, 98, 4) <= 82
	if good {
		n, m := int(vcLE(d, 10, 4)), int(vcLE(d, 98, 4))
		vcEnsures("the texts are read", err == nil)
		vcEnsures("the first text is read", v[0] == string(d[14:14+n]))
		vcEnsures("the second text is read", v[1] == string(d[102:102+m]))
	} else if !vcGood(status, d, CIPTypeSTRING, CIPTypeSTRING, 0) {
		vcEnsures("anything else is an error", err != nil)
	}
}

// the bits of 32 bit words
func VC_C09_bools(status uint32, d []byte, j int) {
	vcRequires(j >= 0 && j < 32)
	cl, c := vcReadReply(status, d)
	v := make([]bool, 32)
	err := cl.Read("tag", v)
	vcEnsures("one word is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 1, false, 0))
	good := vcGood(status, d, CIPTypeUDINT, CIPTypeDWORD, 4)
	vcEnsures("the bits are read exactly when the reply carries the word", (err == nil) == good)
	if good {
		vcEnsures("every bit is the reply's", v[j] == (vcLE(d, 8, 4)>>uint(j)&1 == 1))
	}
}

//vc:bounded 64 bits
func VC_C09_bools64(status uint32, d []byte, j int) {
	vcRequires(j >= 0 && j < 64)
	cl, c := vcReadReply(status, d)
	v := make([]bool, 64)
	err := cl.Read("tag", v)
	vcEnsures("two words are requested", c.nwr >= 1 && vcReadReq(c.out[:56], 2, false, 0))
	good := vcGood(status, d, CIPTypeUDINT, CIPTypeDWORD, 8)
	vcEnsures("the bits are read exactly when the reply carries the words", (err == nil) == good)
	if good {
		vcEnsures("every bit is the reply's", v[j] == (vcLE(d, 8, 8)>>uint(j)&1 == 1))
	}
}

func VC_C09_bools_odd(v []bool) {
	vcRequires(len(v)%32 != 0)
	cl, c := vcReplyClient(0x70, nil)
	vcEnsures("other numbers of bits are an error", cl.Read("tag", v) != nil && c.nwr == 0)
}

func VC_C09_struct(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	var v VcRec
	err := cl.Read("tag", &v)
	vcEnsures("one element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 1, false, 0))
	good := vcGood(status, d, CIPTypeStruct, CIPTypeStruct, 2+12)
	vcEnsures("a structure is read exactly when the reply carries one", (err == nil) == good)
	if good {
		vcEnsures("every field is the reply's", uint64(uint32(v.A)) == vcLE(d, 10, 4) && uint64(uint16(v.B)) == vcLE(d, 14, 2) && v.C == (d[16]&1 != 0) && v.D == (d[16]&2 != 0) && uint64(math.Float32bits(v.E)) == vcLE(d, 18, 4))
	}
}

func VC_C09_struct_packed(status uint32, d []byte) {
	cl, c := vcReadReply(status, d)
	v, err := ReadPacked[VcRec](cl, "tag")
	vcEnsures("one element is requested", c.nwr >= 1 && vcReadReq(c.out[:56], 1, false, 0))
	good := vcGood(status, d, CIPTypeStruct, CIPTypeStruct, 2+12)
	vcEnsures("a structure is read exactly when the reply carries one", (err == nil) == good)
	if good {
		vcEnsures("every field is the reply's", uint64(uint32(v.A)) == vcLE(d, 10, 4) && uint64(uint16(v.B)) == vcLE(d, 14, 2) && v.C == (d[16]&1 != 0) && v.D == (d[16]&2 != 0) && uint64(math.Float32bits(v.E)) == vcLE(d, 18, 4))
	}
}

func VC_C09_struct_bytes(status uint32, d []byte) {
	cl, _ := vcReadReply(status, d)
	v, err := cl.Read_single("tag", CIPTypeStruct, 1)
	if vcGood(status, d, CIPTypeStruct, CIPTypeStruct, 2) {
		b, ok := v.([]byte)
		vcEnsures("a structure is its bytes", err == nil && ok && vcBytesEq(b, d[10:]))
	}
}

func VC_C09_cut(form bool, b []byte) {
	vcRequires(len(b) <= 65527)
	cl, _ := vcReplyClient(0x70, vcCut(form, b))
	var v int32
	vcEnsures("a reply without two items is an error", cl.Read("tag", &v) != nil && v == 0)
}

func VC_C09_lost(in []byte, wfail, dfail bool) {
	vcRequires(len(in) <= 65000)
	vcRequires(wfail || dfail || len(in) < 24 || len(in) < 24+int(vcLE(in, 2, 2)))
	cl, c := vcReplyClient(0x70, nil)
	c.in, c.wfail, c.dfail = in, wfail, dfail
	var v int32
	vcEnsures("a lost connection is an error", cl.Read("tag", &v) != nil && v == 0)
}

// ---- fragments

// vcFragLog is the data of the fragments received, vcFragOK whether each was asked for at the offset reached
var vcFragLog []byte
var vcFragOK bool
var vcFragLast byte

// a request for a fragment: any data and status, or an error
//vc:spec (*gologix.Client).sendFragReadRequest
//vc:for VC_C09_frag_whole
func vcSpecSendFragReadRequest(client *Client, ioi *tagIOI, elements uint16, offset uint32) ([]byte, byte, error) {
	vcFragOK = vcFragOK && int(offset) == len(vcFragLog)
	if vcAny() {
		return nil, 0, errVC
	}
	d := []byte(vcAnyString())
	vcRequires(len(d) <= 65535)
	vcRequires(len(vcFragLog)+len(d) <= 0xFFFFFFFF) // a transfer carries less than 4 GiB
	vcFragLast = byte(vcAnyInt())
	vcFragLog = append(vcFragLog, d...)
	return d, vcFragLast, nil
}

//vc:inv (*gologix.Client).readFragmented#0
//vc:for VC_C09_frag_whole
func vcInvReadFragmented(accumulated *bytes.Buffer) bool {
	return vcFragOK && len(vcFragLog) <= 0xFFFFFFFF && len(accumulated.Bytes()) == len(vcFragLog) && vcBytesEq(accumulated.Bytes(), vcFragLog)
}

// the same where the data are kept in a slice
//
//vc:inv (*gologix.Client).readFragmented#0
//vc:for VC_C09_frag_whole
func vcInvReadFragmentedBytes(accumulated []byte) bool {
	return vcFragOK && len(vcFragLog) <= 0xFFFFFFFF && len(accumulated) == len(vcFragLog) && vcBytesEq(accumulated, vcFragLog)
}

func VC_C09_frag_whole(first []byte, elements uint16) {
	vcRequires(len(first) <= 65535)
	cl := &Client{}
	vcFragLog = append([]byte(nil), first...)
	vcFragOK = true
	d, err := cl.readFragmented(&tagIOI{}, elements, first)
	vcEnsures("every fragment is asked for at the offset already received", vcFragOK)
	if err == nil {
		vcEnsures("the data is every fragment in order", vcBytesEq(d, vcFragLog))
		vcEnsures("the controller reported the last fragment", vcFragLast == 0)
	}
}

//vc:verify (*gologix.Client).sendFragReadRequest
func VC_C09_frag_request(status uint32, a, d []byte, elements uint16, off uint32) {
	vcRequires(len(a) <= 30000)
	vcRequires(len(d) <= 30000)
	cl, c := vcReplyClient(0x70, vcItems(a, d))
	c.in[8], c.in[9], c.in[10], c.in[11] = byte(status), byte(status>>8), byte(status>>16), byte(status>>24)
	ioi, err := cl.newIOI("tag", CIPTypeDINT)
	if err != nil {
		return
	}
	got, st, err := cl.sendFragReadRequest(ioi, elements, off)
	vcEnsures("the fragment at the offset is requested", c.nwr == 1 && vcReadReq(c.out, elements, true, off))
	vcEnsures("a fragment is received exactly when the reply is whole", (err == nil) == (status == 0 && len(d) >= 8))
	if err == nil {
		vcEnsures("a fragment is the data and status of the reply", st == d[4] && vcBytesEq(got, d[8:]))
	}
}

// two replies: a part of the data and the rest
//vc:bounded two fragments
func VC_C09_frag_two(d0, d1 []byte) {
	vcRequires(len(d0) <= 30000)
	vcRequires(len(d1) <= 30000)
	vcRequires(len(d0)+len(d1) == 8)
	cl, c := vcReplyClient(0x70, vcItems([]byte{0, 0, 0, 0}, append([]byte{0, 0, 0xCC, 0, 6, 0, byte(CIPTypeDINT), 0}, d0...)))
	c.in = append(c.in, vcFrame(0x70, vcItems([]byte{0, 0, 0, 0}, append([]byte{0, 0, 0xD2, 0, 0, 0, byte(CIPTypeDINT), 0}, d1...)))...)
	all := append(append([]byte(nil), d0...), d1...)
	v := make([]int32, 2)
	err := cl.Read("tag", v)
	vcEnsures("the rest is requested", c.nwr == 2 && vcReadReq(c.out[56:], 2, true, uint32(len(d0))))
	vcEnsures("the elements are those of the whole data", err == nil && uint64(uint32(v[0])) == vcLE(all, 0, 4) && uint64(uint32(v[1])) == vcLE(all, 4, 4))
}

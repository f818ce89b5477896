package gologix

import (
	"math"

	"github.com/danomagnum/gologix/lgxtypes"
)

// C08: writes send the exact request and succeed only on a positive reply.

// vcWriteReq: out is the frame of a write of n elements of this type and data to the tag "tag"
func vcWriteReq(out []byte, code CIPType, n int, data int) bool {
	return vcFrameHdr(out, 0x70, 34+data, 0x11223344, 0, 0, 0) && len(out) == 58+data &&
		vcBytesEq(out[24:42], []byte{0, 0, 0, 0, 0, 0, 2, 0, 0xA1, 0, 4, 0, 0x0D, 0x0C, 0x0B, 0x0A, 0xB1, 0}) && vcLE(out, 42, 2) == uint64(14+data) &&
		vcBytesEq(out[46:54], []byte{0x4D, 3, 0x91, 3, 't', 'a', 'g', 0}) && vcLE(out, 54, 2) == uint64(code) && vcLE(out, 56, 2) == uint64(n)
}

func vcWriteSent(v any) ([]byte, error) {
	cl, c := vcReplyClient(0x70, vcItems([]byte{0, 0, 0, 0}, []byte{0, 0, 0xCD, 0, 0, 0}))
	err := cl.Write("tag", v)
	vcEnsures("an accepted write succeeds", err == nil)
	vcEnsures("one request is sent", c.nwr == 1)
	return c.out, err
}

func VC_C08_int8(v int8) {
	out, _ := vcWriteSent(v)
	vcEnsures("the request carries type, count and value", vcWriteReq(out, CIPTypeSINT, 1, 1) && vcLE(out, 58, 1) == uint64(uint8(v)))
}
func VC_C08_uint8(v uint8) {
	out, _ := vcWriteSent(v)
	vcEnsures("the request carries type, count and value", vcWriteReq(out, CIPTypeBYTE, 1, 1) && vcLE(out, 58, 1) == uint64(v))
}
func VC_C08_bool(v bool) {
	out, _ := vcWriteSent(v)
	vcEnsures("the request carries type, count and value", vcWriteReq(out, CIPTypeBOOL, 1, 1) && (out[58] != 0) == v)
}
func VC_C08_int16(v int16) {
	out, _ := vcWriteSent(v)
	vcEnsures("the request carries type, count and value", vcWriteReq(out, CIPTypeINT, 1, 2) && vcLE(out, 58, 2) == uint64(uint16(v)))
}
func VC_C08_uint16(v uint16) {
	out, _ := vcWriteSent(v)
	vcEnsures("the request carries type, count and value", vcWriteReq(out, CIPTypeUINT, 1, 2) && vcLE(out, 58, 2) == uint64(v))
}
func VC_C08_int32(v int32) {
	out, _ := vcWriteSent(v)
	vcEnsures("the request carries type, count and value", vcWriteReq(out, CIPTypeDINT, 1, 4) && vcLE(out, 58, 4) == uint64(uint32(v)))
}
func VC_C08_uint32(v uint32) {
	out, _ := vcWriteSent(v)
	vcEnsures("the request carries type, count and value", vcWriteReq(out, CIPTypeUDINT, 1, 4) && vcLE(out, 58, 4) == uint64(v))
}
func VC_C08_int64(v int64) {
	out, _ := vcWriteSent(v)
	vcEnsures("the request carries type, count and value", vcWriteReq(out, CIPTypeLINT, 1, 8) && vcLE(out, 58, 8) == uint64(v))
}
func VC_C08_uint64(v uint64) {
	out, _ := vcWriteSent(v)
	vcEnsures("the request carries type, count and value", vcWriteReq(out, CIPTypeLWORD, 1, 8) && vcLE(out, 58, 8) == v)
}
func VC_C08_float32(v float32) {
	out, _ := vcWriteSent(v)
	vcEnsures("the request carries type, count and value", vcWriteReq(out, CIPTypeREAL, 1, 4) && vcLE(out, 58, 4) == uint64(math.Float32bits(v)))
}
func VC_C08_float64(v float64) {
	out, _ := vcWriteSent(v)
	vcEnsures("the request carries type, count and value", vcWriteReq(out, CIPTypeLREAL, 1, 8) && vcLE(out, 58, 8) == math.Float64bits(v))
}
func VC_C08_string(v string) {
	vcRequires(len(v) <= 1000)
	out, _ := vcWriteSent(v)
	n := len(v)
	if n > 84 {
		n = 84
	}
	vcEnsures("the request carries the string type and a count", len(out) == 60+88 && vcFrameHdr(out, 0x70, 36+88, 0x11223344, 0, 0, 0) && vcLE(out, 42, 2) == 16+88 &&
		vcBytesEq(out[46:60], []byte{0x4D, 3, 0x91, 3, 't', 'a', 'g', 0, 0xA0, 2, 0xCE, 0x0F, 1, 0}))
	vcEnsures("the request carries the text", vcLE(out, 60, 4) == uint64(n) && string(out[64:64+n]) == v[:n])
}

// j is an arbitrary element
func VC_C08_int32s(v []int32, j int) {
	vcRequires(len(v) <= 10000)
	vcRequires(len(v) >= 1)
	out, _ := vcWriteSent(v)
	vcEnsures("the request carries type and count", vcWriteReq(out, CIPTypeDINT, len(v), 4*len(v)))
	if j >= 0 && j < len(v) {
		vcEnsures("the request carries every element", vcLE(out, 58+4*j, 4) == uint64(uint32(v[j])))
	}
}
func VC_C08_bytes(v []byte) {
	vcRequires(len(v) <= 60000)
	vcRequires(len(v) >= 1)
	out, _ := vcWriteSent(v)
	vcEnsures("the request carries type, count and data", vcWriteReq(out, CIPTypeBYTE, len(v), len(v)) && vcBytesEq(out[58:], v))
}
func VC_C08_uint16s(v []uint16, j int) {
	vcRequires(len(v) <= 10000)
	vcRequires(len(v) >= 1)
	out, _ := vcWriteSent(v)
	vcEnsures("the request carries type and count", vcWriteReq(out, CIPTypeUINT, len(v), 2*len(v)))
	if j >= 0 && j < len(v) {
		vcEnsures("the request carries every element", vcLE(out, 58+2*j, 2) == uint64(v[j]))
	}
}
func VC_C08_float64s(v []float64, j int) {
	vcRequires(len(v) <= 5000)
	vcRequires(len(v) >= 1)
	out, _ := vcWriteSent(v)
	vcEnsures("the request carries type and count", vcWriteReq(out, CIPTypeLREAL, len(v), 8*len(v)))
	if j >= 0 && j < len(v) {
		vcEnsures("the request carries every element", vcLE(out, 58+8*j, 8) == math.Float64bits(v[j]))
	}
}
func VC_C08_bools(v []bool, j int) {
	vcRequires(len(v) <= 10000)
	vcRequires(len(v) >= 1)
	out, _ := vcWriteSent(v)
	vcEnsures("the request carries type and count", vcWriteReq(out, CIPTypeBOOL, len(v), len(v)))
	if j >= 0 && j < len(v) {
		vcEnsures("the request carries every element", (out[58+j] != 0) == v[j])
	}
}

func VC_C08_reply(a []byte, d []byte, status uint32, v int32) {
	vcRequires(len(a) <= 30000)
	vcRequires(len(d) <= 30000)
	cl, c := vcReplyClient(0x70, vcItems(a, d))
	c.in[8], c.in[9], c.in[10], c.in[11] = byte(status), byte(status>>8), byte(status>>16), byte(status>>24)
	err := cl.Write("tag", v)
	vcEnsures("success is reported exactly when the reply reports success", (err == nil) == (status == 0 && len(d) >= 6 && d[4] == 0))
}

func VC_C08_reply_cut(form bool, b []byte, v int32) {
	vcRequires(len(b) <= 65527)
	cl, _ := vcReplyClient(0x70, vcCut(form, b))
	vcEnsures("a reply without two items is an error", cl.Write("tag", v) != nil)
}

func VC_C08_no_reply(in []byte, wfail, dfail bool, v int32) {
	vcRequires(len(in) <= 65000)
	vcRequires(wfail || dfail || len(in) < 24 || len(in) < 24+int(vcLE(in, 2, 2)))
	cl, c := vcReplyClient(0x70, nil)
	c.in, c.wfail, c.dfail = in, wfail, dfail
	vcEnsures("a lost connection is an error", cl.Write("tag", v) != nil)
}

// the reply to a batch of writes: p and q are the positions of the parts
func VC_C08_batch_reply(d []byte) {
	vcRequires(len(d) <= 60000)
	it := CIPItem{Data: d}
	err := checkMultiWriteReply(&it, []string{"a", "b"})
	if err != nil {
		return
	}
	vcEnsures("the batch was performed", len(d) >= 12 && d[4] == 0 && vcLE(d, 6, 2) == 2)
	p, q := 6+int(vcLE(d, 8, 2)), 6+int(vcLE(d, 10, 2))
	vcEnsures("every part was accepted", p+4 <= len(d) && d[p+2] == 0 && q+4 <= len(d) && d[q+2] == 0)
}

// m is an arbitrary number of tags
func VC_C08_batch_count(d []byte, three bool) {
	vcRequires(len(d) <= 60000)
	it := CIPItem{Data: d}
	tags := []string{"a"}
	if three {
		tags = []string{"a", "b", "c"}
	}
	err := checkMultiWriteReply(&it, tags)
	vcEnsures("another number of parts is an error", err != nil || int(vcLE(d, 6, 2)) == len(tags))
}

// a well formed positive reply is accepted, a part that is not is an error
func VC_C08_batch_parts(s0, s1, s uint8, gap []byte) {
	vcRequires(len(gap) <= 1000)
	p := 6 + len(gap)
	d := append([]byte{0, 0, 0x8A, 0, s, 0, 2, 0, byte(p), byte(p >> 8), byte(p + 4), byte((p + 4) >> 8)}, gap...)
	d = append(d, 0xCD, 0, s0, 0, 0xCD, 0, s1, 0)
	it := CIPItem{Data: d}
	err := checkMultiWriteReply(&it, []string{"a", "b"})
	vcEnsures("a batch succeeds exactly when every part does", (err == nil) == (s == 0 && s0 == 0 && s1 == 0))
}

func vcMapSent(m map[string]any, parts []byte) ([]byte, *vcConn) {
	cl, c := vcReplyClient(0x70, vcItems([]byte{0, 0, 0, 0}, parts))
	cl.Controller.Path = nil
	err := cl.WriteMap(m)
	vcEnsures("an accepted batch succeeds", err == nil)
	vcEnsures("one request is sent", c.nwr == 1)
	return c.out, c
}

func VC_C08_map_one(v int16) {
	out, _ := vcMapSent(map[string]any{"tag": v}, []byte{0, 0, 0x8A, 0, 0, 0, 1, 0, 4, 0, 0xCD, 0, 0, 0})
	vcEnsures("the request has one part", len(out) == 44+2+6+4+8+4+2 && vcLE(out, 42, 2) == uint64(len(out)-44) &&
		vcBytesEq(out[46:64], []byte{0x0A, 2, 0x20, 2, 0x24, 1, 1, 0, 4, 0, 0x4D, 3, 0x91, 3, 't', 'a', 'g', 0}))
	vcEnsures("the part carries type, count and value", vcLE(out, 64, 2) == uint64(CIPTypeINT) && vcLE(out, 66, 2) == 1 && vcLE(out, 68, 2) == uint64(uint16(v)))
}

func VC_C08_map_list(v []int16, j int) {
	vcRequires(len(v) <= 10000)
	vcRequires(len(v) >= 1)
	out, _ := vcMapSent(map[string]any{"tag": v}, []byte{0, 0, 0x8A, 0, 0, 0, 1, 0, 4, 0, 0xCD, 0, 0, 0})
	vcEnsures("the part carries type and count", len(out) == 68+2*len(v) && vcLE(out, 64, 2) == uint64(CIPTypeINT) && vcLE(out, 66, 2) == uint64(len(v)))
	if j >= 0 && j < len(v) {
		vcEnsures("the part carries every element", vcLE(out, 68+2*j, 2) == uint64(uint16(v[j])))
	}
}

// the order of the parts is arbitrary, and each offset leads to its part
func VC_C08_map_two(v int16, w int32) {
	out, _ := vcMapSent(map[string]any{"tag": v, "bit": w}, []byte{0, 0, 0x8A, 0, 0, 0, 2, 0, 6, 0, 10, 0, 0xCD, 0, 0, 0, 0xCD, 0, 0, 0})
	vcTwoSent(out, v, w)
}

type VcRec struct {
	A int32
	B int16
	C bool
	D bool
	E float32
}

// the name and fields of a structure determine the checksum in its request
func VC_C08_struct(a int32, b int16, c, d bool, e float32) {
	out, _ := vcWriteSent(VcRec{a, b, c, d, e})
	crc := vcCRC([]byte("VcRec,DINT,INT,SINT,REAL"))
	bits := byte(0)
	if c {
		bits |= 1
	}
	if d {
		bits |= 2
	}
	vcEnsures("the request carries the structure type, its checksum and one element", vcFrameHdr(out, 0x70, 36+12, 0x11223344, 0, 0, 0) && len(out) == 60+12 && vcLE(out, 42, 2) == 16+12 &&
		vcBytesEq(out[46:60], []byte{0x4D, 3, 0x91, 3, 't', 'a', 'g', 0, 0xA0, 2, byte(crc), byte(crc >> 8), 1, 0}))
	vcEnsures("the request carries every field", vcLE(out, 60, 4) == uint64(uint32(a)) && vcLE(out, 64, 2) == uint64(uint16(b)) && out[66] == bits && vcLE(out, 68, 4) == uint64(math.Float32bits(e)))
}

func VC_C08_struct_reply(a []byte, d []byte, status uint32) {
	vcRequires(len(a) <= 30000)
	vcRequires(len(d) <= 30000)
	cl, c := vcReplyClient(0x70, vcItems(a, d))
	c.in[8], c.in[9], c.in[10], c.in[11] = byte(status), byte(status>>8), byte(status>>16), byte(status>>24)
	err := cl.Write("tag", VcRec{})
	vcEnsures("success is reported exactly when the reply reports success", (err == nil) == (status == 0 && len(d) >= 6 && d[4] == 0))
}

// the checksum of a structure type: CRC 16 with the reversed polynomial 0x8005
func vcCRC(b []byte) uint16 {
	crc := uint16(0)
	for _, x := range b {
		crc ^= uint16(x)
		for k := 0; k < 8; k++ {
			if crc&1 != 0 {
				crc = crc>>1 ^ 0xA001
			} else {
				crc >>= 1
			}
		}
	}
	return crc
}

type VcTwo struct {
	A int16 `gologix:"tag"`
	B int32 `gologix:"bit"`
}

func VC_C08_multi(v int16, w int32) {
	cl, c := vcReplyClient(0x70, vcItems([]byte{0, 0, 0, 0}, []byte{0, 0, 0x8A, 0, 0, 0, 2, 0, 6, 0, 10, 0, 0xCD, 0, 0, 0, 0xCD, 0, 0, 0}))
	cl.Controller.Path = nil
	err := cl.WriteMulti(VcTwo{v, w})
	vcEnsures("an accepted batch succeeds", err == nil)
	vcEnsures("one request is sent", c.nwr == 1)
	vcTwoSent(c.out, v, w)
}

func vcTwoSent(out []byte, v int16, w int32) {
	vcEnsures("the request has two parts", len(out) == 46+6+2+4+(8+4+2)+(8+4+4) && vcLE(out, 52, 2) == 2)
	p, q := 52+int(vcLE(out, 54, 2)), 52+int(vcLE(out, 56, 2))
	vcEnsures("the parts lie in the request", p == 58 && (q == 72 || q == 74))
	if q == 74 {
		p, q = q, p
	}
	vcEnsures("each part carries its tag, type, count and value", vcBytesEq(out[p:p+12], []byte{0x4D, 3, 0x91, 3, 't', 'a', 'g', 0, byte(CIPTypeINT), 0, 1, 0}) &&
		vcLE(out, p+12, 2) == uint64(uint16(v)) && vcBytesEq(out[q:q+12], []byte{0x4D, 3, 0x91, 3, 'b', 'i', 't', 0, byte(CIPTypeDINT), 0, 1, 0}) && vcLE(out, q+12, 4) == uint64(uint32(w)))
}

// VcKinds has a field of each kind a structure can have, VcKindsIn one of another structure
type VcKinds struct {
	A int8
	B int16
	C int32
	D int64
	E uint16
	F uint32
	G uint64
	H float32
	I float64
	K bool
	L [3]int16
	M VcKindsIn
	N [2]VcKindsIn
	O lgxtypes.TIMER
}
type VcKindsIn struct {
	P bool
	Q bool
	R bool
	S bool
	T bool
	U bool
	V bool
	W bool
	X bool
	Y int32
	Z bool
}

// the name of a structure's type lists the types of its fields, booleans by the bytes they share;
// the checksum is the name's
func VC_C08_type_name(t VcKindsIn) {
	name, crc, err := TypeEncode(t)
	want := "VcKindsIn,SINT,SINT,DINT,SINT"
	vcEnsures("the type is named after its fields", err == nil && name == want && crc == vcCRC([]byte(want)))
}

// those the controller knows have names and checksums of their own
//
//vc:unroll 100
func VC_C08_type_known(v int32, b bool) {
	name, crc, err := TypeEncode(lgxtypes.TIMER{PRE: v, DN: b})
	vcEnsures("a timer", err == nil && name == "TIMER,DINT,DINT,DINT" && crc == 0x0F83)
	name, crc, err = TypeEncode(lgxtypes.COUNTER{PRE: v, DN: b})
	vcEnsures("a counter", err == nil && name == "COUNTER,DINT,DINT,DINT" && crc == 0x0F82)
	name, crc, err = TypeEncode(lgxtypes.CONTROL{LEN: v, DN: b})
	vcEnsures("a control", err == nil && name == "CONTROL,DINT,DINT,DINT" && crc == 0x0F81)
	name, crc, err = TypeEncode(lgxtypes.STRING{Len: v})
	vcEnsures("a string", err == nil && name == "STRING,DINT,SINT[82]" && crc == 0x0FCE)
}

//vc:unroll 100
func VC_C08_type_kinds(t VcKinds) {
	name, _, err := TypeEncode(t)
	in := "VcKindsIn,SINT,SINT,DINT,SINT"
	vcEnsures("the type is named after its fields", err == nil && name == "VcKinds,SINT,INT,DINT,LINT,UINT,UDINT,ULINT,REAL,LREAL,SINT,INT[3],"+in+","+in+"[2],TIMER,DINT,DINT,DINT")
}

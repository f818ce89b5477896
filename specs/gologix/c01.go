package gologix

import (
	"bytes"
	"strconv"
)

// C01: logical segments and path building.

// the reference encoding of a logical segment whose 8 bit form has type byte t.
func vcSegEq(b []byte, t byte, v uint32) bool {
	if v < 0x100 {
		return len(b) == 2 && b[0] == t && b[1] == byte(v)
	}
	if v < 0x10000 {
		return len(b) == 4 && b[0] == t+1 && b[1] == 0 && b[2] == byte(v) && b[3] == byte(v>>8)
	}
	return len(b) == 6 && b[0] == t+2 && b[1] == 0 && b[2] == byte(v) && b[3] == byte(v>>8) && b[4] == byte(v>>16) && b[5] == byte(v>>24)
}

func VC_C01_class(v uint16) {
	b := CIPClass(v).Bytes()
	vcEnsures("class segment is the shortest logical segment for the value", vcSegEq(b, 0x20, uint32(v)))
	vcEnsures("length agrees with the encoding", CIPClass(v).Len() == len(b))
}

func VC_C01_attribute(v uint16) {
	b := CIPAttribute(v).Bytes()
	vcEnsures("attribute segment is the shortest logical segment for the value", vcSegEq(b, 0x30, uint32(v)))
	vcEnsures("length agrees with the encoding", CIPAttribute(v).Len() == len(b))
}

func VC_C01_instance(v uint32) {
	b := CIPInstance(v).Bytes()
	vcEnsures("instance segment is the shortest logical segment for the value", vcSegEq(b, 0x24, v))
	vcEnsures("length agrees with the encoding", CIPInstance(v).Len() == len(b))
}

func VC_C01_element(v uint32) {
	b := CIPElement(v).Bytes()
	vcEnsures("element segment is the shortest logical segment for the value", vcSegEq(b, 0x28, v))
	vcEnsures("length agrees with the encoding", CIPElement(v).Len() == len(b))
}

// a segment written at the front of any data is read back, consuming exactly itself
func VC_C01_class_roundtrip(v uint16, rest []byte) {
	var got CIPClass
	it := CIPItem{Data: append(CIPClass(v).Bytes(), rest...)}
	err := got.Read(&it)
	vcEnsures("segment reads back without error", err == nil)
	vcEnsures("value reads back", got == CIPClass(v))
	vcEnsures("exactly the segment is consumed", it.Pos == CIPClass(v).Len())
}

func VC_C01_class_roundtrip_buf(v uint16, rest []byte) {
	var got CIPClass
	r := bytes.NewBuffer(append(CIPClass(v).Bytes(), rest...))
	err := got.Read(r)
	vcEnsures("segment reads back without error", err == nil)
	vcEnsures("value reads back", got == CIPClass(v))
	vcEnsures("exactly the segment is consumed", r.Len() == len(rest))
}

func VC_C01_instance_roundtrip(v uint32, rest []byte) {
	var got CIPInstance
	it := CIPItem{Data: append(CIPInstance(v).Bytes(), rest...)}
	err := got.Read(&it)
	vcEnsures("segment reads back without error", err == nil)
	vcEnsures("value reads back", got == CIPInstance(v))
	vcEnsures("exactly the segment is consumed", it.Pos == CIPInstance(v).Len())
}

func VC_C01_attribute_roundtrip(v uint16, rest []byte) {
	var got CIPAttribute
	it := CIPItem{Data: append(CIPAttribute(v).Bytes(), rest...)}
	err := got.Read(&it)
	vcEnsures("segment reads back without error", err == nil)
	vcEnsures("value reads back", got == CIPAttribute(v))
	vcEnsures("exactly the segment is consumed", it.Pos == CIPAttribute(v).Len())
}

// decoding arbitrary bytes: either an error, or a value whose segment is what was consumed (any width)
func vcSegDecoded(data []byte, t byte, v uint32, used int) bool {
	if used == 2 {
		return len(data) >= 2 && data[0] == t && v == uint32(data[1])
	}
	if used == 4 {
		return len(data) >= 4 && data[0] == t+1 && v == uint32(data[2])|uint32(data[3])<<8
	}
	return used == 6 && len(data) >= 6 && data[0] == t+2 && v == uint32(data[2])|uint32(data[3])<<8|uint32(data[4])<<16|uint32(data[5])<<24
}

// whether data starts with a complete segment of the type, with a format no wider than maxFmt (0: 8 bit, 1: 16 bit, 2: 32 bit)
func vcSegWhole(data []byte, t byte, maxFmt byte) bool {
	if len(data) == 0 {
		return false
	}
	if data[0] == t {
		return len(data) >= 2
	}
	if data[0] == t+1 && maxFmt >= 1 {
		return len(data) >= 4
	}
	return data[0] == t+2 && maxFmt >= 2 && len(data) >= 6
}

func VC_C01_class_decode(data []byte) {
	var got CIPClass
	it := CIPItem{Data: data}
	err := got.Read(&it)
	vcEnsures("decodes exactly when a whole class segment is present", (err == nil) == vcSegWhole(data, 0x20, 1))
	vcEnsures("decoded value is the one encoded", err != nil || vcSegDecoded(data, 0x20, uint32(got), it.Pos))
}

func VC_C01_attribute_decode(data []byte) {
	var got CIPAttribute
	it := CIPItem{Data: data}
	err := got.Read(&it)
	vcEnsures("decodes exactly when a whole attribute segment is present", (err == nil) == vcSegWhole(data, 0x30, 1))
	vcEnsures("decoded value is the one encoded", err != nil || vcSegDecoded(data, 0x30, uint32(got), it.Pos))
}

func VC_C01_instance_decode(data []byte) {
	var got CIPInstance
	it := CIPItem{Data: data}
	err := got.Read(&it)
	vcEnsures("decodes exactly when a whole instance segment is present", (err == nil) == vcSegWhole(data, 0x24, 2))
	vcEnsures("decoded value is the one encoded", err != nil || vcSegDecoded(data, 0x24, uint32(got), it.Pos))
}

// ---- PathBuilder: each method appends its segment to whatever is there

func vcExtends(before, after, seg []byte) bool {
	if len(after) != len(before)+len(seg) {
		return false
	}
	return vcBytesEq(after[:len(before)], before) && vcBytesEq(after[len(before):], seg)
}

func vcPB(prefix []byte) *PathBuilder {
	return NewPathBuilder().Custom(prefix)
}

func VC_C01_build_custom(prefix, raw []byte) {
	pb := vcPB(prefix)
	vcEnsures("custom bytes start the path", vcBytesEq(pb.Bytes(), prefix))
	r := pb.Custom(raw)
	vcEnsures("builder returns itself", r == pb)
	vcEnsures("custom bytes are appended", pb.Err == nil && vcExtends(prefix, pb.Bytes(), raw))
}
func VC_C01_build_class(prefix []byte, v uint16) {
	pb := vcPB(prefix)
	r := pb.Class(CIPClass(v))
	b := pb.Bytes()
	vcEnsures("builder returns itself", r == pb)
	vcEnsures("earlier path kept", pb.Err == nil && len(b) >= len(prefix) && vcBytesEq(b[:len(prefix)], prefix))
	vcEnsures("class segment appended", vcSegEq(b[len(prefix):], 0x20, uint32(v)))
}
func VC_C01_build_instance(prefix []byte, v uint32) {
	pb := vcPB(prefix)
	r := pb.Instance(CIPInstance(v))
	b := pb.Bytes()
	vcEnsures("builder returns itself", r == pb)
	vcEnsures("earlier path kept", pb.Err == nil && len(b) >= len(prefix) && vcBytesEq(b[:len(prefix)], prefix))
	vcEnsures("instance segment appended", vcSegEq(b[len(prefix):], 0x24, v))
}
func VC_C01_build_attribute(prefix []byte, v uint16) {
	pb := vcPB(prefix)
	r := pb.Attribute(CIPAttribute(v))
	b := pb.Bytes()
	vcEnsures("builder returns itself", r == pb)
	vcEnsures("earlier path kept", pb.Err == nil && len(b) >= len(prefix) && vcBytesEq(b[:len(prefix)], prefix))
	vcEnsures("attribute segment appended", vcSegEq(b[len(prefix):], 0x30, uint32(v)))
}
func VC_C01_build_element(prefix []byte, v uint32) {
	pb := vcPB(prefix)
	r := pb.Element(CIPElement(v))
	b := pb.Bytes()
	vcEnsures("builder returns itself", r == pb)
	vcEnsures("earlier path kept", pb.Err == nil && len(b) >= len(prefix) && vcBytesEq(b[:len(prefix)], prefix))
	vcEnsures("element segment appended", vcSegEq(b[len(prefix):], 0x28, v))
}
func VC_C01_build_port_slot(prefix []byte, port, addr, slot byte) {
	pb := vcPB(prefix)
	r := pb.Port(port).Address(CIPAddress(addr)).Slot(slot)
	vcEnsures("builder returns itself", r == pb)
	vcEnsures("port, address and slot are one byte each", pb.Err == nil && vcExtends(prefix, pb.Bytes(), []byte{port, addr, slot}))
}
func VC_C01_build_sticky(prefix []byte, v uint32, raw []byte, sym string, path string) {
	pb := vcPB(prefix)
	e := errVC
	pb.Err = e
	r := pb.Class(CIPClass(v)).Instance(CIPInstance(v)).Attribute(CIPAttribute(v)).Element(CIPElement(v)).Port(byte(v)).Address(CIPAddress(v)).Slot(byte(v)).Custom(raw).Symbolic(sym).Parse(path)
	vcEnsures("builder returns itself", r == pb)
	vcEnsures("after an error nothing is appended", vcBytesEq(pb.Bytes(), prefix))
	vcEnsures("the first error is kept", pb.Err == e)
}

// ---- a path in text form: numbers and addresses separated by commas

func vcPathNo(v int) bool { return v >= 0 && v <= 255 }

func VC_C01_parse(prefix []byte, a, b, form int) {
	vcRequires(form >= 0 && form <= 3)
	t := strconv.Itoa(a)
	want := []byte{byte(a)}
	good := vcPathNo(a)
	if form > 0 {
		t += "," + strconv.Itoa(b)
		want = append(want, byte(b))
		good = good && vcPathNo(b)
	}
	if form == 2 {
		t = "[" + t + "]"
	}
	if form == 3 {
		t = strconv.Itoa(a) + ", " + strconv.Itoa(b) + " "
	}
	pb := vcPB(prefix).Parse(t)
	vcEnsures("a path of bytes is accepted, another is an error", (pb.Err == nil) == good)
	if good {
		vcEnsures("every number is one byte", vcExtends(prefix, pb.Bytes(), want))
	} else {
		vcEnsures("a refused path appends nothing", vcBytesEq(pb.b.Bytes(), prefix))
	}
}

func VC_C01_parse_address(prefix []byte, a, b, w, x, y, z int) {
	vcRequires(vcPathNo(a) && vcPathNo(b))
	vcRequires(vcPathNo(w) && vcPathNo(x))
	vcRequires(vcPathNo(y) && vcPathNo(z))
	ip := strconv.Itoa(w) + "." + strconv.Itoa(x) + "." + strconv.Itoa(y) + "." + strconv.Itoa(z)
	pb := vcPB(prefix).Parse(strconv.Itoa(a) + "," + ip + "," + strconv.Itoa(b))
	want := append([]byte{byte(a) | 0x10, byte(len(ip))}, ip...)
	if len(ip)%2 == 1 {
		want = append(want, 0)
	}
	vcEnsures("an address is the text with its length, in whole words, marked in the port", pb.Err == nil && vcExtends(prefix, pb.Bytes(), append(want, byte(b))))
}

func VC_C01_parse_no_port(w, x int) {
	_, err := ParsePath(strconv.Itoa(w) + "." + strconv.Itoa(x))
	vcEnsures("an address needs a port before it", err != nil)
}

func VC_C01_parse_empty(prefix []byte) {
	pb := vcPB(prefix).Parse("")
	vcEnsures("an empty path appends nothing", pb.Err == nil && vcBytesEq(pb.Bytes(), prefix))
}

func VC_C01_parse_text(a int, s string) {
	vcRequires(len(s) == 1)
	vcRequires(s[0] < '0' || s[0] > '9')
	vcRequires(s[0] != ' ' && s[0] != '[' && s[0] != ']' && s[0] != '.' && s[0] != ',')
	_, err := ParsePath(strconv.Itoa(a) + "," + s)
	vcEnsures("what is no number is an error", err != nil)
}

func VC_C01_port(n, ext byte, a byte) {
	p := CIPPort{PortNo: n, ExtensionLen: ext}
	b := p.Bytes()
	vcEnsures("a port is its number, and the length of its extended address", b[0] == n && (ext == 0 && len(b) == 1 || ext != 0 && len(b) == 2 && b[1] == ext))
	vcEnsures("a port reports its length", p.Len() == len(b))
	vcEnsures("an address is one byte and reports it", vcBytesEq(CIPAddress(a).Bytes(), []byte{a}) && CIPAddress(a).Len() == 1)
}

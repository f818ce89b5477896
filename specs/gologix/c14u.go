package gologix

import (
	"bytes"
	"math"
)

// C14: the replies to requests made without a connection.

// vcSend is the data of an unconnected send of a request, up to the request's service
func vcSend(t [4]byte, svc byte) []byte {
	return []byte{0x52, 2, 0x20, 6, 0x24, 1, t[0], t[1], t[2], t[3], svc}
}

//vc:props C12,C14
func VC_C14_u_read(e vcEnv, t [4]byte, d []byte, fail bool, v int32, tag string) {
	vcRequires(len(d) <= 60000)
	vcPathTag, vcPathOK = tag, false
	p := &vcPoint{val: v, fail: fail}
	out, _, err := vcUnconnected(e, p, append(vcSend(t, 0x4C), d...))
	if len(out) == 0 {
		vcEnsures("a request without an answer ends the connection", err != nil)
		return
	}
	vcEnsures("the reply is to the request", err == nil && vcUnconnHdr(out, e, 0x4C) && out[42] == 0 && out[43] == 0)
	vcEnsures("a reply with status zero was performed", p.reads == 1 && !p.fail)
	n := 1 + 2*int(d[0])
	vcEnsures("of the tag asked for", p.tag == tag && len(d) >= n+6)
	vcEnsures("as many elements as asked for", uint64(uint16(p.qty)) == vcLE(d, n, 2))
	vcEnsures("at the path asked for", vcLE(d, n+2, 2)&0x7FFF == 1 && d[n+4] == 1 && d[n+5] == 0)
	vcEnsures("the data are those of the tag", len(out) == 50 && vcLE(out, 44, 2) == uint64(CIPTypeDINT) && vcLE(out, 46, 4) == uint64(uint32(v)))
}

//vc:props C12,C14
func VC_C14_u_write(e vcEnv, t [4]byte, d []byte, fail bool, a, b int16, n int, tag string) {
	vcRequires(len(d) <= 60000)
	vcPathTag, vcPathOK = tag, false
	vcWritten[0], vcWritten[1], vcWrittenN = a, b, n
	p := &vcPoint{fail: fail}
	out, _, err := vcUnconnected(e, p, append(vcSend(t, 0x4D), d...))
	if len(out) == 0 {
		vcEnsures("a request without an answer ends the connection", err != nil)
		return
	}
	vcEnsures("the reply is to the request", err == nil && vcUnconnHdr(out, e, 0x4D) && out[42] == 0 && out[43] == 0 && len(out) == 44)
	vcEnsures("a reply with status zero was performed", p.writes == 1 && !p.fail && n > 0)
	vcEnsures("on the tag asked for", p.tag == tag)
	x, one := p.value.(int16)
	y, many := p.value.([]any)
	vcEnsures("with the values sent", n == 1 && one && x == a || n > 1 && many && len(y) == n && y[0] == any(a) && y[1] == any(b))
}

func vcGetAttr(e vcEnv, req, d []byte) {
	p := &vcPoint{}
	out, _, err := vcUnconnected(e, p, append(req, d...))
	if len(out) == 0 {
		vcEnsures("a request without an answer ends the connection", err != nil)
		return
	}
	vcEnsures("the reply is to the request", err == nil && vcUnconnHdr(out, e, 0x0E) && out[43] == 0)
	if out[42] != 0 {
		vcEnsures("a refused request gives no data", len(out) == 44)
		return
	}
	vcEnsures("an attribute asked for is given", len(d) >= 7 && d[0] == 3)
	if d[1] != 0x20 || d[3] != 0x24 || d[5] != 0x30 {
		return // the longer forms
	}
	vcEnsures("of the identity object", d[2] == 1 && d[4] == 1)
	if d[6] <= 5 {
		vcEnsures("its value is the attribute's", len(out) == 48 && vcLE(out, 44, 2) == uint64(CIPTypeINT) && vcLE(out, 46, 2) == uint64(d[6]))
	} else if d[6] == 6 {
		vcEnsures("its value is the serial number", len(out) == 50 && vcLE(out, 44, 2) == uint64(CIPTypeUDINT) && vcLE(out, 46, 4) == 6)
	} else {
		vcEnsures("its value is the name", d[6] == 7)
	}
}

//vc:props C12,C14
func VC_C14_u_getattr(e vcEnv, d []byte) {
	vcGetAttr(e, []byte{0x0E}, d)
}

//vc:props C12,C14
func VC_C14_u_getattr_sent(e vcEnv, t [4]byte, d []byte) {
	vcRequires(len(d) <= 60000)
	vcGetAttr(e, vcSend(t, 0x0E), d)
}

// an endpoint without a list of tags has no attributes to set
//
//vc:props C12,C14
func VC_C14_u_setattr(e vcEnv, sent bool, t [4]byte, d []byte) {
	vcRequires(len(d) <= 60000)
	req := []byte{0x10}
	if sent {
		req = vcSend(t, 0x10)
	}
	p := &vcPoint{}
	out, _, err := vcUnconnected(e, p, append(req, d...))
	vcEnsures("nothing is written", p.writes == 0)
	if len(out) == 0 {
		vcEnsures("a request without an answer ends the connection", err != nil)
		return
	}
	vcEnsures("a request that wasn't performed is refused", err == nil && vcUnconnHdr(out, e, 0x10) && out[42] != 0 && len(out) == 44)
}

//vc:props C12,C14
func VC_C14_u_getall(e vcEnv, sent bool, t [4]byte, d []byte) {
	vcRequires(len(d) <= 60000)
	req := []byte{0x01}
	if sent {
		req = vcSend(t, 0x01)
	}
	out, _, err := vcUnconnected(e, &vcPoint{}, append(req, d...))
	if len(out) == 0 {
		vcEnsures("a request without an answer ends the connection", err != nil)
		return
	}
	vcEnsures("the reply is to the request", err == nil && vcUnconnHdr(out, e, 0x01) && out[43] == 0)
	if out[42] != 0 {
		vcEnsures("a refused request gives no data", len(out) == 44)
		return
	}
	vcEnsures("only what exists is given", len(out) == 44+17 && vcLE(out, 44, 2) == 1 && vcLE(out, 54, 4) == 6 && out[60] == 'b' || len(out) == 44+3 && out[44] == 2 && out[45] == 'a' && out[46] == 'b')
}

//vc:props C12,C14
//vc:verify (*gologix.serverTCPHandler).unconnectedData
func VC_C14_u_unsupported(e vcEnv, svc byte, d []byte) {
	vcRequires(svc != 0x54 && svc != 0x5B && svc != 0x4E && svc != 0x01 && svc != 0x0E && svc != 0x10 && svc != 0x52)
	p := &vcPoint{}
	out, _, err := vcUnconnected(e, p, append([]byte{svc}, d...))
	vcEnsures("an unsupported service is refused", err == nil && len(out) == 44 && vcUnconnHdr(out, e, svc) && out[42] == byte(CIPStatus_ServiceNotSupported))
	vcEnsures("and not performed", p.reads == 0 && p.writes == 0)
}

//vc:props C12,C14
func VC_C14_u_unsupported_sent(e vcEnv, t [4]byte, svc byte, d []byte) {
	vcRequires(svc != 0x4C && svc != 0x4D && svc != 0x01 && svc != 0x0E && svc != 0x10)
	vcRequires(len(d) <= 60000)
	p := &vcPoint{}
	out, _, err := vcUnconnected(e, p, append(vcSend(t, svc), d...))
	vcEnsures("an unsupported service is refused", err == nil && len(out) == 44 && vcUnconnHdr(out, e, svc) && out[42] == byte(CIPStatus_ServiceNotSupported))
	vcEnsures("and not performed", p.reads == 0 && p.writes == 0)
}

// a session is registered with the handle asked for
//
//vc:verify (*gologix.serverTCPHandler).registerSession
//vc:props C12,C14
func VC_C14_register(context uint64, options, session uint32, d []byte) {
	vcRequires(len(d) <= 65535)
	conn := &vcConn{}
	h := vcSrv(conn, 0, context, 0, vcAttrs(1, 2, 3, 4, 5, 6, "ab"))
	err := h.registerSession(eipHeader{SessionHandle: session, Options: options}, bytes.NewReader(d))
	if len(d) < 4 {
		vcEnsures("a cut request is an error", err != nil && len(conn.out) == 0)
		return
	}
	vcEnsures("the reply is to the request", err == nil && len(conn.out) == 28 && vcFrameHdr(conn.out, 0x65, 4, h.handle, 0, context, options) && vcBytesEq(conn.out[24:28], d[:4]))
	vcEnsures("the session is the one asked for", session == 0 || h.handle == session)
}

// what is in one written value of each type
//
//vc:props C12,C14
func VC_C12_value(d [8]byte) {
	one := func(t CIPType) (any, bool) {
		item := &CIPItem{Data: append([]byte{byte(t), 0, 1, 0}, d[:]...)}
		v, err := parseWriteValues(item)
		if err != nil || len(v) != 1 {
			return nil, false
		}
		return v[0], true
	}
	b := d[:]
	v, ok := one(CIPTypeBOOL)
	vcEnsures("BOOL", ok && v == any(d[0] != 0))
	v, ok = one(CIPTypeSINT)
	vcEnsures("SINT", ok && v == any(int8(d[0])))
	v, ok = one(CIPTypeUSINT)
	vcEnsures("USINT", ok && v == any(d[0]))
	v, ok = one(CIPTypeBYTE)
	vcEnsures("BYTE", ok && v == any(d[0]))
	v, ok = one(CIPTypeINT)
	vcEnsures("INT", ok && v == any(int16(vcLE(b, 0, 2))))
	v, ok = one(CIPTypeUINT)
	vcEnsures("UINT", ok && v == any(uint16(vcLE(b, 0, 2))))
	v, ok = one(CIPTypeDINT)
	vcEnsures("DINT", ok && v == any(int32(vcLE(b, 0, 4))))
	v, ok = one(CIPTypeUDINT)
	vcEnsures("UDINT", ok && v == any(uint32(vcLE(b, 0, 4))))
	v, ok = one(CIPTypeLINT)
	vcEnsures("LINT", ok && v == any(int64(vcLE(b, 0, 8))))
	v, ok = one(CIPTypeULINT)
	vcEnsures("ULINT", ok && v == any(vcLE(b, 0, 8)))
	v, ok = one(CIPTypeREAL)
	r, is := v.(float32)
	vcEnsures("REAL", ok && is && uint64(math.Float32bits(r)) == vcLE(b, 0, 4))
	v, ok = one(CIPTypeLREAL)
	l, is := v.(float64)
	vcEnsures("LREAL", ok && is && math.Float64bits(l) == vcLE(b, 0, 8))
}

// lists of values are in order
//
//vc:bounded lists of three
//vc:props C12,C14
func VC_C12_value_list(a, b, c int16) {
	item := &CIPItem{Data: []byte{byte(CIPTypeINT), 0, 3, 0, byte(a), byte(uint16(a) >> 8), byte(b), byte(uint16(b) >> 8), byte(c), byte(uint16(c) >> 8)}}
	v, err := parseWriteValues(item)
	vcEnsures("a list is read", err == nil && len(v) == 3 && item.Pos == 10)
	vcEnsures("in order", v[0] == any(a) && v[1] == any(b) && v[2] == any(c))
}

// a string is its text
//
//vc:bounded one string
//vc:props C12,C14
func VC_C12_value_string(n uint32, d [82]byte) {
	data := append([]byte{0xA0, 2, 0xCE, 0x0F, 1, 0, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}, d[:]...)
	v, err := parseWriteValues(&CIPItem{Data: data})
	vcEnsures("a string is read", err == nil && len(v) == 1)
	s, ok := v[0].(string)
	if n > 82 {
		n = 82
	}
	vcEnsures("its text is what was sent", ok && len(s) == int(n) && vcBytesEq([]byte(s), d[:n]))
}

// strings of a list are 88 bytes apart
//
//vc:bounded two strings
//vc:props C12,C14
func VC_C12_value_strings(n, m uint32, d, f [82]byte) {
	data := append([]byte{0xA0, 2, 0xCE, 0x0F, 2, 0, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}, d[:]...)
	data = append(data, 0, 0, byte(m), byte(m>>8), byte(m>>16), byte(m>>24))
	data = append(append(data, f[:]...), 0, 0)
	item := &CIPItem{Data: data}
	v, err := parseWriteValues(item)
	vcEnsures("strings are read", err == nil && len(v) == 2 && item.Pos == len(data))
	s, ok := v[0].(string)
	r, ok2 := v[1].(string)
	if n > 82 {
		n = 82
	}
	if m > 82 {
		m = 82
	}
	vcEnsures("the first is what was sent", ok && len(s) == int(n) && vcBytesEq([]byte(s), d[:n]))
	vcEnsures("the second is what was sent", ok2 && len(r) == int(m) && vcBytesEq([]byte(r), f[:m]))
}

// vcLister is an endpoint with three tags, listed in no order
type vcLister struct {
	vcPoint
	tags []ServerTagInfo
}

func (p *vcLister) TagList() []ServerTagInfo { return p.tags }

func vcTags() *vcLister {
	return &vcLister{tags: []ServerTagInfo{{Name: "M", Type: CIPTypeDINT}, {Name: "b", Type: CIPTypeINT}, {Name: "z", Type: CIPTypeREAL}}}
}

// the attributes of class C8 are the tags, numbered by their names
//
//vc:props C12,C14
//vc:verify (*gologix.serverTCPHandler).resolveSymbolicTagFromCustomClass
func VC_C14_u_tag_attr(e vcEnv, sent bool, t [4]byte, inst, attr byte, v int32, fail bool) {
	p := vcTags()
	p.val, p.fail = v, fail
	req := []byte{0x0E}
	if sent {
		req = vcSend(t, 0x0E)
	}
	out, _, err := vcUnconnected(e, p, append(req, 3, 0x20, 0xC8, 0x24, inst, 0x30, attr))
	vcEnsures("the reply is to the request", err == nil && len(out) >= 44 && vcUnconnHdr(out, e, 0x0E) && out[43] == 0)
	vcEnsures("there are as many as tags", inst >= 1 && inst <= 3 || out[42] == byte(CIPStatus_PathDestinationUnknown))
	vcEnsures("a tag has one attribute", attr == 1 || out[42] != 0)
	vcEnsures("an attribute there is is read", inst < 1 || inst > 3 || attr != 1 || (p.reads == 1 && p.qty == 1 && (out[42] == 0) == !fail))
	if out[42] != 0 {
		vcEnsures("a refused request gives no data", len(out) == 44)
		return
	}
	vcEnsures("of the tag", p.tag == "M" && inst == 1 || p.tag == "b" && inst == 2 || p.tag == "z" && inst == 3)
	vcEnsures("its value is the tag's", len(out) == 50 && vcLE(out, 44, 2) == uint64(CIPTypeDINT) && vcLE(out, 46, 4) == uint64(uint32(v)))
}

// setting one writes the tag
//
//vc:props C12,C14
func VC_C14_u_tag_set(e vcEnv, sent bool, t [4]byte, inst, attr byte, a, b int16, n int, fail bool, d []byte) {
	vcRequires(len(d) <= 60000)
	vcWritten[0], vcWritten[1], vcWrittenN = a, b, n
	p := vcTags()
	p.fail = fail
	req := []byte{0x10}
	if sent {
		req = vcSend(t, 0x10)
	}
	out, _, err := vcUnconnected(e, p, append(append(req, 3, 0x20, 0xC8, 0x24, inst, 0x30, attr), d...))
	ok := inst >= 1 && inst <= 3 && attr == 1
	if err != nil {
		vcEnsures("only a request that can't be read ends the connection", ok && p.writes == 0)
		return
	}
	vcEnsures("the reply is to the request", len(out) == 44 && vcUnconnHdr(out, e, 0x10) && out[43] == 0)
	vcEnsures("it has status zero exactly when the tag was written", (out[42] == 0) == (p.writes == 1 && !fail))
	vcEnsures("an attribute there is is written", (p.writes == 1) == (ok && n > 0))
	if p.writes == 1 {
		vcEnsures("of the tag", p.tag == "M" && inst == 1 || p.tag == "b" && inst == 2 || p.tag == "z" && inst == 3)
		x, one := p.value.(int16)
		y, many := p.value.([]any)
		vcEnsures("with the values sent", n == 1 && one && x == a || n > 1 && many && len(y) == n && y[0] == any(a) && y[1] == any(b))
	}
}

package gologix

import (
	"bytes"
	"errors"
	"log/slog"
)

// C14: the replies of a server. C12: no request crashes it.

var errVCPoint = errors.New("vc: endpoint failed")

// vcPoint is an endpoint that gives val for every read, or fails, and keeps what it was asked for
type vcPoint struct {
	val           any
	fail          bool
	reads, writes int
	tag           string
	qty           int16
	value         any
}

func (p *vcPoint) TagRead(tag string, qty int16) (any, error) {
	p.reads++
	p.tag, p.qty = tag, qty
	if p.fail {
		return nil, errVCPoint
	}
	return p.val, nil
}
func (p *vcPoint) TagWrite(tag string, value any) error {
	p.writes++
	p.tag, p.value = tag, value
	if p.fail {
		return errVCPoint
	}
	return nil
}
func (p *vcPoint) IORead() ([]byte, error)       { return nil, errVCPoint }
func (p *vcPoint) IOWrite(items []CIPItem) error { return errVCPoint }

// what the contracts below say of the server they talk to
type vcEnv struct {
	session, options uint32
	context          uint64
	ot, to           uint32 // of the connection the request is made on
	ot2, to2         uint32 // of another one, opened later
	seq              uint16
}

// vcHandler is a handler of a connection to a server with two connections open, both routed to p
func vcHandler(c *vcConn, e vcEnv, p CIPEndpoint) *serverTCPHandler {
	h := vcSrv(c, e.session, e.context, e.options, vcAttrs(1, 2, 3, 4, 5, 6, "ab"))
	h.server.ConnMgr.Init(slog.Default())
	h.server.Router.Handle([]byte{1, 0}, p)
	h.server.ConnMgr.Add(&serverConnection{ID: 7, OT: e.ot, TO: e.to, Path: []byte{1, 0}, Open: true})
	h.server.ConnMgr.Add(&serverConnection{ID: 8, OT: e.ot2, TO: e.to2, Path: []byte{1, 0}, Open: true})
	h.OTConnectionID, h.TOConnectionID = e.ot2, e.to2
	return h
}

// vcUnit is the data of a request made on a connection
func vcUnit(ot uint32, seq uint16, d []byte) []byte {
	n := len(d) + 2
	b := []byte{0, 0, 0, 0, 0, 0, 2, 0, 0xA1, 0, 4, 0, byte(ot), byte(ot >> 8), byte(ot >> 16), byte(ot >> 24), 0xB1, 0, byte(n), byte(n >> 8), byte(seq), byte(seq >> 8)}
	return append(b, d...)
}

// vcUnconn is the data of a request made without a connection
func vcUnconn(d []byte) []byte {
	n := len(d)
	b := []byte{0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0xB2, 0, byte(n), byte(n >> 8)}
	return append(b, d...)
}

// vcReplyHdr: out is one frame that answers a request of service svc made on the connection
func vcReplyHdr(out []byte, e vcEnv, svc byte) bool {
	n := len(out)
	return n >= 50 && vcFrameHdr(out, 0x70, n-24, e.session, 0, e.context, e.options) &&
		vcLE(out, 24, 8) == 0x0002000000000000 && vcLE(out, 32, 4) == 0x000400A1 && vcLE(out, 36, 4) == uint64(e.to) &&
		vcLE(out, 40, 2) == 0xB1 && int(vcLE(out, 42, 2)) == n-44 && vcLE(out, 44, 2) == uint64(e.seq) && out[46] == svc|0x80 && out[47] == 0
}

// vcUnconnHdr: out is one frame that answers a request of service svc made without a connection
func vcUnconnHdr(out []byte, e vcEnv, svc byte) bool {
	n := len(out)
	return n >= 44 && vcFrameHdr(out, 0x6F, n-24, e.session, 0, e.context, e.options) &&
		vcLE(out, 24, 8) == 0x0002000000000000 && vcLE(out, 32, 4) == 0 &&
		vcLE(out, 36, 2) == 0xB2 && int(vcLE(out, 38, 2)) == n-40 && out[40] == svc|0x80 && out[41] == 0
}

// the tag path of a request: a name, or an error
var vcPathTag string

// set where the path is known to be good
var vcPathOK bool

// readTagPath, as the handlers may rely on it: it reads the words announced or fails
//
//vc:spec gologix.readTagPath
//vc:for VC_C14*
func vcSpecReadTagPath(item *CIPItem, words byte) (string, error) {
	if int(words)*2 > len(item.Data)-item.Pos || !vcPathOK && vcAny() {
		return "", errVC
	}
	item.Pos += int(words) * 2
	return vcPathTag, nil
}

//vc:verify (*gologix.serverTCPHandler).connectedRead
func VC_C14_read(e vcEnv, frag bool, d []byte, fail bool, v int32, tag string) {
	vcRequires(len(d) <= 65000)
	vcRequires(e.ot != e.ot2)
	vcPathTag = tag
	conn := &vcConn{}
	p := &vcPoint{val: v, fail: fail}
	h := vcHandler(conn, e, p)
	svc := byte(0x4C)
	if frag {
		svc = 0x52
	}
	err := h.sendUnitData(eipHeader{}, bytes.NewReader(vcUnit(e.ot, e.seq, append([]byte{svc}, d...))))
	vcEnsures("a request without an answer ends the connection", err != nil || len(conn.out) != 0)
	if len(conn.out) == 0 {
		return
	}
	vcEnsures("the reply is to the request", vcReplyHdr(conn.out, e, svc))
	if conn.out[48] != 0 {
		vcEnsures("a refused read gives no data", len(conn.out) == 50)
		vcEnsures("a performed read is not refused", p.reads == 0 || p.fail)
		return
	}
	vcEnsures("a reply with status zero was performed", p.reads == 1 && !p.fail && err == nil)
	vcEnsures("of the tag asked for", p.tag == tag)
	vcEnsures("as many elements as asked for", len(d) >= 3+2*int(d[0]) && uint64(uint16(p.qty)) == vcLE(d, 1+2*int(d[0]), 2))
	vcEnsures("the data are those of the tag", len(conn.out) == 56 && conn.out[49] == 0 && vcLE(conn.out, 50, 2) == uint64(CIPTypeDINT) && vcLE(conn.out, 52, 4) == uint64(uint32(v)))
}

// the values of a write request, as the handlers may rely on them: some values, or an error
var vcWritten [2]int16
var vcWrittenN int

//vc:spec gologix.parseWriteValues
//vc:for VC_C14*
func vcSpecParseWriteValues(item *CIPItem) ([]any, error) {
	if vcAny() {
		return nil, errVC
	}
	vcRequires(vcWrittenN >= 0)
	vcRequires(vcWrittenN <= 65535)
	r := make([]any, vcWrittenN)
	if vcWrittenN > 0 {
		r[0] = vcWritten[0]
	}
	if vcWrittenN > 1 {
		r[1] = vcWritten[1]
	}
	return r, nil
}

// vcConnected sends a connected request
func vcConnected(e vcEnv, p CIPEndpoint, svc byte, d []byte) ([]byte, error) {
	vcRequires(len(d) <= 65000)
	vcRequires(e.ot != e.ot2)
	conn := &vcConn{}
	h := vcHandler(conn, e, p)
	err := h.sendUnitData(eipHeader{}, bytes.NewReader(vcUnit(e.ot, e.seq, append([]byte{svc}, d...))))
	return conn.out, err
}

// vcUnconnected sends a request without a connection
func vcUnconnected(e vcEnv, p CIPEndpoint, d []byte) ([]byte, *serverTCPHandler, error) {
	vcRequires(len(d) <= 65000)
	vcRequires(e.ot != e.ot2)
	conn := &vcConn{}
	h := vcHandler(conn, e, p)
	err := h.sendRRData(eipHeader{}, bytes.NewReader(vcUnconn(d)))
	return conn.out, h, err
}

func vcReadOf(e vcEnv, v any) []byte {
	vcPathOK = true
	out, err := vcConnected(e, &vcPoint{val: v}, 0x4C, []byte{0, 1, 0})
	if err != nil {
		return nil
	}
	return out
}
func vcReadScalar(out []byte, e vcEnv, t CIPType, k int, bits uint64) bool {
	return len(out) == 52+k && vcReplyHdr(out, e, 0x4C) && out[48] == 0 && out[49] == 0 && out[50] == byte(t) && out[51] == 0 && vcLE(out, 52, k) == bits
}

// a value is served with its type
func VC_C14_read_types(e vcEnv, b bool, i8 int8, u8 uint8, i16 int16, u16 uint16, i64 int64) {
	x := uint64(0)
	if b {
		x = 1
	}
	vcEnsures("BOOL", vcReadScalar(vcReadOf(e, b), e, CIPTypeBOOL, 1, x))
	vcEnsures("SINT", vcReadScalar(vcReadOf(e, i8), e, CIPTypeSINT, 1, uint64(uint8(i8))))
	vcEnsures("INT", vcReadScalar(vcReadOf(e, i16), e, CIPTypeINT, 2, uint64(uint16(i16))))
	vcEnsures("UINT", vcReadScalar(vcReadOf(e, u16), e, CIPTypeUINT, 2, uint64(u16)))
	vcEnsures("LINT", vcReadScalar(vcReadOf(e, i64), e, CIPTypeLINT, 8, uint64(i64)))
}

func VC_C14_read_string(e vcEnv, s string) {
	out := vcReadOf(e, s)
	n := len(s)
	if n > 82 {
		n = 82
	}
	vcEnsures("a string is answered", vcReplyHdr(out, e, 0x4C) && len(out) == 50+92 && out[48] == 0 && out[49] == 0)
	vcEnsures("as a string structure", vcLE(out, 50, 4) == 0x0FCE02A0)
	vcEnsures("with the length that fits", int(vcLE(out, 54, 4)) == n)
	vcEnsures("with its text", vcBytesEq(out[58:58+n], []byte(s)[:n]))
	vcEnsures("filled with zeros", vcForall(58+n, 142, func(i int) bool { return out[i] == 0 }))
}

// j is an arbitrary element
func VC_C14_read_list(e vcEnv, v []int32, j int) {
	vcRequires(len(v) <= 16000)
	vcRequires(j >= 0 && j < len(v))
	out := vcReadOf(e, v)
	vcEnsures("a list is answered", len(out) == 52+4*len(v) && vcReplyHdr(out, e, 0x4C) && out[48] == 0 && out[49] == 0)
	vcEnsures("with the type of its elements", out[50] == byte(CIPTypeDINT) && out[51] == 0)
	vcEnsures("in order", vcLE(out, 52+4*j, 4) == uint64(uint32(v[j])))
}

// an answer that does not fit a frame is not sent
func VC_C14_read_long(e vcEnv, v []int32) {
	vcRequires(len(v) <= 40000)
	vcRequires(len(v) > 16377)
	vcPathOK = true
	out, err := vcConnected(e, &vcPoint{val: v}, 0x4C, []byte{0, 1, 0})
	vcEnsures("an answer that does not fit is an error", err != nil && len(out) == 0)
}

//vc:verify (*gologix.serverTCPHandler).cipConnectedWrite
func VC_C14_write(e vcEnv, d []byte, fail bool, a, b int16, n int, tag string) {
	vcPathTag = tag
	vcWritten[0], vcWritten[1], vcWrittenN = a, b, n
	p := &vcPoint{fail: fail}
	out, err := vcConnected(e, p, 0x4D, d)
	if len(out) == 0 {
		vcEnsures("a request without an answer ends the connection", err != nil)
		return
	}
	vcEnsures("the reply is to the request", vcReplyHdr(out, e, 0x4D) && len(out) == 50)
	vcEnsures("a reply with status zero was performed", (out[48] == 0) == (p.writes == 1 && !p.fail && err == nil))
	vcEnsures("on the tag asked for", p.tag == tag)
	vcEnsures("something was sent", n > 0)
	x, one := p.value.(int16)
	y, many := p.value.([]any)
	vcEnsures("with the values sent", n == 1 && one && x == a || n > 1 && many && len(y) == n && y[0] == any(a) && y[1] == any(b))
}

// a request on a connection that isn't open
func VC_C14_no_connection(e vcEnv, d []byte, ot uint32) {
	vcRequires(len(d) <= 65000)
	vcRequires(ot != e.ot && ot != e.ot2)
	conn := &vcConn{}
	p := &vcPoint{}
	h := vcHandler(conn, e, p)
	err := h.sendUnitData(eipHeader{}, bytes.NewReader(vcUnit(ot, e.seq, d)))
	vcEnsures("a request on no open connection ends the connection", err != nil && len(conn.out) == 0)
	vcEnsures("and reaches no endpoint", p.reads == 0 && p.writes == 0)
}

func VC_C14_unsupported(e vcEnv, svc byte, d []byte) {
	vcRequires(svc != 0x4C && svc != 0x52 && svc != 0x4D && svc != 0x0A && svc != 0x0E && svc != 0x01 && svc != 0x55)
	p := &vcPoint{}
	out, err := vcConnected(e, p, svc, d)
	vcEnsures("an unsupported service is refused", err == nil && len(out) == 50 && vcReplyHdr(out, e, svc) && out[48] == byte(CIPStatus_ServiceNotSupported))
	vcEnsures("and not performed", p.reads == 0 && p.writes == 0)
}

//vc:verify (*gologix.serverTCPHandler).connectedGetAttr
func VC_C14_getattr(e vcEnv, d []byte) {
	out, err := vcConnected(e, &vcPoint{}, 0x0E, d)
	if len(out) == 0 {
		vcEnsures("a request without an answer ends the connection", err != nil)
		return
	}
	vcEnsures("the reply is to the request", vcReplyHdr(out, e, 0x0E) && out[49] == 0)
	vcEnsures("a refused request gives no data", out[48] == 0 || len(out) == 50)
	if out[48] != 0 {
		return
	}
	vcEnsures("an attribute asked for is given", err == nil && len(d) >= 7 && d[0] == 3)
	if d[1] != 0x20 || d[3] != 0x24 || d[5] != 0x30 {
		return // the longer forms
	}
	vcEnsures("of the identity object", d[2] == 1 && d[4] == 1)
	if d[6] <= 5 {
		vcEnsures("its value is the attribute's", len(out) == 52 && vcLE(out, 50, 2) == uint64(d[6]))
	} else if d[6] == 6 {
		vcEnsures("its value is the serial number", len(out) == 54 && vcLE(out, 50, 4) == 6)
	} else {
		vcEnsures("its value is the name", d[6] == 7)
	}
}

//vc:verify (*gologix.serverTCPHandler).connectedGetAttributeAll
func VC_C14_getall(e vcEnv, d []byte) {
	out, err := vcConnected(e, &vcPoint{}, 0x01, d)
	if len(out) == 0 {
		vcEnsures("a request without an answer ends the connection", err != nil)
		return
	}
	vcEnsures("the reply is to the request", vcReplyHdr(out, e, 0x01) && out[49] == 0 && err == nil)
	if out[48] != 0 {
		vcEnsures("a refused request gives no data", len(out) == 50)
		return
	}
	vcEnsures("only what exists is given", len(out) == 50+17 && vcLE(out, 50, 2) == 1 && out[66] == 'b' || len(out) == 50+3 && out[50] == 2 && out[51] == 'a' && out[52] == 'b')
}

// an endpoint without a list of tags
//
//vc:verify (*gologix.serverTCPHandler).connectedSymbolList
func VC_C14_tags_none(e vcEnv, d []byte) {
	out, err := vcConnected(e, &vcPoint{}, 0x55, d)
	vcEnsures("there are no tags to list", err == nil && len(out) == 50 && vcReplyHdr(out, e, 0x55) && out[48] == 0)
}

// vcTrace is an endpoint that keeps what it was asked for, in order
type vcTrace struct {
	val   int32
	fail  bool
	n     int
	write [3]bool
	tag   [3]string
	qty   [3]int16
	value [3]any
}

func (p *vcTrace) add(write bool, tag string, qty int16, value any) error {
	if p.n < 3 {
		p.write[p.n], p.tag[p.n], p.qty[p.n], p.value[p.n] = write, tag, qty, value
	}
	p.n++
	if p.fail {
		return errVCPoint
	}
	return nil
}
func (p *vcTrace) TagRead(tag string, qty int16) (any, error) {
	err := p.add(false, tag, qty, nil)
	return p.val, err
}
func (p *vcTrace) TagWrite(tag string, value any) error { return p.add(true, tag, 0, value) }
func (p *vcTrace) IORead() ([]byte, error)              { return nil, errVCPoint }
func (p *vcTrace) IOWrite(items []CIPItem) error        { return errVCPoint }

// the tag paths of a request of several parts: where each was read, and the name it gave
var vcPathAt [3]int
var vcPathEnd [3]int
var vcPathName [3]string
var vcPathN int

//vc:spec gologix.readTagPath
//vc:for VC_C12_multi*
func vcSpecReadTagPathAt(item *CIPItem, words byte) (string, error) {
	if int(words)*2 > len(item.Data)-item.Pos || vcAny() || vcPathN >= 3 {
		return "", errVC
	}
	k := vcPathN
	vcPathN++
	vcPathAt[k] = item.Pos
	item.Pos += int(words) * 2
	vcPathEnd[k] = item.Pos
	return vcPathName[k], nil
}

//vc:inv (*gologix.serverTCPHandler).connectedMulti#2
//vc:for VC_C12_multi_one
func vcInvMultiWrite(i int, qty uint16, item CIPItem) bool {
	return i >= 0 && i <= int(qty) && item.Pos >= 0 && item.Pos <= len(item.Data)
}

// vcMultiPart: part k of a reply, of r bytes at o in out, answers the request of service svc
// that the endpoint got as its n-th. Reads give four bytes of DINT.
func vcMultiPart(out []byte, o, r int, svc byte, p *vcTrace, n int, d []byte, at int) bool {
	if out[o] != svc|0x80 || out[o+1] != 0 || out[o+3] != 0 {
		return false
	}
	switch svc {
	case 0x4C, 0x52:
		return r == 10 && out[o+2] == 0 && out[o+4] == byte(CIPTypeDINT) && out[o+5] == 0 && vcLE(out, o+6, 4) == uint64(uint32(p.val)) &&
			!p.write[n] && p.tag[n] == vcPathName[n] && vcPathAt[n] == at+2 && uint64(uint16(p.qty[n])) == vcLE(d, vcPathEnd[n]-10, 2)
	case 0x4D, 0x53:
		return r == 4 && out[o+2] == 0 && p.write[n] && p.tag[n] == vcPathName[n] && vcPathAt[n] == at+2
	}
	return r == 4 && out[o+2] == byte(CIPStatus_ServiceNotSupported)
}
func vcReaches(svc byte) bool { return svc == 0x4C || svc == 0x52 || svc == 0x4D || svc == 0x53 }

//vc:bounded a request of one part
//vc:props C12,C14
//vc:verify (*gologix.serverTCPHandler).connectedMulti
func VC_C12_multi_one(e vcEnv, d []byte, fail bool, v int32, tag string) {
	vcRequires(len(d) <= 60000)
	vcPathN = 0
	vcPathName[0] = tag
	p := &vcTrace{val: v, fail: fail}
	// d starts 10 bytes into the data of the item, after the sequence count, the service, its path and the number of parts
	req := append([]byte{0x02, 0x20, 0x02, 0x24, 0x01, 1, 0}, d...)
	out, err := vcConnected(e, p, 0x0A, req)
	if len(out) == 0 {
		vcEnsures("a request without an answer ends the connection", err != nil)
		return
	}
	vcEnsures("the reply is to the request", vcReplyHdr(out, e, 0x0A) && len(out) >= 58 && out[48] == 0 && out[49] == 0)
	vcEnsures("it has one part", vcLE(out, 50, 2) == 1 && vcLE(out, 52, 2) == 4)
	at := 8 + int(vcLE(d, 0, 2))
	vcEnsures("the part is in the request", at-3+2 <= len(req))
	svc := req[at-3]
	vcEnsures("the part answers its request", vcMultiPart(out, 54, len(out)-54, svc, p, 0, d, at))
	want := 0
	if vcReaches(svc) {
		want = 1
	}
	vcEnsures("and was performed", err == nil && p.n == want && (want == 0 || !fail))
}

// vcMultiTwo: a and b are the two parts, at offsets 22 and 6 of the list of parts
func vcMultiTwo(e vcEnv, s1, s2 byte, a, b []byte, fail bool, v int32, t1, t2 string) *vcTrace {
	vcPathN = 0
	vcPathName[0], vcPathName[1] = t1, t2
	p := &vcTrace{val: v, fail: fail}
	d := append([]byte{0x02, 0x20, 0x02, 0x24, 0x01, 2, 0, 22, 0, 6, 0, s2, 2}, b...)
	d = append(append(d, s1, 2), a...)
	out, err := vcConnected(e, p, 0x0A, d)
	if len(out) == 0 {
		vcEnsures("a request without an answer ends the connection", err != nil)
		return nil
	}
	n := len(out)
	vcEnsures("the reply is to the request", vcReplyHdr(out, e, 0x0A) && n >= 64 && out[48] == 0 && out[49] == 0)
	r := 4
	if s1 == 0x4C || s1 == 0x52 {
		r = 10
	}
	vcEnsures("it has two parts where it says they are", vcLE(out, 50, 2) == 2 && vcLE(out, 52, 2) == 6 && int(vcLE(out, 54, 2)) == 6+r)
	k := 0
	vcEnsures("the first part answers its request", vcMultiPart(out, 56, r, s1, p, k, d[7:], 30))
	if vcReaches(s1) {
		k++
	}
	vcEnsures("the second part answers its request", vcMultiPart(out, 56+r, n-56-r, s2, p, k, d[7:], 14))
	if vcReaches(s2) {
		k++
	}
	vcEnsures("and they were performed", err == nil && p.n == k && (k == 0 || !fail))
	return p
}

//vc:bounded a request of two reads, with paths of two words
//vc:props C12,C14
func VC_C12_multi_reads(e vcEnv, a, b [14]byte, fail bool, v int32, t1, t2 string) {
	vcMultiTwo(e, 0x4C, 0x52, a[:], b[:], fail, v, t1, t2)
}

//vc:bounded a request of a read and a write of one value, with paths of two words
//vc:props C12,C14
func VC_C12_multi_read_write(e vcEnv, a, b [14]byte, fail bool, v int32, t1, t2 string) {
	b[6], b[7] = 1, 0
	vcMultiTwo(e, 0x4C, 0x4D, a[:], b[:], fail, v, t1, t2)
}

//vc:bounded a request of an unknown service and a read, with paths of two words
//vc:props C12,C14
func VC_C12_multi_unknown(e vcEnv, s1 byte, a, b [14]byte, fail bool, v int32, t1, t2 string) {
	vcRequires(!vcReaches(s1))
	vcMultiTwo(e, s1, 0x4C, a[:], b[:], fail, v, t1, t2)
}

//vc:bounded a request of a read and a write of two values, with paths of two words
//vc:props C12,C14
func VC_C12_multi_write_two(e vcEnv, a, b [14]byte, x, y int16, fail bool, v int32, t1, t2 string) {
	b[4], b[5], b[6], b[7] = byte(CIPTypeINT), 0, 2, 0
	b[8], b[9], b[10], b[11] = byte(x), byte(uint16(x)>>8), byte(y), byte(uint16(y)>>8)
	p := vcMultiTwo(e, 0x4C, 0x4D, a[:], b[:], fail, v, t1, t2)
	if p == nil {
		return
	}
	w, ok := p.value[1].([]any)
	vcEnsures("the values are those sent", ok && len(w) == 2 && w[0] == any(x) && w[1] == any(y))
}

// the tags there are are listed in the order of their names, which numbers them
//
//vc:props C12,C14
//vc:verify gologix.buildSymbolObjectInstanceListResponse
func VC_C14_c_symbols(e vcEnv, d []byte) {
	p := vcTags()
	p.tags[0].Name = "Motor"
	out, err := vcConnected(e, p, 0x55, d)
	vcEnsures("the reply is to the request", err == nil && vcReplyHdr(out, e, 0x55) && out[48] == 0 && out[49] == 0)
	vcEnsures("all tags are listed", vcBytesEq(out[50:], []byte{
		1, 0, 0, 0, 5, 0, 'M', 'o', 't', 'o', 'r', byte(CIPTypeDINT), 0,
		2, 0, 0, 0, 1, 0, 'b', byte(CIPTypeINT), 0,
		3, 0, 0, 0, 1, 0, 'z', byte(CIPTypeREAL), 0}))
}

package gologix

import "math"

// C19: data table buffers map tags to distinct slots and correct values.

// what was asked of the controller, and what it answers
type vcDTCall struct {
	service CIPService
	path    []byte
	data    []byte
}

var vcDTCalls []vcDTCall
var vcDTReply []byte // after the status
var vcDTFail bool

// a request to the controller, as VC_C19_generic has it
//
//vc:spec (*gologix.Client).GenericCIPMessage
//vc:for VC_C19*
func vcSpecGeneric(client *Client, service CIPService, path, msg_data []byte) (*CIPItem, error) {
	vcDTCalls = append(vcDTCalls, vcDTCall{service, append([]byte{}, path...), append([]byte{}, msg_data...)})
	if vcDTFail {
		return nil, errVC
	}
	d := append([]byte{0, 0, byte(service) | 0x80, 0, 0, 0}, vcDTReply...)
	return &CIPItem{Data: d, Pos: 6}, nil
}

//vc:verify (*gologix.Client).GenericCIPMessage
func VC_C19_generic(d []byte, service byte, path, msg []byte) {
	vcRequires(len(d) <= 30000)
	vcRequires(len(path) <= 100)
	vcRequires(len(path)%2 == 0)
	vcRequires(len(msg) <= 400)
	cl, c := vcReplyClient(0x70, vcItems([]byte{0, 0, 0, 0}, d))
	it, err := cl.GenericCIPMessage(CIPService(service), path, msg)
	n := 4 + len(path) + len(msg)
	vcEnsures("one request", len(c.out) == 44+n)
	if len(c.out) != 44+n {
		return
	}
	vcEnsures("header", vcFrameHdr(c.out, 0x70, 20+n, 0x11223344, 0, 0, 0))
	vcEnsures("service", c.out[46] == service && c.out[47] == byte(len(path)/2))
	vcEnsures("path", vcBytesEq(c.out[48:48+len(path)], path))
	vcEnsures("data", vcBytesEq(c.out[48+len(path):], msg))
	ok := len(d) >= 6
	if ok {
		ok = d[2]&0x7F == service && d[4] == 0 && d[5] == 0
	}
	if err == nil {
		vcEnsures("a good answer", ok)
		vcEnsures("the data of the answer", it.Pos == 6 && vcBytesEq(it.Data, d))
	}
}

func vcDTClient() *Client {
	cl, _ := vcReplyClient(0x70, nil)
	return cl
}

// vcDTPath: the path of a buffer
func vcDTPath(id uint16) []byte { return []byte{0x20, 0xB2, 0x25, 0, byte(id), byte(id >> 8)} }

//vc:bounded up to three tags in a request
//vc:unroll 40
func VC_C19_add(id uint16, n int, s0, s1, s2 uint16, p0, p1, p2 []byte, reply []byte, fail bool) {
	vcRequires(0 <= n && n <= 3)
	vcRequires(len(p0) <= 600)
	vcRequires(len(p1) <= 600)
	vcRequires(len(p2) <= 600)
	vcDTCalls, vcDTReply, vcDTFail = nil, reply, fail
	all := []addTagEntry{{s0, p0, 0}, {s1, p1, 1}, {s2, p2, 2}}
	b, err := vcDTClient().DataTableAddTags(id, all[:n])
	bad := false
	want := []byte{2, 0, 1, 1, byte(n)}
	for _, e := range all[:n] {
		if len(e.ioi)%2 != 0 || len(e.ioi) > 510 {
			bad = true
		}
		want = append(want, byte(e.dataTypeSize), byte(e.dataTypeSize>>8), byte(len(e.ioi)/2))
		want = append(want, e.ioi...)
	}
	if bad {
		vcEnsures("a path that cannot be encoded is an error", err != nil)
		vcEnsures("nothing is asked", len(vcDTCalls) == 0)
		return
	}
	vcEnsures("one request", len(vcDTCalls) == 1)
	r := vcDTCalls[0]
	vcEnsures("service", r.service == 0x4E)
	vcEnsures("path", vcBytesEq(r.path, vcDTPath(id)))
	vcEnsures("data", vcBytesEq(r.data, want))
	vcEnsures("failure is an error", !fail || err != nil)
	if err == nil {
		vcEnsures("batch", len(reply) >= 2 && uint64(b) == vcLE(reply, 0, 2))
	} else {
		vcEnsures("error", fail || len(reply) < 2)
	}
}

func VC_C19_read(id uint16, reply []byte, fail bool) {
	vcDTCalls, vcDTReply, vcDTFail = nil, reply, fail
	it, err := vcDTClient().DataTableReadBuffer(id)
	vcEnsures("one request", len(vcDTCalls) == 1)
	r := vcDTCalls[0]
	vcEnsures("service", r.service == 0x4C && len(r.data) == 0)
	vcEnsures("path", vcBytesEq(r.path, vcDTPath(id)))
	vcEnsures("failure is an error", (err != nil) == fail)
	if err == nil {
		vcEnsures("the data", vcBytesEq(it.Data[it.Pos:], reply))
	}
}

func VC_C19_remove(id, index uint16, reply []byte, fail bool) {
	vcDTCalls, vcDTReply, vcDTFail = nil, reply, fail
	err := vcDTClient().DataTableRemoveTag(id, index)
	vcEnsures("one request", len(vcDTCalls) == 1)
	r := vcDTCalls[0]
	vcEnsures("service", r.service == 0x4F)
	vcEnsures("path", vcBytesEq(r.path, vcDTPath(id)))
	vcEnsures("the index", vcBytesEq(r.data, []byte{byte(index), byte(index >> 8)}))
	vcEnsures("failure is an error", (err != nil) == fail)
}

func VC_C19_life(id uint16, reply []byte, fail, fail2 bool) {
	vcDTCalls, vcDTReply, vcDTFail = nil, reply, fail
	b, err := vcDTClient().NewDataTableBuffer()
	vcEnsures("one request", len(vcDTCalls) == 1)
	r := vcDTCalls[0]
	vcEnsures("create", r.service == 0x08 && vcBytesEq(r.path, vcDTPath(0)) && vcBytesEq(r.data, []byte{1, 0, 3, 0, 3, 0}))
	vcEnsures("failure is an error", (err != nil) == (fail || len(reply) < 2))
	if err != nil {
		return
	}
	vcEnsures("the instance", uint64(b.InstanceID()) == vcLE(reply, 0, 2))
	vcEnsures("empty", len(b.Tags()) == 0)
	vcDTFail = fail2
	err = b.Close()
	vcEnsures("deleted", len(vcDTCalls) == 2 && vcDTCalls[1].service == 0x09 && vcBytesEq(vcDTCalls[1].path, vcDTPath(b.InstanceID())))
	vcEnsures("failure is an error", (err != nil) == fail2)
	err = b.Close()
	vcEnsures("closing again does nothing", err == nil && len(vcDTCalls) == 2)
	vcEnsures("a closed buffer is not used", b.AddTag("x", CIPTypeDINT) != nil && b.RemoveTag("x") != nil && len(vcDTCalls) == 2)
	_, err = b.ReadAll()
	vcEnsures("a closed buffer is not read", err != nil && len(vcDTCalls) == 2)
}

// The tags of a buffer: their indices grow, those the controller knows of come first, and none
// has an index past the last one given out. This is kept by everything that changes a buffer.
func vcDTOK(b *DataTableBuffer) bool {
	ok := true
	for i, t := range b.tags {
		if i > 0 {
			ok = ok && b.tags[i-1].index < t.index && (b.tags[i-1].synched || !t.synched)
		}
		ok = ok && t.index > 0 && t.index <= b.lastIndex
		ok = ok && (t.synched || int(b.lastIndex)-int(t.index) == len(b.tags)-1-i)
		ok = ok && (t.synched || !b.synched)
	}
	return ok
}

type vcDTTag struct {
	T       CIPType
	Size    uint16
	Index   uint16
	Batch   uint16
	Synched bool
}

func vcDTBuf(id uint16, names []string, x []vcDTTag, last uint16, synched bool) *DataTableBuffer {
	b := &DataTableBuffer{client: vcDTClient(), instanceID: id, created: true, expansions: map[string][]string{}, lastIndex: last, synched: synched}
	for i, n := range names {
		b.tags = append(b.tags, DataTableBufferTag{Name: n, CIPType: x[i].T, DataTypeSize: x[i].Size, index: x[i].Index, batchID: x[i].Batch, synched: x[i].Synched, ioi: []byte{0x91, 1, byte('a' + i), 0}})
	}
	vcRequires(vcDTOK(b))
	return b
}

// vcDTSame: a tag as it was, up to its index
func vcDTSame(a, b DataTableBufferTag) bool {
	return a.Name == b.Name && a.CIPType == b.CIPType && a.DataTypeSize == b.DataTypeSize && a.batchID == b.batchID && a.synched == b.synched && vcBytesEq(a.ioi, b.ioi)
}

//vc:bounded a buffer with three tags
//vc:unroll 40
func VC_C19_remove_tag(id uint16, x [3]vcDTTag, n0, n1, n2, name string, last uint16, synched, fail bool) {
	vcRequires(n0 != n1)
	vcRequires(n0 != n2)
	vcRequires(n1 != n2)
	b := vcDTBuf(id, []string{n0, n1, n2}, x[:], last, synched)
	old := b.Tags()
	vcDTCalls, vcDTFail = nil, fail
	err := b.RemoveTag(name)
	at := -1
	for i, t := range old {
		if t.Name == name {
			at = i
		}
	}
	if at < 0 {
		vcEnsures("unknown tag", err != nil && len(vcDTCalls) == 0 && len(b.tags) == 3)
		return
	}
	if old[at].synched {
		vcEnsures("the controller is told", len(vcDTCalls) == 1 && vcDTCalls[0].service == 0x4F)
		vcEnsures("which tag", vcBytesEq(vcDTCalls[0].data, []byte{byte(old[at].index), byte(old[at].index >> 8)}))
		vcEnsures("failure is an error", (err != nil) == fail)
	} else {
		vcEnsures("the controller did not know it", len(vcDTCalls) == 0 && err == nil)
	}
	vcEnsures("the tags stay in order", vcDTOK(b))
	if err != nil {
		vcEnsures("nothing is removed", len(b.tags) == 3)
		for i := range old {
			vcEnsures("nothing changes", vcDTSame(b.tags[i], old[i]) && b.tags[i].index == old[i].index)
		}
		return
	}
	vcEnsures("one is removed", len(b.tags) == 2)
	j := 0
	for i := range old {
		if i == at {
			continue
		}
		vcEnsures("no other is affected", vcDTSame(b.tags[j], old[i]))
		vcEnsures("the controller's tags keep their index", !old[i].synched || b.tags[j].index == old[i].index)
		j++
	}
}

//vc:bounded a buffer with two tags
//vc:unroll 40
func VC_C19_add_tag(id uint16, x [2]vcDTTag, n0, n1 string, last uint16, synched bool, t CIPType, ref bool) {
	vcRequires(last < 60000)
	b := vcDTBuf(id, []string{n0, n1}, x[:], last, synched)
	old := b.Tags()
	vcDTCalls = nil
	var v int32
	var err error
	if ref {
		err = b.AddTagRef("New", &v)
	} else {
		err = b.AddTag("New", t)
	}
	vcEnsures("the tags stay in order", vcDTOK(b))
	vcEnsures("nothing is asked yet", len(vcDTCalls) == 0)
	if err != nil {
		vcEnsures("a type without a size", !ref && t.Size() == 0)
		vcEnsures("nothing is added", len(b.tags) == 2 && b.synched == synched)
		return
	}
	vcEnsures("one is added", len(b.tags) == 3)
	for i := range old {
		vcEnsures("no other is affected", vcDTSame(b.tags[i], old[i]) && b.tags[i].index == old[i].index)
	}
	n := b.tags[2]
	vcEnsures("the new tag", n.Name == "New" && !n.synched)
	vcEnsures("its path", vcBytesEq(n.ioi, []byte{0x91, 3, 'n', 'e', 'w', 0}))
	if ref {
		vcEnsures("its type", n.CIPType == CIPTypeDINT && n.DataTypeSize == 4 && n.Var == any(&v))
	} else {
		vcEnsures("its type", n.CIPType == t)
		if t == CIPTypeSTRING || t == CIPTypeStruct {
			vcEnsures("its size", n.DataTypeSize == 88)
		} else {
			vcEnsures("its size", int(n.DataTypeSize) == t.Size())
		}
	}
}

//vc:bounded a buffer with three tags
//vc:unroll 40
func VC_C19_sync(id uint16, x [3]vcDTTag, n0, n1, n2 string, last uint16, synched bool, reply []byte, fail bool) {
	b := vcDTBuf(id, []string{n0, n1, n2}, x[:], last, synched)
	old := b.Tags()
	vcDTCalls, vcDTReply, vcDTFail = nil, reply, fail
	err := b.SyncTags()
	n := 0
	for _, t := range old {
		if !t.synched {
			n++
		}
	}
	want := []byte{2, 0, 1, 1, byte(n)}
	for _, t := range old {
		if !t.synched {
			want = append(want, byte(t.DataTypeSize), byte(t.DataTypeSize>>8), 2)
			want = append(want, t.ioi...)
		}
	}
	if n == 0 {
		vcEnsures("nothing to ask", err == nil && len(vcDTCalls) == 0)
	} else {
		vcEnsures("one request", len(vcDTCalls) == 1 && vcDTCalls[0].service == 0x4E)
		vcEnsures("the new tags in order", vcBytesEq(vcDTCalls[0].data, want))
		vcEnsures("failure is an error", (err != nil) == (fail || len(reply) < 2))
	}
	vcEnsures("the tags stay in order", vcDTOK(b))
	for i := range old {
		vcEnsures("slots stay", b.tags[i].Name == old[i].Name && b.tags[i].CIPType == old[i].CIPType && b.tags[i].DataTypeSize == old[i].DataTypeSize && b.tags[i].index == old[i].index)
		if old[i].synched || err != nil {
			vcEnsures("batches stay", b.tags[i].batchID == old[i].batchID && b.tags[i].synched == old[i].synched)
		} else {
			vcEnsures("the new batch", b.tags[i].synched && uint64(b.tags[i].batchID) == vcLE(reply, 0, 2))
		}
	}
	vcEnsures("synched", err != nil || b.synched)
}

//vc:bounded a buffer with three tags
//vc:unroll 40
func VC_C19_read_raw(id uint16, x [3]vcDTTag, last uint16, reply []byte, fail bool) {
	b := vcDTBuf(id, []string{"A", "B", "C"}, x[:], last, true)
	vcRequires(x[0].Batch > 0)
	vcRequires(x[1].Batch >= x[0].Batch)
	vcRequires(x[2].Batch >= x[1].Batch)
	vcDTCalls, vcDTReply, vcDTFail = nil, reply, fail
	v, err := b.ReadAllRaw()
	vcEnsures("one request", len(vcDTCalls) == 1 && vcDTCalls[0].service == 0x4C)
	pos := 0
	for i, t := range x {
		if i == 0 || t.Batch != x[i-1].Batch {
			pos += 2
		}
		pos += int(t.Size)
	}
	vcEnsures("cut answers are errors", (err != nil) == (fail || len(reply) < pos))
	if err != nil {
		return
	}
	vcEnsures("every tag", len(v) == 3)
	pos = 0
	for i, n := range []string{"A", "B", "C"} {
		if i == 0 || x[i].Batch != x[i-1].Batch {
			pos += 2
		}
		vcEnsures("its value", vcBytesEq(v[n], reply[pos:pos+int(x[i].Size)]))
		pos += int(x[i].Size)
	}
}

// a value read is determined by its type and its bytes: which one it is is in the contracts of
// VC_C19_value*
type vcDTVal struct {
	t   CIPType
	raw string
}

//vc:spec gologix.decodeDataTableValue
//vc:for VC_C19_read_all*
func vcSpecDecode(cipType CIPType, raw []byte) (any, error) {
	if vcDTFail {
		return nil, errVC
	}
	return vcDTVal{cipType, string(raw)}, nil
}

//vc:bounded a buffer with three tags
//vc:unroll 40
func VC_C19_read_all(id uint16, x [3]vcDTTag, last uint16, reply []byte) {
	b := vcDTBuf(id, []string{"A", "B", "C"}, x[:], last, true)
	vcRequires(x[0].Batch > 0)
	vcRequires(x[1].Batch >= x[0].Batch)
	vcRequires(x[2].Batch >= x[1].Batch)
	vcDTCalls, vcDTReply, vcDTFail = nil, reply, false
	v, err := b.ReadAll()
	vcEnsures("one request", len(vcDTCalls) == 1 && vcDTCalls[0].service == 0x4C)
	pos := 0
	for i, t := range x {
		if i == 0 || t.Batch != x[i-1].Batch {
			pos += 2
		}
		pos += int(t.Size)
	}
	vcEnsures("cut answers are errors", (err != nil) == (len(reply) < pos))
	if err != nil {
		return
	}
	vcEnsures("every tag", len(v) == 3)
	pos = 0
	for i, n := range []string{"A", "B", "C"} {
		if i == 0 || x[i].Batch != x[i-1].Batch {
			pos += 2
		}
		d, ok := v[n].(vcDTVal)
		vcEnsures("its type", ok && d.t == x[i].T)
		vcEnsures("its value", vcBytesEq([]byte(d.raw), reply[pos:pos+int(x[i].Size)]))
		pos += int(x[i].Size)
	}
}

// tags the controller does not know of yet are added before the read
//
//vc:bounded a buffer with three tags
//vc:unroll 40
func VC_C19_read_all_new(id uint16, x [3]vcDTTag, last uint16, reply []byte) {
	b := vcDTBuf(id, []string{"A", "B", "C"}, x[:], last, false)
	vcRequires(x[0].Synched)
	vcRequires(!x[1].Synched)
	vcDTCalls, vcDTReply, vcDTFail = nil, reply, false
	_, err := b.ReadAll()
	vcEnsures("added first", len(vcDTCalls) >= 1 && vcDTCalls[0].service == 0x4E && len(vcDTCalls[0].data) == 19 && vcDTCalls[0].data[4] == 2)
	vcEnsures("then read", err != nil || len(vcDTCalls) == 2 && vcDTCalls[1].service == 0x4C)
	vcEnsures("the tags stay in order", vcDTOK(b))
}

//vc:verify gologix.decodeDataTableValue
func VC_C19_value_string(raw []byte, st bool) {
	vcRequires(len(raw) <= 65535)
	t := CIPTypeSTRING
	if st {
		t = CIPTypeStruct
	}
	v, err := decodeDataTableValue(t, raw)
	vcEnsures("a string needs a length", (err != nil) == (len(raw) < 4))
	if err != nil {
		return
	}
	s, ok := v.(string)
	vcEnsures("a string", ok)
	n := int(vcLE(raw, 0, 4))
	m := len(raw) - 4
	if len(raw) == 88 {
		m = 82
	}
	if n <= m {
		vcEnsures("all its characters", vcBytesEq([]byte(s), raw[4:4+n]))
	} else {
		vcEnsures("no more than it has room for", vcBytesEq([]byte(s), raw[4:4+m]))
	}
}

//vc:verify gologix.decodeDataTableValue
func VC_C19_value(raw []byte, t CIPType) {
	vcRequires(t != CIPTypeSTRING)
	vcRequires(t != CIPTypeStruct)
	v, err := decodeDataTableValue(t, raw)
	if err != nil {
		return
	}
	n := len(raw)
	known := true
	switch x := v.(type) {
	case bool:
		vcEnsures("bool", t == CIPTypeBOOL && n >= 1 && x == (raw[0] != 0))
	case int8:
		vcEnsures("sint", t == CIPTypeSINT && n >= 1 && uint8(x) == raw[0])
	case uint8:
		vcEnsures("byte", (t == CIPTypeBYTE || t == CIPTypeUSINT) && n >= 1 && x == raw[0])
	case int16:
		vcEnsures("int", t == CIPTypeINT && n >= 2 && uint64(uint16(x)) == vcLE(raw, 0, 2))
	case uint16:
		vcEnsures("uint", (t == CIPTypeUINT || t == CIPTypeWORD) && n >= 2 && uint64(x) == vcLE(raw, 0, 2))
	case int32:
		vcEnsures("dint", t == CIPTypeDINT && n >= 4 && uint64(uint32(x)) == vcLE(raw, 0, 4))
	case uint32:
		vcEnsures("udint", (t == CIPTypeUDINT || t == CIPTypeDWORD) && n >= 4 && uint64(x) == vcLE(raw, 0, 4))
	case int64:
		vcEnsures("lint", t == CIPTypeLINT && n >= 8 && uint64(x) == vcLE(raw, 0, 8))
	case uint64:
		vcEnsures("ulint", (t == CIPTypeULINT || t == CIPTypeLWORD) && n >= 8 && x == vcLE(raw, 0, 8))
	case float32:
		vcEnsures("real", t == CIPTypeREAL && n >= 4 && uint64(math.Float32bits(x)) == vcLE(raw, 0, 4))
	case float64:
		vcEnsures("lreal", t == CIPTypeLREAL && n >= 8 && math.Float64bits(x) == vcLE(raw, 0, 8))
	default:
		known = false
	}
	vcEnsures("no other type", known)
}

func VC_C19_var(x int32, y int16, f float32, s string) {
	var a int32
	var b int16
	var c float32
	var d string
	vcEnsures("set", setGoVar(&a, x) == nil && a == x)
	vcEnsures("set", setGoVar(&b, y) == nil && b == y)
	vcEnsures("set", setGoVar(&c, f) == nil && math.Float32bits(c) == math.Float32bits(f))
	vcEnsures("set", setGoVar(&d, s) == nil && d == s)
	vcEnsures("another type is an error", setGoVar(&a, y) != nil && a == x)
	vcEnsures("not a variable", setGoVar(b, y) != nil)
}

type vcDTInner struct {
	R float32 `gologix:"R{0}"`
}

type vcDTStruct struct {
	Z int32
	A int32 `gologix:"A{0}"`
	vcDTInner
	L []int16 `gologix:"L[{0}]"`
	M []int16 `gologix:"M"`
	O []int32 `gologix:"O"`
}

// a structure of tagged fields gets each value in its own field
//
//vc:bounded a structure with a field of each kind
//vc:unroll 40
func VC_C19_struct(z int32, a int32, r uint32, l0, l1, m int16, o0, o1 int32) {
	b := vcDTBuf(7, nil, nil, 0, true)
	s := vcDTStruct{Z: z, L: make([]int16, 2), M: make([]int16, 1), O: make([]int32, 2)}
	err := b.AddTaggedStruct(&s, 3)
	vcEnsures("added", err == nil && len(b.tags) == 7 && vcDTOK(b))
	vcDTCalls, vcDTFail = nil, false
	var d []byte
	known := true
	for _, t := range b.tags {
		switch t.Name {
		case "A3":
			d = append(d, byte(a), byte(a>>8), byte(a>>16), byte(a>>24))
		case "R3":
			d = append(d, byte(r), byte(r>>8), byte(r>>16), byte(r>>24))
		case "L[3]":
			d = append(d, byte(l0), byte(l0>>8))
		case "L[4]":
			d = append(d, byte(l1), byte(l1>>8))
		case "M":
			d = append(d, byte(m), byte(m>>8))
		case "O[0]":
			d = append(d, byte(o0), byte(o0>>8), byte(o0>>16), byte(o0>>24))
		case "O[1]":
			d = append(d, byte(o1), byte(o1>>8), byte(o1>>16), byte(o1>>24))
		default:
			known = false
		}
	}
	vcEnsures("no other tag", known)
	vcDTReply = append([]byte{1, 0}, d...)
	v, err := b.ReadAll()
	vcEnsures("read", err == nil && len(v) == 7)
	vcEnsures("untagged", s.Z == z)
	vcEnsures("its value", s.A == a)
	vcEnsures("its value", math.Float32bits(s.R) == r)
	vcEnsures("its value", s.L[0] == l0 && s.L[1] == l1)
	vcEnsures("its value", s.M[0] == m)
	vcEnsures("its value", s.O[0] == o0 && s.O[1] == o1)
}

// a group of tags, one of which has several elements, and after some are removed
//
//vc:bounded a group of three tags
//vc:unroll 40
func VC_C19_group(a int32, l0, l1, m0, m1, p int16, rm int) {
	b := vcDTBuf(7, nil, nil, 0, true)
	vcEnsures("added", b.AddTag("P", CIPTypeINT) == nil)
	g := &TagGroup{defs: []TagDef{{Name: "A{0}", Type: CIPTypeDINT, Elements: 1}, {Name: "L[{0}]", Type: CIPTypeINT, Elements: 2}, {Name: "M", Type: CIPTypeINT, Elements: 2}}}
	vcEnsures("added", b.AddTagGroup(g, 3) == nil && len(b.tags) == 6 && vcDTOK(b))
	vcDTFail = false
	vcEnsures("a group that cannot be added", b.AddTagGroup(&TagGroup{defs: []TagDef{{Name: "Bad", Type: CIPTypeUnknown, Elements: 1}}}) != nil && len(b.tags) == 6)
	gone := ""
	switch rm {
	case 1:
		gone = "A3"
	case 2:
		gone = "L[4]"
	case 3:
		gone = "P"
	}
	if gone != "" {
		vcEnsures("removed", b.RemoveTag(gone) == nil && len(b.tags) == 5 && vcDTOK(b))
	}
	var d []byte
	known := true
	for _, t := range b.tags {
		switch t.Name {
		case "A3":
			d = append(d, byte(a), byte(a>>8), byte(a>>16), byte(a>>24))
		case "L[3]":
			d = append(d, byte(l0), byte(l0>>8))
		case "L[4]":
			d = append(d, byte(l1), byte(l1>>8))
		case "M[0]":
			d = append(d, byte(m0), byte(m0>>8))
		case "M[1]":
			d = append(d, byte(m1), byte(m1>>8))
		case "P":
			d = append(d, byte(p), byte(p>>8))
		default:
			known = false
		}
	}
	vcEnsures("no other tag", known)
	vcDTReply = append([]byte{1, 0}, d...)
	v, err := b.ReadAllTyped()
	vcEnsures("read", err == nil)
	if gone != "A3" {
		vcEnsures("a tag", v.values["A3"] == any(a))
	}
	if gone != "P" {
		vcEnsures("a tag", v.values["P"] == any(p))
	}
	if gone == "L[4]" {
		vcEnsures("what is left", v.values["L[3]"] == any(l0))
	} else {
		l, ok := v.values["L[3]"].([]any)
		vcEnsures("elements", ok && len(l) == 2 && l[0] == any(l0) && l[1] == any(l1))
	}
	l, ok := v.values["M"].([]any)
	vcEnsures("elements", ok && len(l) == 2 && l[0] == any(m0) && l[1] == any(m1))
	if gone != "" {
		_, there := v.values[gone]
		vcEnsures("removed", !there)
	}
}

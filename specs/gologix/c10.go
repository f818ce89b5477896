package gologix

import "math"

// C10: batched reads pair every tag with its own reply.

// vcBatch is a client that will receive this reply to a batch
func vcBatch(d []byte) (*Client, *vcConn) {
	vcRequires(len(d) <= 30000)
	cl, c := vcReplyClient(0x70, vcItems([]byte{0, 0, 0, 0}, d))
	cl.Controller.Path = nil
	return cl, c
}

// vcPart is where part i of a reply to a batch starts: the offsets count from the number of parts
func vcPart(d []byte, i int) int { return 6 + int(vcLE(d, 8+2*i, 2)) }

// vcPartOK: part i is a positive reply with n bytes after its type
//
//vc:pure
func vcPartOK(d []byte, i int, n int) bool {
	p := vcPart(d, i)
	return p+6+n <= len(d) && d[p] >= 0x80 && d[p+2] == 0 && d[p+3] == 0
}

// vcTyped: part i, if the reply has it, is of this type
//
//vc:pure
func vcTyped(d []byte, i int, t CIPType) bool {
	p := vcPart(d, i)
	return p+4 >= len(d) || d[p+4] == byte(t)
}

// vcBatchOK: the reply to a batch reports success and has n parts
func vcBatchOK(d []byte, n int) bool {
	return len(d) >= 8+2*n && d[4] == 0 && d[5] == 0 && vcLE(d, 6, 2) == uint64(n)
}

// vcBatchReq: out is the frame of a batch of reads with these parts
func vcBatchReq(out []byte, parts ...[]byte) bool {
	m := []byte{}
	tab := []byte{}
	for _, p := range parts {
		off := 2 + 2*len(parts) + len(m)
		tab = append(tab, byte(off), byte(off>>8))
		m = append(m, p...)
	}
	n := 10 + len(tab) + len(m)
	return len(out) == 44+n && vcFrameHdr(out, 0x70, 20+n, 0x11223344, 0, 0, 0) &&
		vcBytesEq(out[24:44], []byte{0, 0, 0, 0, 0, 0, 2, 0, 0xA1, 0, 4, 0, 0x0D, 0x0C, 0x0B, 0x0A, 0xB1, 0, byte(n), byte(n >> 8)}) &&
		vcBytesEq(out[46:54], []byte{0x0A, 2, 0x20, 2, 0x24, 1, byte(len(parts)), 0}) && vcBytesEq(out[54:], append(tab, m...))
}

// a part of a batch: read n elements of a tag whose name has two letters
func vcReadPart(a, b byte, n int) []byte {
	return []byte{0x4C, 2, 0x91, 2, a, b, byte(n), byte(n >> 8)}
}

//vc:bounded batches of two tags
func VC_C10_two(d []byte) {
	cl, c := vcBatch(d)
	vcRequires(!vcBatchOK(d, 2) || (vcTyped(d, 0, CIPTypeDINT) && vcTyped(d, 1, CIPTypeINT)))
	v, err := cl.ReadList([]string{"ab", "cd"}, []any{int32(0), int16(0)}, []int{1, 1})
	vcEnsures("one request with a part per tag", c.nwr >= 1 && vcBatchReq(c.out[:74], vcReadPart('a', 'b', 1), vcReadPart('c', 'd', 1)))
	if err == nil {
		vcEnsures("a batch succeeds only when the reply has a part per tag", vcBatchOK(d, 2))
		vcEnsures("the first tag's part is positive", vcPartOK(d, 0, 0))
		vcEnsures("the second tag's part is positive", vcPartOK(d, 1, 0))
		vcEnsures("there is a value per tag", len(v) == 2)
		vcEnsures("one request is sent", c.nwr == 1)
	}
}

// p, q are the places of the parts: in any order, with anything between them
//
//vc:bounded batches of two tags
func VC_C10_two_values(d []byte, p int, q int) {
	cl, _ := vcBatch(d)
	vcRequires(vcBatchOK(d, 2))
	vcRequires(p == vcPart(d, 0) && q == vcPart(d, 1))
	vcRequires(vcPartOK(d, 0, 4) && vcPartOK(d, 1, 2))
	vcRequires(d[p+4] == byte(CIPTypeDINT) && d[q+4] == byte(CIPTypeINT))
	v, err := cl.ReadList([]string{"ab", "cd"}, []any{int32(0), int16(0)}, []int{1, 1})
	vcEnsures("a complete reply is accepted", err == nil)
	if err == nil {
		x, ok := v[0].(int32)
		vcEnsures("the first tag has the value of its part", ok && uint64(uint32(x)) == vcLE(d, p+6, 4))
		y, ok := v[1].(int16)
		vcEnsures("the second tag has the value of its part", ok && uint64(uint16(y)) == vcLE(d, q+6, 2))
	}
}

// a batch of one tag, with its part at p

func vcBatchOne(d []byte, p int, n int, t CIPType) (*Client, *vcConn) {
	cl, c := vcBatch(d)
	vcRequires(vcBatchOK(d, 1))
	vcRequires(p == vcPart(d, 0))
	vcRequires(vcPartOK(d, 0, n))
	vcRequires(d[p+4] == byte(t))
	return cl, c
}

func VC_C10_bit(d []byte, p int) {
	cl, _ := vcBatchOne(d, p, 4, CIPTypeDINT)
	v, err := cl.ReadList([]string{"ab.13"}, []any{false}, []int{1})
	vcEnsures("a complete reply is accepted", err == nil && len(v) == 1)
	if err == nil {
		x, ok := v[0].(bool)
		vcEnsures("the tag has its bit of the value", ok && x == (vcLE(d, p+6, 4)>>13&1 == 1))
	}
}

func VC_C10_string(d []byte) {
	p := 14
	cl, _ := vcBatchOne(d, p, 6, CIPTypeStruct)
	v, err := cl.ReadList([]string{"ab"}, []any{""}, []int{1})
	n := vcLE(d, p+8, 4)
	vcEnsures("a text is read exactly when the reply carries all of it", (err == nil) == (n <= uint64(len(d)-p-12)))
	if err == nil {
		x, ok := v[0].(string)
		vcEnsures("the tag has the text of its part", ok && x == string(d[p+12:p+12+int(n)]))
	}
}

//vc:bounded lists of three elements
func VC_C10_list(d []byte, p int) {
	cl, c := vcBatchOne(d, p, 0, CIPTypeINT)
	v, err := cl.ReadList([]string{"ab"}, []any{[]int16{}}, []int{3})
	vcEnsures("every element is requested", c.nwr >= 1 && vcBatchReq(c.out[:64], vcReadPart('a', 'b', 3)))
	vcEnsures("a list is read exactly when the reply carries all of it", (err == nil) == (p+12 <= len(d)))
	if err == nil {
		l, ok := v[0].([]any)
		vcEnsures("a list has every element", ok && len(l) == 3)
		for j := 0; j < 3; j++ {
			x, ok := l[j].(int16)
			vcEnsures("every element is the reply's", ok && uint64(uint16(x)) == vcLE(d, p+6+2*j, 2))
		}
	}
}

//vc:bounded lists of two elements
func VC_C10_strings(d []byte, p int) {
	cl, _ := vcBatchOne(d, p, 0, CIPTypeStruct)
	v, err := cl.ReadList([]string{"ab"}, []any{[]string{}}, []int{2})
	good := p+6+2*88 <= len(d)
	if good {
		n, m := vcLE(d, p+8, 4), vcLE(d, p+96, 4)
		vcEnsures("texts are read exactly when they fit their slots", (err == nil) == (n <= 82 && m <= 82))
		if err == nil {
			l, ok := v[0].([]any)
			vcEnsures("a list has every element", ok && len(l) == 2)
			x, ok := l[0].(string)
			vcEnsures("the first text is the reply's", ok && x == string(d[p+12:p+12+int(n)]))
			y, ok := l[1].(string)
			vcEnsures("the second text is the reply's", ok && y == string(d[p+100:p+100+int(m)]))
		}
	} else {
		vcEnsures("a short list is an error", err != nil)
	}
}

func VC_C10_struct(d []byte, p int) {
	cl, _ := vcBatchOne(d, p, 0, CIPTypeStruct)
	v, err := cl.ReadList([]string{"ab"}, []any{VcRec{}}, []int{1})
	vcEnsures("a structure is read exactly when the reply carries all of it", (err == nil) == (p+8+12 <= len(d)))
	if err == nil {
		x, ok := v[0].(VcRec)
		vcEnsures("the tag has the structure of its part", ok && uint64(uint32(x.A)) == vcLE(d, p+8, 4) && uint64(uint16(x.B)) == vcLE(d, p+12, 2) &&
			x.C == (d[p+14]&1 != 0) && x.D == (d[p+14]&2 != 0) && uint64(math.Float32bits(x.E)) == vcLE(d, p+16, 4))
	}
}

// a structure's reply to a batch that asked for something else is an error
func VC_C10_struct_other(d []byte, p int) {
	cl, _ := vcBatchOne(d, p, 6, CIPTypeStruct)
	_, err := cl.ReadList([]string{"ab"}, []any{int32(0)}, []int{1})
	vcEnsures("a structure is no number", err != nil)
}

//vc:bounded batches of two tags
func VC_C10_map(d []byte, p int, q int) {
	cl, c := vcBatch(d)
	vcRequires(vcBatchOK(d, 2))
	vcRequires(p == vcPart(d, 0) && q == vcPart(d, 1))
	vcRequires(vcPartOK(d, 0, 4) && vcPartOK(d, 1, 4))
	vcRequires(d[p+4] == byte(CIPTypeDINT) && d[q+4] == byte(CIPTypeDINT))
	m := map[string]any{"ab": int32(1), "cd": int32(2)}
	err := cl.ReadMap(m)
	vcEnsures("a complete reply is accepted", err == nil && len(m) == 2)
	vcEnsures("one request is sent", c.nwr == 1 && len(c.out) == 74)
	if err == nil && len(c.out) == 74 {
		x, ok1 := m["ab"].(int32)
		y, ok2 := m["cd"].(int32)
		if c.out[62] == 'c' {
			x, y = y, x
		}
		vcEnsures("the tag asked for first has the value of the first part", ok1 && ok2 && uint64(uint32(x)) == vcLE(d, p+6, 4))
		vcEnsures("the tag asked for second has the value of the second part", uint64(uint32(y)) == vcLE(d, q+6, 4))
	}
}

type VcBatch struct {
	Z int32
	A int32 `gologix:"ab"`
	B int16 `gologix:"cd"`
}

//vc:bounded batches of two tags
func VC_C10_multi(d []byte, p int, q int, z int32) {
	cl, c := vcBatch(d)
	vcRequires(vcBatchOK(d, 2))
	vcRequires(p == vcPart(d, 0) && q == vcPart(d, 1))
	vcRequires(vcPartOK(d, 0, 4) && vcPartOK(d, 1, 2))
	vcRequires(d[p+4] == byte(CIPTypeDINT) && d[q+4] == byte(CIPTypeINT))
	v := VcBatch{Z: z}
	err := cl.ReadMulti(&v)
	vcEnsures("one request with a part per field", c.nwr == 1 && vcBatchReq(c.out, vcReadPart('a', 'b', 1), vcReadPart('c', 'd', 1)))
	vcEnsures("a complete reply is accepted", err == nil)
	vcEnsures("the first field has the value of its part", uint64(uint32(v.A)) == vcLE(d, p+6, 4))
	vcEnsures("the second field has the value of its part", uint64(uint16(v.B)) == vcLE(d, q+6, 2))
	vcEnsures("other fields are left alone", v.Z == z)
}

// vcOne is the reply to a batch of one int32
func vcOne(v int32) []byte {
	return vcFrame(0x70, vcItems([]byte{0, 0, 0, 0}, []byte{0, 0, 0x8A, 0, 0, 0, 1, 0, 4, 0, 0xCC, 0, 0, 0, 0xC4, 0, byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}))
}

func vcTwo(v, w int32) []byte {
	return vcFrame(0x70, vcItems([]byte{0, 0, 0, 0}, []byte{0, 0, 0x8A, 0, 0, 0, 2, 0, 6, 0, 16, 0, 0xCC, 0, 0, 0, 0xC4, 0, byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24),
		0xCC, 0, 0, 0, 0xC4, 0, byte(w), byte(w >> 8), byte(w >> 16), byte(w >> 24)}))
}

// a batch is split into requests that fit a connection of any size, and the replies are put together in order
//
//vc:bounded batches of three tags
func VC_C10_split(size uint16, v0, v1, v2 int32) {
	cl, c := vcBatch([]byte{})
	cl.ConnectionSize = size
	c.in = nil
	t := []tagDesc{{"ab", CIPTypeDINT, 1, nil}, {"cd", CIPTypeDINT, 1, nil}, {"ef", CIPTypeDINT, 1, nil}}
	// the controller answers one, two or three tags with the values in order
	switch {
	case size >= 40:
		c.in = vcFrame(0x70, vcItems([]byte{0, 0, 0, 0}, []byte{0, 0, 0x8A, 0, 0, 0, 3, 0, 8, 0, 18, 0, 28, 0,
			0xCC, 0, 0, 0, 0xC4, 0, byte(v0), byte(v0 >> 8), byte(v0 >> 16), byte(v0 >> 24),
			0xCC, 0, 0, 0, 0xC4, 0, byte(v1), byte(v1 >> 8), byte(v1 >> 16), byte(v1 >> 24),
			0xCC, 0, 0, 0, 0xC4, 0, byte(v2), byte(v2 >> 8), byte(v2 >> 16), byte(v2 >> 24)}))
	case size >= 30:
		c.in = append(vcTwo(v0, v1), vcOne(v2)...)
	case size >= 20:
		c.in = append(append(vcOne(v0), vcOne(v1)...), vcOne(v2)...)
	}
	v, err := cl.readList(t)
	if size < 20 {
		vcEnsures("a tag that fits no request is an error", err != nil && len(c.out) == 0)
		return
	}
	vcEnsures("a batch that can be split is read", err == nil && len(v) == 3)
	off := 0
	n := 0
	for n < c.nwr && off+44 <= len(c.out) {
		l := int(vcLE(c.out, off+42, 2))
		vcEnsures("every request fits the connection", l <= int(size))
		off += 44 + l
		n++
	}
	vcEnsures("the requests are all that is sent", off == len(c.out) && n == c.nwr)
	if err == nil && len(v) == 3 {
		x, ok1 := v[0].(int32)
		y, ok2 := v[1].(int32)
		z, ok3 := v[2].(int32)
		vcEnsures("the values are in the order of the tags", ok1 && ok2 && ok3 && x == v0 && y == v1 && z == v2)
	}
}

// the tags that countIOIsThatFit counts fit a request
//
//vc:bounded batches of three tags
func VC_C10_fit(size uint16, n int) {
	cl, _ := vcBatch([]byte{})
	cl.ConnectionSize = size
	t := []tagDesc{{"ab", CIPTypeDINT, 1, nil}, {"cd", CIPTypeDINT, 1, nil}, {"ef", CIPTypeDINT, 1, nil}}
	k, err := cl.countIOIsThatFit(t)
	vcEnsures("tags are counted", err == nil && k >= 1 && k <= 3)
	vcEnsures("counted tags fit a request", k == 1 || 10+10*k <= int(size))
}

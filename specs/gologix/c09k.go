package gologix

// C09: attributes of the controller's objects.

// vcSeg is a logical segment in the smallest format that holds its value
func vcSeg(kind byte, v uint16) []byte {
	if v < 256 {
		return []byte{kind, byte(v)}
	}
	return []byte{kind | 1, 0, byte(v), byte(v >> 8)}
}

// vcAttrReq: the frame is one connected request of this service, for this path, with this data
func vcAttrReq(b []byte, service byte, path, msg []byte) bool {
	n := 4 + len(path) + len(msg)
	if len(b) != 44+n {
		return false
	}
	if !vcFrameHdr(b, 0x70, 20+n, 0x11223344, 0, 0, 0) {
		return false
	}
	if b[46] != service || int(b[47]) != len(path)/2 {
		return false
	}
	if !vcBytesEq(b[48:48+len(path)], path) {
		return false
	}
	return vcBytesEq(b[48+len(path):], msg)
}

//vc:verify (*gologix.Client).GetAttrSingle
func VC_C09_attr_single(d []byte, class, inst, attr uint16) {
	vcRequires(len(d) <= 30000)
	cl, c := vcReplyClient(0x70, vcItems([]byte{0, 0, 0, 0}, d))
	it, err := cl.GetAttrSingle(CIPClass(class), CIPInstance(inst), CIPAttribute(attr))
	path := append(vcSeg(0x20, class), vcSeg(0x24, inst)...)
	path = append(path, vcSeg(0x30, attr)...)
	vcEnsures("one request for the attribute", vcAttrReq(c.out, 0x0E, path, nil))
	ok := len(d) >= 6
	if ok {
		ok = d[4] == 0 && d[5] == 0
	}
	vcEnsures("an attribute is read exactly when the reply carries one", (err == nil) == ok)
	if ok && err == nil {
		vcEnsures("the data is the reply's", it.Pos == 6 && vcBytesEq(it.Data, d))
	}
}

//vc:verify (*gologix.Client).GetAttrList
func VC_C09_attr_list(d []byte, class, inst, a, b uint16) {
	vcRequires(len(d) <= 30000)
	cl, c := vcReplyClient(0x70, vcItems([]byte{0, 0, 0, 0}, d))
	it, err := cl.GetAttrList(CIPClass(class), CIPInstance(inst), CIPAttribute(a), CIPAttribute(b))
	path := append(vcSeg(0x20, class), vcSeg(0x24, inst)...)
	vcEnsures("one request for the attributes", vcAttrReq(c.out, 0x03, path, []byte{2, 0, byte(a), byte(a >> 8), byte(b), byte(b >> 8)}))
	ok := len(d) >= 8
	if ok {
		ok = d[4] == 0 && d[5] == 0
	}
	vcEnsures("attributes are read exactly when the reply carries them", (err == nil) == ok)
	if ok && err == nil {
		vcEnsures("the data is the reply's", it.Pos == 8 && vcBytesEq(it.Data, d))
	}
}

// the properties that tell whether the controller's program has changed
//
//vc:verify (*gologix.Client).GetControllerPropList
func VC_C09_attr_props(d []byte) {
	vcRequires(len(d) <= 30000)
	cl, c := vcReplyClient(0x70, vcItems([]byte{0, 0, 0, 0}, d))
	p, err := cl.GetControllerPropList()
	vcEnsures("one request for the attributes", vcAttrReq(c.out, 0x03, []byte{0x20, 0xAC, 0x24, 1}, []byte{5, 0, 1, 0, 2, 0, 3, 0, 4, 0, 10, 0}))
	ok := len(d) >= 44
	if ok {
		ok = d[4] == 0 && d[5] == 0
	}
	vcEnsures("properties are read exactly when the reply carries them", (err == nil) == ok)
	if ok && err == nil {
		vcEnsures("attribute 1", uint64(p.Attr1) == vcLE(d, 12, 2) && uint64(p.Attr1_Status) == vcLE(d, 10, 2))
		vcEnsures("attribute 2", uint64(p.Attr2) == vcLE(d, 18, 2) && uint64(p.Attr2_Status) == vcLE(d, 16, 2))
		vcEnsures("attribute 3", uint64(p.Attr3) == vcLE(d, 24, 4) && uint64(p.Attr3_Status) == vcLE(d, 22, 2))
		vcEnsures("attribute 4", uint64(p.Attr4) == vcLE(d, 32, 4) && uint64(p.Attr4_Status) == vcLE(d, 30, 2))
		vcEnsures("attribute 10", uint64(p.Attr5) == vcLE(d, 40, 4) && uint64(p.Attr5_Status) == vcLE(d, 38, 2))
	}
}

//vc:verify (gologix.msgGetControllerPropList).Match
func VC_C09_attr_props_match(a, b msgGetControllerPropList) {
	same := a.Attr1 == b.Attr1 && a.Attr2 == b.Attr2 && a.Attr3 == b.Attr3 && a.Attr4 == b.Attr4 && a.Attr5 == b.Attr5
	same = same && a.Attr1_Status == b.Attr1_Status && a.Attr2_Status == b.Attr2_Status && a.Attr3_Status == b.Attr3_Status
	same = same && a.Attr4_Status == b.Attr4_Status && a.Attr5_Status == b.Attr5_Status
	vcEnsures("the program is unchanged exactly when its properties are", a.Match(b) == same)
}

// the firmware version is asked for once, and a controller that does not say is taken for an old one
func VC_C09_firmware(d []byte, known uint16) {
	vcRequires(len(d) <= 30000)
	cl, c := vcReplyClient(0x70, vcItems([]byte{0, 0, 0, 0}, d))
	cl.knownFirmware = int(known)
	v := cl.firmware()
	if known != 0 {
		vcEnsures("what is known is not asked for", v == int(known) && c.nwr == 0)
		return
	}
	vcEnsures("the revision of the identity is asked for", vcAttrReq(c.out, 0x0E, []byte{0x20, 1, 0x24, 1, 0x30, 4}, nil))
	if len(d) >= 7 {
		if d[4] == 0 && d[5] == 0 {
			vcEnsures("the major revision", v == int(d[6]) && cl.knownFirmware == v)
			return
		}
	}
	vcEnsures("an unknown revision", v == 0 && cl.knownFirmware == 0)
}

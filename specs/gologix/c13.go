package gologix

import "bytes"

// C13: no reply can crash the client. The replies are arbitrary bytes in well formed frames (what is not a
// well formed frame is an error of the transport, see C05).

func vcFrame(cmd uint16, payload []byte) []byte {
	n := len(payload)
	h := []byte{byte(cmd), byte(cmd >> 8), byte(n), byte(n >> 8), 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
	return append(h, payload...)
}

// vcReplyClient is a connected client that will receive one frame with this payload
func vcReplyClient(cmd uint16, payload []byte) (*Client, *vcConn) {
	c := &vcConn{in: vcFrame(cmd, payload)}
	cl := vcClient(c, 0x11223344, 0)
	cl.knownFirmware = 20
	cl.OTNetworkConnectionID = 0x0A0B0C0D
	cl.Controller.Path = bytes.NewBuffer([]byte{1, 0})
	cl.KnownTags = make(map[string]KnownTag)
	cl.KnownTypes = make(map[string]UDTDescriptor)
	cl.KnownTypesByID = make(map[uint32]UDTDescriptor)
	cl.KnownPrograms = make(map[string]*KnownProgram)
	return cl, c
}

// vcItems is a reply payload of two items with this data
func vcItems(a []byte, d []byte) []byte {
	x, y := len(a), len(d)
	b := append([]byte{0, 0, 0, 0, 0, 0, 2, 0, 0xA1, 0, byte(x), byte(x >> 8)}, a...)
	b = append(b, 0xB1, 0, byte(y), byte(y>>8))
	return append(b, d...)
}

// vcCut is a reply payload that announces two items but ends before they are complete, or (form 0) is
// cut or announces another number of items
func vcCut(form bool, b []byte) []byte {
	n := len(b)
	if !form {
		vcRequires(n < 8 || vcLE(b, 6, 2) != 2)
		return b
	}
	if n >= 4 {
		x := int(vcLE(b, 2, 2))
		vcRequires(n < 4+x+4 || n < 4+x+4+int(vcLE(b, 4+x+2, 2)))
	}
	return append([]byte{0, 0, 0, 0, 0, 0, 2, 0}, b...)
}

//vc:timeout 600
func VC_C13_read_single(a []byte, d []byte, t byte, elements uint16) {
	vcRequires(len(a) <= 30000)
	vcRequires(len(d) <= 30000)
	cl, _ := vcReplyClient(0x70, vcItems(a, d))
	v, err := cl.Read_single("tag", CIPType(t), elements)
	vcEnsures("a read gives a value or an error", err != nil || v != nil)
}

func VC_C13_read_single_cut(form bool, b []byte, t byte, elements uint16) {
	vcRequires(len(b) <= 65527)
	cl, _ := vcReplyClient(0x70, vcCut(form, b))
	_, err := cl.Read_single("tag", CIPType(t), elements)
	vcEnsures("a reply without two items is an error", err != nil)
}

func VC_C13_write_single(a []byte, d []byte, v int32) {
	vcRequires(len(a) <= 30000)
	vcRequires(len(d) <= 30000)
	cl, _ := vcReplyClient(0x70, vcItems(a, d))
	_ = cl.Write("tag", v)
	vcEnsures("returns", true)
}

func VC_C13_write_single_cut(form bool, b []byte, v int32) {
	vcRequires(len(b) <= 65527)
	cl, _ := vcReplyClient(0x70, vcCut(form, b))
	err := cl.Write("tag", v)
	vcEnsures("a reply without two items is an error", err != nil)
}

func VC_C13_get_attr_single(a []byte, d []byte, class, inst, attr uint16) {
	vcRequires(len(a) <= 30000)
	vcRequires(len(d) <= 30000)
	cl, _ := vcReplyClient(0x70, vcItems(a, d))
	_, _ = cl.GetAttrSingle(CIPClass(class), CIPInstance(inst), CIPAttribute(attr))
	vcEnsures("returns", true)
}

func VC_C13_get_attr_single_cut(form bool, b []byte, class, inst, attr uint16) {
	vcRequires(len(b) <= 65527)
	cl, _ := vcReplyClient(0x70, vcCut(form, b))
	_, err := cl.GetAttrSingle(CIPClass(class), CIPInstance(inst), CIPAttribute(attr))
	vcEnsures("a reply without two items is an error", err != nil)
}

//vc:verify (*gologix.Client).GetAttrList
func VC_C13_get_attr_list(a []byte, d []byte, class, inst, attr uint16) {
	vcRequires(len(a) <= 30000)
	vcRequires(len(d) <= 30000)
	cl, _ := vcReplyClient(0x70, vcItems(a, d))
	it, err := cl.GetAttrList(CIPClass(class), CIPInstance(inst), CIPAttribute(attr), CIPAttribute(attr))
	vcEnsures("attributes are in an item", err != nil || it != nil && it.Pos >= 0 && it.Pos <= len(it.Data))
}

func VC_C13_get_attr_list_cut(form bool, b []byte, class, inst, attr uint16) {
	vcRequires(len(b) <= 65527)
	cl, _ := vcReplyClient(0x70, vcCut(form, b))
	_, err := cl.GetAttrList(CIPClass(class), CIPInstance(inst), CIPAttribute(attr), CIPAttribute(attr))
	vcEnsures("a reply without two items is an error", err != nil)
}

func VC_C13_controller_props(a []byte, d []byte) {
	vcRequires(len(a) <= 30000)
	vcRequires(len(d) <= 30000)
	cl, _ := vcReplyClient(0x70, vcItems(a, d))
	_, _ = cl.GetControllerPropList()
	vcEnsures("returns", true)
}

func VC_C13_controller_props_cut(form bool, b []byte) {
	vcRequires(len(b) <= 65527)
	cl, _ := vcReplyClient(0x70, vcCut(form, b))
	_, err := cl.GetControllerPropList()
	vcEnsures("a reply without two items is an error", err != nil)
}

func VC_C13_generic(a []byte, d []byte, service byte, path, msg []byte) {
	vcRequires(len(a) <= 30000)
	vcRequires(len(d) <= 30000)
	vcRequires(len(path) <= 100)
	vcRequires(len(msg) <= 400)
	cl, _ := vcReplyClient(0x70, vcItems(a, d))
	_, _ = cl.GenericCIPMessage(CIPService(service), path, msg)
	vcEnsures("returns", true)
}

func VC_C13_generic_cut(form bool, b []byte, service byte, path, msg []byte) {
	vcRequires(len(b) <= 65527)
	vcRequires(len(path) <= 100)
	vcRequires(len(msg) <= 400)
	cl, _ := vcReplyClient(0x70, vcCut(form, b))
	_, err := cl.GenericCIPMessage(CIPService(service), path, msg)
	vcEnsures("a reply without two items is an error", err != nil)
}

//vc:verify (*gologix.Client).GetTemplateInstanceAttr
func VC_C13_template(a []byte, d []byte, id uint32) {
	vcRequires(len(a) <= 30000)
	vcRequires(len(d) <= 30000)
	cl, _ := vcReplyClient(0x70, vcItems(a, d))
	_, _ = cl.GetTemplateInstanceAttr(id)
	vcEnsures("returns", true)
}

//vc:verify (*gologix.Client).GetTemplateInstanceAttr
func VC_C13_template_cut(form bool, b []byte, id uint32) {
	vcRequires(len(b) <= 65527)
	cl, _ := vcReplyClient(0x70, vcCut(form, b))
	_, err := cl.GetTemplateInstanceAttr(id)
	vcEnsures("a reply without two items is an error", err != nil)
}

func VC_C13_list_programs(a []byte, d []byte) {
	vcRequires(len(a) <= 30000)
	vcRequires(len(d) <= 30000)
	cl, _ := vcReplyClient(0x70, vcItems(a, d))
	_ = cl.ListAllPrograms()
	vcEnsures("returns", true)
}

func VC_C13_list_programs_cut(form bool, b []byte) {
	vcRequires(len(b) <= 65527)
	cl, _ := vcReplyClient(0x70, vcCut(form, b))
	err := cl.ListAllPrograms()
	vcEnsures("a reply without two items is an error", err != nil)
}

//vc:timeout 600
func VC_C13_list_sub_tags(a []byte, d []byte, start uint32) {
	vcRequires(len(a) <= 30000)
	vcRequires(len(d) <= 30000)
	cl, _ := vcReplyClient(0x70, vcItems(a, d))
	_, _ = cl.ListSubTags(&KnownProgram{Name: "abcd"}, start)
	vcEnsures("returns", true)
}

func VC_C13_list_sub_tags_cut(form bool, b []byte, start uint32) {
	vcRequires(len(b) <= 65527)
	cl, _ := vcReplyClient(0x70, vcCut(form, b))
	_, err := cl.ListSubTags(&KnownProgram{Name: "abcd"}, start)
	vcEnsures("a reply without two items is an error", err != nil)
}

//vc:timeout 600
func VC_C13_list_all_tags(a []byte, d []byte, start byte) {
	vcRequires(len(a) <= 30000)
	vcRequires(len(d) <= 30000)
	vcRequires(start > 1)
	cl, _ := vcReplyClient(0x70, vcItems(a, d))
	_ = cl.ListAllTags(uint32(start))
	vcEnsures("returns", true)
}

func VC_C13_list_all_tags_cut(form bool, b []byte, start byte) {
	vcRequires(len(b) <= 65527)
	vcRequires(start > 1)
	cl, _ := vcReplyClient(0x70, vcCut(form, b))
	err := cl.ListAllTags(uint32(start))
	vcEnsures("a reply without two items is an error", err != nil)
}

//vc:inv (*gologix.Client).ListAllPrograms#0
//vc:for VC_C13*
func vcInvListPrograms(resp *CIPItem) bool { return resp.Pos >= 0 && resp.Pos <= len(resp.Data) }

//vc:inv (*gologix.Client).ListSubTags#0
//vc:for VC_C13*
func vcInvListSubTags(data2 *bytes.Buffer) bool { return data2.Len() >= 0 }

//vc:inv (*gologix.Client).ListAllTags#1
//vc:for VC_C13*
func vcInvListAllTags(data2 *bytes.Buffer) bool { return data2.Len() >= 0 }

// which tags are listed does not matter here: any answer is assumed
//
//vc:spec gologix.isValidTag
func vcSpecIsValidTag(tag_string string, tag_ftr TagInfo) bool { return vcAny() }

//vc:verify gologix.isValidTag
func VC_C13_is_valid_tag(name string, typ, info byte) {
	isValidTag(name, TagInfo{Type: CIPType(typ), TypeInfo: info})
	vcEnsures("returns", true)
}

// a template read elsewhere fails or gives a type of some name
//
//vc:spec (*gologix.Client).ListMembers
func vcSpecListMembers(client *Client, str_instance uint32) (UDTDescriptor, error) {
	if vcAny() {
		return UDTDescriptor{}, errVC
	}
	return UDTDescriptor{Instance_ID: str_instance, Name: vcAnyString()}, nil
}

// the attributes of a template may be anything
//
//vc:spec (*gologix.Client).GetTemplateInstanceAttr
func vcSpecGetTemplateInstanceAttr(client *Client, str_instance uint32) (msgGetTemplateAttrListResponse, error) {
	if vcAny() {
		return msgGetTemplateAttrListResponse{}, errVC
	}
	r := msgGetTemplateAttrListResponse{SizeWords: uint32(vcAnyInt()), SizeBytes: uint32(vcAnyInt()), MemberCount: 1}
	if vcAny() {
		r.MemberCount = 2
	}
	return r, nil
}

// the members of a template: the reply with the members is arbitrary
//
//vc:verify (*gologix.Client).ListMembers
//vc:bounded templates of at most two members
//vc:timeout 600
func VC_C13_list_members(a []byte, d []byte, id byte) {
	vcRequires(len(a) <= 30000)
	vcRequires(len(d) <= 30000)
	cl, _ := vcReplyClient(0x70, vcItems(a, d))
	_, _ = cl.ListMembers(uint32(id))
	vcEnsures("returns", true)
}

// the first item of an identity reply may be anything, and so may the rest
func VC_C13_identity_item(data []byte) {
	vcRequires(len(data) <= 65535)
	r := listIdentityResponeBody{}
	err := r.ParseFromBytes(data)
	vcEnsures("an identity that is cut is an error", len(data) >= 34 || err != nil)
}

func VC_C13_list_identity(a []byte, rest []byte) {
	vcRequires(len(a) <= 30000)
	vcRequires(len(rest) <= 30000)
	x := len(a)
	b := append([]byte{1, 0, 12, 0, byte(x), byte(x >> 8)}, a...)
	cl, _ := vcReplyClient(0x63, append(b, rest...))
	r, err := cl.ListIdentity()
	vcEnsures("an identity or an error", (r != nil) != (err != nil))
}

func VC_C13_list_identity_cut(none bool, b []byte) {
	vcRequires(len(b) <= 65000)
	if none {
		if len(b) >= 2 {
			b[0], b[1] = 0, 0
		}
	} else {
		vcRequires(len(b) < 6 || 6+int(vcLE(b, 4, 2)) > len(b))
		if len(b) >= 2 {
			b[0], b[1] = 1, 0
		}
	}
	cl, _ := vcReplyClient(0x63, b)
	_, err := cl.ListIdentity()
	vcEnsures("no complete item is an error", err != nil)
}

func VC_C13_service_item(data []byte) {
	vcRequires(len(data) <= 65535)
	s := CIPListService{}
	err := s.ParseFromBytes(data)
	vcEnsures("a service that is cut is an error", (len(data) < 20) == (err != nil))
}

//vc:bounded replies of at most two services
func VC_C13_list_services(a []byte, d []byte, one bool) {
	vcRequires(len(a) <= 30000)
	vcRequires(len(d) <= 30000)
	x, y := len(a), len(d)
	var b []byte
	if one {
		b = append([]byte{1, 0, 0, 1, byte(x), byte(x >> 8)}, a...)
	} else {
		b = append([]byte{2, 0, 0, 1, byte(x), byte(x >> 8)}, a...)
		b = append(b, 0, 1, byte(y), byte(y>>8))
		b = append(b, d...)
	}
	cl, _ := vcReplyClient(0x04, b)
	_, err := cl.ListServices()
	vcEnsures("every service is complete or there is an error", err != nil || x >= 20 && (one || y >= 20))
}

func VC_C13_list_services_cut(none bool, b []byte) {
	vcRequires(len(b) <= 65000)
	if none {
		if len(b) >= 2 {
			b[0], b[1] = 0, 0
		}
	} else {
		vcRequires(len(b) < 6 || 6+int(vcLE(b, 4, 2)) > len(b))
		if len(b) >= 2 {
			b[0], b[1] = 1, 0
		}
	}
	cl, _ := vcReplyClient(0x04, b)
	s, err := cl.ListServices()
	vcEnsures("services that are cut are an error", err != nil || none && len(s) == 0)
}

func VC_C13_register_session(payload []byte, status uint32) {
	vcRequires(len(payload) <= 65535)
	cl, c := vcReplyClient(0x65, payload)
	c.in[8], c.in[9], c.in[10], c.in[11] = byte(status), byte(status>>8), byte(status>>16), byte(status>>24)
	err := cl.registerSession()
	vcEnsures("a session that was refused is an error", status == 0 || err != nil)
}

func VC_C13_forward_open(a []byte, d []byte, status uint32, msg []byte) {
	vcRequires(len(a) <= 30000)
	vcRequires(len(d) <= 30000)
	vcRequires(len(msg) <= 200)
	cl, c := vcReplyClient(0x6F, vcItems(a, d))
	c.in[8], c.in[9], c.in[10], c.in[11] = byte(status), byte(status>>8), byte(status>>16), byte(status>>24)
	err := cl.forwardOpen(CIPItem{Header: cipItemHeader{ID: cipItem_UnconnectedData, Length: uint16(len(msg))}, Data: msg})
	vcEnsures("a connection that was refused is an error", err != nil || status == 0 && len(d) >= 30 && d[2] == 0)
}

func VC_C13_forward_open_cut(form bool, b []byte, msg []byte) {
	vcRequires(len(b) <= 65527)
	vcRequires(len(msg) <= 200)
	cl, _ := vcReplyClient(0x6F, vcCut(form, b))
	err := cl.forwardOpen(CIPItem{Header: cipItemHeader{ID: cipItem_UnconnectedData, Length: uint16(len(msg))}, Data: msg})
	vcEnsures("a reply without two items is an error", err != nil)
}

func VC_C13_disconnect(a []byte, d []byte, status uint32) {
	vcRequires(len(a) <= 30000)
	vcRequires(len(d) <= 30000)
	cl, c := vcReplyClient(0x6F, vcItems(a, d))
	c.in[8], c.in[9], c.in[10], c.in[11] = byte(status), byte(status>>8), byte(status>>16), byte(status>>24)
	err := cl.Disconnect()
	vcEnsures("the client disconnects whatever the reply", err == nil && !cl.Connected())
}

func VC_C13_disconnect_cut(form bool, b []byte) {
	vcRequires(len(b) <= 65527)
	cl, _ := vcReplyClient(0x6F, vcCut(form, b))
	err := cl.Disconnect()
	vcEnsures("the client disconnects whatever the reply", err == nil && !cl.Connected())
}

// a fragmented transfer: whatever follows, the next fragment may be anything
func VC_C13_fragment(a []byte, d []byte, elements uint16, first []byte) {
	vcRequires(len(a) <= 30000)
	vcRequires(len(d) <= 30000)
	vcRequires(len(first) <= 30000)
	cl, _ := vcReplyClient(0x70, vcItems(a, d))
	v, err := cl.readFragmented(&tagIOI{Buffer: []byte{0x91, 1, 65, 0}}, elements, first)
	vcEnsures("the data received or an error", err != nil || len(v) >= len(first))
}

func VC_C13_fragment_cut(form bool, b []byte, elements uint16, first []byte) {
	vcRequires(len(b) <= 65527)
	vcRequires(len(first) <= 30000)
	cl, _ := vcReplyClient(0x70, vcCut(form, b))
	_, err := cl.readFragmented(&tagIOI{Buffer: []byte{0x91, 1, 65, 0}}, elements, first)
	vcEnsures("a reply without two items is an error", err != nil)
}

//vc:bounded batches of one tag
//vc:timeout 600
func VC_C13_read_list(a []byte, d []byte, t byte, elements uint16, bit bool) {
	vcRequires(len(a) <= 30000)
	vcRequires(len(d) <= 30000)
	cl, _ := vcReplyClient(0x70, vcItems(a, d))
	name := "tag"
	if bit {
		name = "tag.3"
	}
	cl.ConnectionSize = 4000
	v, err := cl.readList([]tagDesc{{TagName: name, TagType: CIPType(t), Elements: int(elements)}})
	vcEnsures("one result or an error", err != nil || len(v) == 1)
}

func VC_C13_read_list_cut(form bool, b []byte, t byte, elements uint16) {
	vcRequires(len(b) <= 65527)
	cl, _ := vcReplyClient(0x70, vcCut(form, b))
	cl.ConnectionSize = 4000
	_, err := cl.readList([]tagDesc{{TagName: "tag", TagType: CIPType(t), Elements: int(elements)}, {TagName: "other", TagType: CIPType(t), Elements: 1}})
	vcEnsures("a reply without two items is an error", err != nil)
}

package gologix

import (
	"errors"
	"strings"
)

// C22: listing a controller's tags visits every tag once.

// vcTagEntry is one tag of a page
func vcTagEntry(id uint32, name string, i TagInfo) []byte {
	b := []byte{byte(id), byte(id >> 8), byte(id >> 16), byte(id >> 24), byte(len(name)), byte(len(name) >> 8)}
	b = append(b, name...)
	b = append(b, byte(i.Type), i.TypeInfo)
	for _, d := range []uint32{i.Dimension1, i.Dimension2, i.Dimension3} {
		b = append(b, byte(d), byte(d>>8), byte(d>>16), byte(d>>24))
	}
	return b
}

// vcPage is a client that will receive a page with this status and entries
func vcPage(status uint16, entries ...[]byte) (*Client, *vcConn) {
	d := []byte{0, 0, 0xD5, 0, byte(status), byte(status >> 8)}
	for _, e := range entries {
		d = append(d, e...)
	}
	return vcReplyClient(0x70, vcItems([]byte{0, 0, 0, 0}, d))
}

// vcPageReq: out is the frame of a request for a page from instance start on of what prefix leads to
func vcPageReq(out []byte, prefix []byte, start byte) bool {
	m := append([]byte{0x55, byte(len(prefix)/2 + 2)}, prefix...)
	m = append(m, 0x20, 0x6B, 0x24, start, 3, 0, 1, 0, 2, 0, 8, 0)
	n := len(m) + 2
	return len(out) == 44+n && vcFrameHdr(out, 0x70, 20+n, 0x11223344, 0, 0, 0) &&
		vcBytesEq(out[24:44], []byte{0, 0, 0, 0, 0, 0, 2, 0, 0xA1, 0, 4, 0, 0x0D, 0x0C, 0x0B, 0x0A, 0xB1, 0, byte(n), byte(n >> 8)}) && vcBytesEq(out[46:], m)
}

// vcIsTag: the known tag is the one of this entry
func vcIsTag(k KnownTag, name string, id uint32, i TagInfo) bool {
	if k.Name != name || uint32(k.Instance) != id || k.Info.Type != i.Type || k.Info.TypeInfo != i.TypeInfo {
		return false
	}
	n := 0
	if i.Dimension3 != 0 {
		n = 3
	} else if i.Dimension2 != 0 {
		n = 2
	} else if i.Dimension1 != 0 {
		n = 1
	}
	return len(k.Array_Order) == n && (n < 1 || k.Array_Order[0] == int(i.Dimension1)) && (n < 2 || k.Array_Order[1] == int(i.Dimension2)) && (n < 3 || k.Array_Order[2] == int(i.Dimension3))
}

// the pages asked for after the first: how often, and the start of the last of them
var vcPages int
var vcPageStart uint32
var vcPageProgram *KnownProgram

// the pages after the first: one more tag, or an error
//
//vc:spec (*gologix.Client).ListSubTags
//vc:for VC_C22_sub*
func vcSpecListSubTags(client *Client, Program *KnownProgram, start_instance uint32) ([]KnownTag, error) {
	vcPages++
	vcPageStart = start_instance
	vcPageProgram = Program
	if vcAny() {
		return nil, errVC
	}
	return []KnownTag{{Name: "program:abcd.rest"}}, nil
}

// a page of one tag
//
//vc:verify (*gologix.Client).ListSubTags
//vc:nospec gologix.isValidTag
//vc:bounded pages of one tag
func VC_C22_sub_one(start byte, status uint16, id uint32, typ byte, info byte, d1, d2, d3 uint32) {
	vcPages = 0
	i := TagInfo{CIPType(typ), info, d1, d2, d3}
	cl, c := vcPage(status, vcTagEntry(id, "Tag_1", i))
	p := &KnownProgram{Name: "abcd"}
	r, err := cl.ListSubTags(p, uint32(start))
	first := start
	if first == 0 {
		first = 1
	}
	vcEnsures("the page from the start on is asked for", c.nwr == 1 && vcPageReq(c.out, []byte{0x91, 12, 'P', 'r', 'o', 'g', 'r', 'a', 'm', ':', 'a', 'b', 'c', 'd'}, first))
	switch status {
	case 0:
		vcEnsures("the last page ends the list", err == nil && vcPages == 0)
		vcEnsures("the tag of the page is listed", len(r) == 1 && vcIsTag(r[0], "program:abcd.Tag_1", id, i) && r[0].Parent == p)
	case 6:
		if id >= uint32(first) && id != 0xFFFFFFFF {
			vcEnsures("the next page starts after the last tag received", vcPages == 1 && vcPageStart == id+1 && vcPageProgram == p)
			vcEnsures("listing fails only when the next page does", err == nil || errors.Is(err, errVC))
			if err == nil {
				vcEnsures("every tag of every page is listed once", len(r) == 2 && vcIsTag(r[0], "program:abcd.Tag_1", id, i) && r[1].Name == "program:abcd.rest")
			}
		} else {
			vcEnsures("a page that does not get further is an error", err != nil && vcPages == 0)
		}
	default:
		vcEnsures("a status that is no success is an error", err != nil && vcPages == 0)
	}
	if status == 0 || status == 6 {
		k, ok := cl.KnownTags["program:abcd.tag_1"]
		vcEnsures("the tag is known under its name", ok && vcIsTag(k, "program:abcd.Tag_1", id, i))
	}
}

// a page of three tags, of which the last is a system tag
//
//vc:verify (*gologix.Client).ListSubTags
//vc:nospec gologix.isValidTag
//vc:bounded pages of three tags
func VC_C22_sub_three(start byte, status uint16, id1, id2, id3 uint32, typ byte) {
	vcPages = 0
	i := TagInfo{CIPType(typ), 0, 0, 0, 0}
	cl, _ := vcPage(status, vcTagEntry(id1, "A", i), vcTagEntry(id2, "B", i), vcTagEntry(id3, "__s", i))
	r, err := cl.ListSubTags(&KnownProgram{Name: "abcd"}, uint32(start))
	if status == 0 {
		vcEnsures("every tag of the page is listed once", err == nil && len(r) == 2 && vcIsTag(r[0], "program:abcd.A", id1, i) && vcIsTag(r[1], "program:abcd.B", id2, i))
	}
	if status == 6 && id3 >= uint32(start) && id3 > 0 && id3 != 0xFFFFFFFF {
		vcEnsures("the next page starts after the last tag received", vcPages == 1 && vcPageStart == id3+1)
		vcEnsures("every tag of every page is listed once", err != nil || len(r) == 3 && vcIsTag(r[0], "program:abcd.A", id1, i) && vcIsTag(r[1], "program:abcd.B", id2, i) && r[2].Name == "program:abcd.rest")
	}
}

// a page that is cut is an error
//
//vc:verify (*gologix.Client).ListSubTags
//vc:nospec gologix.isValidTag
//vc:bounded pages of one tag
func VC_C22_sub_cut(n uint8, status uint16) {
	vcPages = 0
	e := vcTagEntry(7, "A", TagInfo{CIPTypeDINT, 0, 0, 0, 0})
	vcRequires(int(n) < len(e))
	vcRequires(n > 0)
	cl, _ := vcPage(status, e[:n])
	_, err := cl.ListSubTags(&KnownProgram{Name: "abcd"}, 1)
	vcEnsures("a tag that is cut is an error", err != nil && vcPages == 0)
}

//vc:spec (*gologix.Client).ListAllTags
//vc:for VC_C22_all*
func vcSpecListAllTags(client *Client, start_instance uint32) error {
	vcPages++
	vcPageStart = start_instance
	if vcAny() {
		return errVC
	}
	client.KnownTags["rest"] = KnownTag{Name: "rest"}
	return nil
}

var vcPrograms int
var vcSubTags [3]int

// the controller's programs are listed, or it has no list of them, or listing fails
//
//vc:spec (*gologix.Client).ListAllPrograms
//vc:for VC_C22_all*
func vcSpecListAllPrograms(client *Client) error {
	vcPrograms++
	switch vcProgramsKind {
	case 0:
		return errVC
	case 1:
		return CIPStatusError{Status: 8}
	}
	client.KnownPrograms = map[string]*KnownProgram{"P": {Name: "P"}, "Q": {Name: "Q"}}
	return nil
}

var vcProgramsKind byte

// the tags of a program are listed elsewhere
//
//vc:spec (*gologix.Client).ListSubTags
//vc:for VC_C22_all*
func vcSpecListSubTagsOf(client *Client, Program *KnownProgram, start_instance uint32) ([]KnownTag, error) {
	if start_instance == 1 {
		switch Program.Name {
		case "P":
			vcSubTags[0]++
		case "Q":
			vcSubTags[1]++
		default:
			vcSubTags[2]++
		}
	}
	if vcAny() {
		return nil, errVC
	}
	return nil, nil
}

//vc:verify (*gologix.Client).ListAllTags
//vc:nospec gologix.isValidTag
//vc:bounded pages of two tags
func VC_C22_all_page(start byte, status uint16, id1, id2 uint32, typ byte, d1, d2, d3 uint32) {
	vcPages, vcPrograms, vcSubTags = 0, 0, [3]int{}
	vcRequires(start > 1)
	i := TagInfo{CIPType(typ), 0, d1, d2, d3}
	j := TagInfo{CIPType(typ), 0, 0, 0, 0}
	cl, c := vcPage(status, vcTagEntry(id1, "Tag_1", i), vcTagEntry(id2, "b", j))
	err := cl.ListAllTags(uint32(start))
	vcEnsures("the page from the start on is asked for", c.nwr == 1 && vcPageReq(c.out, nil, start))
	switch status {
	case 0:
		vcEnsures("the last page ends the list", err == nil && vcPages == 0 && len(cl.KnownTags) == 2)
	case 6:
		if id2 >= uint32(start) && id2 != 0xFFFFFFFF {
			vcEnsures("the next page starts after the last tag received", vcPages == 1 && vcPageStart == id2+1)
			vcEnsures("listing fails only when the next page does", err == nil || errors.Is(err, errVC))
			vcEnsures("the tags of every page are known", err != nil || len(cl.KnownTags) == 3)
		} else {
			vcEnsures("a page that does not get further is an error", err != nil && vcPages == 0)
		}
	default:
		vcEnsures("a status that is no success is an error", err != nil && vcPages == 0)
	}
	if status == 0 || status == 6 {
		k, ok := cl.KnownTags["tag_1"]
		vcEnsures("the first tag is known under its name", ok && vcIsTag(k, "Tag_1", id1, i))
		k, ok = cl.KnownTags["b"]
		vcEnsures("the second tag is known under its name", ok && vcIsTag(k, "b", id2, j))
	}
	vcEnsures("programs are listed with the first page only", vcPrograms == 0 && vcSubTags == [3]int{})
}

// with the first page the tags of every program are listed once; program and module entries are no tags
//
//vc:verify (*gologix.Client).ListAllTags
//vc:nospec gologix.isValidTag
//vc:bounded pages of three tags
func VC_C22_all_first(kind byte, zero bool, status uint16, id1, id2, id3 uint32) {
	vcPages, vcPrograms, vcSubTags = 0, 0, [3]int{}
	vcProgramsKind = kind
	i := TagInfo{CIPTypeDINT, 0, 0, 0, 0}
	cl, c := vcPage(status, vcTagEntry(id1, "Program:Pr1", i), vcTagEntry(id2, "Local:1:I", i), vcTagEntry(id3, "a", i))
	start := uint32(1)
	if zero {
		start = 0
	}
	err := cl.ListAllTags(start)
	vcEnsures("the programs are listed", vcPrograms == 1)
	if kind == 0 {
		vcEnsures("failing to list the programs is an error", err != nil)
	}
	if c.nwr == 1 {
		vcEnsures("the first page is asked for", vcPageReq(c.out, nil, 1))
	}
	if err == nil {
		vcEnsures("listing succeeds only when the pages do", status == 0 || status == 6 && vcPages == 1 && vcPageStart == id3+1)
		if kind == 1 {
			vcEnsures("the tags of a program found among the tags are listed once", vcSubTags == [3]int{0, 0, 1})
		} else {
			vcEnsures("the tags of every program are listed once", vcSubTags == [3]int{1, 1, 0})
		}
		_, ok := cl.KnownTags["a"]
		vcEnsures("the tag is known under its name", ok)
		_, ok = cl.KnownTags["local:1:i"]
		vcEnsures("what belongs to a module is no tag", !ok)
	}
}

// what is listed as a tag
//
//vc:nospec gologix.isValidTag
func VC_C22_valid(name string, typ, info byte) {
	vcRequires(len(name) <= 100)
	ok := isValidTag(name, TagInfo{Type: CIPType(typ), TypeInfo: info})
	vcEnsures("names of system and module entries are no tags", ok == (name != "" && !strings.HasPrefix(name, "__") && (!strings.Contains(name, ":") || strings.HasPrefix(name, "Program"))))
}

// the programs of a reply
//
//vc:verify (*gologix.Client).ListAllPrograms
//vc:bounded two programs
func VC_C22_programs(status uint16, id1, id2 uint16) {
	d := []byte{0, 0, 0xD5, 0, byte(status), byte(status >> 8), byte(id1), byte(id1 >> 8), 0, 0, 2, 0, 0, 0, 'A', 'b', byte(id2), byte(id2 >> 8), 0, 0, 1, 0, 0, 0, 'c'}
	cl, c := vcReplyClient(0x70, vcItems([]byte{0, 0, 0, 0}, d))
	err := cl.ListAllPrograms()
	vcEnsures("the programs are asked for once", c.nwr == 1 && len(c.out) == 56 && vcBytesEq(c.out[46:], []byte{0x55, 2, 0x20, 0x68, 0x24, 0, 1, 0, 28, 0}))
	vcEnsures("programs are listed exactly when the reply reports success", (err == nil) == (status == 0))
	if err == nil {
		p, ok := cl.KnownPrograms["Ab"]
		vcEnsures("the first program has its name and instance", ok && p.Name == "Ab" && p.ID == CIPInstance(id1))
		q, ok := cl.KnownPrograms["c"]
		vcEnsures("the second program has its name and instance", ok && q.Name == "c" && q.ID == CIPInstance(id2))
		vcEnsures("there are no others", len(cl.KnownPrograms) == 2)
	} else {
		vcEnsures("nothing is listed when that fails", len(cl.KnownPrograms) == 0)
	}
}

// the members of a template: names, types and offsets
//
//vc:verify (*gologix.Client).ListMembers
//vc:nospec (*gologix.Client).GetTemplateInstanceAttr
//vc:bounded templates of two members
func VC_C22_members(status0 byte, status uint16, i1, t1, i2, t2 uint16, o1, o2 uint32, words uint8) {
	a := []byte{0, 0, 0x83, 0, status0, 0, 4, 0, 4, 0, 0, 0, words, 0, 0, 0, 5, 0, 0, 0, 8, 0, 0, 0, 2, 0, 0, 0, 2, 0, 1, 0, 0, 0, 0x34, 0x12}
	d := []byte{0, 0, 0xCC, 0, byte(status), byte(status >> 8),
		byte(i1), byte(i1 >> 8), byte(t1), byte(t1 >> 8), byte(o1), byte(o1 >> 8), byte(o1 >> 16), byte(o1 >> 24),
		byte(i2), byte(i2 >> 8), byte(t2), byte(t2 >> 8), byte(o2), byte(o2 >> 8), byte(o2 >> 16), byte(o2 >> 24),
		'R', 'e', 'c', ';', 'x', 0, 'A', 0, 'b', 'c', 0}
	vcRequires(t1&0x8000 == 0 && t2&0x8000 == 0) // members that are no structures
	vcRequires(words >= 10)
	cl, c := vcReplyClient(0x70, vcItems([]byte{0, 0, 0, 0}, a))
	c.in = append(c.in, vcFrame(0x70, vcItems([]byte{0, 0, 0, 0}, d))...)
	u, err := cl.ListMembers(9)
	vcEnsures("the attributes of the template are asked for", c.nwr >= 1 && vcBytesEq(c.out[46:62], []byte{3, 2, 0x20, 0x6C, 0x24, 9, 4, 0, 4, 0, 5, 0, 2, 0, 1, 0}))
	vcEnsures("members are listed exactly when the replies report success", (err == nil) == (status0 == 0 && status == 0))
	if err == nil {
		n := int(words)*4 - 23
		vcEnsures("the members are asked for", c.nwr == 2 && len(c.out) == 62+58 && vcBytesEq(c.out[62+46:], []byte{0x4C, 2, 0x20, 0x6C, 0x24, 9, 0, 0, 0, 0, byte(n), byte(n >> 8)}))
		vcEnsures("the structure has its name", u.Name == "Rec" && u.Instance_ID == 9 && u.Info.SizeBytes == 8 && u.Info.Handle == 0x1234)
		vcEnsures("there are as many members as announced", len(u.Members) == 2)
		vcEnsures("members are those of the reply", u.Members[0].Name == "A" && u.Members[0].Info == msgMemberInfo{i1, t1, o1})
		vcEnsures("further members are those of the reply", u.Members[1].Name == "bc" && u.Members[1].Info == msgMemberInfo{i2, t2, o2})
		k, ok := cl.KnownTypesByID[9]
		vcEnsures("the structure is known", ok && k.Name == "Rec")
	}
}

// what a tag's type word says about it
//
//vc:verify (gologix.TagInfo).Template_ID
//vc:verify (gologix.TagInfo).Atomic
func VC_C22_type(t, info byte) {
	f := TagInfo{Type: CIPType(t), TypeInfo: info}
	v := uint16(t) | uint16(info)<<8
	structure, system := v&0x8000 != 0, v&0x1000 != 0
	if structure && !system {
		vcEnsures("a structure has a template", f.Template_ID() == v&0x0FFF)
	} else {
		vcEnsures("nothing else has one", f.Template_ID() == 0)
	}
	vcEnsures("what is no structure is atomic", f.Atomic() == (!structure && !system))
}

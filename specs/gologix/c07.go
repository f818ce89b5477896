package gologix

import (
	"strconv"
	"strings"
)

// C07: tag names.

// a part of a name that is not an index and does not look like a number
//vc:pure
func vcNamePart(s string) bool {
	return len(s) >= 1 && len(s) <= 255 && (s[0] < '0' || s[0] > '9') && s[0] != '+' && s[0] != '-' &&
		vcForall(0, len(s), func(i int) bool { return s[i] != '.' && s[i] != '[' && s[i] != ']' })
}

func vcSymLen(s string) int {
	if len(s)%2 == 1 {
		return 3 + len(s)
	}
	return 2 + len(s)
}

// b[at:] starts with the symbolic segment of s
func vcSymAt(b []byte, at int, s string) bool {
	n := len(s)
	if at+vcSymLen(s) > len(b) {
		return false
	}
	return b[at] == 0x91 && b[at+1] == byte(n) && vcBytesEq(b[at+2:at+2+n], []byte(s)) && (n%2 == 0 || b[at+2+n] == 0)
}

func vcElemLen(i int) int {
	if i < 256 {
		return 2
	}
	if i < 65536 {
		return 4
	}
	return 6
}

// b[at:] starts with the element segment of i
func vcElemAt(b []byte, at int, i int) bool {
	n := vcElemLen(i)
	if at+n > len(b) {
		return false
	}
	switch n {
	case 2:
		return b[at] == 0x28 && b[at+1] == byte(i)
	case 4:
		return b[at] == 0x29 && b[at+1] == 0 && vcLE(b, at+2, 2) == uint64(i)
	}
	return b[at] == 0x2A && b[at+1] == 0 && vcLE(b, at+2, 4) == uint64(i)
}

func vcIOIClient() *Client { return &Client{knownFirmware: 20} }

func VC_C07_part(s string) {
	b, err := marshalIOIPart(s)
	vcEnsures("a name is refused exactly when its length does not fit", (err != nil) == (len(s) == 0 || len(s) > 255))
	if err != nil {
		return
	}
	vcEnsures("the segment holds the exact length and text, padded to an even length", len(b) == vcSymLen(s) && vcSymAt(b, 0, s))
}

func VC_C07_simple(s string, t byte) {
	vcRequires(vcNamePart(s))
	ioi, err := vcIOIClient().newIOI(s, CIPType(t))
	vcEnsures("a simple name is accepted", err == nil && !ioi.BitAccess)
	b := ioi.Bytes()
	vcEnsures("a simple name is one symbolic segment", len(b) == vcSymLen(s) && vcSymAt(b, 0, strings.ToLower(s)))
}

func VC_C07_member(s string, r string, t byte) {
	vcRequires(vcNamePart(s) && vcNamePart(r))
	ioi, err := vcIOIClient().newIOI(s+"."+r, CIPType(t))
	vcEnsures("a member name is accepted", err == nil && !ioi.BitAccess)
	b := ioi.Bytes()
	n := vcSymLen(s)
	vcEnsures("a member is the segments of its parts in order", len(b) == n+vcSymLen(r) && vcSymAt(b, 0, strings.ToLower(s)) && vcSymAt(b, n, strings.ToLower(r)))
}

func VC_C07_index(s string, i int, t byte) {
	vcRequires(vcNamePart(s) && i >= 0 && i < 1<<32)
	ioi, err := vcIOIClient().newIOI(s+"["+strconv.Itoa(i)+"]", CIPType(t))
	vcEnsures("an element name is accepted", err == nil && !ioi.BitAccess)
	b := ioi.Bytes()
	n := vcSymLen(s)
	vcEnsures("an element is the segment of its array and one element segment", len(b) == n+vcElemLen(i) && vcSymAt(b, 0, strings.ToLower(s)) && vcElemAt(b, n, i))
}

// spaces around the indexes do not matter
func VC_C07_list(s string, i int, j int, sp bool, t byte) {
	vcRequires(vcNamePart(s) && i >= 0 && i < 1<<32 && j >= 0 && j < 1<<32)
	sep := ","
	if sp {
		sep = " , "
	}
	ioi, err := vcIOIClient().newIOI(s+"["+strconv.Itoa(i)+sep+strconv.Itoa(j)+"]", CIPType(t))
	vcEnsures("an element of a two dimensional array is accepted", err == nil && !ioi.BitAccess)
	b := ioi.Bytes()
	n := vcSymLen(s)
	m := n + vcElemLen(i)
	vcEnsures("each index has its element segment, in order", len(b) == m+vcElemLen(j) && vcSymAt(b, 0, strings.ToLower(s)) && vcElemAt(b, n, i) && vcElemAt(b, m, j))
}

func VC_C07_nested(s string, i int, r string, j int, t byte) {
	vcRequires(vcNamePart(s) && vcNamePart(r) && i >= 0 && i < 1<<32 && j >= 0 && j < 1<<32)
	ioi, err := vcIOIClient().newIOI(s+"["+strconv.Itoa(i)+"]."+r+"["+strconv.Itoa(j)+"]", CIPType(t))
	vcEnsures("a nested element is accepted", err == nil && !ioi.BitAccess)
	b := ioi.Bytes()
	n := vcSymLen(s)
	m := n + vcElemLen(i)
	l := m + vcSymLen(r)
	vcEnsures("a nested element is the segments of its parts in order", len(b) == l+vcElemLen(j) && vcSymAt(b, 0, strings.ToLower(s)) && vcElemAt(b, n, i) && vcSymAt(b, m, strings.ToLower(r)) && vcElemAt(b, l, j))
}

func VC_C07_bit(s string, i int, el bool, bit int, t byte) {
	vcRequires(vcNamePart(s) && i >= 0 && i < 1<<32)
	name := s
	if el {
		name = s + "[" + strconv.Itoa(i) + "]"
	}
	ioi, err := vcIOIClient().newIOI(name+"."+strconv.Itoa(bit), CIPType(t))
	vcEnsures("a bit is accepted exactly when an integer has it", (err == nil) == (bit >= 0 && bit <= 63))
	if err != nil {
		return
	}
	b := ioi.Bytes()
	n := vcSymLen(s)
	vcEnsures("the bit is recorded", ioi.BitAccess && ioi.BitPosition == bit)
	vcEnsures("the bit is not part of the path", vcSymAt(b, 0, strings.ToLower(s)) && (!el && len(b) == n || el && len(b) == n+vcElemLen(i) && vcElemAt(b, n, i)))
}

// an index that cannot be encoded
func VC_C07_badindex(s string, i int, j int, two bool, t byte) {
	vcRequires(vcNamePart(s) && (i < 0 || i >= 1<<32))
	name := s + "[" + strconv.Itoa(i) + "]"
	if two {
		name = s + "[" + strconv.Itoa(j) + "," + strconv.Itoa(i) + "]"
	}
	_, err := vcIOIClient().newIOI(name, CIPType(t))
	vcEnsures("an index that is out of range is refused", err != nil)
}

// an index that is no number: x is not empty and holds no digit, so it is none
func VC_C07_noindex(s string, x string, i int, form byte, t byte) {
	vcRequires(vcNamePart(s) && len(x) >= 1 && len(x) < 1000 && vcForall(0, len(x), func(i int) bool {
		return x[i] > ' ' && x[i] < 0x7F && (x[i] < '0' || x[i] > '9') && x[i] != '.' && x[i] != ',' && x[i] != '+' && x[i] != '-' && x[i] != '[' && x[i] != ']'
	}))
	name := ""
	switch form % 5 {
	case 0:
		name = s + "[" + x + "]"
	case 1:
		name = s + "[" + strconv.Itoa(i) + x + "]"
	case 2:
		name = s + "[]"
	case 3:
		name = s + "[" + strconv.Itoa(i) + ",]"
	case 4:
		name = s + "[" + strconv.Itoa(i) + "][" + strconv.Itoa(i) + "]"
	}
	_, err := vcIOIClient().newIOI(name, CIPType(t))
	vcEnsures("a name whose index is no number is refused", err != nil)
}

// parts that are missing, too long, or numbers where no bit can be
func VC_C07_badpart(s string, r string, i int, form byte, t byte) {
	vcRequires(vcNamePart(s) && len(r) > 255 && len(r) < 100000 && vcForall(0, len(r), func(i int) bool { return r[i] != '.' && r[i] != ']' && r[i] != '[' }) && (r[0] < '0' || r[0] > '9') && r[0] != '+' && r[0] != '-')
	name := ""
	switch form % 8 {
	case 0:
		name = ""
	case 1:
		name = s + "."
	case 2:
		name = "." + s
	case 3:
		name = s + ".." + s
	case 4:
		name = s + "." + r
	case 5:
		name = "[" + strconv.Itoa(i) + "]"
	case 6:
		name = s + "." + strconv.Itoa(i) + "." + s
	case 7:
		name = strconv.Itoa(i)
	}
	_, err := vcIOIClient().newIOI(name, CIPType(t))
	vcEnsures("a name with a missing, over-long or misplaced part is refused", err != nil)
}

// what was encoded before does not matter
func VC_C07_history(s string, r string, t byte, u byte) {
	vcRequires(vcNamePart(s) && vcNamePart(r))
	cl := vcIOIClient()
	a, err := cl.newIOI(s, CIPType(t))
	vcEnsures("the first is accepted", err == nil)
	c, err := cl.newIOI(r, CIPType(u))
	vcEnsures("another is accepted", err == nil)
	vcEnsures("another has its own path", len(c.Bytes()) == vcSymLen(r) && vcSymAt(c.Bytes(), 0, strings.ToLower(r)))
	b, err := cl.newIOI(s, CIPType(u))
	vcEnsures("the same name is encoded the same way again", err == nil && !b.BitAccess && len(b.Bytes()) == vcSymLen(s) && vcSymAt(b.Bytes(), 0, strings.ToLower(s)))
	vcEnsures("what was returned before is not changed", len(a.Bytes()) == vcSymLen(s) && vcSymAt(a.Bytes(), 0, strings.ToLower(s)))
}

// a bit stays a bit and an element of another index stays another
func VC_C07_history_index(s string, i int, j int, bit int) {
	vcRequires(vcNamePart(s) && i >= 0 && i < 256 && j >= 0 && j < 256 && bit >= 0 && bit < 32)
	cl := vcIOIClient()
	n := vcSymLen(s)
	_, err := cl.newIOI(s+"["+strconv.Itoa(i)+"]", CIPTypeDINT)
	vcEnsures("the first is accepted", err == nil)
	x, err := cl.newIOI(s+"."+strconv.Itoa(bit), CIPTypeDINT)
	vcEnsures("a bit is accepted after an element", err == nil && x.BitAccess && x.BitPosition == bit && len(x.Bytes()) == n)
	y, err := cl.newIOI(s, CIPTypeDINT)
	vcEnsures("the whole is accepted after its parts", err == nil && !y.BitAccess && len(y.Bytes()) == n && vcSymAt(y.Bytes(), 0, strings.ToLower(s)))
	z, err := cl.newIOI(s+"["+strconv.Itoa(j)+"]", CIPTypeDINT)
	vcEnsures("another element is accepted", err == nil && !z.BitAccess && len(z.Bytes()) == n+2 && vcSymAt(z.Bytes(), 0, strings.ToLower(s)) && vcElemAt(z.Bytes(), n, j))
}

// what the encoder produced is read back by the server, which leaves what follows alone
func VC_C07_decode(s string, i int, rest []byte) {
	vcRequires(vcNamePart(s) && i >= 0 && i < 1<<32)
	want := s + "[" + strconv.Itoa(i) + "]"
	p, err := marshalIOIPart(s)
	vcRequires(err == nil)
	p = append(p, CIPElement(i).Bytes()...)
	it := &CIPItem{Data: append(append([]byte{}, p...), rest...)}
	got, err := readTagPath(it, byte(len(p)/2))
	vcEnsures("the path is read", err == nil)
	vcEnsures("the path is read as the name it encodes", got == want)
	vcEnsures("what follows the path is left", it.Pos == len(p) && len(it.Data) == len(p)+len(rest))
}

func VC_C07_decode_member(s string, r string, rest []byte) {
	vcRequires(vcNamePart(s) && vcNamePart(r) && len(s)+len(r) < 500)
	p, err := marshalIOIPart(s)
	vcRequires(err == nil)
	q, err := marshalIOIPart(r)
	vcRequires(err == nil)
	p = append(p, q...)
	it := &CIPItem{Data: append(append([]byte{}, p...), rest...)}
	got, err := readTagPath(it, byte(len(p)/2))
	vcEnsures("the path is read", err == nil)
	vcEnsures("the path is read as the name it encodes", got == s+"."+r)
	vcEnsures("what follows the path is left", it.Pos == len(p) && len(it.Data) == len(p)+len(rest))
}

// a path that ends within a segment, or has an index first or a segment that is no part of a name, is refused
func VC_C07_decode_bad(s string, form byte, x, y byte, rest []byte) {
	vcRequires(vcNamePart(s))
	p, err := marshalIOIPart(s)
	vcRequires(err == nil)
	switch form {
	case 0:
		p = append(p, 0x29, 0)
	case 1:
		p = append(p, 0x2A, 0)
	case 2:
		p = append(p, 0x2A, 0, x, y)
	case 3:
		p = append(p, 0x91, 1)
	case 4:
		vcRequires(x != 0x28)
		vcRequires(x != 0x29)
		vcRequires(x != 0x2A)
		vcRequires(x != 0x91)
		p = append(p, x, y)
	case 5:
		p = append([]byte{0x28, x}, p...)
	case 6:
		p = p[:len(p)-2]
	default:
		vcRequires(int(form) >= 7)
		p = append(p, 0x91, 3, x, y)
	}
	it := &CIPItem{Data: append(append([]byte{}, p...), rest...)}
	n := len(it.Data)
	_, err = readTagPath(it, byte(len(p)/2))
	if form == 6 && len(s) <= 2 {
		return // nothing of the path is left, or not its start
	}
	vcEnsures("the path is refused", err != nil)
	vcEnsures("and what follows it isn't read", it.Pos == 0 && len(it.Data) == n)
}

// ---- tags the controller has listed

func vcInstSeg(v uint32) []byte {
	if v < 256 {
		return []byte{0x24, byte(v)}
	}
	if v < 65536 {
		return []byte{0x25, 0, byte(v), byte(v >> 8)}
	}
	return []byte{0x26, 0, byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}
}

// a listed tag is addressed by its instance where the firmware can, every other by its name
func VC_C07_known(fw uint16, inst, pid uint32, parent bool, pname string, t, dt byte, upper, other bool) {
	vcRequires(fw > 0)
	vcRequires(len(pname) <= 200)
	cl := &Client{knownFirmware: int(fw)}
	kt := KnownTag{Name: "MyTag", Instance: CIPInstance(inst), Info: TagInfo{Type: CIPType(t)}}
	want := []byte(nil)
	if parent {
		kt.Parent = &KnownProgram{Name: pname, ID: CIPInstance(pid)}
		if pid == 0 {
			n := 8 + len(pname)
			want = append([]byte{0x91, byte(n)}, ("Program:" + pname)...)
			if n%2 == 1 {
				want = append(want, 0)
			}
		} else {
			want = append([]byte{0x20, 0x68}, vcInstSeg(pid)...)
		}
	}
	want = append(append(want, 0x20, 0x6B), vcInstSeg(inst)...)
	cl.KnownTags = map[string]KnownTag{"mytag": kt}
	name := "mytag"
	if upper {
		name = "MyTaG"
	}
	if other {
		name += "s"
	}
	ioi, err := cl.newIOI(name, CIPType(dt))
	vcEnsures("the tag has a path", err == nil)
	switch {
	case fw > 20 && !other && t != 0 && CIPType(dt) != CIPTypeStruct && CIPType(dt) != CIPTypeUnknown && CIPType(dt) != CIPTypeSTRING:
		vcEnsures("a listed tag is addressed by its instance", vcBytesEq(ioi.Buffer, want))
	case other:
		vcEnsures("a tag that was not listed is addressed by its name", vcBytesEq(ioi.Buffer, []byte("\x91\x06mytags")))
	case fw <= 20:
		vcEnsures("old firmware needs the name", vcBytesEq(ioi.Buffer, []byte("\x91\x05mytag\x00")))
	default:
		// by name or by instance: both denote the tag
		vcEnsures("a tag is addressed by its name or instance", vcBytesEq(ioi.Buffer, want) || vcBytesEq(ioi.Buffer, []byte("\x91\x05mytag\x00")))
	}
	vcEnsures("the whole tag is addressed", !ioi.BitAccess)
}

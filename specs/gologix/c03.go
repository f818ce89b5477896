package gologix

// C03: building an item.

func VC_C03_write(data []byte, p []byte) {
	it := &CIPItem{Data: data}
	old := append([]byte{}, data...)
	n, err := it.Write(p)
	vcEnsures("all bytes are taken", n == len(p) && err == nil)
	vcEnsures("what was there stays and the new bytes follow", len(it.Data) == len(old)+len(p) && vcBytesEq(it.Data[:len(old)], old) && vcBytesEq(it.Data[len(old):], p))
	vcEnsures("the header length is the data length", int(it.Header.Length) == len(it.Data) || len(it.Data) > 65535)
	vcEnsures("the read position does not move", it.Pos == 0)
}

func vcAppended(it *CIPItem, data []byte, n int) bool {
	return len(it.Data) == len(data)+n && vcBytesEq(it.Data[:len(data)], data) && it.Pos == 0
}
func vcHdrLen(it *CIPItem) bool {
	return int(it.Header.Length) == len(it.Data) || len(it.Data) > 65535
}

func VC_C03_scalars(data []byte, a byte, b uint16, c uint32, d uint64, e int8, f int16, g int32, h int64, i bool) {
	it := &CIPItem{Data: append([]byte{}, data...)}
	err := it.Serialize(a, b, c, d, e, f, g, h, i)
	vcEnsures("scalars are accepted", err == nil)
	vcEnsures("scalars are appended", vcAppended(it, data, 31) && vcHdrLen(it))
	n := len(data)
	o := it.Data
	ib := byte(0)
	if i {
		ib = 1
	}
	vcEnsures("scalars are little endian, unpadded, in argument order", o[n] == a && vcLE(o, n+1, 2) == uint64(b) && vcLE(o, n+3, 4) == uint64(c) && vcLE(o, n+7, 8) == d &&
		o[n+15] == byte(e) && vcLE(o, n+16, 2) == uint64(uint16(f)) && vcLE(o, n+18, 4) == uint64(uint32(g)) && vcLE(o, n+22, 8) == uint64(h) && o[n+30] == ib)
}

type vcRec struct {
	A uint16
	B byte
	C int32
	D [3]byte
	E uint64
}

func VC_C03_struct(data []byte, r vcRec, raw []byte) {
	it := &CIPItem{Data: append([]byte{}, data...)}
	err := it.Serialize(r, raw)
	n := len(data)
	vcEnsures("a structure and bytes are appended", err == nil && vcAppended(it, data, 18+len(raw)) && vcHdrLen(it))
	o := it.Data
	vcEnsures("fields are little endian, unpadded, in order", vcLE(o, n, 2) == uint64(r.A) && o[n+2] == r.B && vcLE(o, n+3, 4) == uint64(uint32(r.C)) &&
		o[n+7] == r.D[0] && o[n+8] == r.D[1] && o[n+9] == r.D[2] && vcLE(o, n+10, 8) == r.E)
	vcEnsures("raw bytes are copied", vcBytesEq(o[n+18:], raw))
}

func VC_C03_serializable(data []byte, cls uint32, raw []byte) {
	it := &CIPItem{Data: append([]byte{}, data...)}
	s := CIPClass(cls)
	err := it.Serialize(s, raw)
	sb := s.Bytes()
	vcEnsures("a self-serializing value contributes exactly its bytes", err == nil && vcAppended(it, data, len(sb)+len(raw)) && vcHdrLen(it) &&
		vcBytesEq(it.Data[len(data):len(data)+len(sb)], sb) && vcBytesEq(it.Data[len(data)+len(sb):], raw))
}

// byte j of the slot of a string: a 32 bit length, never beyond the 84 bytes carried, then 84 zero padded bytes
//vc:pure
func vcSlotByte(s string, j int) byte {
	l := len(s)
	if l > 84 {
		l = 84
	}
	if j == 0 {
		return byte(l)
	}
	if j >= 4 && j-4 < l {
		return s[j-4]
	}
	return 0
}

// j is an arbitrary byte of the slot
func VC_C03_string(data []byte, s string, tail uint16, j int) {
	vcRequires(j >= 0 && j < 88 && len(s) < 1<<31)
	it := &CIPItem{Data: append([]byte{}, data...)}
	err := it.Serialize(s, tail)
	n := len(data)
	vcEnsures("a string is accepted", err == nil)
	vcEnsures("a string takes one 88 byte slot", vcAppended(it, data, 90) && vcHdrLen(it))
	vcEnsures("the slot holds the length and the zero padded text", it.Data[n+j] == vcSlotByte(s, j))
	vcEnsures("what follows is not displaced", vcLE(it.Data, n+88, 2) == uint64(tail))
}

// idx is an arbitrary element, j an arbitrary byte of its slot
func VC_C03_strings(data []byte, ss []string, idx, j int, tail uint16) {
	vcRequires(len(ss) <= 1000 && idx >= 0 && idx < len(ss) && j >= 0 && j < 88 && len(ss[idx]) < 1<<31)
	it := &CIPItem{Data: append([]byte{}, data...)}
	err := it.Serialize(ss, tail)
	n := len(data)
	vcEnsures("strings are accepted", err == nil)
	vcEnsures("every string takes one 88 byte slot", vcAppended(it, data, 88*len(ss)+2) && vcHdrLen(it))
	vcEnsures("slot i holds string i", it.Data[n+88*idx+j] == vcSlotByte(ss[idx], j))
	vcEnsures("what follows is not displaced", vcLE(it.Data, n+88*len(ss), 2) == uint64(tail))
}

//vc:inv (*gologix.CIPItem).Serialize#1
//vc:for VC_C03_strings
func vcInvStrings(item *CIPItem, k int, c_data []byte, c_ss []string, c_idx, c_j int) bool {
	n := len(c_data)
	return item.Pos == 0 && len(item.Data) == n+88*k && vcBytesEq(item.Data[:n], c_data) && (c_idx >= k || item.Data[n+88*c_idx+c_j] == vcSlotByte(c_ss[c_idx], c_j)) && (k == 0 || vcHdrLen(item))
}

func VC_C03_strings_empty(data []byte, tail uint16) {
	it := &CIPItem{Data: append([]byte{}, data...)}
	err := it.Serialize([]string{}, []string(nil), tail)
	vcEnsures("no strings contribute nothing", err == nil && vcAppended(it, data, 2) && vcLE(it.Data, len(data), 2) == uint64(tail))
}

func VC_C03_new(id uint16, v uint32) {
	it := newItem(CIPItemID(id), nil)
	vcEnsures("a new item without contents is empty", it.Header.ID == CIPItemID(id) && it.Header.Length == 0 && len(it.Data) == 0 && it.Pos == 0)
	it = newItem(CIPItemID(id), v)
	vcEnsures("a new item holds its contents", it.Header.ID == CIPItemID(id) && it.Header.Length == 4 && len(it.Data) == 4 && vcLE(it.Data, 0, 4) == uint64(v) && it.Pos == 0)
}

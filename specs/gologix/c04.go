package gologix

import "bytes"

// C04: item lists. offs is ghost: where each item starts (and where the list ends).

// idx is an arbitrary item, j an arbitrary byte of its data
func VC_C04_serialize(items []CIPItem, offs []int, idx, j int) {
	n := len(items)
	vcRequires(n <= 1000 && len(offs) == n+1 && offs[0] == 8)
	vcRequires(vcForall(0, n, func(i int) bool { return len(items[i].Data) <= 65535 && int(items[i].Header.Length) == len(items[i].Data) }))
	vcRequires(vcForall(0, n, func(i int) bool { return offs[i+1] == offs[i]+4+len(items[i].Data) }))
	vcRequires(idx >= 0 && idx < n && j >= 0 && j < len(items[idx].Data))
	p, err := serializeItems(items)
	vcEnsures("a list whose parts fit is built", err == nil)
	b := *p
	vcEnsures("the list starts with a zero handle, a zero timeout and the item count", vcLE(b, 0, 4) == 0 && vcLE(b, 4, 2) == 0 && int(vcLE(b, 6, 2)) == n)
	o := offs[idx]
	vcEnsures("an item starts with its type and its length, after the items before it", o+4+len(items[idx].Data) <= len(b) && vcLE(b, o, 2) == uint64(items[idx].Header.ID) && int(vcLE(b, o+2, 2)) == len(items[idx].Data))
	vcEnsures("the item's data follow", b[o+4+j] == items[idx].Data[j])
	vcEnsures("nothing follows the last item", len(b) == offs[n])
}

func VCFIX_C04_serialize(items *[]CIPItem, offs *[]int, idx, j *int) {
	*offs = []int{8}
	for i := range *items {
		it := &(*items)[i]
		it.Header.Length = uint16(len(it.Data))
		*offs = append(*offs, (*offs)[i]+4+len(it.Data))
	}
	for *idx = 0; *idx < len(*items)-1 && (*j%3 != 0 || len((*items)[*idx].Data) == 0); *idx++ {
		*j /= 3
	}
	if *idx < len(*items) && len((*items)[*idx].Data) > 0 {
		*j = (*j&0xFFFF) % len((*items)[*idx].Data)
	}
}

//vc:inv gologix.serializeItems#0
//vc:for VC_C04_serialize
func vcInvSerializeItems(b *bytes.Buffer, k int, c_items []CIPItem, c_offs []int, c_idx, c_j int) bool {
	x := b.Bytes()
	if k < 0 || k > len(c_items) || len(x) != c_offs[k] || len(x) < 8 || len(x) > 8+k*70000 {
		return false
	}
	if vcLE(x, 0, 4) != 0 || vcLE(x, 4, 2) != 0 || int(vcLE(x, 6, 2)) != len(c_items) {
		return false
	}
	if c_idx >= k {
		return true
	}
	o := c_offs[c_idx]
	it := c_items[c_idx]
	return o >= 8 && o+4+len(it.Data) <= len(x) && vcLE(x, o, 2) == uint64(it.Header.ID) && int(vcLE(x, o+2, 2)) == len(it.Data) && x[o+4+c_j] == it.Data[c_j]
}

func VC_C04_too_long(items []CIPItem, extra byte) {
	vcRequires(len(items) == 2 && len(items[0].Data) <= 100 && len(items[1].Data) > 65535)
	_, err := serializeItems(items)
	vcEnsures("data that do not fit the length field are refused", err != nil)
}

// where the items of a list lie, when they are all within the received bytes
func vcItemOffsets(in []byte, offs []int) {
	vcRequires(len(in) >= 2)
	n := int(vcLE(in, 0, 2))
	vcRequires(len(offs) == n+1 && offs[0] == 2)
	vcRequires(vcForall(0, n, func(i int) bool {
		return offs[i] < 2 || offs[i] > len(in) || len(in)-offs[i] < 4 || offs[i+1] == offs[i]+4+int(vcLE(in, offs[i]+2, 2))
	}))
}

func VC_C04_read_complete(in []byte, offs []int) {
	vcItemOffsets(in, offs)
	vcRequires(vcForall(0, int(vcLE(in, 0, 2)), func(i int) bool { return offs[i] >= 2 && offs[i] <= len(in) && len(in)-offs[i] >= 4 && offs[i+1] <= len(in) }))
	_, err := readItems(bytes.NewBuffer(in))
	vcEnsures("a complete list is accepted", err == nil)
}

func VC_C04_read_count(in []byte, offs []int) {
	vcItemOffsets(in, offs)
	r := bytes.NewBuffer(in)
	items, err := readItems(r)
	if err != nil {
		return
	}
	n := int(vcLE(in, 0, 2))
	vcEnsures("as many items as announced, all within the received bytes", len(items) == n && offs[n] <= len(in))
	vcEnsures("exactly the list is consumed", r.Len() == len(in)-offs[n])
}

//vc:inv gologix.readItems#0
//vc:for VC_C04_read*
func vcInvReadItems(r *bytes.Buffer, items []CIPItem, k int, c_in []byte, c_offs []int) bool {
	return k >= 0 && k <= len(items) && len(items) == len(c_offs)-1 && c_offs[k] >= 2 && c_offs[k] <= len(c_in) && r.Len() == len(c_in)-c_offs[k]
}

// idx is an arbitrary item
//
//vc:verify gologix.readItems
func VC_C04_read_header(in []byte, offs []int, idx int) {
	vcItemOffsets(in, offs)
	items, err := readItems(bytes.NewBuffer(in))
	if err != nil || idx < 0 || idx >= len(items) {
		return
	}
	o := offs[idx]
	vcEnsures("an item has the type and length transmitted", uint64(items[idx].Header.ID) == vcLE(in, o, 2) && uint64(items[idx].Header.Length) == vcLE(in, o+2, 2) && len(items[idx].Data) == int(vcLE(in, o+2, 2)) && items[idx].Pos == 0)
}

//vc:inv gologix.readItems#0
//vc:for VC_C04_read_header
func vcInvReadItemsHeader(items []CIPItem, k int, c_in []byte, c_offs []int, c_idx int) bool {
	if c_idx < 0 || c_idx >= k {
		return c_idx < 0 || c_idx >= len(items) || items[c_idx].Pos == 0
	}
	o := c_offs[c_idx]
	if o < 2 || o > len(c_in) || len(c_in)-o < 4 {
		return false
	}
	it := items[c_idx]
	return uint64(it.Header.ID) == vcLE(c_in, o, 2) && uint64(it.Header.Length) == vcLE(c_in, o+2, 2) && len(it.Data) == int(vcLE(c_in, o+2, 2)) && it.Pos == 0
}

// idx is an arbitrary item, j an arbitrary byte of its data
func VC_C04_read_data(in []byte, offs []int, idx, j int) {
	vcItemOffsets(in, offs)
	items, err := readItems(bytes.NewBuffer(in))
	if err != nil || idx < 0 || idx >= len(items) || j < 0 || j >= len(items[idx].Data) {
		return
	}
	vcEnsures("an item has the data transmitted", items[idx].Data[j] == in[offs[idx]+4+j])
}

//vc:inv gologix.readItems#0
//vc:for VC_C04_read_data
func vcInvReadItemsData(items []CIPItem, k int, c_in []byte, c_offs []int, c_idx, c_j int) bool {
	if c_idx < 0 || c_idx >= k {
		return true
	}
	o := c_offs[c_idx]
	it := items[c_idx]
	return o >= 2 && o <= len(c_in) && len(it.Data) <= 65535 && o+4+len(it.Data) <= len(c_in) && (c_j < 0 || c_j >= len(it.Data) || it.Data[c_j] == c_in[o+4+c_j])
}

func VCFIX_C04_read_complete(in *[]byte, offs *[]int) { vcFixItemList(in, offs) }

func VCFIX_C04_read_count(in *[]byte, offs *[]int) { vcFixItemList(in, offs) }

func VCFIX_C04_read_header(in *[]byte, offs *[]int, idx *int) { vcFixItemList(in, offs) }

func VCFIX_C04_read_data(in *[]byte, offs *[]int, idx, j *int) { vcFixItemList(in, offs) }

// for concrete runs only: turn arbitrary bytes into an often well formed list and compute the offsets
func vcFixItemList(in *[]byte, offs *[]int) {
	b := *in
	if len(b) < 2 {
		return
	}
	if len(b) > 12 && b[len(b)-1]%4 != 0 {
		n := int(b[2])%4 + 1
		b[0], b[1] = byte(n), 0
		p := 2
		for i := 0; i < n && p+4 <= len(b); i++ {
			l := int(b[p+2]) % 7
			if left := len(b) - p - 4; i == n-1 && b[len(b)-1]%3 == 0 || l > left {
				l = left
			}
			b[p+2], b[p+3] = byte(l), byte(l>>8)
			p += 4 + l
		}
	}
	n := int(vcLE(b, 0, 2))
	*offs = make([]int, n+1)
	(*offs)[0] = 2
	for i := 0; i < n; i++ {
		if p := (*offs)[i]; p >= 2 && p+4 <= len(b) {
			(*offs)[i+1] = p + 4 + int(vcLE(b, p+2, 2))
		}
	}
}

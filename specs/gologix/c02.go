package gologix

import (
	"io"
	"math"
)

// C02: sequential reads of a received item.

func vcItem(data []byte, pos int) *CIPItem {
	vcRequires(pos >= 0 && pos <= len(data))
	return &CIPItem{Header: cipItemHeader{ID: cipItem_ConnectedData, Length: uint16(len(data))}, Data: data, Pos: pos}
}

// little endian value of the k bytes at p
func vcLE(d []byte, p int, k int) uint64 {
	v := uint64(0)
	for i := k - 1; i >= 0; i-- {
		v = v<<8 | uint64(d[p+i])
	}
	return v
}

func vcCursor(it *CIPItem, data []byte, pos int, k int, err error, val uint64) {
	if len(data)-pos < k {
		vcEnsures("reading past the end is an error", err != nil)
		vcEnsures("a failed read does not move", it.Pos == pos)
		vcEnsures("a failed read returns zero", val == 0)
	} else {
		vcEnsures("a read within the data succeeds", err == nil)
		vcEnsures("the value is the little endian bytes at the cursor", val == vcLE(data, pos, k))
		vcEnsures("the cursor advances by the size read", it.Pos == pos+k)
	}
	vcEnsures("the data is unchanged", vcBytesEq(it.Data, data))
}

func VC_C02_byte(data []byte, pos int) {
	it := vcItem(data, pos)
	v, err := it.Byte()
	vcCursor(it, data, pos, 1, err, uint64(v))
}
func VC_C02_uint16(data []byte, pos int) {
	it := vcItem(data, pos)
	v, err := it.Uint16()
	vcCursor(it, data, pos, 2, err, uint64(v))
}
func VC_C02_int16(data []byte, pos int) {
	it := vcItem(data, pos)
	v, err := it.Int16()
	vcCursor(it, data, pos, 2, err, uint64(uint16(v)))
}
func VC_C02_uint32(data []byte, pos int) {
	it := vcItem(data, pos)
	v, err := it.Uint32()
	vcCursor(it, data, pos, 4, err, uint64(v))
}
func VC_C02_int32(data []byte, pos int) {
	it := vcItem(data, pos)
	v, err := it.Int32()
	vcCursor(it, data, pos, 4, err, uint64(uint32(v)))
}
func VC_C02_uint64(data []byte, pos int) {
	it := vcItem(data, pos)
	v, err := it.Uint64()
	vcCursor(it, data, pos, 8, err, v)
}
func VC_C02_int64(data []byte, pos int) {
	it := vcItem(data, pos)
	v, err := it.Int64()
	vcCursor(it, data, pos, 8, err, uint64(v))
}
func VC_C02_float32(data []byte, pos int) {
	it := vcItem(data, pos)
	v, err := it.Float32()
	vcCursor(it, data, pos, 4, err, uint64(math.Float32bits(v)))
}
func VC_C02_float64(data []byte, pos int) {
	it := vcItem(data, pos)
	v, err := it.Float64()
	vcCursor(it, data, pos, 8, err, math.Float64bits(v))
}

func VC_C02_read(data []byte, pos int, buf []byte) {
	it := vcItem(data, pos)
	n, err := it.Read(buf)
	if pos == len(data) {
		vcEnsures("at the end nothing is delivered", n == 0 && err == io.EOF && it.Pos == pos)
		return
	}
	want := len(data) - pos
	if len(buf) < want {
		want = len(buf)
	}
	vcEnsures("as much as fits is delivered", n == want && err == nil)
	vcEnsures("the bytes delivered are those at the cursor", vcBytesEq(buf[:n], data[pos:pos+n]))
	vcEnsures("the cursor advances by the bytes delivered", it.Pos == pos+n)
	vcEnsures("the data is unchanged", vcBytesEq(it.Data, data))
}

func VC_C02_rest_reset(data []byte, pos int) {
	it := vcItem(data, pos)
	vcEnsures("rest is everything from the cursor on", vcBytesEq(it.Rest(), data[pos:]))
	vcEnsures("rest does not move", it.Pos == pos)
	it.Reset()
	vcEnsures("reset returns to the start and keeps the data", it.Pos == 0 && vcBytesEq(it.Data, data))
}

func VC_C02_deserialize(data []byte, pos int) {
	it := vcItem(data, pos)
	var v struct {
		A uint16
		B int32
		C byte
		D [2]uint16
	}
	err := it.DeSerialize(&v)
	if len(data)-pos < 11 {
		vcEnsures("a structure that is not all there is an error", err != nil)
		return
	}
	vcEnsures("structure read without error", err == nil && it.Pos == pos+11)
	vcEnsures("fields come in order, little endian, unpadded", uint64(v.A) == vcLE(data, pos, 2) && uint64(uint32(v.B)) == vcLE(data, pos+2, 4) &&
		v.C == data[pos+6] && uint64(v.D[0]) == vcLE(data, pos+7, 2) && uint64(v.D[1]) == vcLE(data, pos+9, 2))
}

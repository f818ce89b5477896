id='s03'; prop='C02'
needs='an item that ends one byte short of a 32 bit value'
breaks='reading a 32 bit integer with exactly three bytes left panics instead of returning an error'
edits=[('items.go','''func (item *CIPItem) Int32() (int32, error) {
	if len(item.Data) <= item.Pos+3 {''','''func (item *CIPItem) Int32() (int32, error) {
	if len(item.Data) < item.Pos+3 {''')]
demo='''package gologix
import "testing"
func TestDemo(t *testing.T) {
	defer func() { if r := recover(); r != nil { t.Fatal(r) } }()
	it := CIPItem{Data: []byte{1,2,3,4,5,6,7}}
	if v, err := it.Int32(); err != nil || v != 0x04030201 { t.Fatal(v, err) }
	if v, err := it.Int32(); err == nil || v != 0 || it.Pos != 4 { t.Fatal(v, err, it.Pos) }
}
'''

id='s01'; prop='C01'
needs='an instance number of exactly 255 (the largest that fits the 8 bit format)'
breaks='the instance segment for 255 is sent in the 16 bit format while its reported length is that of the 8 bit format'
edits=[('cip_definitions.go','''func (p CIPInstance) Bytes() []byte {
	if p < 256 {''','''func (p CIPInstance) Bytes() []byte {
	if p < 255 {''')]
demo='''package gologix
import "testing"
func TestDemo(t *testing.T) {
	for _, v := range []CIPInstance{0, 1, 254, 255, 256, 65535, 65536} {
		if len(v.Bytes()) != v.Len() { t.Fatalf("instance %d: %x but length %d", v, v.Bytes(), v.Len()) }
	}
}
'''

id='s43'; prop='C22'
needs='a tag whose template id needs all twelve bits'
breaks='the tag is listed with another template'
edits=[('listalltags.go','''	template_mask := uint16(0b0000_1111_1111_1111) // spec says first 11 bits, but built-in types use 12th.
''','''	template_mask := uint16(0b0000_0111_1111_1111) // the first 11 bits
''')]
demo='''package gologix
import "testing"
func TestDemo(t *testing.T) {
	f := TagInfo{Type: 0xCE, TypeInfo: 0x8F}
	if id := f.Template_ID(); id != 0xFCE { t.Fatalf("%X", id) }
}
'''

id='s25'; prop='C12'
needs='a write of a string that claims to be 83 or 84 bytes long'
breaks='the server crashes'
edits=[('server_connected.go','''			if slen > cipStringDataLen {
				slen = cipStringDataLen
			}
''','''			// the two bytes of padding count as well
			if slen > cipStringDataLen+2 {
				slen = cipStringDataLen
			}
''')]
demo='''package gologix
import "testing"
func TestDemo(t *testing.T) {
	d := append([]byte{0xA0, 2, 0xCE, 0x0F, 1, 0, 84, 0, 0, 0}, make([]byte, 84)...)
	v, err := parseWriteValues(&CIPItem{Data: d})
	if err != nil || len(v) != 1 || len(v[0].(string)) != 82 { t.Fatal(v, err) }
}
'''

id='s22'; prop='C17'
needs='an announcement cut off right before its last byte, the state'
breaks='the truncated announcement is accepted with a made up state'
edits=[('listidentity.go','''	err = binary.Read(buf, binary.LittleEndian, &s.State)
	if err != nil {
		return fmt.Errorf("problem reading list identity response. field State %w", err)
	}
''','''	// devices without the state attribute leave it at its default
	s.State = 0xFF
	if buf.Len() > 0 {
		s.State, _ = buf.ReadByte()
	}
''')]
demo='''package gologix
import "testing"
func TestDemo(t *testing.T) {
	d := make([]byte, 35)
	d[32], d[33] = 2, 'a'
	d[34] = 'b'
	var r listIdentityResponeBody
	if err := r.ParseFromBytes(d); err == nil { t.Fatal("accepted") }
}
'''

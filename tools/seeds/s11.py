id='s11'; prop='C13'
needs='a services reply whose item is cut in the service name'
breaks='the name is taken from the item without a length check: the client panics'
edits=[('listservices.go','''	name := make([]byte, 16)
	err = binary.Read(buf, binary.LittleEndian, &name)
	if err != nil {
		return fmt.Errorf("problem reading list services response. field Name %w", err)
	}
''','''	if buf.Len() == 0 {
		return fmt.Errorf("problem reading list services response. field Name is missing")
	}
	name := data[len(data)-buf.Len():][:16]
''')]
demo='''package gologix
import "testing"
func TestDemo(t *testing.T) {
	d := make([]byte, 12, 12)
	s := CIPListService{}
	if s.ParseFromBytes(d) == nil { t.Fatal("no error") }
}
'''

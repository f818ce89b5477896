id='s13'; prop='C08'
needs='writing a list of more than 255 elements'
breaks='the element count of the request is truncated to a byte'
edits=[('write.go','''		elements = uint16(v.Len())
''','''		elements = uint16(byte(v.Len()))
''')]
demo='''package gologix
import ("testing"; "net"; "io"; "log/slog")
'''+HELP+'''
func TestDemo(t *testing.T) {
	var req []byte
	c := demoClient(func(r []byte) []byte { req = r; return demoReply(0, 0, 0xCD, 0, 0, 0) })
	if err := c.Write("tag", make([]int16, 300)); err != nil { t.Fatal(err) }
	if len(req) != 58+600 || int(req[56])|int(req[57])<<8 != 300 { t.Fatal(len(req), req[:60]) }
}
'''

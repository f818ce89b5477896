id='s17'; prop='C10'
needs='a batch that reads a bit above 7 of an integer tag'
breaks='the tag is given bit n mod 8 of the value in its reply'
edits=[('read.go','''				val, err := getBit(rHdr.Type, value, iois[i].BitPosition)
''','''				val, err := getBit(rHdr.Type, value, iois[i].BitPosition&7)
''')]
demo='''package gologix
import ("testing"; "net"; "io"; "log/slog")
'''+HELP+'''
func TestDemo(t *testing.T) {
	c := demoClient(func(r []byte) []byte { return demoReply(0, 0, 0x8A, 0, 0, 0, 1, 0, 4, 0, 0xCC, 0, 0, 0, byte(CIPTypeDINT), 0, 0, 0x20, 0, 0) })
	v, err := c.ReadList([]string{"tag.13"}, []any{false}, []int{1})
	if err != nil { t.Fatal(err) }
	if v[0] != true { t.Fatal(v[0]) }
}
'''

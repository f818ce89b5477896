id='s15'; prop='C09'
needs='an error reply without extended status that carries type and data'
breaks='an error status without extended status is taken for success'
edits=[('read.go','''	} else if hdr2.Status[1] != 0 {
''','''	} else if hdr2.Status[1] != 0 && hdr2.Status[2] != 0 {
''')]
demo='''package gologix
import ("testing"; "net"; "io"; "log/slog")
'''+HELP+'''
func TestDemo(t *testing.T) {
	c := demoClient(func(r []byte) []byte { return demoReply(0, 0, 0xCC, 0, 0x1E, 0, byte(CIPTypeDINT), 0, 1, 2, 3, 4) })
	var v int32
	if err := c.Read("tag", &v); err == nil { t.Fatal("no error") }
}
'''

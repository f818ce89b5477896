id='s42'; prop='C09'
needs='an attribute whose id does not fit in 8 bits'
breaks='the path of the request announces one word less than it has'
edits=[('getattr.go','''	pl := class.Len() + instance.Len() + attr.Len()
	pl = pl / 2
''','''	// the attribute takes one word
	pl := (class.Len()+instance.Len())/2 + 1
''')]
demo='''package gologix
import ("testing"; "net"; "io"; "log/slog")
'''+HELP+'''
func TestDemo(t *testing.T) {
	var words byte
	c := demoClient(func(q []byte) []byte { words = q[47]; return demoReply(1, 0, 0x8E, 0, 0, 0, 5, 0) })
	if _, err := c.GetAttrSingle(CipObject_Identity, 1, 300); err != nil { t.Fatal(err) }
	if words != 4 { t.Fatal(words) }
}
'''

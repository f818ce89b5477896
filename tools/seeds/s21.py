id='s21'; prop='C22'
needs='a program tag whose instance is above 65535'
breaks='the tag is listed with the low 16 bits of its instance'
edits=[('listsubtags.go','''			Instance: CIPInstance(tag_hdr.InstanceID),
''','''			Instance: CIPInstance(uint16(tag_hdr.InstanceID)),
''')]
demo='''package gologix
import ("testing"; "net"; "io"; "log/slog")
'''+HELP+'''
func TestDemo(t *testing.T) {
	c := demoClient(func(r []byte) []byte { return demoReply(0, 0, 0xD5, 0, 0, 0, 5, 0, 2, 0, 1, 0, 'a', 0xC4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0) })
	l, err := c.ListSubTags(&KnownProgram{Name: "p"}, 1)
	if err != nil || len(l) != 1 { t.Fatal(err, l) }
	if l[0].Instance != 0x20005 { t.Fatal(l[0].Instance) }
}
'''

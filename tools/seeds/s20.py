id='s20'; prop='C22'
needs='a controller scoped tag with three dimensions'
breaks='the second dimension is listed as the size of the third when there is one'
edits=[('listalltags.go','''			kt.Array_Order = make([]int, 3)
			kt.Array_Order[2] = int(tag_ftr.Dimension3)
			kt.Array_Order[1] = int(tag_ftr.Dimension2)
''','''			kt.Array_Order = make([]int, 3)
			kt.Array_Order[2] = int(tag_ftr.Dimension3)
			kt.Array_Order[1] = int(tag_ftr.Dimension3)
''')]
demo='''package gologix
import ("testing"; "net"; "io"; "log/slog")
'''+HELP+'''
func TestDemo(t *testing.T) {
	c := demoClient(func(r []byte) []byte { return demoReply(0, 0, 0xD5, 0, 0, 0, 5, 0, 0, 0, 1, 0, 'a', 0xC4, 0, 2, 0, 0, 0, 3, 0, 0, 0, 4, 0, 0, 0) })
	if err := c.ListAllTags(2); err != nil { t.Fatal(err) }
	d := c.KnownTags["a"].Array_Order
	if len(d) != 3 || d[0] != 2 || d[1] != 3 || d[2] != 4 { t.Fatal(d) }
}
'''

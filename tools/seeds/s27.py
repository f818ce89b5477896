id='s27'; prop='C16'
needs='a tag whose name has an index before its last index, as in a list of structures'
breaks='the element is not found: writing it makes a new tag instead and reading the list does not show the value'
edits=[('server_router.go','''	open := strings.LastIndex(tag, "[")
''','''	open := strings.Index(tag, "[")
''')]
demo='''package gologix
import "testing"
func TestDemo(t *testing.T) {
	p := &MapTagProvider{Data: map[string]any{"s[1].v": []int32{1, 2, 3}}}
	if err := p.TagWrite("S[1].V[2]", int32(9)); err != nil { t.Fatal(err) }
	x, err := p.TagRead("s[1].v", 3)
	if err != nil { t.Fatal(err) }
	if l := x.([]int32); l[2] != 9 { t.Fatal(l) }
}
'''

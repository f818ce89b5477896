id='s14'; prop='C09'
needs='a tag delivered in at least three fragments of unequal size'
breaks='every fragment is assumed to have the size of the first, so the offsets asked for are wrong'
edits=[('read.go','''	accumulated := bytes.NewBuffer(append([]byte(nil), initialData...))
	for {
		offset := uint32(accumulated.Len())
''','''	accumulated := bytes.NewBuffer(append([]byte(nil), initialData...))
	// the controller fills every reply, so the fragments have the size of the first
	for offset := uint32(len(initialData)); ; offset += uint32(len(initialData)) {
''')]
demo='''package gologix
import ("testing"; "net"; "io"; "log/slog")
'''+HELP+'''
func TestDemo(t *testing.T) {
	sizes := []int{4, 4, 8, 4, 4}
	i, at := 0, 0
	c := demoClient(func(r []byte) []byte {
		if i > 0 && int(r[56])|int(r[57])<<8 != at { t.Errorf("fragment %d asked at %d instead of %d", i, r[56], at) }
		d := []byte{0, 0, 0xCC, 0, 6, 0, byte(CIPTypeDINT), 0}
		if i == len(sizes)-1 { d[4] = 0 }
		d = append(d, make([]byte, sizes[i])...)
		at += sizes[i]
		i++
		return demoReply(d...)
	})
	if err := c.Read("tag", make([]int32, 6)); err != nil { t.Fatal(err) }
}
'''

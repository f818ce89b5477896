id='s32'; prop='C11'
needs='an array of 16 bit numbers that starts at an odd multiple of two'
breaks='arrays are aligned to their size instead of the size of their elements'
edits=[('pack.go','''	if t.Kind() != reflect.Struct {
		return t.Align()
	}
''','''	if t.Kind() != reflect.Struct {
		if n := int(t.Size()); n == 1 || n == 2 || n == 4 {
			return n
		}
		return t.Align()
	}
''')]
demo='''package gologix
import ("testing"; "bytes")
func TestDemo(t *testing.T) {
	type S struct { A int16; B [2]int16 }
	var b bytes.Buffer
	n, err := Pack(&b, S{1, [2]int16{2, 3}})
	if err != nil || n != 6 || !bytes.Equal(b.Bytes(), []byte{1, 0, 2, 0, 3, 0}) { t.Fatal(n, err, b.Bytes()) }
}
'''

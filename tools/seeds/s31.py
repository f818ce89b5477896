id='s31'; prop='C11'
needs='data that ends exactly where a field of the structure starts'
breaks='the missing fields are silently left as they were instead of being an error'
edits=[('pack.go','''			err = binary.Read(r, p.Order(), refVal.Field(i).Addr().Interface())
			if err != nil {
				return
			}
''','''			err = binary.Read(r, p.Order(), refVal.Field(i).Addr().Interface())
			if err == io.EOF {
				return n, nil
			}
			if err != nil {
				return
			}
''')]
demo='''package gologix
import ("testing"; "bytes")
func TestDemo(t *testing.T) {
	type S struct { A int32; B int32 }
	for i := 0; i < 8; i++ {
		var s S
		if _, err := Unpack(bytes.NewBuffer(make([]byte, i)), &s); err == nil { t.Fatal("no error for", i, "bytes") }
	}
}
'''

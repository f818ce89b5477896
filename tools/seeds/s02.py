id='s02'; prop='C01'
needs='decoding a 16 bit class segment through a stream that is followed by more data, with a non-zero high byte'
breaks='the padding byte of a 16 bit class segment is not skipped, so the value is shifted and the stream is one byte off'
edits=[('cip_definitions.go','''		_, err = io.CopyN(io.Discard, r, 1) // skip the padding byte
		if err != nil {
			return fmt.Errorf("error skipping class padding byte: %w", err)
		}
		err = binary.Read(r, binary.LittleEndian, p)
''','''		var raw uint16
		err = binary.Read(r, binary.LittleEndian, &raw)
		if err == nil && raw&0xFF == 0 {
			var hi byte
			err = binary.Read(r, binary.LittleEndian, &hi)
			if hi == 0 {
				raw = raw >> 8
			} else {
				raw = raw>>8 | uint16(hi&0x7F)<<8
			}
		}
		*p = CIPClass(raw)
''')]
demo='''package gologix
import ("testing";"bytes")
func TestDemo(t *testing.T) {
	for _, v := range []CIPClass{0, 1, 255, 256, 0x1234, 0x8001, 0xFFFF} {
		var got CIPClass
		b := bytes.NewBuffer(append(v.Bytes(), 9, 9))
		if err := got.Read(b); err != nil || got != v || b.Len() != 2 { t.Fatalf("class %x decoded as %x, %d left, %v", v, got, b.Len(), err) }
	}
}
'''

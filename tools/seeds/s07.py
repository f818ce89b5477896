id='s07'; prop='C06'
needs='bit 63 of a LINT (or bit 15 of an INT, 31 of a DINT): only the sign bit is affected'
breaks='the sign bit of a signed integer always reads as false'
edits=[('types.go','''				mask := int64(1 << bitpos)
				masked := x & mask
				return masked != 0, nil''','''				mask := int64(1 << bitpos)
				masked := x & mask
				return masked > 0, nil''')]
demo='''package gologix
import "testing"
func TestDemo(t *testing.T) {
	for i := 0; i < 64; i++ {
		v, err := getBit(CIPTypeLINT, int64(-1), i)
		if err != nil || !v { t.Fatal(i, v, err) }
	}
}
'''

id='s08'; prop='C07'
needs='an index of exactly 255 in the second or a later dimension'
breaks='an index of 255 is encoded in the 16 bit form only when the index before it was larger than 255, otherwise wrapped to the first form with value 255; the path of [300,255] is that of another element'
edits=[('ioi.go','''			for _, order_size := range t.Array_Order {
''','''			wide := 0
			for _, order_size := range t.Array_Order {
				wide |= order_size
'''),('ioi.go','''				} else if order_size < 65536 {
''','''				} else if wide < 65536 {
''')]
needs='a multi dimensional index where an index below 65536 follows one above it, the later one at least 256'
breaks='the later index is encoded as a 32 bit segment: not the encoding the controller expects for it'
demo='''package gologix
import "testing"
func TestDemo(t *testing.T) {
	c := &Client{knownFirmware: 20}
	x, err := c.newIOI("a[70000,300]", CIPTypeDINT)
	if err != nil { t.Fatal(err) }
	want := []byte{0x91, 1, 'a', 0, 0x2A, 0, 0x70, 0x11, 1, 0, 0x29, 0, 0x2C, 1}
	if string(x.Bytes()) != string(want) { t.Fatalf("%x", x.Bytes()) }
}
'''

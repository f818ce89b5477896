id='s16'; prop='C10'
needs='a part of a batch reply with the partial transfer status'
breaks='the part of a value that did not fit is taken for the value'
edits=[('read.go','''		if rHdr.Status != uint16(CIPStatus_OK) {
			return nil, fmt.Errorf("problem reading %v. Status''','''		if rHdr.Status != uint16(CIPStatus_OK) && rHdr.Status != uint16(CIPStatus_PartialTransfer) {
			return nil, fmt.Errorf("problem reading %v. Status''')]
demo='''package gologix
import ("testing"; "net"; "io"; "log/slog")
'''+HELP+'''
func TestDemo(t *testing.T) {
	c := demoClient(func(r []byte) []byte { return demoReply(0, 0, 0x8A, 0, 0, 0, 1, 0, 4, 0, 0xCC, 0, 6, 0, byte(CIPTypeDINT), 0, 1, 2, 3, 4) })
	if _, err := c.ReadList([]string{"tag"}, []any{int32(0)}, []int{1}); err == nil { t.Fatal("no error") }
}
'''

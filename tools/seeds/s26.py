id='s26'; prop='C12'
needs='a request with a single item'
breaks='the server crashes'
edits=[('server.go','''	if len(items) != 2 {
		return fmt.Errorf("expected 2 items. got %v", len(items))
	}
	// item 0 is the connected data item
''','''	if len(items) > 2 {
		return fmt.Errorf("expected 2 items. got %v", len(items))
	}
	// item 0 is the connected data item
''')]
demo='''package gologix
import ("testing"; "bytes"; "log/slog")
func TestDemo(t *testing.T) {
	s := NewServer(NewRouter())
	s.ConnMgr.Init(slog.Default())
	s.ConnMgr.Add(&serverConnection{ID: 1, OT: 7, TO: 9, Path: []byte{1, 0}, Open: true})
	h := &serverTCPHandler{server: s}
	for n := byte(0); n < 2; n++ {
		b := append([]byte{0, 0, 0, 0, 0, 0, n, 0}, bytes.Repeat([]byte{0xA1, 0, 4, 0, 7, 0, 0, 0}, int(n))...)
		if err := h.sendUnitData(eipHeader{}, bytes.NewReader(b)); err == nil { t.Fatal(n) }
	}
}
'''

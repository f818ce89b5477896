id='s10'; prop='C13'
needs='an identity reply that announces no items'
breaks='the first item of a reply without items is used: the client panics'
edits=[('listidentity.go','''	if len(items) < 1 {
		return nil, fmt.Errorf("expected at least 1 item, got %d", len(items))
	}
''','''	if items == nil {
		return nil, fmt.Errorf("expected at least 1 item, got %d", len(items))
	}
''')]
demo='''package gologix
import ("testing"; "net"; "io"; "log/slog")
func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	c := NewClient("x"); c.conn = a; c.connStatus = connectionStatusConnected
	c.Logger = slog.New(slog.NewTextHandler(io.Discard, nil))
	go func() {
		h := make([]byte, 24); io.ReadFull(b, h)
		r := append(make([]byte, 24), 0, 0); r[0] = 0x63; r[2] = 2
		b.Write(r)
	}()
	if _, err := c.ListIdentity(); err == nil { t.Fatal("no error") }
}
'''

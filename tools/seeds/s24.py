id='s24'; prop='C14'
needs='a multiple service request with a fragmented write in it'
breaks='that part is answered with the service code of a plain write'
edits=[('server_connected.go','''			results[i] = []byte{byte(svc.AsResponse()), 0x00, 0x00, 0x00}
''','''			results[i] = []byte{byte(CIPService_Write.AsResponse()), 0x00, 0x00, 0x00}
''')]
SRV='''
func demoServer(t *testing.T) (net.Conn, *MapTagProvider) {
	a, b := net.Pipe()
	r := NewRouter()
	p := &MapTagProvider{Data: map[string]any{}}
	r.Handle([]byte{1, 0}, p)
	s := NewServer(r)
	s.Logger = slog.New(slog.NewTextHandler(io.Discard, nil))
	s.ConnMgr.Init(s.Logger)
	s.ConnMgr.Add(&serverConnection{ID: 1, OT: 7, TO: 9, Path: []byte{1, 0}, Open: true})
	h := &serverTCPHandler{conn: b, server: s}
	go h.serve(s)
	a.SetDeadline(time.Now().Add(5 * time.Second))
	return a, p
}
// one request on the connection
func demoRequest(d ...byte) []byte {
	u := []byte{0, 0, 0, 0, 0, 0, 2, 0, 0xA1, 0, 4, 0, 7, 0, 0, 0, 0xB1, 0, byte(len(d) + 2), byte((len(d) + 2) >> 8), 5, 0}
	u = append(u, d...)
	h := make([]byte, 24)
	h[0], h[2], h[3] = 0x70, byte(len(u)), byte(len(u)>>8)
	return append(h, u...)
}
func demoAnswer(c net.Conn) ([]byte, error) {
	h := make([]byte, 24)
	if _, err := io.ReadFull(c, h); err != nil { return nil, err }
	b := make([]byte, int(h[2])|int(h[3])<<8)
	_, err := io.ReadFull(c, b)
	return append(h, b...), err
}
'''
demo='''package gologix
import ("testing"; "net"; "io"; "log/slog"; "time")
'''+SRV+'''
func TestDemo(t *testing.T) {
	c, _ := demoServer(t)
	if _, err := c.Write(demoRequest(0x0A, 2, 0x20, 2, 0x24, 1, 1, 0, 4, 0, 0x53, 2, 0x91, 1, 'a', 0, 0xC3, 0, 1, 0, 1, 0)); err != nil { t.Fatal(err) }
	r, err := demoAnswer(c)
	if err != nil { t.Fatal(err) }
	if r[len(r)-4] != 0xD3 { t.Fatalf("%x", r) }
}
'''

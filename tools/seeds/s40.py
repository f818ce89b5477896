id='s40'; prop='C16'
needs='a cyclic connection that is closed while its sender waits for the next interval'
breaks='one more message goes out on the closed connection'
edits=[('server.go','''		<-t.C
		if !conn.Open {
			h.server.Logger.Warn("connection closed. no longer sending IO messages", "conn", *conn)
			return

		}
''','''		if !conn.Open {
			h.server.Logger.Warn("connection closed. no longer sending IO messages", "conn", *conn)
			return

		}
		<-t.C
''')]
demo='''package gologix
import ("testing"; "net"; "io"; "log/slog"; "time")
type demoAddrConn struct{ net.Conn }
type demoAddr struct{}
type demoIn struct{ A, B int16 }
func (demoAddr) Network() string { return "tcp" }
func (demoAddr) String() string { return "127.0.0.1:4321" }
func (demoAddrConn) RemoteAddr() net.Addr { return demoAddr{} }
func TestDemo(t *testing.T) {
	l, err := net.ListenPacket("udp", "127.0.0.1:2222")
	if err != nil { t.Skip(err) }
	defer l.Close()
	a, b := net.Pipe()
	defer a.Close()
	r := NewRouter()
	s := NewServer(r)
	s.Logger = slog.New(slog.NewTextHandler(io.Discard, nil))
	h := &serverTCPHandler{conn: demoAddrConn{b}, server: s}
	in, out := demoIn{1, 2}, demoIn{}
	p := &IOProvider[demoIn, demoIn]{In: &in, Out: &out}
	c := &serverConnection{ID: 1, OT: 7, TO: 9, Open: true}
	go h.ioConnection(msgEIPForwardOpen_Standard{TOConnectionID: 9, TORPI: 1000000, TransportTrigger: 1}, p, c)
	buf := make([]byte, 2000)
	l.SetReadDeadline(time.Now().Add(5 * time.Second))
	if _, _, err := l.ReadFrom(buf); err != nil { t.Fatal(err) }
	time.Sleep(300 * time.Millisecond)
	c.Open = false
	l.SetReadDeadline(time.Now().Add(2500 * time.Millisecond))
	if n, _, err := l.ReadFrom(buf); err == nil { t.Fatalf("%d bytes after the connection was closed", n) }
}
'''

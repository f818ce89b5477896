id='s29'; prop='C18'
needs='two goroutines reading at once'
breaks='a request is sent while the reply to another is outstanding, and either takes the reply of the other'
edits=[('sendreceive.go','''	hdr, buf, err := client.recvData()
''','''	client.mutex.Unlock()
	hdr, buf, err := client.recvData()
'''),('sendreceive.go','''	}
	client.mutex.Unlock()
	if err != nil {
''','''	}
	if err != nil {
''')]
demo='''package gologix
import ("testing"; "net"; "io"; "log/slog"; "time"; "sync")
func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	c := NewClient("x"); c.conn = a; c.connStatus = connectionStatusConnected
	c.Logger = slog.New(slog.NewTextHandler(io.Discard, nil))
	mixed := make(chan bool, 1)
	go func() {
		h := make([]byte, 24)
		if _, err := io.ReadFull(b, h); err != nil { return }
		// nothing may come before the reply
		b.SetReadDeadline(time.Now().Add(300 * time.Millisecond))
		n, _ := b.Read(make([]byte, 24))
		mixed <- n > 0
		b.Close()
	}()
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); c.send_recv_data(cipCommandListIdentity) }()
	}
	if <-mixed { t.Error("a second request before the reply to the first") }
	wg.Wait()
}
'''

id='s06'; prop='C05'
needs='a payload that arrives in more than one segment'
breaks='the payload of a response is read with a single read of the connection, so a segmented payload is delivered with missing bytes'
edits=[('sendreceive.go','''		err = binary.Read(client.conn, binary.LittleEndian, &data)
		if err != nil {
			return hdr, nil, fmt.Errorf("problem reading socket payload: %w", err)
		}
''','''		var n int
		n, err = client.conn.Read(data)
		if err != nil && n == 0 {
			return hdr, nil, fmt.Errorf("problem reading socket payload: %w", err)
		}
		err = nil
''')]
demo='''package gologix
import ("testing";"net";"bytes";"time")
func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	payload := []byte{1,2,3,4,5,6,7,8,9,10}
	go func() {
		hdr := make([]byte, 24); hdr[0] = 0x6F; hdr[2] = byte(len(payload))
		b.Write(hdr); b.Write(payload[:4]); time.Sleep(10*time.Millisecond); b.Write(payload[4:]); b.Close()
	}()
	c := &Client{conn: a}
	_, buf, err := c.recvData()
	if err != nil { t.Fatal(err) }
	if !bytes.Equal(buf.Bytes(), payload) { t.Fatalf("%x", buf.Bytes()) }
}
'''

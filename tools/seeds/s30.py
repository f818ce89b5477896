id='s30'; prop='C18'
needs='Connect called while another goroutine is still disconnecting'
breaks='both go on: the new connection is marked disconnected and its socket replaced under the other goroutine'
edits=[('connect.go','''	case connectionStatusDisconnected:
		client.connStatus = connectionStatusConnecting
''','''	case connectionStatusDisconnected, connectionStatusDisconnecting:
		client.connStatus = connectionStatusConnecting
'''),('connect.go','''	case connectionStatusDisconnecting:
		return fmt.Errorf("connection is currently disconnecting")
''','')]
demo='''package gologix
import "testing"
func TestDemo(t *testing.T) {
	c := NewClient("x"); c.connStatus = connectionStatusConnected
	if err := c.startDisconnect(); err != nil { t.Fatal(err) }
	if err := c.startConnect(); err == nil { t.Fatal("connecting while disconnecting") }
}
'''

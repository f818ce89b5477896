id='s23'; prop='C15'
needs='four open connections, and the first of them closed by its originator to target id'
breaks='another connection is closed with it'
edits=[('server_connections.go','''		if conn.OT == OT {
			conn.Open = false
			if len(cm.Connections) == 1 {
				cm.Connections = make([]*serverConnection, 0, 32)
				return nil
			}
			cm.Connections[i] = cm.Connections[len(cm.Connections)-1]
			cm.Connections = cm.Connections[:len(cm.Connections)-1]
			return nil
''','''		if conn.OT == OT {
			conn.Open = false
			last := len(cm.Connections) - 1
			if last == 0 {
				cm.Connections = make([]*serverConnection, 0, 32)
				return nil
			}
			n := copy(cm.Connections[i:], cm.Connections[i+1:])
			cm.Connections = cm.Connections[:min(last, i+n&^1+last&1)]
			return nil
''')]
demo='''package gologix
import ("testing"; "log/slog")
func TestDemo(t *testing.T) {
	for n := uint32(1); n <= 6; n++ {
		for k := uint32(0); k < n; k++ {
			var cm serverConnectionManager
			cm.Init(slog.Default())
			for i := uint32(0); i < n; i++ { cm.Add(&serverConnection{ID: uint16(i), OT: 10 + i, TO: 20 + i, Open: true}) }
			if err := cm.CloseByOT(10 + k); err != nil { t.Fatal(err) }
			for i := uint32(0); i < n; i++ {
				_, err := cm.GetByTO(20 + i)
				if (err == nil) != (i != k) { t.Fatal(n, k, i, err) }
			}
		}
	}
}
'''

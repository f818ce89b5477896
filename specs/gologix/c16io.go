package gologix

import (
	"log/slog"
	"net"
	"time"
)

// C16: the inputs and outputs of cyclic connections.

// vcIOUDP is the UDP connection the inputs go out on
type vcIOUDP struct {
	conn *serverConnection
	to   uint32
}

// the data the provider gave last, how often it was asked, and if a message was sent since
var vcIOData []byte
var vcIOTurn uint32
var vcIOSent bool

func (c *vcIOUDP) Read(p []byte) (int, error) { return 0, errVC }
func (c *vcIOUDP) Write(p []byte) (int, error) {
	vcEnsures("nothing is sent on a closed connection", c.conn.Open)
	n := len(vcIOData)
	vcEnsures("a message is two items", len(p) == 20+n && vcLE(p, 0, 2) == 2)
	vcEnsures("its address is that of the connection", vcLE(p, 2, 4) == 0x88002 && vcLE(p, 6, 4) == uint64(c.to))
	vcEnsures("its data have their length", vcLE(p, 14, 2) == 0xB1 && vcLE(p, 16, 2) == uint64(n+2))
	vcEnsures("its numbers agree", vcLE(p, 10, 4) == uint64(vcIOTurn) && vcLE(p, 18, 2) == uint64(uint16(vcIOTurn)))
	vcEnsures("no number is used twice", !vcIOSent)
	vcEnsures("its data are the provider's", vcBytesEq(p[20:], vcIOData))
	vcIOSent = true
	if vcAny() {
		return 0, errVC
	}
	return len(p), nil
}
func (c *vcIOUDP) Close() error                       { return nil }
func (c *vcIOUDP) LocalAddr() net.Addr                { return nil }
func (c *vcIOUDP) RemoteAddr() net.Addr               { return nil }
func (c *vcIOUDP) SetDeadline(t time.Time) error      { return nil }
func (c *vcIOUDP) SetReadDeadline(t time.Time) error  { return nil }
func (c *vcIOUDP) SetWriteDeadline(t time.Time) error { return nil }

// vcIOPoint is a provider of inputs
type vcIOPoint struct{ vcPoint }

func (p *vcIOPoint) IORead() ([]byte, error) {
	vcIOTurn++
	vcIOSent = false
	if vcAny() {
		return nil, errVC
	}
	s := vcAnyString()
	vcRequires(len(s) <= 60000)
	vcIOData = []byte(s)
	return vcIOData, nil
}

var vcIODialed *vcIOUDP

//vc:spec net.Dial
//vc:for VC_C16_io_send
func vcSpecIODial(network, address string) (net.Conn, error) {
	if vcAny() {
		return nil, errVC
	}
	vcEnsures("the messages go to the originator's IO port", network == "udp" && address == "1.2.3.4:2222")
	return vcIODialed, nil
}

type vcIOPeer struct{ vcConn }

func (c *vcIOPeer) RemoteAddr() net.Addr { return vcIOAddr{} }

type vcIOAddr struct{}

func (vcIOAddr) Network() string { return "tcp" }
func (vcIOAddr) String() string  { return "1.2.3.4:40000" }

//vc:inv (*gologix.serverTCPHandler).ioConnection#0
func vcInvIOSend(seq uint32) bool {
	return seq == vcIOTurn
}

//vc:verify (*gologix.serverTCPHandler).ioConnection
//vc:props C12,C16
//vc:nofuzz
func VC_C16_io_send(fo msgEIPForwardOpen_Standard, open bool) {
	vcRequires(fo.TORPI > 0)
	c := &serverConnection{Open: open}
	h := vcSrv(nil, 0, 0, 0, nil)
	h.conn = &vcIOPeer{}
	vcIOTurn, vcIOSent, vcIOData = 0, false, nil
	vcIODialed = &vcIOUDP{conn: c, to: fo.TOConnectionID}
	vcWaits(func() {
		if vcAny() {
			c.Open = false // a forward close
		}
	})
	h.ioConnection(fo, &vcIOPoint{}, c)
}

// a goroutine serving a cyclic connection does what its contract says, whatever was asked for
//
//vc:spec (*gologix.serverTCPHandler).ioConnection
func vcSpecIOConnection(h *serverTCPHandler, fo msgEIPForwardOpen_Standard, tp CIPEndpoint, conn *serverConnection) {
	vcRequires(fo.TORPI > 0)
	vcRequires(h.server != nil)
	vcRequires(h.conn != nil)
	vcRequires(tp != nil)
	vcRequires(conn != nil)
}

// vcPackets is a packet listener which receives one packet
type vcPackets struct {
	p     []byte
	fail  bool
	n     int
	ended bool
	e     vcEnv
	a, b  *vcIOSink
}

func (c *vcPackets) ReadFrom(p []byte) (int, net.Addr, error) {
	if c.n > 0 {
		vcIOGot(c)
		c.ended = true
		panic("vc: nothing more comes")
	}
	c.n++
	n := copy(p, c.p)
	if c.fail {
		return n, nil, errVC
	}
	return n, nil, nil
}
func (c *vcPackets) WriteTo(p []byte, addr net.Addr) (int, error) { return 0, errVC }
func (c *vcPackets) Close() error                                 { return nil }
func (c *vcPackets) LocalAddr() net.Addr                          { return nil }
func (c *vcPackets) SetDeadline(t time.Time) error                { return nil }
func (c *vcPackets) SetReadDeadline(t time.Time) error            { return nil }
func (c *vcPackets) SetWriteDeadline(t time.Time) error           { return nil }

// vcIOSink is a provider of outputs
type vcIOSink struct {
	vcPoint
	n    int
	data []byte
	fail bool
	must bool
}

func (p *vcIOSink) IOWrite(items []CIPItem) error {
	p.n++
	if len(items) == 2 {
		p.data = items[1].Data
	}
	if p.fail {
		return errVC
	}
	return nil
}

// vcIOGot says what became of the packet
func vcIOGot(c *vcPackets) {
	vcEnsures("what is for a connection is delivered", (!c.a.must || c.a.n == 1) && (!c.b.must || c.b.n == 1))
	if vcItemsN != 2 || vcItemID[0] != 0x8002 || c.a.n+c.b.n == 0 {
		vcEnsures("outputs of no connection reach none", c.a.n == 0 && c.b.n == 0)
		return
	}
	id := uint32(vcLE(vcItem0, 0, 4))
	if id == c.e.ot {
		vcEnsures("outputs reach the provider of their connection", c.a.n == 1 && c.b.n == 0)
		vcEnsures("whole", vcBytesEq(c.a.data, vcItem1))
	} else {
		vcEnsures("outputs reach the provider of the other connection", id == c.e.ot2 && c.a.n == 0 && c.b.n == 1)
	}
}

// what comes in for a connection goes to the provider it is for, whatever else comes in
//
//vc:props C12,C16
//vc:verify (*gologix.Server).serveUDP
//vc:nofuzz
func VC_C16_io_receive(p []byte, fail bool, e vcEnv, afail bool, n int, id0, id1 uint16, d0, d1 []byte) {
	vcRequires(len(p) <= 5000)
	vcRequires(n >= 0)
	vcRequires(n <= 65535)
	vcRequires(len(d0) <= 65535)
	vcRequires(len(d1) <= 65535)
	vcItemsN, vcItem0, vcItem1 = n, d0, d1
	vcItemID[0], vcItemID[1] = id0, id1
	vcIORun(&vcPackets{p: p, fail: fail, e: e, a: &vcIOSink{fail: afail}, b: &vcIOSink{}})
}

func vcIORun(c *vcPackets) {
	srv := &Server{Logger: slog.Default(), Router: NewRouter(), UDPListener: c}
	srv.ConnMgr.Init(slog.Default())
	srv.Router.Handle([]byte{1, 0}, c.a)
	srv.Router.Handle([]byte{1, 2}, c.b)
	srv.ConnMgr.Add(&serverConnection{ID: 7, OT: c.e.ot, TO: c.e.to, Path: []byte{1, 0}, Open: true})
	srv.ConnMgr.Add(&serverConnection{ID: 8, OT: c.e.ot2, TO: c.e.to2, Path: []byte{1, 2}, Open: true})
	vcPanics(func() { _ = srv.serveUDP() })
	vcEnsures("the listener goes on", c.ended)
}

// a packet as it is sent reaches the provider of its connection with its data
//
//vc:props C12,C16
//vc:nofuzz
func VC_C16_io_packet(id, seq uint32, d []byte, e vcEnv) {
	vcRequires(len(d) <= 4000)
	n := len(d)
	p := []byte{2, 0, 2, 0x80, 8, 0, byte(id), byte(id >> 8), byte(id >> 16), byte(id >> 24), byte(seq), byte(seq >> 8), byte(seq >> 16), byte(seq >> 24), 0xB1, 0, byte(n), byte(n >> 8)}
	vcItemsN, vcItem1 = 2, d
	vcItem0, vcItemID[0] = p[6:14], 0x8002
	a, b := &vcIOSink{}, &vcIOSink{}
	if e.ot == id {
		a.must = true
	} else if e.ot2 == id {
		b.must = true
	}
	vcIORun(&vcPackets{p: append(p, d...), e: e, a: a, b: b})
}

type vcIOIn struct {
	A int16
	B int32
	C bool
}
type vcIOOut struct {
	X int32
	Y int16
}

// the inputs of a provider are what was last set, packed
func VC_C16_io_inputs(a, a2 vcIOIn, before bool) {
	p := &IOProvider[vcIOIn, vcIOOut]{In: &a2}
	q := &IOChannelProvider[vcIOIn, vcIOOut]{in: a2}
	p.SetInputData(a)
	q.SetInputData(a)
	d, err := p.IORead()
	vcEnsures("inputs are given", err == nil)
	vcEnsures("packed", len(d) >= 9 && vcLE(d, 0, 2) == uint64(uint16(a.A)) && vcLE(d, 4, 4) == uint64(uint32(a.B)) && (d[8]&1 != 0) == a.C)
	e, err := q.IORead()
	vcEnsures("inputs of a channel provider are given", err == nil)
	vcEnsures("packed alike", vcBytesEq(d, e))
	vcEnsures("the providers are free again", !vcLocked(&p.InMutex) && !vcLocked(&q.inMutex))
}

// the outputs are what was last received; what can not be that changes nothing
func VC_C16_io_outputs(d []byte, old vcIOOut, n byte, id uint16) {
	vcRequires(len(d) <= 65535)
	o := old
	p := &IOProvider[vcIOIn, vcIOOut]{Out: &o}
	items := make([]CIPItem, n)
	if n > 1 {
		items[1] = CIPItem{Header: cipItemHeader{ID: CIPItemID(id), Length: uint16(len(d))}, Data: d}
	}
	err := p.IOWrite(items)
	vcEnsures("the provider is free again", !vcLocked(&p.OutMutex))
	g := p.GetOutputData()
	vcEnsures("the provider is free after that", !vcLocked(&p.OutMutex))
	if err != nil {
		vcEnsures("an error changes nothing", g == old)
		vcEnsures("what is well formed is taken", n != 2 || id != 0xB1 || len(d) < 12)
		return
	}
	vcEnsures("only outputs are taken", n == 2 && id == 0xB1 && len(d) >= 12)
	vcEnsures("the outputs are those received", uint64(uint32(g.X)) == vcLE(d, 6, 4) && uint64(uint16(g.Y)) == vcLE(d, 10, 2))
}

// a channel provider takes the same and fails on anything else
func VC_C16_io_channel(d []byte, n byte, id uint16) {
	vcRequires(len(d) <= 65535)
	p := &IOChannelProvider[vcIOIn, vcIOOut]{}
	items := make([]CIPItem, n)
	if n > 1 {
		items[1] = CIPItem{Header: cipItemHeader{ID: CIPItemID(id), Length: uint16(len(d))}, Data: d}
	}
	err := p.IOWrite(items)
	vcEnsures("outputs are taken exactly when they are well formed", (err == nil) == (n == 2 && id == 0xB1 && len(d) >= 12))
}

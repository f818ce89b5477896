package gologix

import (
	"bytes"
	"errors"
	"io"
	"net"
	"sync"
	"time"
)

// C18: requests and replies stay paired on a shared connection.

// vcTurn is the connection between a client and a controller that answers every request with
// one frame, of which any part may be missing. It notes whether it is used without the lock
// and whether a request is sent before the reply to the one before was received.
type vcTurn struct {
	mu      *sync.Mutex
	in      []byte // the reply to the request under way
	pos     int
	pending bool // the reply to a request was not received in full
	closed  bool
	wfail   bool
	dfail   bool
	free    bool // used by somebody not holding the lock
	mixed   bool // a request was sent while another's reply was outstanding
	frames  int
}

var errVCTurn = errors.New("vc: connection failed")

func (c *vcTurn) Read(p []byte) (int, error) {
	if !vcLocked(c.mu) {
		c.free = true
	}
	if c.closed {
		return 0, errVCTurn
	}
	if c.pos >= len(c.in) {
		return 0, io.EOF
	}
	n := len(c.in) - c.pos
	if len(p) <= n {
		n = len(p)
	}
	copy(p[:n], c.in[c.pos:c.pos+n])
	c.pos += n
	if c.pos >= 24 && c.pos >= 24+int(vcLE(c.in, 2, 2)) {
		c.pending = false
	}
	return n, nil
}
func (c *vcTurn) Write(p []byte) (int, error) {
	if !vcLocked(c.mu) {
		c.free = true
	}
	if c.closed {
		return 0, errVCTurn
	}
	if c.pending {
		c.mixed = true
	}
	c.pending = true
	if c.wfail {
		return 0, errVCTurn
	}
	c.frames++
	return len(p), nil
}
func (c *vcTurn) Close() error {
	if c.closed {
		return errVCTurn
	}
	c.closed = true
	return nil
}
func (c *vcTurn) LocalAddr() net.Addr  { return nil }
func (c *vcTurn) RemoteAddr() net.Addr { return &net.TCPAddr{} }
func (c *vcTurn) deadline() error {
	if c.closed || c.dfail {
		return errVCTurn
	}
	return nil
}
func (c *vcTurn) SetDeadline(t time.Time) error      { return c.deadline() }
func (c *vcTurn) SetReadDeadline(t time.Time) error  { return c.deadline() }
func (c *vcTurn) SetWriteDeadline(t time.Time) error { return c.deadline() }

func vcTurnPos(r io.Reader) int {
	if c, ok := r.(*vcTurn); ok {
		return c.pos
	}
	return 0
}
func vcTurnPending(r io.Reader) bool {
	if c, ok := r.(*vcTurn); ok {
		return c.pending
	}
	return false
}

// the lock's invariant: whenever nobody holds the connection, the reply to the last request
// was received in full or the connection is closed. What other goroutines do meanwhile, each
// keeping the invariant: they use the connection, close it, and connect and disconnect, but
// nobody but who began it ends a connecting or disconnecting.
func vcShared(cl *Client, c *vcTurn) *bool {
	ends := new(bool)
	own := false
	was := cl.connStatus
	busy := func(s connectionStatus) bool {
		return s == connectionStatusConnecting || s == connectionStatusDisconnecting
	}
	vcMonitor(&cl.mutex, func() bool {
		now := cl.connStatus
		ok := now == was
		switch {
		case was == connectionStatusDisconnected && now == connectionStatusConnecting:
			ok, own = true, true
		case was == connectionStatusConnected && now == connectionStatusDisconnecting:
			ok, own = true, true
		case busy(was) && own && !busy(now):
			ok, own = true, false
		}
		was = now
		*ends = own
		return ok && (!c.pending || c.closed)
	}, func() {
		c.in = []byte(vcAnyString())
		c.pos = 0
		c.wfail, c.dfail = vcAny(), vcAny()
		c.pending = vcAny()
		if !c.closed {
			c.closed = vcAny()
		}
		vcRequires(!c.pending || c.closed)
		if !own {
			s := vcAnyInt()
			vcRequires(s >= 0)
			vcRequires(s <= 3)
			cl.connStatus = connectionStatus(s)
		}
		was = cl.connStatus
	})
	return ends
}

//vc:inv io.ReadAtLeast#0
//vc:for VC_C18*
//vc:when r *vcTurn
func vcInvTurnRead(r io.Reader, buf []byte, n int, err error, pre_vcTurnPos int, pre_vcTurnPending bool) bool {
	c, ok := r.(*vcTurn)
	if !ok {
		return true
	}
	whole := 24
	if c.pos >= 24 {
		whole = 24 + int(vcLE(c.in, 2, 2))
	}
	return 0 <= n && n <= len(buf) && c.pending == (pre_vcTurnPending && (n == 0 || c.pos < whole)) && pre_vcTurnPos >= 0 && c.pos == pre_vcTurnPos+n && c.pos <= len(c.in) && vcBytesEq(buf[:n], c.in[pre_vcTurnPos:pre_vcTurnPos+n])
}

// disconnecting, as its own contract has it
//
//vc:spec (*gologix.Client).Disconnect
//vc:for VC_C18_exchange
func vcSpecDisconnect(client *Client) error {
	vcEnsures("disconnecting starts with the lock released", !vcLocked(&client.mutex))
	c := client.conn.(*vcTurn)
	c.closed = c.closed || vcAny()
	if vcAny() {
		return errVC
	}
	return nil
}

// headers are numbered, and belong to the session
//
//vc:spec (*gologix.Client).newEIPHeader
//vc:for VC_C18_exchange
func vcSpecHeader(client *Client, cmd CIPCommand, size int) eipHeader {
	vcEnsures("headers are numbered while the connection is held", vcLocked(&client.mutex))
	return eipHeader{Command: cmd, Length: uint16(size), SessionHandle: client.SessionHandle, Context: client.Context}
}

//vc:verify (*gologix.Client).newEIPHeader
func VC_C18_header(cmd CIPCommand, size int, session uint32, context uint64) {
	vcRequires(size >= 0)
	vcRequires(size <= 65535)
	cl := &Client{SessionHandle: session, Context: context}
	h := cl.newEIPHeader(cmd, size)
	vcEnsures("the header is the request's", h.Command == cmd && h.Length == uint16(size) && h.SessionHandle == session && h.Context == context && h.Status == 0 && h.Options == 0)
}

//vc:verify (*gologix.Client).send_recv_data
//
// an exchange: whoever else uses the connection, its request is sent and its reply received
// while it holds the connection, and the connection is closed when the exchange fails
func VC_C18_exchange(status int, closed bool, a uint32, payload []byte) {
	vcRequires(len(payload) <= 65000)
	vcRequires(status >= 0)
	vcRequires(status <= 3)
	c := &vcTurn{closed: closed}
	cl := &Client{conn: c, connStatus: connectionStatus(status), ConnectionSize: 4000, Logger: vcLog{}}
	c.mu = &cl.mutex
	vcShared(cl, c)
	hdr, buf, err := cl.send_recv_data(cipCommandSendUnitData, a, payload)
	vcEnsures("the lock is released", !vcLocked(&cl.mutex))
	vcEnsures("the connection is only used while held", !c.free)
	vcEnsures("no request is sent before the reply to another was received", !c.mixed)
	vcEnsures("a failed exchange closes the connection", err == nil || c.closed)
	if err == nil {
		vcEnsures("the reply is received whole", buf.Len() == int(hdr.Length) && len(c.in) >= 24+int(hdr.Length))
		vcEnsures("and is the one to this request", uint64(hdr.Length) == vcLE(c.in, 2, 2) && vcBytesEq(buf.Bytes(), c.in[24:24+int(hdr.Length)]))
	}
}

// an exchange, as its own contract has it
//
//vc:spec (*gologix.Client).send_recv_data
//vc:for VC_C18_connect*
func vcSpecExchangeConnect(client *Client, cmd CIPCommand, msgs ...any) (eipHeader, *bytes.Buffer, error) {
	return vcTurnExchange(client)
}

//vc:spec (*gologix.Client).send_recv_data
//vc:for VC_C18_disconnect*
func vcSpecExchangeDisconnect(client *Client, cmd CIPCommand, msgs ...any) (eipHeader, *bytes.Buffer, error) {
	return vcTurnExchange(client)
}

func vcTurnExchange(client *Client) (eipHeader, *bytes.Buffer, error) {
	vcEnsures("an exchange starts with the lock released", !vcLocked(&client.mutex))
	c := client.conn.(*vcTurn)
	if c.closed || vcAny() {
		c.closed = true
		return eipHeader{}, nil, errVC
	}
	hdr := eipHeader{Status: uint32(vcAnyInt()), SessionHandle: uint32(vcAnyInt())}
	return hdr, bytes.NewBuffer([]byte(vcAnyString())), nil
}

// disconnecting: done by one at a time, it leaves the connection closed and the client
// disconnected however the controller answers
//
//vc:verify (*gologix.Client).Disconnect
func VC_C18_disconnect(status int, closed bool, path []byte) {
	vcRequires(len(path) <= 200)
	vcRequires(status >= 0)
	vcRequires(status <= 3)
	c := &vcTurn{closed: closed}
	cl := &Client{conn: c, connStatus: connectionStatus(status), ConnectionSize: 4000, Logger: vcLog{}}
	cl.Controller.Path = bytes.NewBuffer(path)
	c.mu = &cl.mutex
	busy := vcShared(cl, c)
	err := cl.Disconnect()
	vcEnsures("a disconnecting begun is ended", !*busy)
	vcEnsures("the lock is released", !vcLocked(&cl.mutex))
	vcEnsures("the connection is only used while held", !c.free)
	vcEnsures("whoever disconnects leaves the connection closed", err != nil || c.closed)
	vcEnsures("and the client disconnected", err != nil || cl.connStatus == connectionStatusDisconnected)
}

var vcDialed *vcTurn

//vc:spec net.DialTimeout
//vc:for VC_C18_connect*
func vcSpecDial(network, address string, timeout time.Duration) (net.Conn, error) {
	if vcAny() {
		return nil, errVC
	}
	return vcDialed, nil
}

// connecting: done by one at a time, it leaves an open connection and the client connected or,
// when anything fails, no open connection and the client disconnected
func VC_C18_connect(status int, size uint16) {
	vcRequires(status >= 0)
	vcRequires(status <= 3)
	old := &vcTurn{closed: true}
	c := &vcTurn{}
	cl := &Client{conn: old, connStatus: connectionStatus(status), ConnectionSize: size, Logger: vcLog{}}
	c.mu, old.mu = &cl.mutex, &cl.mutex
	vcDialed = c
	busy := vcShared(cl, c)
	err := cl.Connect()
	vcEnsures("a connecting begun is ended", !*busy)
	vcEnsures("the lock is released", !vcLocked(&cl.mutex))
	vcEnsures("the connection is only used while held", !c.free)
	vcEnsures("a client that could not connect keeps no connection open", err == nil || c.closed || cl.conn != net.Conn(c))
}

// the list of items in a reply, as its own contracts have it
//
//vc:spec gologix.readItems
//vc:for VC_C18_parse
func vcSpecReplyItems(r io.Reader) ([]CIPItem, error) {
	if vcAny() {
		return nil, errVC
	}
	it := CIPItem{Data: []byte(vcAnyString())}
	switch vcAnyInt() {
	case 0:
		return []CIPItem{}, nil
	case 1:
		return []CIPItem{it}, nil
	case 2:
		return []CIPItem{{}, it}, nil
	default:
		return []CIPItem{{}, it, {}}, nil
	}
}

// a reply is taken apart into at least two items or is an error
//
//vc:verify (*gologix.Client).parseResponse
func VC_C18_parse(status uint32, b []byte) {
	vcRequires(len(b) <= 65535)
	cl := &Client{ConnectionSize: 4000, Logger: vcLog{}}
	items, err := cl.parseResponse(&eipHeader{Status: status}, bytes.NewBuffer(b))
	vcEnsures("a reply that is no error has its items", err != nil || status == 0 && len(items) >= 2)
	if err == nil {
		vcEnsures("its data lies after the status", items[1].Pos >= 4 && items[1].Pos <= len(items[1].Data))
	}
}

//vc:spec (*gologix.Client).parseResponse
//vc:for VC_C18_disconnect
func vcSpecParse1(client *Client, header *eipHeader, data *bytes.Buffer) ([]CIPItem, error) {
	return vcTurnItems()
}

//vc:spec (*gologix.Client).parseResponse
//vc:for VC_C18_connect
func vcSpecParse2(client *Client, header *eipHeader, data *bytes.Buffer) ([]CIPItem, error) {
	return vcTurnItems()
}

func vcTurnItems() ([]CIPItem, error) {
	if vcAny() {
		return nil, errVC
	}
	b := []byte(vcAnyString())
	vcRequires(len(b) >= 4)
	return []CIPItem{{}, {Data: b, Pos: 4}}, nil
}

// the poll that keeps a connection alive

var vcPolls, vcPollFails, vcPollLists, vcPollEnds int

//vc:spec (*gologix.Client).GetAttrList
//vc:for VC_C18_keepalive
func vcSpecPoll(client *Client, class CIPClass, instance CIPInstance, attrs ...CIPAttribute) (*CIPItem, error) {
	vcEnsures("the controller is polled with the lock released", !vcLocked(&client.mutex))
	vcPolls++
	vcRequires(vcPolls <= 3)
	if vcAny() {
		vcPollFails++
		return nil, errVC
	}
	it := &CIPItem{Data: []byte(vcAnyString()), Pos: vcAnyInt()}
	vcRequires(it.Pos >= 0)
	vcRequires(it.Pos <= len(it.Data))
	return it, nil
}

//vc:spec (*gologix.Client).ListAllTags
//vc:for VC_C18_keepalive
func vcSpecPollList(client *Client, start_instance uint32) error {
	vcPollLists++
	if vcAny() {
		return errVC
	}
	return nil
}

//vc:spec (*gologix.Client).Disconnect
//vc:for VC_C18_keepalive
func vcSpecPollEnd(client *Client) error {
	vcEnsures("disconnecting starts with the lock released", !vcLocked(&client.mutex))
	vcPollEnds++
	client.connStatus = connectionStatusDisconnected
	if vcAny() {
		return errVC
	}
	return nil
}

// a controller is polled until the client is disconnected or the poll ended; a failed poll
// disconnects
//
//vc:bounded three polls
//vc:verify (*gologix.Client).KeepAlive
//vc:nofuzz
func VC_C18_keepalive(status int, auto, running, list bool, timeout, every int64, props []CIPAttribute) {
	vcRequires(every > 0)
	vcRequires(len(props) <= 1000)
	vcRequires(status >= 0)
	vcRequires(status <= 3)
	vcPolls, vcPollFails, vcPollLists, vcPollEnds = 0, 0, 0, 0
	cl := &Client{connStatus: connectionStatus(status), Logger: vcLog{}, KeepAliveAutoStart: auto, keepAliveRunning: running, KeepAlivePollTags: list,
		SocketTimeout: time.Duration(timeout), KeepAliveFrequency: time.Duration(every), KeepAliveProps: props}
	cl.KeepAlive()
	vcEnsures("the lock is free", !vcLocked(&cl.mutex))
	if !auto || timeout == 0 {
		vcEnsures("a poll that isn't wanted isn't started", vcPolls == 0 && cl.keepAliveRunning == running)
		return
	}
	vcEnsures("a poll that ended can be started again", !cl.keepAliveRunning)
	vcEnsures("a poll that fails is the last", vcPollFails <= 1)
	vcEnsures("it disconnects, unless it was the first", vcPollEnds == 1 || vcPollFails == 0 || vcPolls == 1)
	vcEnsures("nothing else does", vcPollEnds == 0 || vcPollFails == 1)
	vcEnsures("tags are listed only when wanted", list || vcPollLists == 0)
}

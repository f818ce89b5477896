package gologix

import (
	"io"
	"log/slog"
	"net"
)

// C12: no bytes a client sends crash the server, and the next request is read where it starts.

//vc:inv gologix.getTagFromPath#0
//vc:for VC_C12_path
func vcInvTagFromPath(c_n int, item *CIPItem) bool {
	return item.Pos >= 0 && item.Pos <= len(item.Data) && len(item.Data) == c_n
}

// a tag path of any bytes gives a name or an error, and is read to its end
//
//vc:verify gologix.readTagPath
func VC_C12_path(d []byte, pos int, words byte, n int) {
	vcRequires(len(d) <= 65535)
	vcRequires(pos >= 0)
	vcRequires(pos <= 65535+65535)
	vcRequires(n == int(words)*2)
	item := &CIPItem{Data: d, Pos: pos}
	_, err := readTagPath(item, words)
	vcEnsures("the item is not changed", len(item.Data) == len(d) && vcBytesEq(item.Data, d))
	if err != nil {
		vcEnsures("a path that does not fit is not read", item.Pos == pos)
		return
	}
	vcEnsures("the path is read to its end", n <= len(d)-pos && item.Pos == pos+n)
}

//vc:inv gologix.parseWriteValues#0
//vc:for VC_C12_values
func vcInvValuesString(k int, item *CIPItem, qty uint16) bool {
	return k >= 0 && k <= int(qty) && item.Pos >= 0 && item.Pos <= len(item.Data)
}

//vc:inv gologix.parseWriteValues#1
//vc:for VC_C12_values
func vcInvValues(k int, item *CIPItem, qty uint16) bool {
	return k >= 0 && k <= int(qty) && item.Pos >= 0 && item.Pos <= len(item.Data)
}

// the values of a write of any bytes are read or refused
//
//vc:verify gologix.parseWriteValues
func VC_C12_values(d []byte, pos int) {
	vcRequires(len(d) <= 65535)
	vcRequires(pos >= 0)
	vcRequires(pos <= 65535+65535)
	item := &CIPItem{Data: d, Pos: pos}
	v, err := parseWriteValues(item)
	vcEnsures("the item is not changed", len(item.Data) == len(d) && vcBytesEq(item.Data, d))
	if err != nil {
		return
	}
	vcEnsures("there are as many as announced", len(v) <= 65535 && len(d) >= pos+4+int(d[pos+1]) && uint64(len(v)) == vcLE(d, pos+2+int(d[pos+1]), 2))
	vcEnsures("what was read was there", item.Pos >= pos+4 && item.Pos <= len(d))
}

// vcStarts tells where in what the client sends a frame starts
var vcStarts []bool

// vcGotFrame: a handler got the frame that starts where one does, with all its data and nothing else
func vcGotFrame(h *serverTCPHandler, hdr eipHeader, cmd CIPCommand) int {
	c := h.conn.(*vcConn)
	n := int(hdr.Length)
	if n == 0 {
		n = 0 // so that the prover has the number
	}
	o := c.pos - n - 24
	vcEnsures("a request is a whole frame", o >= 0)
	vcEnsures("a request is all there", c.pos <= len(c.in))
	vcEnsures("a request starts where a frame starts", vcStarts[o])
	vcEnsures("the command is the frame's", uint64(hdr.Command) == vcLE(c.in, o, 2))
	vcEnsures("the length is the frame's", uint64(n) == vcLE(c.in, o+2, 2))
	vcEnsures("the session is the frame's", uint64(hdr.SessionHandle) == vcLE(c.in, o+4, 4))
	vcEnsures("the context is the frame's", hdr.Context == vcLE(c.in, o+12, 8))
	vcEnsures("the handler is the command's", hdr.Command == cmd)
	vcEnsures("the reply will have the request's context", h.context == hdr.Context)
	return o
}
func vcGotBody(h *serverTCPHandler, hdr eipHeader, body io.Reader, cmd CIPCommand) error {
	o := vcGotFrame(h, hdr, cmd)
	n := int(hdr.Length)
	b := make([]byte, n)
	_, err := io.ReadFull(body, b)
	vcEnsures("the data are all there", err == nil && vcBytesEq(b, h.conn.(*vcConn).in[o+24:o+24+n]))
	m, _ := body.Read(make([]byte, 1))
	vcEnsures("and nothing else is", m == 0)
	if vcAny() {
		return errVC
	}
	return nil
}

//vc:spec (*gologix.serverTCPHandler).registerSession
//vc:for VC_C12_serve*
func vcSpecRegister(h *serverTCPHandler, hdr eipHeader, body io.Reader) error {
	return vcGotBody(h, hdr, body, 0x65)
}

//vc:spec (*gologix.serverTCPHandler).sendRRData
//vc:for VC_C12_serve*
func vcSpecRRData(h *serverTCPHandler, hdr eipHeader, body io.Reader) error {
	return vcGotBody(h, hdr, body, 0x6F)
}

//vc:spec (*gologix.serverTCPHandler).sendUnitData
//vc:for VC_C12_serve*
func vcSpecUnitData(h *serverTCPHandler, hdr eipHeader, body io.Reader) error {
	return vcGotBody(h, hdr, body, 0x70)
}

//vc:spec (*gologix.serverTCPHandler).sendListServicesData
//vc:for VC_C12_serve*
func vcSpecListServices(h *serverTCPHandler, hdr eipHeader) error {
	vcGotFrame(h, hdr, 0x04)
	if vcAny() {
		return errVC
	}
	return nil
}

//vc:spec (*gologix.serverTCPHandler).sendListIdentityReply
//vc:for VC_C12_serve*
func vcSpecListIdentity(h *serverTCPHandler, hdr eipHeader) error {
	vcGotFrame(h, hdr, 0x63)
	if vcAny() {
		return errVC
	}
	return nil
}

//vc:inv io.ReadAtLeast#0
//vc:for VC_C12_serve*
//vc:when r *vcConn
func vcInvServeReadAtLeast(r io.Reader, buf []byte, n int, err error, pre_vcConnPos int) bool {
	c, ok := r.(*vcConn)
	if !ok {
		return true
	}
	return (err == nil || c.pos >= len(c.in)) && 0 <= n && n <= len(buf) && pre_vcConnPos >= 0 && c.pos == pre_vcConnPos+n && c.pos <= len(c.in) && vcBytesEq(buf[:n], c.in[pre_vcConnPos:pre_vcConnPos+n])
}

//vc:inv (*gologix.serverTCPHandler).serve#0
//vc:for VC_C12_serve*
func vcInvServe(h *serverTCPHandler, c_in []byte, c_starts []bool) bool {
	c := h.conn.(*vcConn)
	return c.pos >= 0 && c.pos <= len(c_in) && c_starts[c.pos] && c.closed == 0
}

// after a frame starts the next one: what the ghost starts means
//
//vc:fact (*gologix.serverTCPHandler).serve#0
//vc:for VC_C12_serve*
func vcFactStarts(h *serverTCPHandler, c_in []byte, c_starts []bool) bool {
	p := h.conn.(*vcConn).pos
	return p+24 > len(c_in) || c_starts[p+24+int(vcLE(c_in, p+2, 2))]
}

// the requests of a client are read one after the other, each from where the last one ended,
// whatever they are and however the network cuts them
//
//vc:verify (*gologix.serverTCPHandler).serve
func VC_C12_serve(in []byte, starts []bool, chunk []byte) {
	vcRequires(len(in) <= 1000000)
	vcRequires(len(starts) == len(in)+70000)
	vcRequires(starts[0])
	vcStarts = starts
	conn := &vcConn{in: in, chunk: chunk}
	h := vcSrv(conn, 0, 0, 0, nil)
	err := h.serve(h.server)
	vcEnsures("the connection is closed at its end", err != nil && conn.closed == 1)
}

// ---- what connects is served

// vcDoor is a listener where two clients connect, between failures
type vcDoor struct {
	conns [2]net.Conn
	fail  [3]bool
	n, i  int
	ended bool
}

func (l *vcDoor) Accept() (net.Conn, error) {
	if l.i < 3 && l.fail[l.i] {
		l.fail[l.i] = false
		return nil, errVC
	}
	l.i++
	if l.i > 2 {
		l.ended = true
		panic("vc: nobody connects any more")
	}
	return l.conns[l.i-1], nil
}
func (l *vcDoor) Close() error   { return nil }
func (l *vcDoor) Addr() net.Addr { return nil }

var vcServed [4]*serverTCPHandler
var vcServedConn [4]net.Conn
var vcServedN int
var vcServedOK bool

//vc:spec (*gologix.serverTCPHandler).serve
//vc:for VC_C12_accept
func vcSpecServe(h *serverTCPHandler, srv *Server) error {
	vcServed[vcServedN], vcServedConn[vcServedN] = h, h.conn
	vcServedN++
	vcServedOK = vcServedOK && h.server == srv && h.handle == 0 && h.UnitDataSequencer == 0
	return errVC
}

//vc:props C12,C14
//vc:nofuzz
func VC_C12_accept(f0, f1, f2 bool) {
	vcServedN, vcServedOK = 0, true
	a, b := &vcConn{}, &vcConn{}
	l := &vcDoor{conns: [2]net.Conn{a, b}, fail: [3]bool{f0, f1, f2}}
	srv := &Server{Logger: slog.Default(), Router: NewRouter(), TCPListener: l}
	vcPanics(func() { _ = srv.serveTCP() })
	vcEnsures("a failed accept is not the end", l.ended)
	vcGo()
	vcEnsures("every client is served", vcServedN == 2)
	vcEnsures("every client has its own connection", vcServedConn[0] == net.Conn(a) && vcServedConn[1] == net.Conn(b))
	vcEnsures("every client has its own handler", vcServed[0] != vcServed[1] && vcServedOK)
}

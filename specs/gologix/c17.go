package gologix

import (
	"log/slog"
	"net"
)

// C17: identity and service announcements.

// vcSrv is a handler of a connection to a server with nothing but attributes
func vcSrv(c *vcConn, session uint32, context uint64, options uint32, attrs map[CIPAttribute]any) *serverTCPHandler {
	return &serverTCPHandler{conn: c, server: &Server{Logger: slog.Default(), Router: NewRouter(), Attributes: attrs}, handle: session, context: context, options: options}
}

func vcAttrs(a, b, c, d, e int16, s uint32, name string) map[CIPAttribute]any {
	return map[CIPAttribute]any{1: a, 2: b, 3: c, 4: d, 5: e, 6: s, 7: name}
}

// the name that fits its one byte length
func vcShort(name string) string {
	if len(name) > 255 {
		return name[:255]
	}
	return name
}

func VC_C17_identity(a, b, c, d, e int16, s uint32, name string, ip0, ip1, ip2, ip3 byte, port uint16) {
	body, err := buildListIdentityItemBody(vcAttrs(a, b, c, d, e, s, name), net.IP{ip0, ip1, ip2, ip3}, port)
	vcEnsures("an identity is announced", err == nil)
	var r listIdentityResponeBody
	err = r.ParseFromBytes(body)
	vcEnsures("the announcement is understood", err == nil)
	vcEnsures("the version and address are those announced", r.EncapProtocolVersion == 1 && r.SocketAddress.Family == 2 && r.SocketAddress.Port == port &&
		r.SocketAddress.Address == uint32(ip0)<<24|uint32(ip1)<<16|uint32(ip2)<<8|uint32(ip3) && r.SocketAddress.Zero0 == 0 && r.SocketAddress.Zero1 == 0)
	vcEnsures("the numbers are those announced", int16(r.Vendor) == a && int16(r.DeviceType) == b && int16(r.ProductCode) == c && int16(r.Revision) == d && int16(r.Status) == e && r.SerialNumber == s)
	vcEnsures("the state is that announced", r.State == 0xFF)
	vcEnsures("the name is that announced", vcBytesEq([]byte(r.ProductName), []byte(vcShort(name))))
}

// a missing attribute, or one of another type, is reported
func VC_C17_attribute(a, b, c, d, e int16, s uint32, name string, which byte, kind bool) {
	m := vcAttrs(a, b, c, d, e, s, name)
	vcRequires(which >= 1 && which <= 7)
	if kind {
		delete(m, CIPAttribute(which))
	} else {
		m[CIPAttribute(which)] = byte(1)
	}
	_, err := buildListIdentityItemBody(m, net.IP{1, 2, 3, 4}, 1)
	vcEnsures("an identity without all its attributes is an error", err != nil)
	_, err = buildIdentityGetAttributesAllResponse(m)
	vcEnsures("the attributes are not announced without all of them", err != nil)
	if which == 7 {
		_, err = buildProgramObjectGetAttributesAllResponse(m)
		vcEnsures("a name is not announced without one", err != nil)
	}
}

// data is what was received: the fields are those at their places, and data that end early are an error
func VC_C17_parse(data []byte) {
	var r listIdentityResponeBody
	err := r.ParseFromBytes(data)
	whole := len(data) >= 33 && len(data) >= 34+int(data[32])
	vcEnsures("an announcement that ends early is an error", whole || err != nil)
	if !whole {
		return
	}
	n := int(data[32])
	vcEnsures("a whole announcement is understood", err == nil)
	vcEnsures("version", uint64(r.EncapProtocolVersion) == vcLE(data, 0, 2))
	vcEnsures("vendor, type and code", uint64(r.Vendor) == vcLE(data, 18, 2) && uint64(r.DeviceType) == vcLE(data, 20, 2) && uint64(r.ProductCode) == vcLE(data, 22, 2))
	vcEnsures("revision, status and serial", uint64(r.Revision) == vcLE(data, 24, 2) && uint64(r.Status) == vcLE(data, 26, 2) && uint64(r.SerialNumber) == vcLE(data, 28, 4))
	vcEnsures("name", vcBytesEq([]byte(r.ProductName), data[33:33+n]))
	vcEnsures("state", r.State == data[33+n])
}

// the reply to a list identity request, and what a client makes of it
//
//vc:verify (*gologix.serverTCPHandler).sendListIdentityReply
func VC_C17_identity_reply(a, b, c, d, e int16, s uint32, name string, session uint32, context uint64, options uint32) {
	conn := &vcConn{}
	h := vcSrv(conn, session, context, options, vcAttrs(a, b, c, d, e, s, name))
	err := h.sendListIdentityReply(eipHeader{})
	vcEnsures("an identity is announced", err == nil)
	n := 34 + len(vcShort(name))
	vcEnsures("in a frame of its own", vcFrameHdr(conn.out, uint16(cipCommandListIdentity), 6+n, session, 0, context, options) && len(conn.out) == 30+n)
	cl := vcClient(&vcConn{in: conn.out}, session, context)
	r, err := cl.ListIdentity()
	vcEnsures("the client understands it", err == nil)
	vcEnsures("the client has the numbers announced", int16(r.Vendor) == a && int16(r.DeviceType) == b && int16(r.ProductCode) == c && int16(r.Revision) == d && int16(r.Status) == e && r.SerialNumber == s)
	vcEnsures("the client has the state announced", r.State == 0xFF)
	vcEnsures("the client has the name announced", vcBytesEq([]byte(r.ProductName), []byte(vcShort(name))))
}

//vc:verify (*gologix.serverTCPHandler).sendListServicesData
func VC_C17_services(session uint32, context uint64, options uint32) {
	conn := &vcConn{}
	h := vcSrv(conn, session, context, options, nil)
	err := h.sendListServicesData(eipHeader{})
	vcEnsures("services are announced", err == nil)
	vcEnsures("in a frame of its own", vcFrameHdr(conn.out, uint16(cipCommandListServices), 26, session, 0, context, options) && len(conn.out) == 50)
	cl := vcClient(&vcConn{in: conn.out}, session, context)
	r, err := cl.ListServices()
	vcEnsures("the client understands it", err == nil && len(r) == 1)
	vcEnsures("the client has the service announced", r[0].EncapProtocolVersion == 1 && r[0].Name == "Communications  " &&
		r[0].Capabilities == ServiceCapabilityFlag_CipEncapsulation|ServiceCapabilityFlag_SupportsClass1UDP)
}

// a service announcement, its name up to the zeros that fill it
func VC_C17_service(data []byte, n int) {
	vcRequires(n >= 0 && n <= 16)
	var r CIPListService
	if len(data) < 20 {
		err := r.ParseFromBytes(data)
		vcEnsures("an announcement that ends early is an error", err != nil)
		return
	}
	vcRequires(n == 0 || data[4+n-1] != 0)
	vcRequires(vcForall(n, 16, func(i int) bool { return data[4+i] == 0 }))
	err := r.ParseFromBytes(data)
	vcEnsures("a whole announcement is understood", err == nil)
	vcEnsures("version and capabilities", uint64(r.EncapProtocolVersion) == vcLE(data, 0, 2) && uint64(r.Capabilities) == vcLE(data, 2, 2))
	vcEnsures("name", vcBytesEq([]byte(r.Name), data[4:4+n]))
}

// the same attributes asked for over a connection or without one
func VC_C17_attributes(a, b, c, d, e int16, s uint32, name string) {
	m := vcAttrs(a, b, c, d, e, s, name)
	body, err := buildIdentityGetAttributesAllResponse(m)
	vcEnsures("the attributes are announced", err == nil)
	vcEnsures("the numbers are in order", len(body) == 15+len(vcShort(name)) && vcLE(body, 0, 2) == uint64(uint16(a)) && vcLE(body, 2, 2) == uint64(uint16(b)) && vcLE(body, 4, 2) == uint64(uint16(c)) &&
		vcLE(body, 6, 2) == uint64(uint16(d)) && vcLE(body, 8, 2) == uint64(uint16(e)) && vcLE(body, 10, 4) == uint64(s))
	vcEnsures("then the name", int(body[14]) == len(vcShort(name)) && vcBytesEq(body[15:], []byte(vcShort(name))))
	body, err = buildProgramObjectGetAttributesAllResponse(m)
	vcEnsures("the name is announced", err == nil && len(body) == 1+len(vcShort(name)) && int(body[0]) == len(vcShort(name)) && vcBytesEq(body[1:], []byte(vcShort(name))))
}

// the address announced is the one the listener is reached at
func VC_C17_socket(ip0, ip1, ip2, ip3 byte, port uint16, udp bool) {
	var a net.Addr = &net.TCPAddr{IP: net.IP{ip0, ip1, ip2, ip3}, Port: int(port)}
	if udp {
		a = &net.UDPAddr{IP: net.IP{ip0, ip1, ip2, ip3}, Port: int(port)}
	}
	ip, p := extractLocalSocket(a)
	vcEnsures("the port is the listener's", p == port)
	vcEnsures("the address is the listener's", len(ip) == 4 && ip[0] == ip0 && ip[1] == ip1 && ip[2] == ip2 && ip[3] == ip3)
}

// a server that can't say who it is announces nothing
func VC_C17_no_identity(a int16, s uint32, name string, which byte) {
	vcRequires(which >= 1)
	vcRequires(which <= 7)
	conn := &vcConn{}
	at := vcAttrs(a, a, a, a, a, s, name)
	delete(at, CIPAttribute(which))
	h := vcSrv(conn, 0, 0, 0, at)
	err := h.sendListIdentityReply(eipHeader{})
	vcEnsures("an identity that is missing is an error", err != nil && len(conn.out) == 0)
}

// an address that is none of those has the standard port
func VC_C17_socket_other(name string) {
	_, p := extractLocalSocket(vcOtherAddr(name))
	vcEnsures("the standard port", p == 44818)
}

type vcOtherAddr string

func (vcOtherAddr) Network() string  { return "pipe" }
func (a vcOtherAddr) String() string { return string(a) }

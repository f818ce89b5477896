package gologix

import (
	"bytes"
	"log/slog"
	"time"
)

// C15: the connections of a server.

// vcConns is a connection manager with n of the connections c
func vcConns(c []*serverConnection, n int) *serverConnectionManager {
	cm := &serverConnectionManager{}
	cm.Init(slog.Default())
	for i := range c {
		if i < n {
			cm.Connections = append(cm.Connections, c[i])
		}
	}
	return cm
}

func vcConn4(id0, id1, id2, id3 uint16, ot0, ot1, ot2, ot3, to0, to1, to2, to3 uint32) []*serverConnection {
	return []*serverConnection{
		{ID: id0, OT: ot0, TO: to0, Open: true}, {ID: id1, OT: ot1, TO: to1, Open: true},
		{ID: id2, OT: ot2, TO: to2, Open: true}, {ID: id3, OT: ot3, TO: to3, Open: true}}
}

// vcHas tells if the connection is one of those the manager has
func vcHas(cm *serverConnectionManager, c *serverConnection) bool {
	r := false
	for _, x := range cm.Connections {
		if x == c {
			r = true
		}
	}
	return r
}

// the id of a connection: by is 0 for its number, 1 for its OT id and 2 for its TO id
func vcConnID(c *serverConnection, by byte) uint32 {
	if by == 0 {
		return uint32(c.ID)
	}
	if by == 1 {
		return c.OT
	}
	return c.TO
}
func vcConnGet(cm *serverConnectionManager, id uint32, by byte) (*serverConnection, error) {
	if by == 0 {
		return cm.GetByID(uint16(id))
	}
	if by == 1 {
		return cm.GetByOT(id)
	}
	return cm.GetByTO(id)
}
func vcConnClose(cm *serverConnectionManager, id uint32, by byte) error {
	if by == 0 {
		return cm.CloseByID(uint16(id))
	}
	if by == 1 {
		return cm.CloseByOT(id)
	}
	return cm.CloseByTO(id)
}

//vc:bounded lists of at most four connections
func VC_C15_get(n, by byte, id uint32, id0, id1, id2, id3 uint16, ot0, ot1, ot2, ot3, to0, to1, to2, to3 uint32) {
	vcRequires(n <= 4 && by <= 2)
	vcRequires(by != 0 || id <= 0xFFFF)
	all := vcConn4(id0, id1, id2, id3, ot0, ot1, ot2, ot3, to0, to1, to2, to3)
	cm := vcConns(all, int(n))
	c, err := vcConnGet(cm, id, by)
	first := -1
	for i := 3; i >= 0; i-- {
		if i < int(n) && vcConnID(all[i], by) == id {
			first = i
		}
	}
	if first < 0 {
		vcEnsures("an id nobody has is an error", err != nil && c == nil)
		return
	}
	vcEnsures("an open connection is found", err == nil && c != nil)
	vcEnsures("with the id asked for", vcConnID(c, by) == id && vcHas(cm, c))
	vcEnsures("nothing is changed by looking", len(cm.Connections) == int(n) && c.Open)
}

//vc:bounded lists of at most four connections
func VC_C15_add(n, by byte, id uint32, nid uint16, not, nto uint32, rpi int64, id0, id1, id2 uint16, ot0, ot1, ot2, to0, to1, to2 uint32) {
	vcRequires(n <= 3 && by <= 2)
	all := vcConn4(id0, id1, id2, nid, ot0, ot1, ot2, not, to0, to1, to2, nto)
	cm := vcConns(all, int(n))
	c := all[3]
	c.RPI = time.Duration(rpi)
	for i := 0; i < 3; i++ {
		vcRequires(vcConnID(all[i], by) != vcConnID(c, by))
	}
	cm.Add(c)
	got, err := vcConnGet(cm, vcConnID(c, by), by)
	vcEnsures("a connection is found under its own id", err == nil && got == c)
	vcEnsures("as it was opened", c.ID == nid && c.OT == not && c.TO == nto && c.Open && c.RPI == time.Duration(rpi))
	vcEnsures("the others are still there", len(cm.Connections) == int(n)+1 && (n < 1 || vcHas(cm, all[0])) && (n < 2 || vcHas(cm, all[1])) && (n < 3 || vcHas(cm, all[2])))
}

//vc:bounded lists of at most four connections
func VC_C15_close(n, by byte, id uint32, id0, id1, id2, id3 uint16, ot0, ot1, ot2, ot3, to0, to1, to2, to3 uint32) {
	vcRequires(n <= 4 && by <= 2)
	vcRequires(by != 0 || id <= 0xFFFF)
	all := vcConn4(id0, id1, id2, id3, ot0, ot1, ot2, ot3, to0, to1, to2, to3)
	cm := vcConns(all, int(n))
	hit := -1
	for i := 0; i < 4; i++ {
		for j := 0; j < i; j++ {
			vcRequires(vcConnID(all[i], by) != vcConnID(all[j], by))
		}
		if i < int(n) && vcConnID(all[i], by) == id {
			hit = i
		}
	}
	err := vcConnClose(cm, id, by)
	vcEnsures("closing reports if there was such a connection", (err == nil) == (hit >= 0))
	for i := 0; i < 4; i++ {
		if i == hit {
			vcEnsures("the connection is closed", !all[i].Open && !vcHas(cm, all[i]))
		} else if i < int(n) {
			vcEnsures("the others stay open", all[i].Open && vcHas(cm, all[i]))
		}
	}
	if hit >= 0 {
		vcEnsures("one connection less", len(cm.Connections) == int(n)-1)
		_, err = vcConnGet(cm, id, by)
		vcEnsures("it isn't found any more", err != nil)
	} else {
		vcEnsures("as many connections", len(cm.Connections) == int(n))
	}
}

//vc:pure
func vcMine(c *serverConnection, id, vendor uint16, serial uint32) bool {
	return c.ID == id && c.Vendor == vendor && c.Serial == serial
}

// a connection is closed by the originator that opened it
//
//vc:bounded lists of at most four connections
//vc:unroll 40
func VC_C15_originator(n byte, id, vendor uint16, serial uint32, v0, v1, v2, v3, id0, id1, id2, id3 uint16, s0, s1, s2, s3 uint32) {
	vcRequires(n <= 4)
	all := vcConn4(id0, id1, id2, id3, 1, 2, 3, 4, 5, 6, 7, 8)
	all[0].Vendor, all[1].Vendor, all[2].Vendor, all[3].Vendor = v0, v1, v2, v3
	all[0].Serial, all[1].Serial, all[2].Serial, all[3].Serial = s0, s1, s2, s3
	cm := vcConns(all, int(n))
	hit := -1
	for i := 3; i >= 0; i-- {
		if i < int(n) && vcMine(all[i], id, vendor, serial) {
			hit = i
		}
	}
	err := cm.CloseByOriginator(id, vendor, serial)
	vcEnsures("closing reports if there was such a connection", (err == nil) == (hit >= 0))
	for i := 0; i < 4; i++ {
		if i == hit {
			vcEnsures("the connection is closed", !all[i].Open && !vcHas(cm, all[i]))
		} else if i < int(n) {
			vcEnsures("the others stay open", all[i].Open && vcHas(cm, all[i]))
		}
	}
}

// a new connection has an id no other has, the one asked for if it can
//
//vc:bounded lists of at most four connections
//vc:verify (*gologix.serverConnectionManager).UnusedOT
func VC_C15_unused(n byte, id uint32, ot0, ot1, ot2, ot3 uint32) {
	vcRequires(n <= 4)
	all := vcConn4(0, 0, 0, 0, ot0, ot1, ot2, ot3, 0, 0, 0, 0)
	cm := vcConns(all, int(n))
	cm.Lock.RLock()
	cm.Lock.RUnlock()
	got := cm.UnusedOT(id)
	used := id == 0
	for i := 0; i < 4; i++ {
		if i < int(n) {
			used = used || all[i].OT == id
			vcEnsures("the id belongs to no other connection", got != all[i].OT)
		}
	}
	vcEnsures("the id asked for is given if it can be", used || got == id)
	vcEnsures("zero is no id", got != 0)
}

//vc:inv (*gologix.serverConnectionManager).UnusedOT#0
//vc:for VC_C15_unused
func vcInvUnusedOT(OT uint32, old_OT uint32, c_n byte, c_ot0, c_ot1, c_ot2, c_ot3 uint32) bool {
	return OT == old_OT || old_OT == 0 || c_n >= 1 && old_OT == c_ot0 || c_n >= 2 && old_OT == c_ot1 || c_n >= 3 && old_OT == c_ot2 || c_n >= 4 && old_OT == c_ot3
}

// the id given where the one asked for is taken
var vcFreeOT uint32

//vc:spec (*gologix.serverConnectionManager).UnusedOT
//vc:for VC_C15_open*
func vcSpecUnusedOT(cm *serverConnectionManager, OT uint32) uint32 {
	used := OT == 0
	for _, c := range cm.Connections {
		used = used || c.OT == OT
		vcRequires(c.OT != vcFreeOT)
	}
	vcRequires(vcFreeOT != 0)
	if used {
		return vcFreeOT
	}
	return OT
}

func vcOpen(e vcEnv, svc byte, d []byte, free uint32, w int) {
	vcFreeOT = free
	out, h, err := vcUnconnected(e, &vcPoint{}, append([]byte{svc}, d...))
	conns := h.server.ConnMgr.Connections
	if len(out) == 0 {
		vcEnsures("a request without an answer ends the connection and opens nothing", err != nil && len(conns) == 2)
		return
	}
	vcEnsures("the reply is to the request", vcUnconnHdr(out, e, svc) && out[43] == 0)
	if out[42] != 0 {
		vcEnsures("a refused open opens nothing", len(out) == 44 && len(conns) == 2)
		return
	}
	n := 37 + 2*w
	vcEnsures("an accepted open opens a connection", len(out) == 70 && len(conns) == 3)
	vcEnsures("that was asked for", len(d) >= n && int(d[n-1]) >= 1 && len(d) >= n+2*int(d[n-1]))
	c := conns[2]
	ot, to := uint32(vcLE(d, 7, 4)), uint32(vcLE(d, 11, 4))
	vcEnsures("its ids are those of the reply", vcLE(out, 44, 4) == uint64(c.OT) && vcLE(out, 48, 4) == uint64(c.TO))
	vcEnsures("its ids are those asked for", (to == 0 || c.TO == to) && (c.OT == ot || ot == 0 || ot == e.ot || ot == e.ot2))
	vcEnsures("its id is no other connection's", c.OT != 0 && c.OT != e.ot && c.OT != e.ot2)
	vcEnsures("it is its originator's", uint64(c.ID) == vcLE(d, 15, 2) && uint64(c.Vendor) == vcLE(d, 17, 2) && uint64(c.Serial) == vcLE(d, 19, 4))
	vcEnsures("the reply names its originator", vcBytesEq(out[52:60], d[15:23]))
	vcEnsures("the reply has the intervals asked for", vcBytesEq(out[60:64], d[27:31]) && vcBytesEq(out[64:68], d[31+w:35+w]) && out[68] == 0 && out[69] == 0)
	vcEnsures("it is open and leads where asked", c.Open && len(c.Path) == 2 && c.Path[0] == d[n] && c.Path[1] == d[n+1])
	vcEnsures("its interval is the one asked for", c.RPI == time.Duration(vcLE(d, 31+w, 4))*time.Microsecond)
	got, gerr := h.server.ConnMgr.GetByOT(c.OT)
	vcEnsures("it is found by its id", gerr == nil && got == c)
	vcEnsures("cyclic data need an interval", w != 2 || d[n-2] != 1 || vcLE(d, 31+w, 4) != 0)
	vcEnsures("an opened connection goes on", err == nil || w == 2 && d[n-2] == 1)
}

// a forward open of any bytes
//
//vc:props C12,C14,C15
func VC_C15_open_small(e vcEnv, d []byte, free uint32) {
	vcOpen(e, 0x54, d, free, 2)
}

//vc:props C12,C14,C15
func VC_C15_open_large(e vcEnv, d []byte, free uint32) {
	vcOpen(e, 0x5B, d, free, 4)
}

// a forward close of any bytes, with two connections open
//
//vc:props C12,C14,C15
//vc:bounded two connections are open
func VC_C15_closed(e vcEnv, d []byte, id, id2, vendor, vendor2 uint16, serial, serial2 uint32) {
	vcRequires(len(d) <= 65000)
	vcRequires(e.ot != e.ot2)
	vcRequires(id != id2 || vendor != vendor2 || serial != serial2)
	conn := &vcConn{}
	h := vcHandler(conn, e, &vcPoint{})
	a, b := h.server.ConnMgr.Connections[0], h.server.ConnMgr.Connections[1]
	a.ID, a.Vendor, a.Serial = id, vendor, serial
	b.ID, b.Vendor, b.Serial = id2, vendor2, serial2
	err := h.sendRRData(eipHeader{}, bytes.NewReader(vcUnconn(append([]byte{0x4E}, d...))))
	out := conn.out
	if len(d) < 16 {
		vcEnsures("a cut request closes nothing", err != nil && len(out) == 0 && a.Open && b.Open && len(h.server.ConnMgr.Connections) == 2)
		return
	}
	ma := uint64(id) == vcLE(d, 7, 2) && uint64(vendor) == vcLE(d, 9, 2) && uint64(serial) == vcLE(d, 11, 4)
	mb := uint64(id2) == vcLE(d, 7, 2) && uint64(vendor2) == vcLE(d, 9, 2) && uint64(serial2) == vcLE(d, 11, 4)
	vcEnsures("the connection asked for is closed, no other one is", a.Open == !ma && b.Open == !mb)
	vcEnsures("a closed connection is not found", vcHas(&h.server.ConnMgr, a) == !ma && vcHas(&h.server.ConnMgr, b) == !mb)
	vcEnsures("a whole request for a connection is answered", (len(out) != 0) == ((ma || mb) && len(d)-16 >= 2*int(d[15])))
	if len(out) == 0 {
		vcEnsures("a request without an answer ends the connection", err != nil)
		return
	}
	vcEnsures("the reply is to the request", err == nil && vcUnconnHdr(out, e, 0x4E) && out[42] == 0 && out[43] == 0)
	vcEnsures("a connection was closed", ma || mb)
	vcEnsures("the reply names its originator", len(out) == 54 && vcBytesEq(out[44:52], d[7:15]) && out[52] == 0 && out[53] == 0)
}

package gologix

import (
	"bytes"
	"io"
)

// the items of a request, as the handlers may rely on them: any number of any items, or an error
var vcItemsN int
var vcItem0, vcItem1 []byte
var vcItemID [2]uint16

//vc:spec gologix.readItems
//vc:for VC_C14_body*
//vc:for VC_C16_io_receive
func vcSpecItems(r io.Reader) ([]CIPItem, error) {
	if vcAny() {
		return nil, errVC
	}
	if vcItemsN == 2 {
		return []CIPItem{
			{Header: cipItemHeader{ID: CIPItemID(vcItemID[0]), Length: uint16(len(vcItem0))}, Data: vcItem0},
			{Header: cipItemHeader{ID: CIPItemID(vcItemID[1]), Length: uint16(len(vcItem1))}, Data: vcItem1}}, nil
	}
	return make([]CIPItem, vcItemsN), nil
}

// vcHandled: the handler of service svc gets a request on an open connection
func vcHandled(h *serverTCPHandler, items []CIPItem, svc byte) error {
	vcEnsures("a request has its two items", len(items) == 2)
	ot := vcLE(items[0].Data, 0, 4)
	c := h.server.ConnMgr.Connections
	vcEnsures("its connection is open", len(c) == 2 && (ot == uint64(c[0].OT) || ot == uint64(c[1].OT)))
	vcEnsures("its reply goes out on that connection", ot == uint64(c[0].OT) && h.TOConnectionID == c[0].TO || ot == uint64(c[1].OT) && h.TOConnectionID == c[1].TO)
	vcEnsures("its reply has its sequence count", uint64(h.UnitDataSequencer) == vcLE(items[1].Data, 0, 2))
	vcEnsures("the handler is the service's", items[1].Data[2] == svc)
	vcHandledN++
	if vcAny() {
		return errVC
	}
	return nil
}

var vcHandledN int

//vc:spec (*gologix.serverTCPHandler).cipConnectedWrite
//vc:for VC_C14_body_unit
func vcSpecHWrite(h *serverTCPHandler, items []CIPItem) error { return vcHandled(h, items, 0x4D) }

//vc:spec (*gologix.serverTCPHandler).connectedRead
//vc:for VC_C14_body_unit
func vcSpecHRead(h *serverTCPHandler, service CIPService, items []CIPItem) error {
	vcEnsures("the read is the one asked for", service == CIPService_Read || service == CIPService_FragRead)
	return vcHandled(h, items, byte(service))
}

//vc:spec (*gologix.serverTCPHandler).connectedMulti
//vc:for VC_C14_body_unit
func vcSpecHMulti(h *serverTCPHandler, items []CIPItem) error { return vcHandled(h, items, 0x0A) }

//vc:spec (*gologix.serverTCPHandler).connectedGetAttr
//vc:for VC_C14_body_unit
func vcSpecHGetAttr(h *serverTCPHandler, items []CIPItem) error { return vcHandled(h, items, 0x0E) }

//vc:spec (*gologix.serverTCPHandler).connectedGetAttributeAll
//vc:for VC_C14_body_unit
func vcSpecHGetAll(h *serverTCPHandler, items []CIPItem) error { return vcHandled(h, items, 0x01) }

//vc:spec (*gologix.serverTCPHandler).connectedSymbolList
//vc:for VC_C14_body_unit
func vcSpecHSymbols(h *serverTCPHandler, items []CIPItem) error { return vcHandled(h, items, 0x55) }

//vc:spec (*gologix.serverTCPHandler).unconnectedData
//vc:for VC_C14_body_rr
func vcSpecHUnconnected(h *serverTCPHandler, item CIPItem) error {
	vcEnsures("the handler gets the data item", vcItemID[1] == 0xB2 && item.Pos == 0 && vcBytesEq(item.Data, vcItem1))
	vcHandledN++
	if vcAny() {
		return errVC
	}
	return nil
}

// a request with any items goes to the handler of its service, or is refused
//
//vc:verify (*gologix.serverTCPHandler).sendUnitData
//vc:props C12,C14
func VC_C14_body_unit(e vcEnv, d []byte, n int, id [2]uint16, a []byte, b []byte) {
	vcRequires(len(d) <= 65535)
	vcRequires(len(a) <= 65535)
	vcRequires(len(b) <= 65535)
	vcRequires(n >= 0)
	vcRequires(n <= 65535)
	vcRequires(e.ot != e.ot2)
	vcItemsN, vcItem0, vcItem1, vcItemID, vcHandledN = n, a, b, id, 0
	conn := &vcConn{}
	h := vcHandler(conn, e, &vcPoint{})
	err := h.sendUnitData(eipHeader{}, bytes.NewReader(d))
	if len(conn.out) != 0 {
		vcEnsures("a refusal names the connection and the request", err == nil && vcHandledN == 0 && len(conn.out) == 50 && len(b) >= 3 && conn.out[46] == b[2]|0x80 && conn.out[48] == byte(CIPStatus_ServiceNotSupported) && vcLE(conn.out, 44, 2) == vcLE(b, 0, 2))
		return
	}
	vcEnsures("a request is handled once or ends the connection", vcHandledN == 1 || err != nil && vcHandledN == 0)
}

//vc:verify (*gologix.serverTCPHandler).sendRRData
//vc:props C12,C14
func VC_C14_body_rr(e vcEnv, d []byte, n int, id [2]uint16, a []byte, b []byte, v int32) {
	vcRequires(len(d) <= 65535)
	vcRequires(len(a) <= 65535)
	vcRequires(len(b) <= 65535)
	vcRequires(n >= 0)
	vcRequires(n <= 65535)
	vcRequires(e.ot != e.ot2)
	vcItemsN, vcItem0, vcItem1, vcItemID, vcHandledN = n, a, b, id, 0
	conn := &vcConn{}
	p := &vcPoint{val: v}
	h := vcHandler(conn, e, p)
	err := h.sendRRData(eipHeader{}, bytes.NewReader(d))
	vcEnsures("a request is handled, answered or ends the connection", err != nil || vcHandledN == 1 || len(conn.out) != 0)
	vcEnsures("connected data here are only read", p.writes == 0 && (vcHandledN == 0 || len(conn.out) == 0 && p.reads == 0))
}

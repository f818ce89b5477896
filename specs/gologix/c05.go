package gologix

// C05: encapsulation framing.

// header fields of an encapsulation frame as transmitted
func vcFrameHdr(b []byte, cmd uint16, payload int, session uint32, status uint32, context uint64, options uint32) bool {
	return len(b) >= 24 && vcLE(b, 0, 2) == uint64(cmd) && vcLE(b, 2, 2) == uint64(payload) && vcLE(b, 4, 4) == uint64(session) &&
		vcLE(b, 8, 4) == uint64(status) && vcLE(b, 12, 8) == context && vcLE(b, 20, 4) == uint64(options)
}

func vcClient(c *vcConn, session uint32, context uint64) *Client {
	return &Client{conn: c, SessionHandle: session, Context: context, connStatus: connectionStatusConnected, ConnectionSize: 4000, Logger: vcLog{}}
}

type vcLog struct{}

func (vcLog) Debug(msg string, args ...any)          {}
func (vcLog) Info(msg string, args ...any)           {}
func (vcLog) Warn(msg string, args ...any)           {}
func (vcLog) Error(msg string, args ...any)          {}
func (vcLog) With(args ...any) LoggerInterface       { return vcLog{} }
func (vcLog) WithGroup(name string) LoggerInterface  { return vcLog{} }

func VC_C05_build(cmd uint16, session uint32, context uint64, a uint32, b uint16, payload []byte) {
	cl := vcClient(&vcConn{}, session, context)
	vcRequires(len(payload) <= 65529)
	out, err := cl.sendMsgBuild(CIPCommand(cmd), a, b, payload)
	vcEnsures("a frame is built", err == nil && len(out) == 30+len(payload))
	vcEnsures("header carries command, payload length, session and context", vcFrameHdr(out, cmd, 6+len(payload), session, 0, context, 0))
	vcEnsures("payload parts follow in order", vcLE(out, 24, 4) == uint64(a) && vcLE(out, 28, 2) == uint64(b) && vcBytesEq(out[30:], payload))
}

func VC_C05_recv(in []byte, pos int, chunk []byte) {
	vcRequires(pos >= 0 && pos <= len(in))
	c := &vcConn{in: in, pos: pos, chunk: chunk}
	cl := vcClient(c, 0, 0)
	hdr, buf, err := cl.recvData()
	whole := len(in)-pos >= 24 && len(in)-pos-24 >= int(vcLE(in, pos+2, 2))
	if !whole {
		vcEnsures("a truncated frame is an error", err != nil)
		return
	}
	n := int(vcLE(in, pos+2, 2))
	vcEnsures("a whole frame is delivered however it was segmented", err == nil)
	vcEnsures("header fields are those received", uint64(hdr.Command) == vcLE(in, pos, 2) && int(hdr.Length) == n && uint64(hdr.SessionHandle) == vcLE(in, pos+4, 4) &&
		uint64(hdr.Status) == vcLE(in, pos+8, 4) && hdr.Context == vcLE(in, pos+12, 8) && uint64(hdr.Options) == vcLE(in, pos+20, 4))
	vcEnsures("payload is exactly the frame's", vcBytesEq(buf.Bytes(), in[pos+24:pos+24+n]))
	vcEnsures("exactly one frame is consumed", c.pos == pos+24+n)
}

func VC_C05_send(b []byte, wfail, dfail bool) {
	c := &vcConn{wfail: wfail, dfail: dfail}
	cl := vcClient(c, 0, 0)
	err := cl.sendData(b)
	vcEnsures("success means every byte was written in order", err != nil || vcBytesEq(c.out, b))
	vcEnsures("a failing connection is reported", !(wfail || dfail) || len(b) == 0 || err != nil)
}

func VC_C05_build_too_long(cmd uint16, a uint32, payload []byte) {
	vcRequires(len(payload) > 65535-4)
	cl := vcClient(&vcConn{}, 1, 2)
	_, err := cl.sendMsgBuild(CIPCommand(cmd), a, payload)
	vcEnsures("a payload that does not fit the length field is refused", err != nil)
}

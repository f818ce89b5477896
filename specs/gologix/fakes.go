package gologix

import (
	"errors"
	"io"
	"net"
	"time"
)

// vcConn is a network connection whose peer's bytes are in and whose output is recorded.
// Reads deliver between one byte and everything asked for: how much is decided by chunk.
type vcConn struct {
	in     []byte
	pos    int
	chunk  []byte
	ci     int
	out    []byte
	wfail  bool
	dfail  bool
	nwr    int
	closed int
}

var errVCConn = errors.New("vc: connection failed")

func (c *vcConn) Read(p []byte) (int, error) {
	if c.pos >= len(c.in) {
		return 0, io.EOF
	}
	n := len(c.in) - c.pos
	if len(p) <= n {
		n = len(p)
	}
	if c.ci < len(c.chunk) {
		if k := int(c.chunk[c.ci]) + 1; k < n {
			n = k
		}
		c.ci++
	}
	copy(p[:n], c.in[c.pos:c.pos+n])
	c.pos += n
	return n, nil
}
func (c *vcConn) Write(p []byte) (int, error) {
	if c.wfail {
		return 0, errVCConn
	}
	c.out = append(c.out, p...)
	c.nwr++
	return len(p), nil
}
func (c *vcConn) Close() error         { c.closed++; return nil }
func (c *vcConn) LocalAddr() net.Addr  { return nil }
func (c *vcConn) RemoteAddr() net.Addr { return &net.TCPAddr{} }
func (c *vcConn) deadline() error {
	if c.dfail {
		return errVCConn
	}
	return nil
}
func (c *vcConn) SetDeadline(t time.Time) error      { return c.deadline() }
func (c *vcConn) SetReadDeadline(t time.Time) error  { return c.deadline() }
func (c *vcConn) SetWriteDeadline(t time.Time) error { return c.deadline() }

// io.ReadAtLeast over a vcConn: what was read so far is the input up to the position
func vcConnPos(r io.Reader) int {
	if c, ok := r.(*vcConn); ok {
		return c.pos
	}
	return 0
}

//vc:inv io.ReadAtLeast#0
//vc:for VC_C05*
//vc:when r *vcConn
func vcInvReadAtLeast(r io.Reader, buf []byte, n int, err error, pre_vcConnPos int) bool {
	c, ok := r.(*vcConn)
	if !ok {
		return true
	}
	return (err == nil || c.pos >= len(c.in)) && 0 <= n && n <= len(buf) && pre_vcConnPos >= 0 && c.pos == pre_vcConnPos+n && c.pos <= len(c.in) && vcBytesEq(buf[:n], c.in[pre_vcConnPos:pre_vcConnPos+n])
}

package gologix

// C03: values serialized on their own.

//vc:verify gologix.Serialize
func VC_C03_values(cls CIPClass, a uint16, s string, raw []byte, d int32, j int) {
	vcRequires(len(s) < 1<<32)
	b, err := Serialize(cls, a, s, raw, d)
	vcEnsures("values are accepted", err == nil)
	if err != nil {
		return
	}
	cb := cls.Bytes()
	n := len(cb)
	o := b.Bytes()
	vcEnsures("nothing else is written", len(o) == n+2+88+len(raw)+4)
	if len(o) != n+2+88+len(raw)+4 {
		return
	}
	vcEnsures("values that serialize themselves", vcBytesEq(o[:n], cb))
	vcEnsures("numbers", vcLE(o, n, 2) == uint64(a) && vcLE(o, n+90+len(raw), 4) == uint64(uint32(d)))
	l := len(s)
	if l > 84 {
		l = 84
	}
	vcEnsures("the length of a text is that of what follows", vcLE(o, n+2, 4) == uint64(l))
	vcEnsures("a text", vcBytesEq(o[n+6:n+6+l], []byte(s)[:l]))
	vcEnsures("padded with zeros", j < l || j >= 84 || o[n+6+j] == 0)
	vcEnsures("bytes", vcBytesEq(o[n+90:n+90+len(raw)], raw))
}

package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Terms: hash-consed DAG. Width 0 is Bool, 1..64 are bit-vectors.
type Op uint8

const (
	OConst Op = iota
	OVar
	OBound // quantifier-bound variable
	OSel   // array read: name(args...)
	OUF    // uninterpreted function
	OLin   // val + sum coef[i]*args[i]
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd // bitwise
	OOr
	OXor
	OShl
	OLShr
	OAShr
	OExt  // extract hi=val>>8, lo=val&255
	OZExt // zero extend to w
	OSExt
	OConcat // args[0] high, args[1] low
	OIte
	// boolean
	OEq
	OUlt
	OUle
	OSlt
	OSle
	ONot
	OBAnd
	OBOr
	OForall // args[0]=body, args[1..]=bound vars ; name empty
)

type Term struct {
	op   Op
	w    int
	id   int
	val  uint64
	name string
	args []*Term
	coef []uint64
	// cached unsigned interval
	lo, hi uint64
	hasB   bool // contains bound variable
	size   int
}

type Ctx struct {
	tab    map[string]*Term
	terms  []*Term
	nfresh int
	True   *Term
	False  *Term
	selMem map[selKey]*Term
	arrTab map[string]*Arr
	narr   int
	// well-known ranges asserted for variables
	rng map[*Term][2]uint64
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, selMem: map[selKey]*Term{}, arrTab: map[string]*Arr{}, rng: map[*Term][2]uint64{}}
	c.True = c.mk(&Term{op: OConst, w: 0, val: 1})
	c.False = c.mk(&Term{op: OConst, w: 0, val: 0})
	return c
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (c *Ctx) key(t *Term) string {
	var b strings.Builder
	var buf [8]byte
	b.WriteByte(byte(t.op))
	b.WriteByte(byte(t.w))
	put := func(v uint64) {
		for i := 0; i < 8; i++ {
			buf[i] = byte(v >> (8 * i))
		}
		b.Write(buf[:])
	}
	put(t.val)
	b.WriteString(t.name)
	b.WriteByte(0)
	for _, a := range t.args {
		v := uint32(a.id)
		b.WriteByte(byte(v))
		b.WriteByte(byte(v >> 8))
		b.WriteByte(byte(v >> 16))
		b.WriteByte(byte(v >> 24))
	}
	for _, a := range t.coef {
		put(a)
	}
	return b.String()
}

func (c *Ctx) mk(t *Term) *Term {
	k := c.key(t)
	if o, ok := c.tab[k]; ok {
		return o
	}
	t.id = len(c.terms)
	t.size = 1
	for _, a := range t.args {
		if a.hasB {
			t.hasB = true
		}
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	if t.op == OBound {
		t.hasB = true
	}
	c.terms = append(c.terms, t)
	c.tab[k] = t
	c.computeRange(t)
	return t
}

func (c *Ctx) computeRange(t *Term) {
	t.lo, t.hi = 0, mask(t.w)
	if t.w == 0 {
		t.hi = 1
	}
	switch t.op {
	case OConst:
		t.lo, t.hi = t.val, t.val
	case OZExt:
		t.lo, t.hi = t.args[0].lo, t.args[0].hi
	case OIte:
		t.lo = min(t.args[1].lo, t.args[2].lo)
		t.hi = max(t.args[1].hi, t.args[2].hi)
	case OLin:
		// no-overflow sum
		lo, hi := t.val, t.val
		ok := true
		for i, a := range t.args {
			h, l := bits.Mul64(t.coef[i], a.hi)
			if h != 0 {
				ok = false
				break
			}
			s, cr := bits.Add64(hi, l, 0)
			if cr != 0 {
				ok = false
				break
			}
			hi = s
			lo += t.coef[i] * a.lo
		}
		if ok && hi <= mask(t.w) {
			t.lo, t.hi = lo, hi
		} else if len(t.args) == 1 && t.coef[0] == 1 && t.val > mask(t.w)/2 {
			// x - k
			k := (-t.val) & mask(t.w)
			if t.args[0].lo >= k {
				t.lo, t.hi = t.args[0].lo-k, t.args[0].hi-k
			}
		}
	case OAnd:
		t.hi = min(t.args[0].hi, t.args[1].hi)
	case OOr, OXor:
		m := t.args[0].hi | t.args[1].hi
		t.hi = mask(bits.Len64(m))
		if t.op == OOr {
			t.lo = max(t.args[0].lo, t.args[1].lo)
		}
	case OLShr:
		if t.args[1].op == OConst && t.args[1].val < 64 {
			t.lo, t.hi = t.args[0].lo>>t.args[1].val, t.args[0].hi>>t.args[1].val
		} else {
			t.hi = t.args[0].hi
		}
	case OURem:
		if t.args[1].op == OConst && t.args[1].val > 0 {
			t.hi = min(t.args[1].val-1, t.args[0].hi)
		}
	case OUDiv:
		if t.args[1].op == OConst && t.args[1].val > 0 {
			t.lo, t.hi = t.args[0].lo/t.args[1].val, t.args[0].hi/t.args[1].val
		}
	case OConcat:
		sh := uint(t.args[1].w)
		t.lo = t.args[0].lo<<sh | t.args[1].lo
		t.hi = t.args[0].hi<<sh | t.args[1].hi
	case OExt:
		if t.val&255 == 0 && t.args[0].hi <= mask(t.w) {
			t.lo, t.hi = t.args[0].lo, t.args[0].hi
		}
	}
	if r, ok := c.rng[t]; ok {
		t.lo = max(t.lo, r[0])
		t.hi = min(t.hi, r[1])
	}
}

func (c *Ctx) BV(w int, v uint64) *Term {
	return c.mk(&Term{op: OConst, w: w, val: v & mask(w)})
}
func (c *Ctx) I(v int) *Term { return c.BV(64, uint64(int64(v))) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Var(name string, w int) *Term { return c.mk(&Term{op: OVar, w: w, name: name}) }
func (c *Ctx) VarR(name string, w int, lo, hi uint64) *Term {
	t := c.Var(name, w)
	c.rng[t] = [2]uint64{lo, hi}
	t.lo, t.hi = lo, hi
	return t
}
func (c *Ctx) fresh(p string) string {
	c.nfresh++
	return fmt.Sprintf("%s!%d", p, c.nfresh)
}
func (c *Ctx) Fresh(p string, w int) *Term { return c.Var(c.fresh(p), w) }

// FreshLen: a fresh non-negative length (bounded by the address space assumption)
const maxLen = uint64(1) << 40

func (c *Ctx) FreshLen(p string) *Term { return c.VarR(c.fresh(p), 64, 0, maxLen) }

func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) IsTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) IsFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }
func sext(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}
func (t *Term) S() int64 { return sext(t.val, t.w) }

// ---- linear arithmetic
type lin struct {
	k     uint64
	terms map[*Term]uint64
}

func (c *Ctx) addLin(l *lin, t *Term, f uint64) {
	switch t.op {
	case OConst:
		l.k += t.val * f
	case OLin:
		l.k += t.val * f
		for i, a := range t.args {
			l.terms[a] += t.coef[i] * f
		}
	default:
		l.terms[t] += f
	}
}

func (c *Ctx) fromLin(l *lin, w int) *Term {
	m := mask(w)
	l.k &= m
	var as []*Term
	for a, f := range l.terms {
		if f&m != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return c.BV(w, l.k)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	cf := make([]uint64, len(as))
	for i, a := range as {
		cf[i] = l.terms[a] & m
	}
	if len(as) == 1 && cf[0] == 1 && l.k == 0 {
		return as[0]
	}
	return c.mk(&Term{op: OLin, w: w, val: l.k, args: as, coef: cf})
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.IsConst() && a.val == 0 {
		return b
	}
	if b.IsConst() && b.val == 0 {
		return a
	}
	l := &lin{terms: map[*Term]uint64{}}
	c.addLin(l, a, 1)
	c.addLin(l, b, 1)
	return c.fromLin(l, a.w)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	if b.IsConst() && b.val == 0 {
		return a
	}
	l := &lin{terms: map[*Term]uint64{}}
	c.addLin(l, a, 1)
	c.addLin(l, b, ^uint64(0))
	return c.fromLin(l, a.w)
}
func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.BV(a.w, 0), a) }
func (c *Ctx) MulK(a *Term, k uint64) *Term {
	l := &lin{terms: map[*Term]uint64{}}
	c.addLin(l, a, k)
	return c.fromLin(l, a.w)
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.IsConst() {
		return c.MulK(b, a.val)
	}
	if b.IsConst() {
		return c.MulK(a, b.val)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OMul, w: a.w, args: []*Term{a, b}})
}
func (c *Ctx) AddI(a *Term, k int) *Term { return c.Add(a, c.BV(a.w, uint64(int64(k)))) }

func (c *Ctx) bin(op Op, a, b *Term) *Term { return c.mk(&Term{op: op, w: a.w, args: []*Term{a, b}}) }

func (c *Ctx) UDiv(a, b *Term) *Term {
	if b.IsConst() && b.val != 0 {
		if a.IsConst() {
			return c.BV(a.w, a.val/b.val)
		}
		if b.val == 1 {
			return a
		}
		if b.val&(b.val-1) == 0 {
			return c.LShr(a, c.BV(a.w, uint64(bits.TrailingZeros64(b.val))))
		}
	}
	return c.bin(OUDiv, a, b)
}
func (c *Ctx) URem(a, b *Term) *Term {
	if b.IsConst() && b.val != 0 {
		if a.IsConst() {
			return c.BV(a.w, a.val%b.val)
		}
		if b.val&(b.val-1) == 0 {
			return c.And(a, c.BV(a.w, b.val-1))
		}
		if a.hi < b.val {
			return a
		}
	}
	return c.bin(OURem, a, b)
}
func (c *Ctx) SDiv(a, b *Term) *Term {
	if b.IsConst() && b.val != 0 && sext(b.val, b.w) > 0 {
		if a.IsConst() {
			return c.BV(a.w, uint64(a.S()/b.S()))
		}
		if a.hi <= mask(a.w)>>1 {
			return c.UDiv(a, b)
		}
	}
	return c.bin(OSDiv, a, b)
}
func (c *Ctx) SRem(a, b *Term) *Term {
	if b.IsConst() && b.val != 0 && sext(b.val, b.w) > 0 {
		if a.IsConst() {
			return c.BV(a.w, uint64(a.S()%b.S()))
		}
		if a.hi <= mask(a.w)>>1 {
			return c.URem(a, b)
		}
	}
	return c.bin(OSRem, a, b)
}
func (c *Ctx) And(a, b *Term) *Term {
	if a.w == 0 {
		return c.BAnd(a, b)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if a.IsConst() {
			return c.BV(a.w, a.val&b.val)
		}
		if b.val == 0 {
			return b
		}
		if b.val == mask(a.w) {
			return a
		}
		// low mask
		n := bits.Len64(b.val)
		if b.val == mask(n) {
			if a.hi <= b.val {
				return a
			}
			return c.ZExt(c.Extract(a, n-1, 0), a.w)
		}
		if a.op == OAnd && a.args[1].IsConst() {
			return c.And(a.args[0], c.BV(a.w, b.val&a.args[1].val))
		}
		if a.op == OZExt && a.args[0].w < n {
			return c.ZExt(c.And(a.args[0], c.BV(a.args[0].w, b.val)), a.w)
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	if a == b {
		return a
	}
	return c.bin(OAnd, a, b)
}

// disjoint or: turn zext/shift combinations into concat
func (c *Ctx) Or(a, b *Term) *Term {
	if a.w == 0 {
		return c.BOr(a, b)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if a.IsConst() {
			return c.BV(a.w, a.val|b.val)
		}
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return b
		}
	}
	if a == b {
		return a
	}
	// x has zero low bits up to position p ; y < 2^p
	tryC := func(x, y *Term) *Term {
		if x.op == OConcat && x.args[1].IsConst() && x.args[1].val == 0 {
			p := x.args[1].w
			if y.hi <= mask(p) {
				return c.Concat(x.args[0], c.Extract(y, p-1, 0))
			}
		}
		if x.op == OZExt && x.args[0].op == OConcat {
			z := x.args[0]
			if z.args[1].IsConst() && z.args[1].val == 0 && y.hi <= mask(z.args[1].w) {
				return c.ZExt(c.Concat(z.args[0], c.Extract(y, z.args[1].w-1, 0)), x.w)
			}
		}
		return nil
	}
	if r := tryC(a, b); r != nil {
		return r
	}
	if r := tryC(b, a); r != nil {
		return r
	}
	if !b.IsConst() && a.id > b.id {
		a, b = b, a
	}
	return c.bin(OOr, a, b)
}
func (c *Ctx) Xor(a, b *Term) *Term {
	if a.w == 0 {
		return c.Not(c.Eq(a, b))
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if a.IsConst() {
			return c.BV(a.w, a.val^b.val)
		}
		if b.val == 0 {
			return a
		}
	}
	if a == b {
		return c.BV(a.w, 0)
	}
	if !b.IsConst() && a.id > b.id {
		a, b = b, a
	}
	return c.bin(OXor, a, b)
}
func (c *Ctx) BNotW(a *Term) *Term { return c.Xor(a, c.BV(a.w, mask(a.w))) }

// shifts: amount is same width as a (already range-limited semantic: >= w gives 0)
func (c *Ctx) Shl(a, s *Term) *Term {
	if s.IsConst() {
		if s.val >= uint64(a.w) {
			return c.BV(a.w, 0)
		}
		if s.val == 0 {
			return a
		}
		if a.IsConst() {
			return c.BV(a.w, a.val<<s.val)
		}
		if a.op == OLin {
			return c.MulK(a, uint64(1)<<s.val)
		}
		k := int(s.val)
		// concat(extract(w-k-1..0), 0_k)
		return c.Concat(c.Extract(a, a.w-k-1, 0), c.BV(k, 0))
	}
	return c.bin(OShl, a, s)
}
func (c *Ctx) LShr(a, s *Term) *Term {
	if s.IsConst() {
		if s.val >= uint64(a.w) {
			return c.BV(a.w, 0)
		}
		if s.val == 0 {
			return a
		}
		return c.ZExt(c.Extract(a, a.w-1, int(s.val)), a.w)
	}
	return c.bin(OLShr, a, s)
}
func (c *Ctx) AShr(a, s *Term) *Term {
	if a.hi <= mask(a.w)>>1 {
		return c.LShr(a, s)
	}
	if s.IsConst() {
		if s.val >= uint64(a.w) {
			s = c.BV(a.w, uint64(a.w-1))
		}
		if s.val == 0 {
			return a
		}
		if a.IsConst() {
			return c.BV(a.w, uint64(a.S()>>s.val))
		}
		return c.SExt(c.Extract(a, a.w-1, int(s.val)), a.w)
	}
	return c.bin(OAShr, a, s)
}

func (c *Ctx) Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return c.BV(w, a.val>>uint(lo))
	case OExt:
		l0 := int(a.val & 255)
		return c.Extract(a.args[0], hi+l0, lo+l0)
	case OZExt:
		iw := a.args[0].w
		if lo >= iw {
			return c.BV(w, 0)
		}
		if hi < iw {
			return c.Extract(a.args[0], hi, lo)
		}
		return c.ZExt(c.Extract(a.args[0], iw-1, lo), w)
	case OSExt:
		iw := a.args[0].w
		if hi < iw {
			return c.Extract(a.args[0], hi, lo)
		}
		if lo < iw {
			return c.SExt(c.Extract(a.args[0], iw-1, lo), w)
		}
	case OConcat:
		lw := a.args[1].w
		if lo >= lw {
			return c.Extract(a.args[0], hi-lw, lo-lw)
		}
		if hi < lw {
			return c.Extract(a.args[1], hi, lo)
		}
		return c.Concat(c.Extract(a.args[0], hi-lw, 0), c.Extract(a.args[1], lw-1, lo))
	case OLin:
		if lo == 0 && a.hi > mask(w) {
			l := &lin{terms: map[*Term]uint64{}}
			l.k = a.val
			for i, x := range a.args {
				c.addLin(l, c.Extract(x, hi, 0), a.coef[i])
			}
			return c.fromLin(l, w)
		}
	case OIte:
		if a.args[1].IsConst() || a.args[2].IsConst() {
			return c.Ite(a.args[0], c.Extract(a.args[1], hi, lo), c.Extract(a.args[2], hi, lo))
		}
	case OAnd:
		if a.args[1].IsConst() {
			return c.And(c.Extract(a.args[0], hi, lo), c.Extract(a.args[1], hi, lo))
		}
	case OOr:
		return c.Or(c.Extract(a.args[0], hi, lo), c.Extract(a.args[1], hi, lo))
	}
	if lo > 0 && a.hi <= mask(lo) {
		return c.BV(w, 0)
	}
	return c.mk(&Term{op: OExt, w: w, val: uint64(hi)<<8 | uint64(lo), args: []*Term{a}})
}
func (c *Ctx) ZExt(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.IsConst() {
		return c.BV(w, a.val)
	}
	if a.op == OZExt {
		return c.ZExt(a.args[0], w)
	}
	if a.op == OExt && a.val&255 == 0 && a.args[0].w == w && a.args[0].hi <= mask(a.w) {
		return a.args[0]
	}
	return c.mk(&Term{op: OZExt, w: w, args: []*Term{a}})
}
func (c *Ctx) SExt(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.IsConst() {
		return c.BV(w, uint64(a.S()))
	}
	if a.hi <= mask(a.w)>>1 {
		return c.ZExt(a, w)
	}
	if a.op == OSExt {
		return c.SExt(a.args[0], w)
	}
	return c.mk(&Term{op: OSExt, w: w, args: []*Term{a}})
}
func (c *Ctx) Concat(hi, lo *Term) *Term {
	w := hi.w + lo.w
	if hi.IsConst() && lo.IsConst() {
		return c.BV(w, hi.val<<uint(lo.w)|lo.val)
	}
	if hi.IsConst() && hi.val == 0 {
		return c.ZExt(lo, w)
	}
	if hi.op == OZExt {
		return c.ZExt(c.Concat(hi.args[0], lo), w)
	}
	if hi.op == OExt && lo.op == OExt && hi.args[0] == lo.args[0] {
		h1, l1 := int(hi.val>>8), int(hi.val&255)
		h2, l2 := int(lo.val>>8), int(lo.val&255)
		if l1 == h2+1 {
			return c.Extract(hi.args[0], h1, l2)
		}
	}
	// hi extract of x adjacent to lo extract, where lo is concat(extract, rest)
	if lo.op == OConcat {
		z := lo.args[0]
		if hi.op == OExt && z.op == OExt && hi.args[0] == z.args[0] && int(hi.val&255) == int(z.val>>8)+1 {
			return c.Concat(c.Extract(hi.args[0], int(hi.val>>8), int(z.val&255)), lo.args[1])
		}
	}
	// low part x[k-1:0] where x wider & hi = ext(x, .., k): handled. low part is plain (Lin trunc): check hi == Extract(y) and lo == Extract(y,..0)
	if hi.op == OExt {
		y := hi.args[0]
		if int(hi.val&255) == lo.w && c.Extract(y, lo.w-1, 0) == lo {
			return c.Extract(y, int(hi.val>>8), 0)
		}
	}
	// right-assoc normal form: concat(concat(a,b),c) -> concat(a, concat(b,c))
	if hi.op == OConcat {
		return c.Concat(hi.args[0], c.Concat(hi.args[1], lo))
	}
	return c.mk(&Term{op: OConcat, w: w, args: []*Term{hi, lo}})
}

func (c *Ctx) Ite(k, a, b *Term) *Term {
	if k.IsTrue() {
		return a
	}
	if k.IsFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.IsTrue() {
			return c.BOr(k, b)
		}
		if a.IsFalse() {
			return c.BAnd(c.Not(k), b)
		}
		if b.IsTrue() {
			return c.BOr(c.Not(k), a)
		}
		if b.IsFalse() {
			return c.BAnd(k, a)
		}
	}
	if k.op == ONot {
		return c.Ite(k.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == k {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == k {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return c.mk(&Term{op: OIte, w: a.w, args: []*Term{k, a, b}})
}

func (c *Ctx) Not(a *Term) *Term {
	if a.IsConst() {
		return c.Bool(a.val == 0)
	}
	switch a.op {
	case ONot:
		return a.args[0]
	case OUlt:
		return c.Ule(a.args[1], a.args[0])
	case OUle:
		return c.Ult(a.args[1], a.args[0])
	case OSlt:
		return c.Sle(a.args[1], a.args[0])
	case OSle:
		return c.Slt(a.args[1], a.args[0])
	}
	return c.mk(&Term{op: ONot, w: 0, args: []*Term{a}})
}
func flat(op Op, as []*Term) []*Term {
	var out []*Term
	for _, a := range as {
		if a.op == op {
			out = append(out, a.args...)
		} else {
			out = append(out, a)
		}
	}
	return out
}
func (c *Ctx) nary(op Op, unit, zero *Term, as ...*Term) *Term {
	as = flat(op, as)
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == zero {
			return zero
		}
		if a == unit || seen[a] {
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if seen[c.Not(a)] {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(&Term{op: op, w: 0, args: out})
}
func (c *Ctx) BAnd(as ...*Term) *Term   { return c.nary(OBAnd, c.True, c.False, as...) }
func (c *Ctx) BOr(as ...*Term) *Term    { return c.nary(OBOr, c.False, c.True, as...) }
func (c *Ctx) Implies(a, b *Term) *Term { return c.BOr(c.Not(a), b) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d: %s %s", a.w, b.w, a, b))
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return c.Not(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk(&Term{op: OEq, w: 0, args: []*Term{a, b}})
	}
	if a.hi < b.lo || b.hi < a.lo {
		return c.False
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		switch a.op {
		case OZExt:
			if b.val > mask(a.args[0].w) {
				return c.False
			}
			return c.Eq(a.args[0], c.BV(a.args[0].w, b.val))
		case OSExt:
			iw := a.args[0].w
			if uint64(sext(b.val&mask(iw), iw))&mask(a.w) != b.val {
				return c.False
			}
			return c.Eq(a.args[0], c.BV(iw, b.val))
		case OIte:
			if a.args[1].IsConst() || a.args[2].IsConst() {
				return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
			}
		case OLin:
			if len(a.args) == 1 && a.coef[0] == 1 {
				return c.Eq(a.args[0], c.BV(a.w, b.val-a.val))
			}
			if len(a.args) == 1 && a.coef[0] == mask(a.w) {
				return c.Eq(a.args[0], c.BV(a.w, a.val-b.val))
			}
		case OConcat:
			lw := a.args[1].w
			return c.BAnd(c.Eq(a.args[0], c.BV(a.args[0].w, b.val>>uint(lw))), c.Eq(a.args[1], c.BV(lw, b.val)))
		}
	} else {
		if a.op == OLin || b.op == OLin {
			d := c.Sub(a, b)
			if d.IsConst() {
				return c.Bool(d.val == 0)
			}
			if d.op == OLin {
				// normalise: leading coefficient sign
				if d.coef[0] > mask(d.w)/2 {
					d = c.Neg(d)
				}
				if len(d.args) == 2 && d.coef[0] == 1 && d.coef[1] == mask(d.w) && d.val == 0 {
					a, b = d.args[0], d.args[1]
				} else if d.op == OLin {
					z := c.BV(d.w, 0)
					if len(d.args) == 1 {
						return c.Eq(d, z)
					}
					return c.mk(&Term{op: OEq, w: 0, args: []*Term{d, z}})
				} else {
					return c.Eq(d, c.BV(d.w, 0))
				}
			} else {
				return c.Eq(d, c.BV(d.w, 0))
			}
		}
		if a.op == OZExt && b.op == OZExt && a.args[0].w == b.args[0].w {
			return c.Eq(a.args[0], b.args[0])
		}
		if a.op == OSExt && b.op == OSExt && a.args[0].w == b.args[0].w {
			return c.Eq(a.args[0], b.args[0])
		}
		if a.op == OConcat && b.op == OConcat && a.args[0].w == b.args[0].w {
			return c.BAnd(c.Eq(a.args[0], b.args[0]), c.Eq(a.args[1], b.args[1]))
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.mk(&Term{op: OEq, w: 0, args: []*Term{a, b}})
}

func (c *Ctx) cmpSimp(op Op, a, b *Term) *Term {
	// a - b constant & no overflow ranges: x+k1 < x+k2 where both ranges known non-wrapping
	if a.op == OZExt && b.op == OZExt && a.args[0].w == b.args[0].w {
		if op == OUlt {
			return c.Ult(a.args[0], b.args[0])
		}
		return c.Ule(a.args[0], b.args[0])
	}
	if a.op == OZExt && b.IsConst() && b.val <= mask(a.args[0].w) {
		if op == OUlt {
			return c.Ult(a.args[0], c.BV(a.args[0].w, b.val))
		}
		return c.Ule(a.args[0], c.BV(a.args[0].w, b.val))
	}
	if b.op == OZExt && a.IsConst() && a.val <= mask(b.args[0].w) {
		if op == OUlt {
			return c.Ult(c.BV(b.args[0].w, a.val), b.args[0])
		}
		return c.Ule(c.BV(b.args[0].w, a.val), b.args[0])
	}
	if a.op == OIte && (a.args[1].IsConst() && a.args[2].IsConst()) && b.IsConst() {
		if op == OUlt {
			return c.Ite(a.args[0], c.Ult(a.args[1], b), c.Ult(a.args[2], b))
		}
		return c.Ite(a.args[0], c.Ule(a.args[1], b), c.Ule(a.args[2], b))
	}
	// x + k CMP const with x + k known not to wrap
	if a.op == OLin && b.IsConst() && len(a.args) == 1 && a.coef[0] == 1 {
		x := a.args[0]
		k := a.val
		if k <= mask(a.w)/2 && x.hi <= mask(a.w)-k && b.val >= k {
			if op == OUlt {
				return c.Ult(x, c.BV(a.w, b.val-k))
			}
			return c.Ule(x, c.BV(a.w, b.val-k))
		}
	}
	if b.op == OLin && a.IsConst() && len(b.args) == 1 && b.coef[0] == 1 {
		x := b.args[0]
		k := b.val
		if k <= mask(b.w)/2 && x.hi <= mask(b.w)-k && a.val >= k {
			if op == OUlt {
				return c.Ult(c.BV(a.w, a.val-k), x)
			}
			return c.Ule(c.BV(a.w, a.val-k), x)
		}
	}
	return nil
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.hi < b.lo {
		return c.True
	}
	if a.lo >= b.hi {
		return c.False
	}
	if b.IsConst() && b.val == 1 {
		return c.Eq(a, c.BV(a.w, 0))
	}
	if a.IsConst() && a.val == 0 {
		return c.Not(c.Eq(b, a))
	}
	if r := c.cmpSimp(OUlt, a, b); r != nil {
		return r
	}
	if c.nowrapDiff(a, b) {
		d := c.Sub(b, a) // b = a + d, no wrap when both ranges small
		if d.IsConst() {
			return c.Bool(int64(sext(d.val, d.w)) > 0)
		}
		if lo, hi, n, p := c.splitDiff(d); n != nil {
			if lo > 0 {
				return c.True
			}
			if hi <= 0 {
				return c.False
			}
			if n != a || p != b {
				return c.Ult(n, p)
			}
		}
	}
	if b.IsConst() { // a < k  ==> a <= k-1 normal form
		return c.Ule(a, c.BV(a.w, b.val-1))
	}
	if a.IsConst() {
		return c.Ule(c.BV(a.w, a.val+1), b)
	}
	return c.mk(&Term{op: OUlt, w: 0, args: []*Term{a, b}})
}
func (c *Ctx) nowrapDiff(a, b *Term) bool {
	m := mask(a.w) >> 1
	return (a.op == OLin || b.op == OLin) && a.hi <= m && b.hi <= m
}

// splitDiff writes a difference d of two small terms as p - n of terms that do not wrap, with the
// range of the difference; n is nil when that is not possible
func (c *Ctx) splitDiff(d *Term) (lo, hi int64, n, p *Term) {
	if d.op != OLin || d.w != 64 {
		return 0, 0, nil, nil
	}
	const lim = 1 << 61
	lp, ln := &lin{terms: map[*Term]uint64{}}, &lin{terms: map[*Term]uint64{}}
	k := int64(d.val)
	if k > lim || k < -lim {
		return 0, 0, nil, nil
	}
	if k >= 0 {
		lp.k = uint64(k)
	} else {
		ln.k = uint64(-k)
	}
	lo, hi = k, k
	for i, x := range d.args {
		co := int64(d.coef[i])
		if co > 1<<20 || co < -(1<<20) || x.hi > 1<<40 {
			return 0, 0, nil, nil
		}
		if co > 0 {
			lo += co * int64(x.lo)
			hi += co * int64(x.hi)
			c.addLin(lp, x, uint64(co))
		} else {
			lo += co * int64(x.hi)
			hi += co * int64(x.lo)
			c.addLin(ln, x, uint64(-co))
		}
	}
	if lo < -lim || hi > lim || len(d.args) > 64 {
		return 0, 0, nil, nil
	}
	return lo, hi, c.fromLin(ln, d.w), c.fromLin(lp, d.w)
}
func (c *Ctx) Ule(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.hi <= b.lo {
		return c.True
	}
	if a.lo > b.hi {
		return c.False
	}
	if b.IsConst() && b.val == 0 {
		return c.Eq(a, b)
	}
	if r := c.cmpSimp(OUle, a, b); r != nil {
		return r
	}
	if c.nowrapDiff(a, b) {
		d := c.Sub(b, a)
		if d.IsConst() {
			return c.Bool(int64(sext(d.val, d.w)) >= 0)
		}
		if lo, hi, n, p := c.splitDiff(d); n != nil {
			if lo >= 0 {
				return c.True
			}
			if hi < 0 {
				return c.False
			}
			if n != a || p != b {
				return c.Ule(n, p)
			}
		}
	}
	return c.mk(&Term{op: OUle, w: 0, args: []*Term{a, b}})
}
func (c *Ctx) Slt(a, b *Term) *Term {
	m := mask(a.w) >> 1
	if a.hi <= m && b.hi <= m {
		return c.Ult(a, b)
	}
	if a == b {
		return c.False
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.S() < b.S())
	}
	if a.lo > m && b.hi <= m {
		return c.True
	}
	if a.hi <= m && b.lo > m {
		return c.False
	}
	if a.op == OSExt && b.op == OSExt && a.args[0].w == b.args[0].w {
		return c.Slt(a.args[0], b.args[0])
	}
	return c.mk(&Term{op: OSlt, w: 0, args: []*Term{a, b}})
}
func (c *Ctx) Sle(a, b *Term) *Term {
	m := mask(a.w) >> 1
	if a.hi <= m && b.hi <= m {
		return c.Ule(a, b)
	}
	if a == b {
		return c.True
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.S() <= b.S())
	}
	if a.lo > m && b.hi <= m {
		return c.True
	}
	if a.hi <= m && b.lo > m {
		return c.False
	}
	if a.op == OSExt && b.op == OSExt && a.args[0].w == b.args[0].w {
		return c.Sle(a.args[0], b.args[0])
	}
	return c.mk(&Term{op: OSle, w: 0, args: []*Term{a, b}})
}

func (c *Ctx) UF(name string, w int, args ...*Term) *Term {
	return c.mk(&Term{op: OUF, w: w, name: name, args: args})
}
func (c *Ctx) Bound(p string, w int) *Term {
	return c.mk(&Term{op: OBound, w: w, name: c.fresh(p)})
}
func (c *Ctx) Forall(bv *Term, body *Term) *Term {
	if !body.hasB || body.IsConst() {
		return body
	}
	t := c.mk(&Term{op: OForall, w: 0, args: []*Term{body, bv}})
	t.hasB = false // assume single-level closure
	return t
}

var opNames = map[Op]string{OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OMul: "bvmul", OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OConcat: "concat", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", ONot: "not", OBAnd: "and", OBOr: "or"}

func (t *Term) String() string {
	return t.str(8)
}
func (t *Term) str(d int) string {
	if d == 0 {
		return "…"
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.val == 1)
		}
		return fmt.Sprintf("%d", t.S())
	case OVar, OBound:
		return t.name
	case OLin:
		var p []string
		for i, a := range t.args {
			if t.coef[i] == 1 {
				p = append(p, a.str(d-1))
			} else {
				p = append(p, fmt.Sprintf("%d*%s", sext(t.coef[i], t.w), a.str(d-1)))
			}
		}
		if t.val != 0 {
			p = append(p, fmt.Sprint(sext(t.val, t.w)))
		}
		return "(" + strings.Join(p, " + ") + ")"
	}
	n := opNames[t.op]
	switch t.op {
	case OSel, OUF:
		n = t.name
	case OExt:
		n = fmt.Sprintf("ext[%d:%d]", t.val>>8, t.val&255)
	case OZExt:
		n = fmt.Sprintf("zext%d", t.w)
	case OSExt:
		n = fmt.Sprintf("sext%d", t.w)
	case OForall:
		n = "forall"
	}
	var p []string
	for _, a := range t.args {
		p = append(p, a.str(d-1))
	}
	return n + "(" + strings.Join(p, ", ") + ")"
}

// substitute replaces variables (used for instantiating closed bodies)
func (c *Ctx) Subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = c.Subst(a, m, memo)
		if as[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = c.rebuild(t, as)
	}
	memo[t] = r
	return r
}
func (c *Ctx) rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case OLin:
		l := &lin{terms: map[*Term]uint64{}}
		l.k = t.val
		for i, a := range as {
			c.addLin(l, a, t.coef[i])
		}
		return c.fromLin(l, t.w)
	case OMul:
		return c.Mul(as[0], as[1])
	case OUDiv:
		return c.UDiv(as[0], as[1])
	case OURem:
		return c.URem(as[0], as[1])
	case OSDiv:
		return c.SDiv(as[0], as[1])
	case OSRem:
		return c.SRem(as[0], as[1])
	case OAnd:
		return c.And(as[0], as[1])
	case OOr:
		return c.Or(as[0], as[1])
	case OXor:
		return c.Xor(as[0], as[1])
	case OShl:
		return c.Shl(as[0], as[1])
	case OLShr:
		return c.LShr(as[0], as[1])
	case OAShr:
		return c.AShr(as[0], as[1])
	case OExt:
		return c.Extract(as[0], int(t.val>>8), int(t.val&255))
	case OZExt:
		return c.ZExt(as[0], t.w)
	case OSExt:
		return c.SExt(as[0], t.w)
	case OConcat:
		return c.Concat(as[0], as[1])
	case OIte:
		return c.Ite(as[0], as[1], as[2])
	case OEq:
		return c.Eq(as[0], as[1])
	case OUlt:
		return c.Ult(as[0], as[1])
	case OUle:
		return c.Ule(as[0], as[1])
	case OSlt:
		return c.Slt(as[0], as[1])
	case OSle:
		return c.Sle(as[0], as[1])
	case ONot:
		return c.Not(as[0])
	case OBAnd:
		return c.BAnd(as...)
	case OBOr:
		return c.BOr(as...)
	}
	return c.mk(&Term{op: t.op, w: t.w, name: t.name, val: t.val, coef: t.coef, args: as})
}

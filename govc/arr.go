package main

import (
	"fmt"
	"strings"
)

// Arr: immutable symbolic arrays indexed by BV64. Element width w (0=bool).
type AKind uint8

const (
	ABase AKind = iota
	AConst
	AVec
	AStore
	ACopy
	AIte
	AMap
)

type Arr struct {
	k         AKind
	w         int
	id        int
	name      string
	args      []*Term // base row indices; AVec elems
	a, b      *Arr
	x, y      *Term // const value / store idx,val / cond
	do, so, n *Term
	size      int
}

type selKey struct {
	a *Arr
	i *Term
}

func (c *Ctx) mkArr(a *Arr) *Arr {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%d|%s|", a.k, a.w, a.name)
	for _, t := range a.args {
		fmt.Fprintf(&b, "%d,", t.id)
	}
	id := func(t *Term) int {
		if t == nil {
			return -1
		}
		return t.id
	}
	aid := func(t *Arr) int {
		if t == nil {
			return -1
		}
		return t.id
	}
	fmt.Fprintf(&b, "|%d|%d|%d|%d|%d|%d|%d", aid(a.a), aid(a.b), id(a.x), id(a.y), id(a.do), id(a.so), id(a.n))
	k := b.String()
	if o, ok := c.arrTab[k]; ok {
		return o
	}
	c.narr++
	a.id = c.narr
	a.size = 1
	if a.a != nil {
		a.size += a.a.size
	}
	if a.b != nil {
		a.size += a.b.size
	}
	c.arrTab[k] = a
	return a
}

func (c *Ctx) ABase(name string, w int, args ...*Term) *Arr {
	return c.mkArr(&Arr{k: ABase, w: w, name: name, args: args})
}
func (c *Ctx) AConst(w int, v *Term) *Arr { return c.mkArr(&Arr{k: AConst, w: w, x: v}) }
func (c *Ctx) AZero(w int) *Arr {
	if w == 0 {
		return c.AConst(0, c.False)
	}
	return c.AConst(w, c.BV(w, 0))
}
func (c *Ctx) AVec(w int, el []*Term) *Arr {
	if len(el) == 0 {
		return c.AZero(w)
	}
	return c.mkArr(&Arr{k: AVec, w: w, args: el})
}
func (c *Ctx) ABytes(s string) *Arr {
	el := make([]*Term, len(s))
	for i := 0; i < len(s); i++ {
		el[i] = c.BV(8, uint64(s[i]))
	}
	return c.AVec(8, el)
}
func (c *Ctx) zero(w int) *Term {
	if w == 0 {
		return c.False
	}
	return c.BV(w, 0)
}
func (c *Ctx) AStore(a *Arr, i, v *Term) *Arr {
	if i.IsConst() && a.k == AVec && i.val < uint64(len(a.args)) {
		el := append([]*Term(nil), a.args...)
		el[i.val] = v
		return c.AVec(a.w, el)
	}
	if i.IsConst() && a.k == AConst && i.val < 512 {
		el := make([]*Term, i.val+1)
		for j := range el {
			el[j] = a.x
		}
		el[i.val] = v
		if a.x == c.zero(a.w) {
			return c.AVec(a.w, el)
		}
	}
	if a.k == AStore && a.x == i {
		a = a.a
	}
	return c.mkArr(&Arr{k: AStore, w: a.w, a: a, x: i, y: v})
}

// ACopy: result[i] = (i-do <u n) ? src[so + i-do] : dst[i]
func (c *Ctx) ACopy(dst *Arr, do *Term, src *Arr, so, n *Term) *Arr {
	if n.IsConst() && n.val == 0 {
		return dst
	}
	if n.IsConst() && do.IsConst() && n.val <= 1024 && do.val <= 4096 && (n.val <= 8 || src.k == AVec || src.k == AConst) {
		switch dst.k {
		case AVec, AConst:
			zeroRest := dst.k == AVec || dst.x == c.zero(dst.w)
			if zeroRest {
				m := int(do.val + n.val)
				var el []*Term
				if dst.k == AVec {
					el = append(el, dst.args...)
				}
				for len(el) < m {
					el = append(el, c.zero(dst.w))
				}
				for j := 0; j < int(n.val); j++ {
					el[int(do.val)+j] = c.Sel(src, c.AddI(so, j))
				}
				return c.AVec(dst.w, el)
			}
		}
	}
	// collapse source copies when the whole range comes from one place
	for src.k == ACopy {
		// range [so, so+n) inside [src.do, src.do+src.n)
		d := c.Sub(so, src.do)
		if c.Ule(c.Add(d, n), src.n).IsTrue() && c.Ule(d, src.n).IsTrue() {
			so = c.Add(src.so, d)
			src = src.b
			continue
		}
		break
	}
	// same destination range overwritten
	if dst.k == ACopy && dst.do == do && dst.n == n {
		dst = dst.a
	}
	if src == dst && so == do {
		return dst
	}
	return c.mkArr(&Arr{k: ACopy, w: dst.w, a: dst, do: do, b: src, so: so, n: n})
}
func (c *Ctx) AIte(k *Term, a, b *Arr) *Arr {
	if k.IsTrue() {
		return a
	}
	if k.IsFalse() {
		return b
	}
	if a == b {
		return a
	}
	return c.mkArr(&Arr{k: AIte, w: a.w, x: k, a: a, b: b})
}
func (c *Ctx) AMap(fn string, a *Arr) *Arr {
	if a.k == AVec {
		el := make([]*Term, len(a.args))
		for i := range el {
			el[i] = c.applyMap(fn, a.args[i])
		}
		return c.AVec(a.w, el)
	}
	return c.mkArr(&Arr{k: AMap, w: a.w, name: fn, a: a})
}
func (c *Ctx) applyMap(fn string, v *Term) *Term {
	switch fn {
	case "lower":
		up := c.BAnd(c.Ule(c.BV(8, 'A'), v), c.Ule(v, c.BV(8, 'Z')))
		return c.Ite(up, c.AddI(v, 32), v)
	case "upper":
		up := c.BAnd(c.Ule(c.BV(8, 'a'), v), c.Ule(v, c.BV(8, 'z')))
		return c.Ite(up, c.AddI(v, -32), v)
	}
	panic("applyMap " + fn)
}

func (c *Ctx) Sel(a *Arr, i *Term) *Term {
	k := selKey{a, i}
	if r, ok := c.selMem[k]; ok {
		return r
	}
	r := c.sel(a, i)
	c.selMem[k] = r
	return r
}
func (c *Ctx) sel(a *Arr, i *Term) *Term {
	for {
		switch a.k {
		case ABase:
			as := append(append([]*Term(nil), a.args...), i)
			return c.mk(&Term{op: OSel, w: a.w, name: a.name, args: as})
		case AConst:
			return a.x
		case AVec:
			if i.IsConst() {
				if i.val < uint64(len(a.args)) {
					return a.args[i.val]
				}
				return c.zero(a.w)
			}
			r := c.zero(a.w)
			// group equal runs
			for j := len(a.args) - 1; j >= 0; j-- {
				if uint64(j) < i.lo || uint64(j) > i.hi {
					continue
				}
				r = c.Ite(c.Eq(i, c.I(j)), a.args[j], r)
			}
			return r
		case AStore:
			e := c.Eq(a.x, i)
			if e.IsTrue() {
				return a.y
			}
			if e.IsFalse() {
				a = a.a
				continue
			}
			return c.Ite(e, a.y, c.Sel(a.a, i))
		case ACopy:
			d := c.Sub(i, a.do)
			in := c.inRange(i, a.do, d, a.n)
			if in.IsTrue() {
				i = c.Add(a.so, d)
				a = a.b
				if i.IsConst() || a.k != ABase {
					return c.Sel(a, i)
				}
				continue
			}
			if in.IsFalse() {
				a = a.a
				continue
			}
			return c.Ite(in, c.Sel(a.b, c.Add(a.so, d)), c.Sel(a.a, i))
		case AIte:
			return c.Ite(a.x, c.Sel(a.a, i), c.Sel(a.b, i))
		case AMap:
			return c.applyMap(a.name, c.Sel(a.a, i))
		}
	}
}

// i in [do, do+n)
func (c *Ctx) inRange(i, do, d, n *Term) *Term {
	if c.Ult(i, do).IsTrue() {
		return c.False
	}
	if n.hi < 1<<62 && i.hi < 1<<62 && do.hi < 1<<62 {
		if c.Ule(c.Add(do, n), i).IsTrue() {
			return c.False
		}
		lo := c.Ule(do, i)
		if lo.IsTrue() {
			return c.Ult(d, n)
		}
		return c.BAnd(lo, c.Ult(i, c.Add(do, n)))
	}
	return c.Ult(d, n)
}

// ---- two-level arrays (rows)
type Arr2 struct {
	k         AKind
	w         int
	name      string
	args      []*Term
	a, b      *Arr2
	row       *Arr
	x         *Term
	do, so, n *Term
}

func (c *Ctx) Row(a *Arr2, i *Term) *Arr {
	switch a.k {
	case ABase:
		return c.ABase(a.name, a.w, append(append([]*Term(nil), a.args...), i)...)
	case AConst:
		return a.row
	case AStore:
		e := c.Eq(a.x, i)
		if e.IsTrue() {
			return a.row
		}
		if e.IsFalse() {
			return c.Row(a.a, i)
		}
		return c.AIte(e, a.row, c.Row(a.a, i))
	case ACopy:
		d := c.Sub(i, a.do)
		in := c.inRange(i, a.do, d, a.n)
		if in.IsTrue() {
			return c.Row(a.b, c.Add(a.so, d))
		}
		if in.IsFalse() {
			return c.Row(a.a, i)
		}
		return c.AIte(in, c.Row(a.b, c.Add(a.so, d)), c.Row(a.a, i))
	case AIte:
		return c.AIte(a.x, c.Row(a.a, i), c.Row(a.b, i))
	}
	panic("Row")
}

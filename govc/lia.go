package main

import (
	"fmt"
	"math/big"
	"strings"
)

// Second encoding of a query: machine integers as mathematical integers with explicit
// wrap-around variables where the interval analysis cannot exclude overflow. Operations it
// cannot express linearly become uninterpreted functions, so only "unsat" is meaningful.

type iv struct {
	s      string
	lo, hi *big.Int
}

type lia struct {
	c     *Ctx
	buf   strings.Builder
	side  []string
	n     int
	memo  map[*Term]iv
	um    map[*Term]iv
	sm    map[*Term]iv
	bm    map[*Term]string
	decl  map[string]bool
	bnd   map[*Term][2]*big.Int // signed bounds learnt from unit assertions
	fails bool
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

func bigU(v uint64) *big.Int { return new(big.Int).SetUint64(v) }

func ilit(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}

func (l *lia) def(s string) string {
	if len(s) < 24 {
		return s
	}
	l.n++
	nm := fmt.Sprintf("d%d", l.n)
	fmt.Fprintf(&l.buf, "(define-fun %s () Int %s)\n", nm, s)
	return nm
}
func (l *lia) defB(s string) string {
	if len(s) < 24 {
		return s
	}
	l.n++
	nm := fmt.Sprintf("b%d", l.n)
	fmt.Fprintf(&l.buf, "(define-fun %s () Bool %s)\n", nm, s)
	return nm
}
func (l *lia) freshI(lo, hi *big.Int) string {
	l.n++
	nm := fmt.Sprintf("i%d", l.n)
	fmt.Fprintf(&l.buf, "(declare-fun %s () Int)\n", nm)
	l.rangeOf(nm, lo, hi)
	return nm
}
func (l *lia) rangeOf(s string, lo, hi *big.Int) {
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
		fmt.Fprintf(&l.buf, "(assert (= %s %s))\n", s, ilit(lo))
		return
	}
	if lo != nil {
		fmt.Fprintf(&l.buf, "(assert (<= %s %s))\n", ilit(lo), s)
	}
	if hi != nil {
		fmt.Fprintf(&l.buf, "(assert (<= %s %s))\n", s, ilit(hi))
	}
}

func fdiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int))
	_ = m
	return q
}

// divmod introduces q, r with s = q*m + r
func (l *lia) divmod(x iv, m *big.Int) (iv, iv) {
	qlo, qhi := fdiv(x.lo, m), fdiv(x.hi, m)
	if qlo.Cmp(qhi) == 0 {
		off := new(big.Int).Mul(qlo, m)
		r := iv{x.s, new(big.Int).Sub(x.lo, off), new(big.Int).Sub(x.hi, off)}
		if off.Sign() != 0 {
			r.s = l.def("(- " + x.s + " " + ilit(off) + ")")
		}
		return iv{ilit(qlo), qlo, qhi}, r
	}
	q := l.freshI(qlo, qhi)
	m1 := new(big.Int).Sub(m, big.NewInt(1))
	r := l.freshI(big.NewInt(0), m1)
	fmt.Fprintf(&l.buf, "(assert (= %s (+ (* %s %s) %s)))\n", x.s, m, q, r)
	return iv{q, qlo, qhi}, iv{r, big.NewInt(0), m1}
}

// u is the unsigned value, s the signed value
func (l *lia) u(t *Term) iv {
	if r, ok := l.um[t]; ok {
		return r
	}
	x := l.rep(t)
	m := pow2(t.w)
	var r iv
	if x.lo.Sign() >= 0 && x.hi.Cmp(m) < 0 {
		r = x
	} else {
		half := pow2(t.w - 1)
		if x.lo.Cmp(new(big.Int).Neg(half)) >= 0 && x.hi.Cmp(half) < 0 {
			r = iv{l.def(fmt.Sprintf("(ite (< %s 0) (+ %s %s) %s)", x.s, x.s, m, x.s)), big.NewInt(0), new(big.Int).Sub(m, big.NewInt(1))}
		} else {
			_, r = l.divmod(x, m)
		}
	}
	r = l.clip(t, r)
	l.um[t] = r
	return r
}

// clip narrows by the unsigned interval known for the term
func (l *lia) clip(t *Term, r iv) iv {
	lo, hi := bigU(t.lo), bigU(t.hi)
	ch := false
	if r.lo.Cmp(lo) < 0 {
		r.lo = lo
		ch = true
	}
	if r.hi.Cmp(hi) > 0 {
		r.hi = hi
		ch = true
	}
	if ch {
		l.rangeOf(r.s, lo, hi)
	}
	return r
}

func (l *lia) sv(t *Term) iv {
	if r, ok := l.sm[t]; ok {
		return r
	}
	x := l.rep(t)
	m, half := pow2(t.w), pow2(t.w-1)
	nh := new(big.Int).Neg(half)
	var r iv
	switch {
	case x.lo.Cmp(nh) >= 0 && x.hi.Cmp(half) < 0:
		r = x
	case x.lo.Sign() >= 0 && x.hi.Cmp(m) < 0:
		r = iv{l.def(fmt.Sprintf("(ite (>= %s %s) (- %s %s) %s)", x.s, half, x.s, m, x.s)), nh, new(big.Int).Sub(half, big.NewInt(1))}
	default:
		y := iv{"(+ " + x.s + " " + half.String() + ")", new(big.Int).Add(x.lo, half), new(big.Int).Add(x.hi, half)}
		_, rr := l.divmod(y, m)
		r = iv{l.def("(- " + rr.s + " " + half.String() + ")"), new(big.Int).Sub(rr.lo, half), new(big.Int).Sub(rr.hi, half)}
	}
	if b, ok := l.bnd[t]; ok {
		if b[0] != nil && r.lo.Cmp(b[0]) < 0 {
			r.lo = b[0]
		}
		if b[1] != nil && r.hi.Cmp(b[1]) > 0 {
			r.hi = b[1]
		}
	}
	l.sm[t] = r
	return r
}

func (l *lia) scale(x iv, k *big.Int) iv {
	if k.Cmp(big.NewInt(1)) == 0 {
		return x
	}
	a, b := new(big.Int).Mul(x.lo, k), new(big.Int).Mul(x.hi, k)
	if a.Cmp(b) > 0 {
		a, b = b, a
	}
	return iv{"(* " + ilit(k) + " " + x.s + ")", a, b}
}

func (l *lia) uf(name string, t *Term, signed bool) iv {
	var as []string
	for _, a := range t.args {
		as = append(as, l.u(a).s)
	}
	nm := fmt.Sprintf("|%s/%d/%d|", name, len(as), t.w)
	if !l.decl[nm] {
		l.decl[nm] = true
		fmt.Fprintf(&l.buf, "(declare-fun %s (%s) Int)\n", nm, strings.TrimSpace(strings.Repeat("Int ", len(as))))
	}
	s := l.def("(" + nm + " " + strings.Join(as, " ") + ")")
	lo, hi := bigU(t.lo), bigU(t.hi)
	l.rangeOf(s, lo, hi)
	return iv{s, lo, hi}
}

// rep is an integer congruent to t modulo 2^w
func (l *lia) rep(t *Term) iv {
	if r, ok := l.memo[t]; ok {
		return r
	}
	r := l.rep1(t)
	l.memo[t] = r
	return r
}

func (l *lia) rep1(t *Term) iv {
	switch t.op {
	case OConst:
		v := bigU(t.val)
		if t.w == 64 {
			v = big.NewInt(int64(t.val))
		}
		return iv{ilit(v), v, v}
	case OVar:
		lo, hi := bigU(t.lo), bigU(t.hi)
		if t.w == 64 && t.hi > 1<<63-1 {
			lo, hi = new(big.Int).Neg(pow2(63)), new(big.Int).Sub(pow2(63), big.NewInt(1))
		}
		if b, ok := l.bnd[t]; ok && (t.w == 64 || hi.Cmp(pow2(t.w-1)) < 0) {
			if b[0] != nil && b[0].Cmp(lo) > 0 {
				lo = b[0]
			}
			if b[1] != nil && b[1].Cmp(hi) < 0 {
				hi = b[1]
			}
		}
		nm := sym(t.name)
		if !l.decl[nm] {
			l.decl[nm] = true
			fmt.Fprintf(&l.buf, "(declare-fun %s () Int)\n", nm)
			l.rangeOf(nm, lo, hi)
		}
		return iv{nm, lo, hi}
	case OLin:
		lo, hi := big.NewInt(int64(t.val)), big.NewInt(int64(t.val))
		if t.w < 64 {
			lo, hi = big.NewInt(sext(t.val, t.w)), big.NewInt(sext(t.val, t.w))
		}
		k := new(big.Int).Set(lo)
		p := []string{}
		for i, a := range t.args {
			x := l.rep(a)
			y := l.scale(x, big.NewInt(sext(t.coef[i], t.w)))
			lo, hi = new(big.Int).Add(lo, y.lo), new(big.Int).Add(hi, y.hi)
			p = append(p, y.s)
		}
		if k.Sign() != 0 || len(p) == 0 {
			p = append(p, ilit(k))
		}
		s := p[0]
		if len(p) > 1 {
			s = "(+ " + strings.Join(p, " ") + ")"
		}
		return iv{l.def(s), lo, hi}
	case OConcat:
		h, lw := l.u(t.args[0]), l.u(t.args[1])
		m := pow2(t.args[1].w)
		hs := l.scale(h, m)
		return iv{l.def("(+ " + hs.s + " " + lw.s + ")"), new(big.Int).Add(hs.lo, lw.lo), new(big.Int).Add(hs.hi, lw.hi)}
	case OZExt:
		return l.u(t.args[0])
	case OSExt:
		return l.sv(t.args[0])
	case OExt:
		hi, lo := int(t.val>>8), int(t.val&255)
		x := l.u(t.args[0])
		if lo > 0 {
			x, _ = l.divmod(x, pow2(lo))
		}
		if x.hi.Cmp(pow2(hi-lo+1)) >= 0 {
			_, x = l.divmod(x, pow2(hi-lo+1))
		}
		return x
	case OUDiv:
		if d := t.args[1]; d.IsConst() && d.val != 0 {
			q, _ := l.divmod(l.u(t.args[0]), bigU(d.val))
			return q
		}
	case OURem:
		if d := t.args[1]; d.IsConst() && d.val != 0 {
			_, r := l.divmod(l.u(t.args[0]), bigU(d.val))
			return r
		}
	case OSDiv, OSRem:
		if d := t.args[1]; d.IsConst() && sext(d.val, t.w) > 0 {
			x := l.sv(t.args[0])
			if x.lo.Sign() >= 0 {
				q, r := l.divmod(x, bigU(d.val))
				if t.op == OSDiv {
					return q
				}
				return r
			}
		}
	case OShl:
		if d := t.args[1]; d.IsConst() && d.val < uint64(t.w) {
			x := l.scale(l.u(t.args[0]), pow2(int(d.val)))
			return iv{l.def(x.s), x.lo, x.hi}
		}
	case OLShr:
		if d := t.args[1]; d.IsConst() && d.val < uint64(t.w) {
			q, _ := l.divmod(l.u(t.args[0]), pow2(int(d.val)))
			return q
		}
	case OAShr:
		if d := t.args[1]; d.IsConst() && d.val < uint64(t.w) {
			q, _ := l.divmod(l.sv(t.args[0]), pow2(int(d.val)))
			return q
		}
	case OAnd:
		a, b := t.args[0], t.args[1]
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() && b.val != 0 && b.val&(b.val+1) == 0 {
			_, r := l.divmod(l.u(a), bigU(b.val+1))
			return r
		}
	case OIte:
		c := l.b(t.args[0])
		x, y := l.rep(t.args[1]), l.rep(t.args[2])
		lo, hi := x.lo, x.hi
		if y.lo.Cmp(lo) < 0 {
			lo = y.lo
		}
		if y.hi.Cmp(hi) > 0 {
			hi = y.hi
		}
		return iv{l.def("(ite " + c + " " + x.s + " " + y.s + ")"), lo, hi}
	case OSel, OUF:
		return l.uf(t.name, t, false)
	}
	return l.uf(fmt.Sprintf("op%d.%d", t.op, t.val), t, false)
}

func (l *lia) b(t *Term) string {
	if r, ok := l.bm[t]; ok {
		return r
	}
	r := l.defB(l.b1(t))
	l.bm[t] = r
	return r
}
func (l *lia) b1(t *Term) string {
	switch t.op {
	case OConst:
		if t.val == 1 {
			return "true"
		}
		return "false"
	case OVar:
		nm := sym(t.name)
		if !l.decl[nm] {
			l.decl[nm] = true
			fmt.Fprintf(&l.buf, "(declare-fun %s () Bool)\n", nm)
		}
		return nm
	case ONot:
		return "(not " + l.b(t.args[0]) + ")"
	case OBAnd, OBOr:
		p := make([]string, len(t.args))
		for i, a := range t.args {
			p[i] = l.b(a)
		}
		if t.op == OBAnd {
			return "(and " + strings.Join(p, " ") + ")"
		}
		return "(or " + strings.Join(p, " ") + ")"
	case OIte:
		return "(ite " + l.b(t.args[0]) + " " + l.b(t.args[1]) + " " + l.b(t.args[2]) + ")"
	case OEq:
		a, b := t.args[0], t.args[1]
		if a.w == 0 {
			return "(= " + l.b(a) + " " + l.b(b) + ")"
		}
		x, y := l.rep(a), l.rep(b)
		m := pow2(a.w)
		dlo, dhi := new(big.Int).Sub(x.lo, y.hi), new(big.Int).Sub(x.hi, y.lo)
		if dlo.CmpAbs(m) < 0 && dhi.CmpAbs(m) < 0 {
			return "(= " + x.s + " " + y.s + ")"
		}
		return "(= " + l.u(a).s + " " + l.u(b).s + ")"
	case OUlt:
		return "(< " + l.u(t.args[0]).s + " " + l.u(t.args[1]).s + ")"
	case OUle:
		return "(<= " + l.u(t.args[0]).s + " " + l.u(t.args[1]).s + ")"
	case OSlt:
		return "(< " + l.sv(t.args[0]).s + " " + l.sv(t.args[1]).s + ")"
	case OSle:
		return "(<= " + l.sv(t.args[0]).s + " " + l.sv(t.args[1]).s + ")"
	case OSel, OUF:
		var as []string
		var so []string
		for _, a := range t.args {
			if a.w == 0 {
				as = append(as, l.b(a))
				so = append(so, "Bool")
			} else {
				as = append(as, l.u(a).s)
				so = append(so, "Int")
			}
		}
		nm := fmt.Sprintf("|%s/%d/b|", t.name, len(as))
		if !l.decl[nm] {
			l.decl[nm] = true
			fmt.Fprintf(&l.buf, "(declare-fun %s (%s) Bool)\n", nm, strings.Join(so, " "))
		}
		return "(" + nm + " " + strings.Join(as, " ") + ")"
	}
	// unknown boolean: unconstrained
	nm := fmt.Sprintf("|ub%d|", t.id)
	if !l.decl[nm] {
		l.decl[nm] = true
		fmt.Fprintf(&l.buf, "(declare-fun %s () Bool)\n", nm)
	}
	return nm
}

// bounds learns signed bounds of variables from unit assertions of this query
func (l *lia) bounds(as []*Term) {
	slo := func(t *Term) *big.Int {
		if t.IsConst() {
			return big.NewInt(sext(t.val, t.w))
		}
		if t.hi <= mask(t.w)/2 {
			return bigU(t.lo)
		}
		if b, ok := l.bnd[t]; ok {
			return b[0]
		}
		return nil
	}
	shi := func(t *Term) *big.Int {
		var r *big.Int
		if t.IsConst() {
			return big.NewInt(sext(t.val, t.w))
		}
		if t.hi <= mask(t.w)/2 {
			r = bigU(t.hi)
		}
		if b, ok := l.bnd[t]; ok && b[1] != nil && (r == nil || b[1].Cmp(r) < 0) {
			r = b[1]
		}
		return r
	}
	for it := 0; it < 4; it++ {
		ch := false
		for _, a := range as {
			strict := int64(0)
			op := a.op
			x, y := (*Term)(nil), (*Term)(nil)
			if op == ONot && (a.args[0].op == OSlt || a.args[0].op == OSle) {
				y, x = a.args[0].args[0], a.args[0].args[1]
				if a.args[0].op == OSle {
					strict = 1
				}
			} else if op == OSlt || op == OSle {
				x, y = a.args[0], a.args[1]
				if op == OSlt {
					strict = 1
				}
			} else {
				continue
			}
			if h := shi(y); h != nil && !x.IsConst() {
				h = new(big.Int).Sub(h, big.NewInt(strict))
				b := l.bnd[x]
				if b[1] == nil || h.Cmp(b[1]) < 0 {
					b[1] = h
					l.bnd[x] = b
					ch = true
				}
			}
			if h := slo(x); h != nil && !y.IsConst() {
				h = new(big.Int).Add(h, big.NewInt(strict))
				b := l.bnd[y]
				if b[0] == nil || h.Cmp(b[0]) > 0 {
					b[0] = h
					l.bnd[y] = b
					ch = true
				}
			}
		}
		if !ch {
			break
		}
	}
}

func liaText(c *Ctx, as []*Term) string {
	l := &lia{c: c, memo: map[*Term]iv{}, um: map[*Term]iv{}, sm: map[*Term]iv{}, bm: map[*Term]string{}, decl: map[string]bool{}, bnd: map[*Term][2]*big.Int{}}
	l.bounds(as)
	var fin []string
	for _, a := range as {
		if a.IsTrue() {
			continue
		}
		fin = append(fin, l.b(a))
	}
	for _, f := range fin {
		l.buf.WriteString("(assert " + f + ")\n")
	}
	return l.buf.String()
}

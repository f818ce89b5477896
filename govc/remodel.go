package main

import (
	"regexp"
	"regexp/syntax"
)

// tailRE is an expression of the shape  x class* y $  or  x class+ y $, where x is not in the class (y optional)
type tailRE struct {
	x     byte
	class [256]bool
	plus  bool
	y     int // -1: none
}

func classOf(r *syntax.Regexp, c *[256]bool) bool {
	switch r.Op {
	case syntax.OpCapture:
		return classOf(r.Sub[0], c)
	case syntax.OpAlternate:
		for _, s := range r.Sub {
			if !classOf(s, c) {
				return false
			}
		}
		return true
	case syntax.OpCharClass:
		for i := 0; i+1 < len(r.Rune); i += 2 {
			for x := r.Rune[i]; x <= r.Rune[i+1]; x++ {
				if x > 127 {
					return false
				}
				c[x] = true
			}
		}
		return true
	case syntax.OpLiteral:
		if len(r.Rune) != 1 || r.Rune[0] > 127 || r.Flags&syntax.FoldCase != 0 {
			return false
		}
		c[r.Rune[0]] = true
		return true
	}
	return false
}

func parseTailRE(p string) (*tailRE, bool) {
	r, err := syntax.Parse(p, syntax.Perl)
	if err != nil || r.Op != syntax.OpConcat || len(r.Sub) < 3 || len(r.Sub) > 4 {
		return nil, false
	}
	lit := func(r *syntax.Regexp) int {
		if r.Op == syntax.OpLiteral && len(r.Rune) == 1 && r.Rune[0] < 128 && r.Flags&syntax.FoldCase == 0 {
			return int(r.Rune[0])
		}
		return -1
	}
	t := &tailRE{y: -1}
	x := lit(r.Sub[0])
	if x < 0 || r.Sub[len(r.Sub)-1].Op != syntax.OpEndText || (r.Sub[1].Op != syntax.OpStar && r.Sub[1].Op != syntax.OpPlus) {
		return nil, false
	}
	t.x, t.plus = byte(x), r.Sub[1].Op == syntax.OpPlus
	if !classOf(r.Sub[1].Sub[0], &t.class) || t.class[t.x] {
		return nil, false
	}
	if len(r.Sub) == 4 {
		if t.y = lit(r.Sub[2]); t.y < 0 || t.class[t.y] || t.y == x {
			return nil, false
		}
	}
	return t, true
}

// reTail is the index of the match of an expression anchored at the end
func (ex *Exec) reTail(st *State, pat string, s *Str) (lo, hi *Term, found bool) {
	if cs, ok := ex.concStr(s); ok {
		l := regexp.MustCompile(pat).FindStringIndex(cs)
		if l == nil {
			return nil, nil, false
		}
		return ex.I(l[0]), ex.I(l[1]), true
	}
	t, ok := parseTailRE(pat)
	if !ok {
		panic(unsupported("regular expression " + pat))
	}
	ps := append([]*Str(nil), ex.partsOf(s)...)
	start := func(i int) *Term { // where part i starts
		p := ex.I(0)
		for _, q := range ps[:i] {
			p = ex.Add(p, q.len)
		}
		return p
	}
	need := t.y // the byte the match must end with, until it was seen
	any := false
	for i := len(ps) - 1; i >= 0; i-- {
		p := ps[i]
		if cs, ok := ex.concStr(p); ok {
			for j := len(cs) - 1; j >= 0; j-- {
				c := cs[j]
				switch {
				case need >= 0:
					if int(c) != need {
						return nil, nil, false
					}
					need = -1
				case t.class[c]:
					any = true
				case c == t.x && (any || !t.plus):
					return ex.AddI(start(i), j), s.len, true
				default:
					return nil, nil, false
				}
			}
			continue
		}
		if p.itoa != nil {
			if need >= 0 {
				if need >= '0' && need <= '9' {
					panic(unsupported("regular expression on a number"))
				}
				return nil, nil, false
			}
			if !t.class['0'] || !t.class['9'] || t.class['-'] || t.x == '-' {
				panic(unsupported("regular expression on a number"))
			}
			if ex.decide(st, ex.Slt(p.itoa, ex.BV(64, 0))) {
				return nil, nil, false
			}
			any = true
			continue
		}
		free := true
		for _, q := range ps[:i+1] {
			if !ex.noByte(st, q, t.x) {
				free = false
				break
			}
		}
		if free {
			return nil, nil, false
		}
		n := p.len
		if need >= 0 {
			if ex.decide(st, ex.Eq(n, ex.I(0))) {
				continue
			}
			if !ex.decide(st, ex.Eq(ex.Sel(p.arr, ex.AddI(ex.Add(p.off, n), -1)), ex.BV(8, uint64(need)))) {
				return nil, nil, false
			}
			need = -1
			n = ex.AddI(n, -1)
		}
		r := ex.trimRightLen(st, "re"+pat, p.arr, p.off, n, func(b *Term) *Term {
			m := ex.False
			for c := 0; c < 256; {
				if !t.class[c] {
					c++
					continue
				}
				d := c
				for d+1 < 256 && t.class[d+1] {
					d++
				}
				m = ex.BOr(m, ex.BAnd(ex.Ule(ex.BV(8, uint64(c)), b), ex.Ule(b, ex.BV(8, uint64(d)))))
				c = d + 1
			}
			return m
		})
		if t.plus && !any {
			any = ex.decide(st, ex.Ult(r, n))
		}
		if ex.decide(st, ex.Eq(r, ex.I(0))) {
			continue
		}
		if (any || !t.plus) && ex.decide(st, ex.Eq(ex.Sel(p.arr, ex.AddI(ex.Add(p.off, r), -1)), ex.BV(8, uint64(t.x)))) {
			return ex.AddI(ex.Add(start(i), r), -1), s.len, true
		}
		return nil, nil, false
	}
	return nil, nil, false
}

package main

import (
	"strconv"
	"strings"

)

func (ex *Exec) conc2(a, b Value) (string, string, bool) {
	x, ok1 := ex.concStr(a.(*Str))
	y, ok2 := ex.concStr(b.(*Str))
	return x, y, ok1 && ok2
}

func (ex *Exec) strSlice(st *State, el []Value) *SliceV {
	h, id := st.heap.alloc(&Obj{val: &VecV{e: el}, name: "strs"})
	st.heap = h
	n := ex.I(len(el))
	return &SliceV{base: Ptr{obj: id}, off: ex.I(0), len: n, cap: n, isNil: ex.False}
}

// noByte: the byte c provably does not occur in s
func (ex *Exec) noByte(st *State, s *Str, c byte) bool {
	if s.itoa != nil {
		return c != '-' && (c < '0' || c > '9')
	}
	if cs, ok := ex.concStr(s); ok {
		return strings.IndexByte(cs, c) < 0
	}
	v := ex.VarR("nb"+strconv.Itoa(s.off.id)+"_"+strconv.Itoa(s.len.id), 64, 0, maxLen)
	was := ex.deciding
	ex.deciding = true
	defer func() { ex.deciding = was }()
	r, _ := ex.queryRel(append(append([]*Term(nil), st.pc...), ex.BAnd(ex.Ult(v, s.len), ex.Eq(ex.Sel(s.arr, ex.Add(s.off, v)), ex.BV(8, uint64(c))))), false)
	return r == Unsat
}

// splitRope splits at every occurrence of c when each part is either constant or provably free of c
func (ex *Exec) splitRope(st *State, s *Str, c byte) ([]*Str, bool) {
	ps := s.parts
	if ps == nil {
		ps = []*Str{s}
	}
	var out []*Str
	cur := ex.strConst("")
	for _, p := range ps {
		if cs, ok := ex.concStr(p); ok {
			f := strings.Split(cs, string(c))
			for i, x := range f {
				if i > 0 {
					out = append(out, cur)
					cur = ex.strConst("")
				}
				cur = ex.concat(st, cur, ex.strConst(x)).(*Str)
			}
			continue
		}
		if !ex.noByte(st, p, c) {
			return nil, false
		}
		cur = ex.concat(st, cur, p).(*Str)
	}
	return append(out, cur), true
}

func (ex *Exec) partsOf(s *Str) []*Str {
	if s.parts != nil {
		return s.parts
	}
	return []*Str{s}
}

// indexRope: position of first/last occurrence of byte c
func (ex *Exec) indexRope(st *State, s *Str, c byte, last bool) *Term {
	sp, ok := ex.splitRope(st, s, c)
	if ok {
		if len(sp) == 1 {
			return ex.I(-1)
		}
		if !last {
			return sp[0].len
		}
		pos := ex.I(0)
		for _, p := range sp[:len(sp)-1] {
			pos = ex.AddI(ex.Add(pos, p.len), 1)
		}
		return ex.AddI(pos, -1)
	}
	// the parts before the first (after the last) one that is not known decide it
	if ps := ex.partsOf(s); len(ps) > 1 {
		for i := range ps {
			j := i
			if last {
				j = len(ps) - 1 - i
			}
			t, conc := ex.concStr(ps[j])
			if !conc {
				if ps[j].itoa != nil && ex.noByte(st, ps[j], c) {
					continue
				}
				break
			}
			x := strings.IndexByte(t, c)
			if last {
				x = strings.LastIndexByte(t, c)
			}
			if x < 0 {
				continue
			}
			pos := ex.I(x)
			for _, p := range ps[:j] {
				pos = ex.Add(pos, p.len)
			}
			return pos
		}
	}
	if !last {
		i, f := ex.indexByte(st, s.arr, s.off, s.len, ex.BV(8, uint64(c)))
		if !f {
			return ex.I(-1)
		}
		return i
	}
	// last occurrence
	n := s.len
	k := ex.trimRightLen(st, "not"+string(rune(c)), s.arr, s.off, n, func(b *Term) *Term { return ex.Not(ex.Eq(b, ex.BV(8, uint64(c)))) })
	return ex.AddI(k, -1)
}

func (ex *Exec) eqAt(s *Str, pos *Term, c string) *Term {
	r := ex.True
	for i := 0; i < len(c); i++ {
		r = ex.BAnd(r, ex.Eq(ex.Sel(s.arr, ex.Add(s.off, ex.AddI(pos, i))), ex.BV(8, uint64(c[i]))))
	}
	return r
}

func (ex *Exec) mapCase(st *State, s *Str, fn string) *Str {
	if s.itoa != nil {
		return s
	}
	if cs, ok := ex.concStr(s); ok {
		if fn == "lower" {
			return ex.strConst(strings.ToLower(cs))
		}
		return ex.strConst(strings.ToUpper(cs))
	}
	if s.parts != nil {
		r := ex.strConst("")
		for _, p := range s.parts {
			r = ex.concat(st, r, ex.mapCase(st, p, fn)).(*Str)
		}
		return r
	}
	ex.assumes["strings.ToLower/ToUpper on symbolic strings: ASCII contents"] = true
	return &Str{arr: ex.AMap(fn, s.arr), off: s.off, len: s.len}
}

func stringModels() {
	m("strings.ToLower", func(ex *Exec, st *State, a []Value) Value { return ex.mapCase(st, a[0].(*Str), "lower") })
	m("strings.ToUpper", func(ex *Exec, st *State, a []Value) Value { return ex.mapCase(st, a[0].(*Str), "upper") })
	// never: the affix c cannot occur at that end of s
	never := func(ex *Exec, st *State, s, p *Str, last bool) bool {
		ps := ex.partsOf(s)
		q := ps[0]
		i := 0
		c, ok := ex.concStr(p)
		if !ok || len(c) == 0 {
			return false
		}
		if s.itoa != nil && strings.Trim(c, "-0123456789") != "" {
			return true
		}
		if last {
			q, i = ps[len(ps)-1], len(c)-1
		}
		return q.itoa != nil && ex.noByte(st, q, c[i])
	}
	hasPrefix := func(ex *Exec, st *State, s, p *Str) *Term {
		if never(ex, st, s, p, false) {
			return ex.False
		}
		return ex.BAnd(ex.Ule(p.len, s.len), ex.eqSeq(s.arr, s.off, p.len, p.arr, p.off, p.len))
	}
	hasSuffix := func(ex *Exec, st *State, s, p *Str) *Term {
		if never(ex, st, s, p, true) {
			return ex.False
		}
		return ex.BAnd(ex.Ule(p.len, s.len), ex.eqSeq(s.arr, ex.Add(s.off, ex.Sub(s.len, p.len)), p.len, p.arr, p.off, p.len))
	}
	m("strings.HasPrefix", func(ex *Exec, st *State, a []Value) Value { return hasPrefix(ex, st, a[0].(*Str), a[1].(*Str)) })
	m("strings.HasSuffix", func(ex *Exec, st *State, a []Value) Value { return hasSuffix(ex, st, a[0].(*Str), a[1].(*Str)) })
	m("strings.TrimPrefix", func(ex *Exec, st *State, a []Value) Value {
		s, p := a[0].(*Str), a[1].(*Str)
		if ex.decide(st, hasPrefix(ex, st, s, p)) {
			return ex.subStr(st, s, p.len, s.len)
		}
		return s
	})
	m("strings.TrimSuffix", func(ex *Exec, st *State, a []Value) Value {
		s, p := a[0].(*Str), a[1].(*Str)
		if ex.decide(st, hasSuffix(ex, st, s, p)) {
			return ex.subStr(st, s, ex.I(0), ex.Sub(s.len, p.len))
		}
		return s
	})
	idx := func(last bool) func(ex *Exec, st *State, a []Value) Value {
		return func(ex *Exec, st *State, a []Value) Value {
			if x, y, ok := ex.conc2(a[0], a[1]); ok {
				if last {
					return ex.I(strings.LastIndex(x, y))
				}
				return ex.I(strings.Index(x, y))
			}
			y, ok := ex.concStr(a[1].(*Str))
			if !ok || len(y) != 1 {
				panic(unsupported("strings.Index with symbolic or long needle"))
			}
			return ex.indexRope(st, a[0].(*Str), y[0], last)
		}
	}
	m("strings.Index", idx(false))
	m("strings.LastIndex", idx(true))
	m("strings.LastIndexByte", func(ex *Exec, st *State, a []Value) Value {
		c := a[1].(*Term)
		if !c.IsConst() {
			panic(unsupported("LastIndexByte symbolic"))
		}
		return ex.indexRope(st, a[0].(*Str), byte(c.val), true)
	})
	m("strings.Contains", func(ex *Exec, st *State, a []Value) Value {
		if x, y, ok := ex.conc2(a[0], a[1]); ok {
			return ex.Bool(strings.Contains(x, y))
		}
		y, ok := ex.concStr(a[1].(*Str))
		if !ok || len(y) != 1 {
			panic(unsupported("strings.Contains with symbolic or long needle"))
		}
		r := ex.indexRope(st, a[0].(*Str), y[0], false)
		return ex.Not(ex.Eq(r, ex.I(-1)))
	})
	m("strings.Split", func(ex *Exec, st *State, a []Value) Value {
		if x, y, ok := ex.conc2(a[0], a[1]); ok {
			var el []Value
			for _, s := range strings.Split(x, y) {
				el = append(el, ex.strConst(s))
			}
			return ex.strSlice(st, el)
		}
		y, ok := ex.concStr(a[1].(*Str))
		if !ok || len(y) != 1 {
			panic(unsupported("strings.Split separator"))
		}
		sp, ok := ex.splitRope(st, a[0].(*Str), y[0])
		if !ok {
			// peel separators one at a time (bounded)
			s := a[0].(*Str)
			var el []Value
			for i := 0; ; i++ {
				if i > 4 {
					if ex.refute {
						panic(pathEnd{})
					}
					panic(unsupported("strings.Split of an unconstrained symbolic string"))
				}
				p, f := ex.indexByte(st, s.arr, s.off, s.len, ex.BV(8, uint64(y[0])))
				if !f {
					el = append(el, s)
					break
				}
				el = append(el, ex.subStr(st, s, ex.I(0), p))
				s = &Str{arr: s.arr, off: ex.Add(s.off, ex.AddI(p, 1)), len: ex.Sub(s.len, ex.AddI(p, 1))}
			}
			return ex.strSlice(st, el)
		}
		var el []Value
		for _, s := range sp {
			el = append(el, s)
		}
		return ex.strSlice(st, el)
	})
	// a replacer of single characters whose replacements hold none of them: one after the other
	m("strings.NewReplacer", func(ex *Exec, st *State, a []Value) Value {
		on := a[0].(*SliceV)
		if !on.len.IsConst() || on.len.val%2 != 0 {
			panic(unsupported("strings.NewReplacer"))
		}
		var ps []string
		for i := 0; i < int(on.len.val); i++ {
			c, ok := ex.concStr(ex.load(st, on.base.index(ex.AddI(on.off, i))).(*Str))
			if !ok {
				panic(unsupported("strings.NewReplacer of symbolic strings"))
			}
			ps = append(ps, c)
		}
		for i := 0; i < len(ps); i += 2 {
			for j := 1; j < len(ps); j += 2 {
				if len(ps[i]) != 1 || strings.Contains(ps[j], ps[i]) || i+1 < j && ps[i] == ps[j-1] {
					panic(unsupported("strings.NewReplacer of more than single characters"))
				}
			}
		}
		var el []Value
		for _, p := range ps {
			el = append(el, ex.strConst(p))
		}
		h, id := st.heap.alloc(&Obj{val: &VecV{e: el}, name: "replacer"})
		st.heap = h
		return Ptr{obj: id}
	})
	m("(*strings.Replacer).Replace", func(ex *Exec, st *State, a []Value) Value {
		var v Value = a[1]
		o := st.heap.get(a[0].(Ptr).obj)
		if o == nil || o.name != "replacer" {
			panic(unsupported("strings.Replacer"))
		}
		ps := o.val.(*VecV).e
		for i := 0; i < len(ps); i += 2 {
			v = replaceAll(ex, st, []Value{v, ps[i], ps[i+1]})
		}
		return v
	})
	m("strings.Replace", func(ex *Exec, st *State, a []Value) Value {
		if n := a[3].(*Term); n.IsConst() && int64(n.val) < 0 {
			return replaceAll(ex, st, a[:3])
		}
		x, y, ok := ex.conc2(a[0], a[1])
		z, ok3 := ex.concStr(a[2].(*Str))
		if !ok || !ok3 || !a[3].(*Term).IsConst() {
			panic(unsupported("strings.Replace of symbolic strings"))
		}
		return ex.strConst(strings.Replace(x, y, z, int(a[3].(*Term).val)))
	})
	m("strings.Join", func(ex *Exec, st *State, a []Value) Value {
		el := ex.variadic(st, a[0])
		r := ex.strConst("")
		for i, e := range el {
			if i > 0 {
				r = ex.concat(st, r, a[1].(*Str)).(*Str)
			}
			r = ex.concat(st, r, e.(*Str)).(*Str)
		}
		return r
	})
	m("strings.Fields", func(ex *Exec, st *State, a []Value) Value {
		x, ok := ex.concStr(a[0].(*Str))
		if !ok {
			panic(unsupported("strings.Fields of symbolic string"))
		}
		v := &VecV{}
		for _, f := range strings.Fields(x) {
			v.e = append(v.e, ex.strConst(f))
		}
		h, id := st.heap.alloc(&Obj{val: v, name: "fields"})
		st.heap = h
		return &SliceV{base: Ptr{obj: id}, off: ex.I(0), len: ex.I(len(v.e)), cap: ex.I(len(v.e)), isNil: ex.False}
	})
	m("strings.TrimSpace", func(ex *Exec, st *State, a []Value) Value {
		s := a[0].(*Str)
		if x, ok := ex.concStr(s); ok {
			return ex.strConst(strings.TrimSpace(x))
		}
		if s.itoa != nil {
			return s
		}
		ps := ex.partsOf(s)
		isSp := func(p *Str) bool {
			x, ok := ex.concStr(p)
			return ok && strings.TrimSpace(x) == ""
		}
		ch := false
		for len(ps) > 0 && isSp(ps[0]) {
			ps = ps[1:]
			ch = true
		}
		for len(ps) > 0 && isSp(ps[len(ps)-1]) {
			ps = ps[:len(ps)-1]
			ch = true
		}
		if len(ps) == 0 {
			return ex.strConst("")
		}
		edgeOK := func(p *Str, first bool) bool {
			if p.itoa != nil {
				return true
			}
			if x, ok := ex.concStr(p); ok {
				if first {
					return strings.TrimLeft(x, " \t\r\n\v\f") == x
				}
				return strings.TrimRight(x, " \t\r\n\v\f") == x
			}
			for _, c := range []byte{' ', '\t', '\n', '\r', '\v', '\f', 0x85, 0xA0} {
				if !ex.noByte(st, p, c) {
					return false
				}
			}
			return ex.mustBe(st, ex.Ult(ex.I(0), p.len))
		}
		if edgeOK(ps[0], true) && edgeOK(ps[len(ps)-1], false) {
			if !ch {
				return s
			}
			r := ps[0]
			for _, q := range ps[1:] {
				r = ex.concat(st, r, q).(*Str)
			}
			return r
		}
		// drop spaces known to be there, as long as the characters at both ends are known
		space := func(c *Term) *Term {
			r := ex.False
			for _, b := range []byte(" \t\n\r\v\f") {
				r = ex.BOr(r, ex.Eq(c, ex.BV(8, uint64(b))))
			}
			return r
		}
		lo, hi := ex.I(0), s.len
		known := func(first bool) bool {
			for n := 0; n < 8; n++ {
				c := ex.Sel(s.arr, ex.Add(s.off, lo))
				if !first {
					c = ex.Sel(s.arr, ex.Add(s.off, ex.Sub(hi, ex.I(1))))
				}
				// a byte of another encoding may be part of a space
				if ex.mustBe(st, ex.BAnd(ex.Ult(lo, hi), ex.Ult(c, ex.BV(8, 128)), ex.Not(space(c)))) {
					return true
				}
				if !ex.mustBe(st, ex.BAnd(ex.Ult(lo, hi), space(c))) {
					return false
				}
				if first {
					lo = ex.Add(lo, ex.I(1))
				} else {
					hi = ex.Sub(hi, ex.I(1))
				}
			}
			return false
		}
		if known(true) && known(false) {
			return ex.subStr(st, s, lo, hi)
		}
		// some part of the string
		i, j := ex.FreshLen("trim"), ex.FreshLen("trim")
		ex.assume(st, ex.BAnd(ex.Ule(i, j), ex.Ule(j, s.len)))
		return ex.subStr(st, s, i, j)
	})
	for _, nm := range []string{"TrimLeft", "TrimRight", "Trim", "ReplaceAll"} {
		name := nm
		m("strings."+name, func(ex *Exec, st *State, a []Value) Value {
			x, y, ok := ex.conc2(a[0], a[1])
			if name == "ReplaceAll" {
				z, ok3 := ex.concStr(a[2].(*Str))
				if ok && ok3 {
					return ex.strConst(strings.ReplaceAll(x, y, z))
				}
				if y, ok := ex.concStr(a[1].(*Str)); ok && len(y) == 1 && ok3 {
					r := ex.strConst("")
					for _, p := range ex.partsOf(a[0].(*Str)) {
						if cs, ok := ex.concStr(p); ok {
							r = ex.concat(st, r, ex.strConst(strings.ReplaceAll(cs, y, z))).(*Str)
						} else if ex.noByte(st, p, y[0]) {
							r = ex.concat(st, r, p).(*Str)
						} else {
							panic(unsupported("strings.ReplaceAll of symbolic string"))
						}
					}
					return r
				}
				return ex.freshStr("repl") // nothing is known about the result
			}
			if ok {
				switch name {
				case "TrimLeft":
					return ex.strConst(strings.TrimLeft(x, y))
				case "TrimRight":
					return ex.strConst(strings.TrimRight(x, y))
				case "Trim":
					return ex.strConst(strings.Trim(x, y))
				}
			}
			if cut, ok := ex.concStr(a[1].(*Str)); ok && (name == "TrimLeft" || name == "TrimRight") {
				s := a[0].(*Str)
				if name == "TrimRight" {
					n := ex.trimRightLen(st, "cut"+cut, s.arr, s.off, s.len, func(b *Term) *Term {
						r := ex.False
						for i := 0; i < len(cut); i++ {
							r = ex.BOr(r, ex.Eq(b, ex.BV(8, uint64(cut[i]))))
						}
						return r
					})
					return &Str{arr: s.arr, off: s.off, len: n}
				}
			}
			panic(unsupported("strings." + name + " of symbolic string"))
		})
	}
	m("strings.EqualFold", func(ex *Exec, st *State, a []Value) Value {
		return ex.eqStr(st, ex.mapCase(st, a[0].(*Str), "lower"), ex.mapCase(st, a[1].(*Str), "lower"))
	})
	m("strconv.Itoa", func(ex *Exec, st *State, a []Value) Value { return ex.itoaStr(a[0].(*Term)) })
	// the name of what a function of strconv makes of a text: the same for the same text
	unk := func(s *Str, kind string, base, bits int) string {
		return "parse" + kind + strconv.Itoa(s.arr.id) + "_" + strconv.Itoa(s.off.id) + "_" + strconv.Itoa(s.len.id) + "_" + strconv.Itoa(base) + "_" + strconv.Itoa(bits)
	}
	parse := func(ex *Exec, st *State, s *Str, base, bits int) (*Term, bool) {
		if x, ok := ex.concStr(s); ok {
			v, err := strconv.ParseInt(x, base, bits)
			if err != nil {
				return ex.BV(64, uint64(v)), false
			}
			return ex.BV(64, uint64(v)), true
		}
		if s.itoa != nil && (base == 10 || base == 0) {
			if bits == 0 || bits == 64 {
				return s.itoa, true
			}
			lo, hi := ex.BV(64, uint64(int64(-1)<<uint(bits-1))), ex.BV(64, uint64(int64(1)<<uint(bits-1)-1))
			if ex.decide(st, ex.BAnd(ex.Sle(lo, s.itoa), ex.Sle(s.itoa, hi))) {
				return s.itoa, true
			}
			return ex.Fresh("pi", 64), false
		}
		if v, good, ok := ex.exactNum(st, s, base, bits, true); ok {
			if ex.decide(st, good) {
				return v, true
			}
			return ex.Fresh("pe", 64), false
		}
		// unknown text: either outcome, but nothing containing a byte outside [0-9+-_a-zA-Z] parses
		nm := "parse" + strconv.Itoa(s.arr.id) + "_" + strconv.Itoa(s.off.id) + "_" + strconv.Itoa(s.len.id) + "_" + strconv.Itoa(base) + "_" + strconv.Itoa(bits)
		okT := ex.Var(nm+"ok", 0)
		// characters of a name that cannot start a number decide it
		if base == 10 {
			first := ex.Sel(s.arr, s.off)
			digit := ex.BAnd(ex.Ule(ex.BV(8, '0'), first), ex.Ule(first, ex.BV(8, '9')))
			sign := ex.BOr(ex.Eq(first, ex.BV(8, '+')), ex.Eq(first, ex.BV(8, '-')))
			ex.assume(st, ex.Implies(okT, ex.BAnd(ex.Ult(ex.I(0), s.len), ex.BOr(digit, sign))))
		}
		if ex.decide(st, okT) {
			v := ex.Var(nm+"v", 64)
			if bits != 0 && bits != 64 {
				lo, hi := ex.BV(64, uint64(int64(-1)<<uint(bits-1))), ex.BV(64, uint64(int64(1)<<uint(bits-1)-1))
				ex.assume(st, ex.BAnd(ex.Sle(lo, v), ex.Sle(v, hi)))
			}
			return v, true
		}
		return ex.Var(nm+"e", 64), false
	}
	m("strconv.Atoi", func(ex *Exec, st *State, a []Value) Value {
		v, ok := parse(ex, st, a[0].(*Str), 10, 0)
		if ok {
			return TupleV{v, nilErr}
		}
		return TupleV{ex.I(0), ex.newError("strconv.Atoi: parsing")}
	})
	m("strconv.ParseInt", func(ex *Exec, st *State, a []Value) Value {
		v, ok := parse(ex, st, a[0].(*Str), int(a[1].(*Term).S()), int(a[2].(*Term).S()))
		if ok {
			return TupleV{v, nilErr}
		}
		return TupleV{v, ex.newError("strconv.ParseInt: parsing")}
	})
	m("strconv.ParseUint", func(ex *Exec, st *State, a []Value) Value {
		if x, ok := ex.concStr(a[0].(*Str)); ok {
			v, err := strconv.ParseUint(x, int(a[1].(*Term).S()), int(a[2].(*Term).S()))
			if err != nil {
				return TupleV{ex.BV(64, v), ex.newError("strconv.ParseUint: parsing")}
			}
			return TupleV{ex.BV(64, v), nilErr}
		}
		s := a[0].(*Str)
		base, bits := int(a[1].(*Term).S()), int(a[2].(*Term).S())
		if s.itoa != nil && (base == 10 || base == 0) {
			in := ex.Sle(ex.I(0), s.itoa)
			if bits != 0 && bits != 64 {
				in = ex.BAnd(in, ex.Ult(s.itoa, ex.BV(64, 1<<uint(bits))))
			}
			if ex.decide(st, in) {
				return TupleV{s.itoa, nilErr}
			}
			return TupleV{ex.Fresh("pu", 64), ex.newError("strconv.ParseUint: parsing")}
		}
		if v, good, ok := ex.exactNum(st, s, base, bits, false); ok {
			if ex.decide(st, good) {
				return TupleV{v, nilErr}
			}
			return TupleV{ex.Fresh("pu", 64), ex.newError("strconv.ParseUint: parsing")}
		}
		nm := unk(s, "uint", base, bits)
		v := ex.Var(nm+"v", 64)
		if ex.decide(st, ex.Var(nm+"ok", 0)) {
			if bits != 0 && bits != 64 {
				ex.assume(st, ex.Ult(v, ex.BV(64, 1<<uint(bits))))
			}
			return TupleV{v, nilErr}
		}
		return TupleV{ex.Var(nm+"e", 64), ex.newError("strconv.ParseUint: parsing")}
	})
	m("strconv.ParseBool", func(ex *Exec, st *State, a []Value) Value {
		s := a[0].(*Str)
		for i, texts := range [][]string{{"1", "t", "T", "true", "TRUE", "True"}, {"0", "f", "F", "false", "FALSE", "False"}} {
			r := ex.False
			for _, t := range texts {
				r = ex.BOr(r, ex.eqStr(st, s, ex.strConst(t)))
			}
			if ex.decide(st, r) {
				return TupleV{ex.Bool(i == 0), nilErr}
			}
		}
		return TupleV{ex.False, ex.newError("strconv.ParseBool: parsing")}
	})
	m("strconv.ParseFloat", func(ex *Exec, st *State, a []Value) Value {
		bits := int(a[1].(*Term).S())
		if x, ok := ex.concStr(a[0].(*Str)); ok {
			v, err := strconv.ParseFloat(x, bits)
			if err != nil {
				return TupleV{ex.floatConst(v, 64), ex.newError("strconv.ParseFloat: parsing")}
			}
			return TupleV{ex.floatConst(v, 64), nilErr}
		}
		nm := unk(a[0].(*Str), "float", 0, bits)
		if ex.decide(st, ex.Var(nm+"ok", 0)) {
			return TupleV{ex.Var(nm+"v", 64), nilErr}
		}
		return TupleV{ex.Var(nm+"e", 64), ex.newError("strconv.ParseFloat: parsing")}
	})
	m("regexp.Compile", func(ex *Exec, st *State, a []Value) Value {
		p, ok := ex.concStr(a[0].(*Str))
		if !ok {
			panic(unsupported("regexp.Compile of symbolic pattern"))
		}
		return TupleV{OpaqueV{kind: "regexp", data: p, id: 1}, nilErr}
	})
	m("(*regexp.Regexp).FindStringIndex", func(ex *Exec, st *State, a []Value) Value {
		re, ok := a[0].(OpaqueV)
		if !ok || re.kind != "regexp" {
			panic(unsupported("FindStringIndex on an unknown expression"))
		}
		lo, hi, f := ex.reTail(st, re.data.(string), a[1].(*Str))
		if !f {
			return ex.nilSlice()
		}
		h, id := st.heap.alloc(&Obj{val: &VecV{e: []Value{lo, hi}}, name: "match"})
		st.heap = h
		return &SliceV{base: Ptr{obj: id}, off: ex.I(0), len: ex.I(2), cap: ex.I(2), isNil: ex.False}
	})
	m("regexp.MustCompile", func(ex *Exec, st *State, a []Value) Value {
		p, _ := ex.concStr(a[0].(*Str))
		return OpaqueV{kind: "regexp", data: p, id: 1}
	})
	// sort.Slice sorts up to twelve elements by insertion
	sortSlice := func(ex *Exec, st *State, a []Value) Value {
		s, ok := a[0].(IfaceV).v.(*SliceV)
		less, ok2 := a[1].(FuncV)
		if !ok || !ok2 {
			panic(unsupported("sort.Slice"))
		}
		if !s.len.IsConst() || s.len.val > 12 {
			panic(unsupported("sort.Slice of more than twelve elements"))
		}
		sc := st.clone()
		at := func(i int) Ptr { return s.base.index(ex.Add(s.off, ex.I(i))) }
		for i := 1; i < int(s.len.val); i++ {
			for j := i; j > 0; j-- {
				c := ex.evalPure(sc, less, []Value{ex.I(j), ex.I(j - 1)})
				if !ex.decide(st, c) {
					break
				}
				x, y := ex.load(sc, at(j)), ex.load(sc, at(j-1))
				ex.store(sc, at(j), y)
				ex.store(sc, at(j-1), x)
			}
		}
		st.heap = sc.heap
		return TupleV{}
	}
	m("sort.Slice", sortSlice)
	m("sort.SliceStable", sortSlice)
}

// exactNum is strconv.ParseUint (or ParseInt when signed) of text of a known length: the value and
// whether the text is a number in range, as terms over its characters.  ok is false when the length
// or the radix is out of reach.
func (ex *Exec) exactNum(st *State, s *Str, base, bits int, signed bool) (val, good *Term, ok bool) {
	if s.itoa != nil {
		return nil, nil, false
	}
	if !s.len.IsConst() && ex.mustBe(st, ex.Ule(s.len, ex.I(100))) {
		for k := 0; k <= 100; k++ {
			if ex.mustBe(st, ex.Eq(s.len, ex.I(k))) {
				r := *s
				r.len = ex.I(k)
				s = &r
				break
			}
		}
	}
	if !s.len.IsConst() || s.len.val > 100 {
		return nil, nil, false
	}
	if bits == 0 {
		bits = 64
	}
	n := int(s.len.val)
	if n == 0 {
		return ex.I(0), ex.False, true
	}
	at := func(i int) *Term { return ex.Sel(s.arr, ex.Add(s.off, ex.I(i))) }
	is := func(i int, c byte) *Term { return ex.Eq(at(i), ex.BV(8, uint64(c))) }
	neg, sign := ex.False, ex.False
	i := 0
	if signed {
		neg, sign = is(0, '-'), ex.BOr(is(0, '-'), is(0, '+'))
	}
	base0 := base == 0
	if base0 {
		if signed {
			return nil, nil, false
		}
		base = 10
		if ex.decide(st, is(0, '0')) {
			base, i = 8, 1
			if n >= 3 {
				for _, p := range []struct {
					c byte
					b int
				}{{'b', 2}, {'o', 8}, {'x', 16}} {
					if ex.decide(st, ex.Eq(ex.Or(at(1), ex.BV(8, 0x20)), ex.BV(8, uint64(p.c)))) {
						base, i = p.b, 2
						break
					}
				}
			}
			if i == 1 && n == 1 {
				return ex.I(0), ex.True, true
			}
		}
	}
	pow := base&(base-1) == 0
	if !pow && n-i > 19 {
		return nil, nil, false
	}
	lg := 0
	for 1<<lg < base {
		lg++
	}
	good, acc := ex.True, ex.BV(64, 0)
	us := func(j int) *Term { return is(j, '_') }
	first := i
	for ; i < n; i++ {
		c := at(i)
		dig := ex.BAnd(ex.Ule(ex.BV(8, '0'), c), ex.Ule(c, ex.BV(8, '9')))
		low := ex.Or(c, ex.BV(8, 0x20))
		let := ex.BAnd(ex.Ule(ex.BV(8, 'a'), low), ex.Ule(low, ex.BV(8, 'z')))
		d := ex.Ite(dig, ex.Sub(c, ex.BV(8, '0')), ex.Add(ex.Sub(low, ex.BV(8, 'a')), ex.BV(8, 10)))
		valid := ex.BAnd(ex.BOr(dig, let), ex.Ult(d, ex.BV(8, uint64(base))))
		skip := ex.False
		if base0 {
			skip = us(i)
			cond := ex.Bool(i != n-1)
			if i > first {
				cond = ex.BAnd(cond, ex.Not(us(i-1)))
			} else if first == 0 {
				cond = ex.False
			}
			good = ex.BAnd(good, ex.Implies(skip, cond))
		} else if i == 0 && signed {
			skip = sign
			good = ex.BAnd(good, ex.Implies(skip, ex.Bool(n > 1)))
		}
		good = ex.BAnd(good, ex.BOr(skip, valid))
		var next *Term
		if pow {
			over := ex.Not(ex.Eq(ex.LShr(acc, ex.BV(64, uint64(64-lg))), ex.BV(64, 0)))
			good = ex.BAnd(good, ex.BOr(skip, ex.Not(over)))
			next = ex.Or(ex.Shl(acc, ex.BV(64, uint64(lg))), ex.ZExt(d, 64))
		} else {
			next = ex.Add(ex.Mul(acc, ex.BV(64, uint64(base))), ex.ZExt(d, 64))
		}
		acc = ex.Ite(skip, acc, next)
	}
	if !signed {
		if bits < 64 {
			good = ex.BAnd(good, ex.Ult(acc, ex.BV(64, 1<<uint(bits))))
		}
		return acc, good, true
	}
	cut := ex.BV(64, 1<<uint(bits-1))
	good = ex.BAnd(good, ex.Ite(neg, ex.Ule(acc, cut), ex.Ult(acc, cut)))
	return ex.Ite(neg, ex.Neg(acc), acc), good, true
}

func replaceAll(ex *Exec, st *State, a []Value) Value {
	var r Value
	models["strings.ReplaceAll"](ex, st, nil, a, func(_ *State, v Value) { r = v })
	return r
}

func init() {
	m("strings.Cut", func(ex *Exec, st *State, a []Value) Value {
		s := a[0].(*Str)
		if x, y, ok := ex.conc2(a[0], a[1]); ok {
			b, f, found := strings.Cut(x, y)
			return TupleV{ex.strConst(b), ex.strConst(f), ex.Bool(found)}
		}
		y, ok := ex.concStr(a[1].(*Str))
		if !ok || len(y) != 1 {
			panic(unsupported("strings.Cut at more than a character"))
		}
		if sp, ok := ex.splitRope(st, s, y[0]); ok {
			if len(sp) == 1 {
				return TupleV{a[0], ex.strConst(""), ex.False}
			}
			var r Value = sp[1]
			for _, p := range sp[2:] {
				r = ex.concat(st, ex.concat(st, r.(*Str), ex.strConst(y)).(*Str), p)
			}
			return TupleV{sp[0], r, ex.True}
		}
		p, f := ex.indexByte(st, s.arr, s.off, s.len, ex.BV(8, uint64(y[0])))
		if !f {
			return TupleV{a[0], ex.strConst(""), ex.False}
		}
		q := ex.AddI(p, 1)
		return TupleV{ex.subStr(st, s, ex.I(0), p), ex.subStr(st, s, q, s.len), ex.True}
	})
}

package gologix

import (
	"reflect"
	"strconv"
	"strings"
)

// C16: a tag holds what was last written to it.

// a list is read whole, in part and by element, under a name of any case
func VC_C16_read_list(v []int32, n int16, j int) {
	vcRequires(len(v) <= 40000)
	vcRequires(j >= 0)
	vcRequires(j < int(n))
	p := &MapTagProvider{Data: map[string]any{"arr": v, "b": int16(5)}}
	x, err := p.TagRead("ARR", n)
	vcEnsures("a list is read exactly when it has the elements", (err == nil) == (n >= 0 && int(n) <= len(v)))
	vcEnsures("the provider is free again", !vcLocked(&p.Mutex))
	if err == nil {
		l, ok := x.([]int32)
		vcEnsures("as many as asked for", ok && len(l) == int(n))
		vcEnsures("in order", l[j] == v[j])
	}
}

func VC_C16_read_element(v []int32, i int, n int16, j int) {
	vcRequires(len(v) <= 40000)
	vcRequires(i >= 0)
	vcRequires(i <= 100000)
	p := &MapTagProvider{Data: map[string]any{"arr": v, "b": int16(5)}}
	x, err := p.TagRead("Arr["+strconv.Itoa(i)+"]", n)
	vcEnsures("elements are read exactly when they are there", (err == nil) == (n >= 0 && i < len(v) && i+int(n) <= len(v)))
	vcEnsures("the provider is free again", !vcLocked(&p.Mutex))
	if err == nil && n == 1 {
		e, ok := x.(int32)
		vcEnsures("one element is its value", ok && e == v[i])
	} else if err == nil {
		l, ok := x.([]int32)
		vcEnsures("several elements are a list of them", ok && len(l) == int(n))
		if j >= 0 && j < len(l) {
			vcEnsures("starting with the element asked for", l[j] == v[i+j])
		}
	}
}

// a negative number of elements is never read
func VC_C16_read_negative(v []int32, n int16, s int16) {
	vcRequires(len(v) <= 40000)
	vcRequires(n < 0)
	p := &MapTagProvider{Data: map[string]any{"arr": v, "b": s}}
	_, err := p.TagRead("arr", n)
	vcEnsures("a negative number of elements is an error", err != nil)
	_, err = p.TagRead("arr[0]", n)
	vcEnsures("of an element too", err != nil)
}

func VC_C16_write_element(v []int32, i int, w int32, j int) {
	vcRequires(len(v) <= 40000)
	vcRequires(i >= 0)
	vcRequires(i <= 100000)
	vcRequires(j >= 0)
	vcRequires(j < len(v))
	old := v[j]
	p := &MapTagProvider{Data: map[string]any{"arr": v, "b": int16(5)}}
	err := p.TagWrite("Arr["+strconv.Itoa(i)+"]", w)
	vcEnsures("an element is written exactly when it is there", (err == nil) == (i < len(v)))
	vcEnsures("the provider is free again", !vcLocked(&p.Mutex))
	l, ok := p.Data["arr"].([]int32)
	vcEnsures("the list keeps its length", ok && len(l) == len(v))
	if i == j {
		vcEnsures("the element has the value", l[j] == w)
	} else {
		vcEnsures("no other changes", l[j] == old)
	}
	b, ok := p.Data["b"].(int16)
	vcEnsures("nor another tag", ok && b == 5)
	vcEnsures("no tag appears", len(p.Data) == 2)
}

// an element of another type is converted when its value fits and is an error when not,
// which changes nothing
func VC_C16_write_element_converted(v []int16, w int64, i int, j int) {
	vcRequires(len(v) <= 40000)
	vcRequires(i >= 0)
	vcRequires(i < len(v))
	vcRequires(j >= 0)
	vcRequires(j < len(v))
	old := v[j]
	p := &MapTagProvider{Data: map[string]any{"arr": v}}
	err := p.TagWrite("arr["+strconv.Itoa(i)+"]", w)
	vcEnsures("written exactly when it fits", (err == nil) == (w >= -32768 && w <= 32767))
	l, ok := p.Data["arr"].([]int16)
	vcEnsures("still a list of the type", ok && len(l) == len(v))
	if i == j && err == nil {
		vcEnsures("the element has the value", int64(l[j]) == w)
	} else {
		vcEnsures("nothing else changes", l[j] == old)
	}
}

// writes of the wrong shape are errors that change nothing
func VC_C16_write_wrong(v []int16, s string, c int, j int, n int32) {
	vcRequires(len(v) <= 40000)
	vcRequires(len(s) <= 100)
	vcRequires(j >= 0)
	vcRequires(j < len(v))
	old := v[j]
	p := &MapTagProvider{Data: map[string]any{"arr": v, "n": n}}
	var err error
	switch c {
	case 0:
		err = p.TagWrite("arr[0]", s)
	case 1:
		err = p.TagWrite("arr[0]", nil)
	case 2:
		err = p.TagWrite("arr[0]", []int16{1})
	case 3:
		err = p.TagWrite("n[0]", int32(7))
	case 4:
		err = p.TagWrite("other[0]", int32(7))
	case 5:
		err = p.TagWrite("arr[-1]", int16(7))
	case 6:
		err = p.TagWrite("arr", []any{int16(1), s})
	case 7:
		err = p.TagWrite("arr[0]", true)
	default:
		err = p.TagWrite("arr", []any{int16(1), int32(70000)})
	}
	vcEnsures("a write of the wrong shape is an error", err != nil)
	vcEnsures("the provider is free again", !vcLocked(&p.Mutex))
	l, ok := p.Data["arr"].([]int16)
	vcEnsures("the list stays", ok && len(l) == len(v))
	vcEnsures("with its values", l[j] == old)
	m, ok := p.Data["n"].(int32)
	vcEnsures("so does the other tag", ok && m == n)
	vcEnsures("no tag appears", len(p.Data) == 2)
}

// what a reader got stays what it was
func VC_C16_read_is_a_copy(v []int32, n int16, i int, w int32, j int, s int) {
	vcRequires(len(v) <= 40000)
	vcRequires(n >= 2)
	vcRequires(int(n) <= len(v))
	vcRequires(j >= 0)
	vcRequires(j < int(n))
	vcRequires(i >= 0)
	vcRequires(i < len(v))
	old := v[j]
	p := &MapTagProvider{Data: map[string]any{"arr": v}}
	name := "arr"
	if s == 1 {
		name = "arr[0]"
	}
	x, err := p.TagRead(name, n)
	vcEnsures("read", err == nil)
	err = p.TagWrite("arr["+strconv.Itoa(i)+"]", w)
	vcEnsures("written", err == nil)
	l, ok := x.([]int32)
	vcEnsures("what was read does not change", ok && l[j] == old)
	y, err := p.TagRead("arr["+strconv.Itoa(i)+"]", 1)
	e, ok := y.(int32)
	vcEnsures("and the value written is read", err == nil && ok && e == w)
}

// a name of any text: what is written is what is read, whatever the case it is spelled in,
// and no other tag changes
func VC_C16_any_name(name string, w int32, q int16) {
	vcRequires(len(name) <= 500)
	vcRequires(q >= 0)
	vcRequires(!strings.HasSuffix(name, "]"))
	p := &MapTagProvider{Data: map[string]any{"b": int16(5)}}
	_, err := p.TagRead(name, q)
	low := strings.ToLower(name)
	vcEnsures("a tag that is not there cannot be read", (err == nil) == (low == "b"))
	vcEnsures("reading makes no tag", len(p.Data) == 1)
	err = p.TagWrite(name, w)
	vcEnsures("written", err == nil)
	vcEnsures("the provider is free again", !vcLocked(&p.Mutex))
	x, err := p.TagRead(name, q)
	n, ok := x.(int32)
	vcEnsures("read back", err == nil && ok && n == w)
	x, err = p.TagRead(low, q)
	n, ok = x.(int32)
	vcEnsures("read back in lower case", err == nil && ok && n == w)
	x, err = p.TagRead("B", q)
	m, ok := x.(int16)
	vcEnsures("the other tag stays", low == "b" || err == nil && ok && m == 5)
}

// the empty provider
func VC_C16_empty(name string, w string) {
	vcRequires(len(name) <= 500)
	vcRequires(len(w) <= 500)
	vcRequires(!strings.HasSuffix(name, "]"))
	p := &MapTagProvider{}
	_, err := p.TagRead(name, 1)
	vcEnsures("nothing to read", err != nil)
	vcEnsures("the provider is free again", !vcLocked(&p.Mutex))
	err = p.TagWrite(name, w)
	vcEnsures("the first write makes the tag", err == nil && len(p.Data) == 1)
	x, err := p.TagRead(name, 1)
	s, ok := x.(string)
	vcEnsures("read back", err == nil && ok && s == w)
}

// two tags of any different names keep apart
func VC_C16_two_names(a string, b string, x int32, y float64) {
	vcRequires(len(a) <= 500)
	vcRequires(len(b) <= 500)
	vcRequires(!strings.HasSuffix(a, "]"))
	vcRequires(!strings.HasSuffix(b, "]"))
	vcRequires(strings.ToLower(a) != strings.ToLower(b))
	p := &MapTagProvider{}
	err := p.TagWrite(a, x)
	vcEnsures("the first is written", err == nil)
	err = p.TagWrite(b, y)
	vcEnsures("the second is written", err == nil)
	v, err := p.TagRead(a, 1)
	n, ok := v.(int32)
	vcEnsures("the first stays", err == nil && ok && n == x)
	v, err = p.TagRead(b, 1)
	f, ok := v.(float64)
	vcEnsures("the second has its value", err == nil && ok && (f == y || y != y))
}

// a whole list replaces the list, with the values written
func VC_C16_write_list(v []int32, w []int32, j int) {
	vcRequires(len(v) <= 40000)
	vcRequires(len(w) <= 20000)
	vcRequires(j >= 0)
	vcRequires(j < len(w))
	p := &MapTagProvider{Data: map[string]any{"arr": v, "b": int16(5)}}
	err := p.TagWrite("ARR", w)
	vcEnsures("written", err == nil)
	x, err := p.TagRead("arr", int16(len(w)))
	l, ok := x.([]int32)
	vcEnsures("read back", err == nil && ok && len(l) == len(w))
	vcEnsures("with the values written", l[j] == w[j])
	b, ok := p.Data["b"].(int16)
	vcEnsures("no other tag changes", ok && b == 5 && len(p.Data) == 2)
}

// a list of values as a request carries them replaces the list in the list's own type
//
//vc:bounded lists of two values replace a list of any length
func VC_C16_write_any_list(v []int16, a int32, b int64) {
	vcRequires(len(v) <= 40000)
	p := &MapTagProvider{Data: map[string]any{"arr": v, "b": int16(5)}}
	err := p.TagWrite("arr", []any{a, b})
	vcEnsures("written exactly when all values fit", (err == nil) == (int32(int16(a)) == a && int64(int16(b)) == b))
	vcEnsures("the provider is free again", !vcLocked(&p.Mutex))
	l, ok := p.Data["arr"].([]int16)
	vcEnsures("still a list of the type", ok)
	if err == nil {
		vcEnsures("as long as the values", len(l) == 2)
		vcEnsures("the first value", int32(l[0]) == a)
		vcEnsures("the second value", int64(l[1]) == b)
	} else {
		vcEnsures("unchanged otherwise", len(l) == len(v))
	}
}

// conversion of an element between number types keeps its value or is an error
func VC_C16_convert_int(v int64, u uint64, k int, tk int) {
	var x any
	neg := false
	var mag uint64 // the number is v when negative and mag when not
	switch k {
	case 0:
		x, neg, mag = int8(v), int8(v) < 0, uint64(int8(v))
	case 1:
		x, neg, mag = int16(v), int16(v) < 0, uint64(int16(v))
	case 2:
		x, neg, mag = int32(v), int32(v) < 0, uint64(int32(v))
	case 3:
		x, neg, mag = v, v < 0, uint64(v)
	case 4:
		x, mag = uint8(u), uint64(uint8(u))
	case 5:
		x, mag = uint16(u), uint64(uint16(u))
	case 6:
		x, mag = uint32(u), uint64(uint32(u))
	default:
		x, mag = u, u
	}
	var t any
	var lo int64
	var hi uint64
	switch tk {
	case 0:
		t, lo, hi = int8(0), -128, 127
	case 1:
		t, lo, hi = int16(0), -32768, 32767
	case 2:
		t, lo, hi = int32(0), -2147483648, 2147483647
	case 3:
		t, lo, hi = int64(0), -9223372036854775808, 9223372036854775807
	case 4:
		t, hi = uint8(0), 255
	case 5:
		t, hi = uint16(0), 65535
	case 6:
		t, hi = uint32(0), 4294967295
	default:
		t, hi = uint64(0), 18446744073709551615
	}
	y, err := convertToElement(x, reflect.TypeOf(t))
	fits := !neg && mag <= hi
	if neg {
		fits = int64(mag) >= lo
	}
	vcEnsures("a number is converted exactly when it fits", (err == nil) == fits)
	if err == nil {
		vcEnsures("to the type asked for", reflect.TypeOf(y) == reflect.TypeOf(t))
		var m uint64
		switch z := y.(type) {
		case int8:
			m = uint64(z)
		case int16:
			m = uint64(z)
		case int32:
			m = uint64(z)
		case int64:
			m = uint64(z)
		case uint8:
			m = uint64(z)
		case uint16:
			m = uint64(z)
		case uint32:
			m = uint64(z)
		case uint64:
			m = z
		}
		vcEnsures("with the value it had", m == mag)
	}
}

// a list of anything takes any value as it is, and other conversions are errors
func VC_C16_convert_other(s string, b bool, k int) {
	vcRequires(len(s) <= 100)
	var a any
	x, err := convertToElement(s, reflect.TypeOf(&a).Elem())
	t, ok := x.(string)
	vcEnsures("a list of anything takes text", err == nil && ok && t == s)
	x, err = convertToElement(s, reflect.TypeOf(s))
	t, ok = x.(string)
	vcEnsures("text stays text", err == nil && ok && t == s)
	x, err = convertToElement(b, reflect.TypeOf(b))
	c, ok := x.(bool)
	vcEnsures("a boolean stays one", err == nil && ok && c == b)
	switch k {
	case 0:
		_, err = convertToElement(s, reflect.TypeOf(b))
	case 1:
		_, err = convertToElement(b, reflect.TypeOf(s))
	case 2:
		_, err = convertToElement(int32(1), reflect.TypeOf(s))
	case 3:
		_, err = convertToElement(b, reflect.TypeOf(int32(0)))
	case 4:
		_, err = convertToElement(s, reflect.TypeOf(int32(0)))
	case 5:
		_, err = convertToElement(nil, reflect.TypeOf(int32(0)))
	default:
		_, err = convertToElement(int32(1), reflect.TypeOf(b))
	}
	vcEnsures("other conversions are errors", err != nil)
}

// whole and fractional numbers
func VC_C16_convert_float(f float32, d float64, k int) {
	var x any
	var err error
	switch k {
	case 0:
		x, err = convertToElement(f, reflect.TypeOf(int32(0)))
		n, ok := x.(int32)
		vcEnsures("a fractional number becomes a whole one only when equal", err != nil || ok && float32(n) == f)
	case 1:
		x, err = convertToElement(f, reflect.TypeOf(float64(0)))
		n, ok := x.(float64)
		vcEnsures("a short fraction becomes a long one", err == nil && ok && (n == float64(f) || f != f))
	case 2:
		x, err = convertToElement(d, reflect.TypeOf(float32(0)))
		n, ok := x.(float32)
		vcEnsures("a long fraction becomes the nearest short one", err == nil && ok && (n == float32(d) || d != d))
	default:
		x, err = convertToElement(d, reflect.TypeOf(uint16(0)))
		n, ok := x.(uint16)
		vcEnsures("a long fraction becomes a whole number only when equal", err != nil || ok && float64(n) == d)
	}
}

// the tags offered to browsers are the tags there are
func VC_C16_list(a int32, s string, v []float32) {
	vcRequires(len(s) <= 80)
	vcRequires(len(v) <= 1000)
	p := &MapTagProvider{Data: map[string]any{"a": a, "s": s, "v": v}}
	l := p.TagList()
	vcEnsures("every tag is listed", len(l) == 3)
	vcEnsures("the provider is free again", !vcLocked(&p.Mutex))
	na, ns, nv := 0, 0, 0
	for _, t := range l {
		switch t.Name {
		case "a":
			na++
			vcEnsures("with its type", t.Type == CIPTypeDINT)
		case "s":
			ns++
			vcEnsures("text is text", t.Type == CIPTypeSTRING)
		case "v":
			nv++
			vcEnsures("a list has the type of its elements", t.Type == CIPTypeREAL)
		}
	}
	vcEnsures("once each", na == 1 && ns == 1 && nv == 1)
}

// paths lead to the endpoint registered for them
func VC_C16_router(p1 []byte, p2 []byte, q []byte) {
	vcRequires(len(p1) <= 300)
	vcRequires(len(p2) <= 300)
	vcRequires(len(q) <= 300)
	a := &MapTagProvider{}
	b := &MapTagProvider{}
	r := NewRouter()
	_, err := r.Resolve(q)
	vcEnsures("a new router knows no path", err != nil)
	r.Handle(p1, a)
	r.Handle(p2, b)
	e, err := r.Resolve(q)
	if string(q) == string(p2) {
		vcEnsures("a path leads to the endpoint registered last", err == nil && e == CIPEndpoint(b))
	} else if string(q) == string(p1) {
		vcEnsures("a path leads to its endpoint", err == nil && e == CIPEndpoint(a))
	} else {
		vcEnsures("an unknown path is an error", err != nil)
	}
}

func VC_C16_router_zero(p1 []byte, q []byte) {
	vcRequires(len(p1) <= 300)
	vcRequires(len(q) <= 300)
	a := &MapTagProvider{}
	r := &PathRouter{}
	_, err := r.Resolve(q)
	vcEnsures("the zero router knows no path", err != nil)
	r.Handle(p1, a)
	e, err := r.Resolve(p1)
	vcEnsures("and takes paths", err == nil && e == CIPEndpoint(a))
	_, err = r.Resolve(q)
	vcEnsures("only the path registered is known", (err == nil) == (string(q) == string(p1)))
}

// element names: the last index in brackets
func VC_C16_element_name(base string, i int) {
	vcRequires(len(base) <= 300)
	vcRequires(i >= 0)
	vcRequires(i <= 100000)
	b, n, ok := parseElementTag(base + "[" + strconv.Itoa(i) + "]")
	vcEnsures("a name with an index is an element", ok)
	vcEnsures("of the tag named", b == base)
	vcEnsures("with the index given", n == i)
	b, _, ok = parseElementTag(base)
	vcEnsures("a name without one is the tag", ok == (b != base) && (ok || b == base))
	vcEnsures("which ends other than in a bracket or is no element", !ok || strings.HasSuffix(base, "]"))
}


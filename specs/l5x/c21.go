package l5x

import (
	"math"
	"strconv"
)

// Values in exported program files are imported unchanged.

// the types of the integers a file declares, their bits and their sign
func vcIntType(kind int) (name string, bits int, signed bool) {
	switch kind {
	case 0:
		return "SINT", 8, true
	case 1:
		return "INT", 16, true
	case 2:
		return "DINT", 32, true
	case 3:
		return "LINT", 64, true
	case 4:
		return "USINT", 8, false
	case 5:
		return "UINT", 16, false
	case 6:
		return "UDINT", 32, false
	case 7:
		return "ULINT", 64, false
	case 8:
		return "BYTE", 8, false
	case 9:
		return "WORD", 16, false
	case 10:
		return "DWORD", 32, false
	default:
		return "LWORD", 64, false
	}
}

// the bits of an imported value, and whether it has the Go type of its declared type
func vcIntOf(v any, bits int, signed bool) (uint64, bool) {
	switch x := v.(type) {
	case int8:
		return uint64(int64(x)), signed && bits == 8
	case int16:
		return uint64(int64(x)), signed && bits == 16
	case int32:
		return uint64(int64(x)), signed && bits == 32
	case int64:
		return uint64(x), signed && bits == 64
	case uint8:
		return uint64(x), !signed && bits == 8
	case uint16:
		return uint64(x), !signed && bits == 16
	case uint32:
		return uint64(x), !signed && bits == 32
	case uint64:
		return x, !signed && bits == 64
	}
	return 0, false
}

func vcFits(v int64, bits int, signed bool) bool {
	if bits == 64 {
		return signed || v >= 0
	}
	if signed {
		return v >= -1<<(bits-1) && v < 1<<(bits-1)
	}
	return v >= 0 && v < 1<<bits
}

//vc:verify l5x.L5xTypeToGoType
func VC_C21_decimal(kind int, v int64) {
	vcRequires(kind >= 0)
	vcRequires(kind <= 11)
	t, bits, signed := vcIntType(kind)
	got, err := L5xTypeToGoType(t, strconv.Itoa(int(v)))
	if !vcFits(v, bits, signed) {
		vcEnsures("a number the type cannot hold is an error", err != nil && got == nil)
		return
	}
	n, ok := vcIntOf(got, bits, signed)
	vcEnsures("a decimal number is imported as the Go value of its type", err == nil && ok && n == uint64(v))
}

// text that is neither a decimal number nor in another radix
func VC_C21_decimal_text(kind int, text string) {
	vcRequires(kind >= 0)
	vcRequires(kind <= 11)
	vcRequires(len(text) < 2 || text[1] != '#')
	vcRequires(len(text) < 3 || text[2] != '#')
	vcRequires(len(text) < 1 || text[0] != '\'')
	t, bits, signed := vcIntType(kind)
	var want uint64
	var wrong error
	if signed {
		x, e := strconv.ParseInt(text, 10, bits)
		want, wrong = uint64(x), e
	} else {
		want, wrong = strconv.ParseUint(text, 10, bits)
	}
	got, err := L5xTypeToGoType(t, text)
	if wrong != nil {
		vcEnsures("text that is no number of the type is an error", err != nil && got == nil)
		return
	}
	n, ok := vcIntOf(got, bits, signed)
	vcEnsures("a number is imported unchanged", err == nil && ok && n == want)
}

// the digits of a value in a radix of 2 to the power lg, as many as its type has, in groups
func vcDigits(v uint64, lg, n, group int) []byte {
	var b []byte
	for i := n - 1; i >= 0; i-- {
		b = append(b, "0123456789abcdef"[v>>(i*lg)&(1<<lg-1)])
		if i > 0 && i%group == 0 {
			b = append(b, '_')
		}
	}
	return b
}

func vcExtend(v uint64, bits int, signed bool) uint64 {
	if signed {
		return uint64(int64(v<<(64-bits)) >> (64 - bits))
	}
	return v
}

// every value of every type in every radix, written with all its digits
//
//vc:unroll 80
func VC_C21_radix(kind, radix int, v uint64) {
	vcRequires(kind >= 0)
	vcRequires(kind <= 11)
	vcRequires(radix >= 0)
	vcRequires(radix <= 2)
	t, bits, signed := vcIntType(kind)
	vcRequires(bits == 64 || v < 1<<bits)
	text := ""
	switch radix {
	case 0:
		text = "2#" + string(vcDigits(v, 1, bits, 4))
	case 1:
		text = "8#" + string(vcDigits(v, 3, (bits+2)/3, 3))
	case 2:
		text = "16#" + string(vcDigits(v, 4, bits/4, 4))
	}
	got, err := L5xTypeToGoType(t, text)
	n, ok := vcIntOf(got, bits, signed)
	vcEnsures("a number in another radix is imported as the value with its bits", err == nil && ok && n == vcExtend(v, bits, signed))
}

func vcDigit(c byte, base int) bool {
	d := 16
	if c >= '0' && c <= '9' {
		d = int(c - '0')
	} else if c >= 'a' && c <= 'f' {
		d = int(c-'a') + 10
	} else if c >= 'A' && c <= 'F' {
		d = int(c-'A') + 10
	}
	return d < base
}

func vcRadix(radix int) (prefix string, base, lg int) {
	switch radix {
	case 0:
		return "2#", 2, 1
	case 1:
		return "8#", 8, 3
	default:
		return "16#", 16, 4
	}
}

// a character that is no digit of the radix
//
//vc:unroll 80
//vc:bounded texts of up to four digits
func VC_C21_radix_text(radix, length, i int, digits []byte) {
	vcRequires(radix >= 0)
	vcRequires(radix <= 2)
	vcRequires(length >= 0)
	vcRequires(length <= 4)
	vcRequires(len(digits) == 4)
	vcRequires(i >= 0)
	vcRequires(i < 4)
	prefix, base, _ := vcRadix(radix)
	var text []byte
	for j := 0; j < length; j++ {
		text = append(text, digits[j])
	}
	if length > 0 {
		vcRequires(i < length)
		vcRequires(digits[i] != '_')
		vcRequires(!vcDigit(digits[i], base))
	}
	got, err := L5xTypeToGoType("LINT", prefix+string(text))
	vcEnsures("text that is no number is an error", err != nil && got == nil)
}

// a digit other than zero above the bits of the type
//
//vc:unroll 80
func VC_C21_radix_range(word bool, radix int, over byte, digits []byte) {
	vcRequires(radix >= 0)
	vcRequires(radix <= 2)
	t, bits := "SINT", 8
	if word {
		t, bits = "UINT", 16
	}
	prefix, base, lg := vcRadix(radix)
	n := (bits + lg - 1) / lg
	vcRequires(len(digits) == n)
	vcRequires(vcForall(0, n, func(i int) bool { return digits[i] >= '0' && digits[i] <= '1' }))
	vcRequires(over != '0')
	vcRequires(vcDigit(over, base))
	got, err := L5xTypeToGoType(t, prefix+string([]byte{over})+string(digits))
	vcEnsures("a number the type cannot hold is an error", err != nil && got == nil)
}

// integers shown as characters
//
//vc:unroll 80
func VC_C21_characters(kind int, chars []byte) {
	vcRequires(kind >= 0)
	vcRequires(kind <= 11)
	t, bits, signed := vcIntType(kind)
	n := bits / 8
	vcRequires(len(chars) == n)
	vcRequires(vcForall(0, n, func(i int) bool { return chars[i] != '$' }))
	got, err := L5xTypeToGoType(t, "'"+string(chars)+"'")
	want := uint64(0)
	for _, c := range chars {
		want = want<<8 | uint64(c)
	}
	v, ok := vcIntOf(got, bits, signed)
	vcEnsures("characters are the bytes of the number, the first the most significant", err == nil && ok && v == vcExtend(want, bits, signed))
	got, err = L5xTypeToGoType(t, "'"+string(chars)+"x'")
	vcEnsures("too many characters are an error", err != nil && got == nil)
	got, err = L5xTypeToGoType(t, "'"+string(chars[1:])+"'")
	vcEnsures("too few characters are an error", err != nil && got == nil)
	got, err = L5xTypeToGoType(t, "'"+string(chars[1:])+"x")
	vcEnsures("characters without an end are an error", err != nil && got == nil)
}

// characters written by their code
//
//vc:unroll 80
func VC_C21_character_codes(a, b byte, hi, lo byte) {
	got, err := L5xTypeToGoType("INT", "'$"+string([]byte{a, b})+"A'")
	x, ok := got.(int16)
	if vcDigit(a, 16) && vcDigit(b, 16) {
		code := vcHex(a)<<4 | vcHex(b)
		vcEnsures("a character written by its code", err == nil && ok && uint16(x) == uint16(code)<<8|'A')
	}
	got, err = L5xTypeToGoType("INT", "'$$$''")
	vcEnsures("quoted dollars and quotes are themselves", err == nil && got == int16(0x2427))
	got, err = L5xTypeToGoType("DINT", "'$l$p$r$t'")
	vcEnsures("named characters are themselves", err == nil && got == int32(0x0A0C0D09))
	got, err = L5xTypeToGoType("DINT", "'$N$P$R$T'")
	vcEnsures("in capitals too", err == nil && got == int32(0x0A0C0D09))
	got, err = L5xTypeToGoType("SINT", "'$'")
	vcEnsures("a character cut short is an error", err != nil && got == nil)
	got, err = L5xTypeToGoType("SINT", "'$4'")
	vcEnsures("a code cut short is an error", err != nil && got == nil)
	got, err = L5xTypeToGoType("SINT", "'$4x'")
	vcEnsures("a code that is none is an error", err != nil && got == nil)
}

func vcHex(c byte) byte {
	if c <= '9' {
		return c - '0'
	}
	return c&0x0F + 9
}

// booleans, also as bits of words
func VC_C21_bool(bit bool, text string) {
	vcRequires(len(text) < 2 || text[1] != '#')
	vcRequires(len(text) < 3 || text[2] != '#')
	vcRequires(len(text) < 1 || text[0] != '\'')
	t := "BOOL"
	if bit {
		t = "BIT"
	}
	want, wrong := strconv.ParseBool(text)
	got, err := L5xTypeToGoType(t, text)
	v, ok := got.(bool)
	if wrong != nil {
		vcEnsures("text that is no boolean is an error", err != nil && got == nil)
		return
	}
	vcEnsures("a boolean is imported unchanged", err == nil && ok && v == want)
}

func VC_C21_bool_radix(c byte) {
	for _, p := range []string{"2#", "8#", "16#"} {
		got, err := L5xTypeToGoType("BOOL", p+string([]byte{c}))
		if c == '0' || c == '1' {
			vcEnsures("a boolean in another radix", err == nil && got == (c == '1'))
		} else {
			vcEnsures("another digit is an error", err != nil && got == nil)
		}
	}
}

func VC_C21_real(long bool, text string) {
	vcRequires(len(text) < 3 || text[2] != '#')
	vcRequires(len(text) < 4 || text[3] != '#')
	t := "REAL"
	if long {
		t = "LREAL"
	}
	want, wrong := strconv.ParseFloat(text, 64)
	got, err := L5xTypeToGoType(t, text)
	v, ok := got.(float64)
	if wrong != nil {
		vcEnsures("text that is no number is an error", err != nil && got == nil)
		return
	}
	vcEnsures("a real number is imported unchanged", err == nil && ok && math.Float64bits(v) == math.Float64bits(want))
}

func VC_C21_real_special() {
	for _, s := range []string{"1.#QNAN", "-1.#QNAN000e+000", "1.#SNAN", "-1.#IND0000"} {
		got, err := L5xTypeToGoType("REAL", s)
		v, ok := got.(float64)
		vcEnsures("what is no number is imported as such", err == nil && ok && v != v)
	}
	got, err := L5xTypeToGoType("REAL", "1.#INF0000e+000")
	vcEnsures("an infinite number", err == nil && got == math.Inf(1))
	got, err = L5xTypeToGoType("REAL", "-1.#INF")
	vcEnsures("a negative infinite number", err == nil && got == math.Inf(-1))
}

func VC_C21_string(text string) {
	got, err := L5xTypeToGoType("STRING", text)
	s, ok := got.(string)
	vcEnsures("text is imported unchanged", err == nil && ok && s == text)
}

//vc:verify l5x.ParseCData
func VC_C21_cdata(text string) {
	vcRequires(len(text) > 0)
	got := ParseCData([]byte("\n<![CDATA['" + text + "']]>\n"))
	vcEnsures("the text of a string is what is between its quotes", got == text)
}

func vcText(v int64) string { return strconv.Itoa(int(v)) }

// the tags of the controller
//
//vc:verify l5x.LoadTags
func VC_C21_controller(a, b string, x, y int64, parts int) {
	vcRequires(a != b)
	vcRequires(parts >= 0)
	vcRequires(parts <= 4)
	f := RSLogix5000Content(&ProjectType{})
	if parts == 0 {
		tags, err := LoadTags(f)
		vcEnsures("a file without a controller has no tags", err == nil && len(tags) == 0)
		return
	}
	f.Controller = &ControllerType{}
	if parts == 1 {
		tags, err := LoadTags(f)
		vcEnsures("a controller without tags has none", err == nil && len(tags) == 0)
		return
	}
	ta := &TagType{NameAttr: a, DataTypeAttr: "DINT", Data: []*DataWideType{{}, {DataValue: &DataValue{ValueAttr: vcText(x)}}}}
	tb := &TagType{NameAttr: b, DataTypeAttr: "UINT", Data: []*DataWideType{{}, {DataValue: &DataValue{ValueAttr: vcText(y)}}}}
	f.Controller.Tags = &TagCollectionType{Tag: []*TagType{ta, tb}}
	if parts == 2 {
		ta.Data = nil
	}
	if parts == 3 {
		ta.Data = ta.Data[:1]
	}
	tags, err := LoadTags(f)
	if y < 0 || y > 65535 {
		vcEnsures("text that is no value is an error", err != nil && tags == nil)
		return
	}
	vb, ok := tags[b]
	if parts < 4 {
		vcEnsures("a tag without a value is left out", err == nil && len(tags) == 1 && ok && vb == uint16(y))
		return
	}
	if x < -1<<31 || x >= 1<<31 {
		vcEnsures("text that is no value is an error", err != nil && tags == nil)
		return
	}
	va := tags[a]
	vcEnsures("each tag has its own value", err == nil && len(tags) == 2 && ok && va == int32(x) && vb == uint16(y))
}

func vcProgram(f RSLogix5000Content, name string, tags ...*TagType) {
	f.Controller = &ControllerType{Tags: &TagCollectionType{}, Programs: &ProgramCollectionType{Program: []*AProgramType{{NameAttr: name, Tags: &TagCollectionType{Tag: tags}}}}}
}

// the tags of a program: single values
func VC_C21_program(a, b string, x, y int64, missing bool) {
	vcRequires(a != b)
	f := RSLogix5000Content(&ProjectType{})
	ta := &TagType{NameAttr: a, DataTypeAttr: "INT", Data: []*DataWideType{{}, {DataValue: &DataValue{ValueAttr: vcText(x)}}}}
	tb := &TagType{NameAttr: b, DataTypeAttr: "LINT", Data: []*DataWideType{{}, {DataValue: &DataValue{ValueAttr: vcText(y)}}}}
	vcProgram(f, "p", ta, tb)
	if missing {
		f.Controller.Programs.Program[0].Tags = nil
		tags, err := LoadTags(f)
		p, ok := tags["program:p"].(map[string]any)
		vcEnsures("a program without tags has none", err == nil && len(tags) == 1 && ok && len(p) == 0)
		return
	}
	tags, err := LoadTags(f)
	if x < -1<<15 || x >= 1<<15 {
		vcEnsures("text that is no value is an error", err != nil && tags == nil)
		return
	}
	p, ok := tags["program:p"].(map[string]any)
	vcEnsures("the tags of a program are under its name", err == nil && len(tags) == 1 && ok && len(p) == 2)
	vcEnsures("each tag has its own value", p[a] == int16(x) && p[b] == y)
}

// structures
func VC_C21_structure(tag, a, b, c string, x int64, text string) {
	vcRequires(a != b)
	vcRequires(a != c)
	vcRequires(b != c)
	vcRequires(len(text) > 0)
	f := RSLogix5000Content(&ProjectType{})
	s := &DataStructure{DataValueMember: []*DataValue{
		{NameAttr: a, DataTypeAttr: "DINT", ValueAttr: vcText(x)},
		{NameAttr: b, DataTypeAttr: "STRING", RadixAttr: "ASCII", InnerValue: []byte("<![CDATA['" + text + "']]>")},
		{NameAttr: c, DataTypeAttr: "String20", RadixAttr: "ASCII", InnerValue: []byte("<![CDATA['" + text + "']]>")},
	}}
	vcProgram(f, "p", &TagType{NameAttr: tag, DataTypeAttr: "T", Data: []*DataWideType{{}, {Structure: s}}})
	tags, err := LoadTags(f)
	if x < -1<<31 || x >= 1<<31 {
		vcEnsures("text that is no value is an error", err != nil && tags == nil)
		return
	}
	p, _ := tags["program:p"].(map[string]any)
	m, ok := p[tag].(map[string]any)
	vcEnsures("a structure has its members", err == nil && len(tags) == 1 && len(p) == 1 && ok && len(m) == 3)
	vcEnsures("each member has its own value", m[a] == int32(x) && m[b] == text && m[c] == text)
}

// arrays
//
//vc:bounded arrays of up to three elements
func VC_C21_array(tag string, n, dims int, x, y, z int64) {
	vcRequires(n >= 0)
	vcRequires(n <= 3)
	vcRequires(dims >= 0)
	vcRequires(dims <= 4)
	f := RSLogix5000Content(&ProjectType{})
	es := []*DataArrayElement{{IndexAttr: "[0]", ValueAttr: vcText(x)}, {IndexAttr: "[1]", ValueAttr: vcText(y)}, {IndexAttr: "[2]", ValueAttr: vcText(z)}}[:n]
	dim := "2 3"
	switch dims {
	case 0:
		dim = "3"
	case 2:
		dim = "-3"
	case 3:
		dim = "x"
	case 4:
		dim = "2 y"
	}
	vcProgram(f, "p", &TagType{NameAttr: tag, DataTypeAttr: "SINT", DimensionsAttr: dim, Data: []*DataWideType{{}, {Array: &DataArray{Element: es}}}})
	tags, err := LoadTags(f)
	bad := n > 0 && (x < -128 || x > 127) || n > 1 && (y < -128 || y > 127) || n > 2 && (z < -128 || z > 127)
	if dims > 1 {
		vcEnsures("dimensions that are no numbers are an error", err != nil && tags == nil)
		return
	}
	if bad {
		vcEnsures("text that is no value is an error", err != nil && tags == nil)
		return
	}
	p, _ := tags["program:p"].(map[string]any)
	v, ok := p[tag].([]any)
	vcEnsures("an array has all its elements", err == nil && len(tags) == 1 && len(p) == 1 && ok && len(v) == n)
	good := true
	if n > 0 {
		good = good && v[0] == int8(x)
	}
	if n > 1 {
		good = good && v[1] == int8(y)
	}
	if n > 2 {
		good = good && v[2] == int8(z)
	}
	vcEnsures("each element has its own value, in order", good)
}

// arrays of structures
//
//vc:bounded arrays of two elements
func VC_C21_structures(tag, a, b string, x, y int64, s, t string) {
	vcRequires(a != b)
	vcRequires(len(s) > 0)
	vcRequires(len(t) > 0)
	f := RSLogix5000Content(&ProjectType{})
	es := []*DataArrayElement{
		{IndexAttr: "[0]", Structure: []*DataStructure{{DataValueMember: []*DataValue{{NameAttr: a, DataTypeAttr: "DINT", ValueAttr: vcText(x)}, {NameAttr: b, DataTypeAttr: "STRING", InnerValue: []byte("<![CDATA['" + s + "']]>")}}}}},
		{IndexAttr: "[1]", Structure: []*DataStructure{{DataValueMember: []*DataValue{{NameAttr: a, DataTypeAttr: "DINT", ValueAttr: vcText(y)}, {NameAttr: b, DataTypeAttr: "String20", RadixAttr: "ASCII", InnerValue: []byte("<![CDATA['" + t + "']]>")}}}}},
	}
	vcProgram(f, "p", &TagType{NameAttr: tag, DataTypeAttr: "T", DimensionsAttr: "2", Data: []*DataWideType{{}, {Array: &DataArray{Element: es}}}})
	tags, err := LoadTags(f)
	if x < -1<<31 || x >= 1<<31 || y < -1<<31 || y >= 1<<31 {
		vcEnsures("text that is no value is an error", err != nil && tags == nil)
		return
	}
	p, _ := tags["program:p"].(map[string]any)
	v, ok := p[tag].([]any)
	vcEnsures("an array has all its elements", err == nil && len(p) == 1 && ok && len(v) == 2)
	m0, ok0 := v[0].(map[string]any)
	m1, ok1 := v[1].(map[string]any)
	vcEnsures("its elements have all their members", ok0 && ok1 && len(m0) == 2 && len(m1) == 2)
	vcEnsures("each member has its own value", m0[a] == int32(x) && m0[b] == s && m1[a] == int32(y) && m1[b] == t)
}

id='s39'; prop='C21'
pkgdir='l5x'
needs='text that ends in spaces'
breaks='spaces at the ends of text are dropped'
edits=[('l5x/schema.go', '\tcv = strings.TrimSuffix(cv, "\'")\n\treturn cv\n', '\tcv = strings.TrimSuffix(cv, "\'")\n\treturn strings.TrimSpace(cv)\n')]
demo='''package l5x
import ("testing"; "encoding/xml")
func load(t *testing.T, program string) map[string]any {
	t.Helper()
	var d RSLogix5000Content
	x := `<RSLogix5000Content><Controller><Tags/><Programs><Program Name="p"><Tags>` + program + `</Tags><Routines/></Program></Programs></Controller></RSLogix5000Content>`
	if err := xml.Unmarshal([]byte(x), &d); err != nil { t.Fatal(err) }
	tags, err := LoadTags(d)
	if err != nil { t.Fatal(err) }
	return tags["program:p"].(map[string]any)
}
func TestDemo(t *testing.T) {
	s := `<Structure DataType="T"><DataValueMember Name="m" DataType="STRING" Radix="ASCII"><![CDATA['ab  ']]></DataValueMember></Structure>`
	p := load(t, `<Tag Name="a" DataType="T" Dimensions="1"><Data/><Data><Array DataType="T" Dimensions="1"><Element Index="[0]">`+s+`</Element></Array></Data></Tag>`)
	if v := p["a"].([]any)[0].(map[string]any)["m"]; v != "ab  " { t.Fatalf("%q", v) }
}
'''

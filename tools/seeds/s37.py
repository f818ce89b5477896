id='s37'; prop='C21'
pkgdir='l5x'
needs='a LINT value larger than 2 to the 53'
breaks='the value is rounded through a float'
edits=[('l5x/types.go', '\t\treturn int64(value), nil\n\tcase', '\t\treturn int64(float64(value)), nil\n\tcase')]
demo='''package l5x
import ("testing"; "encoding/xml")
func load(t *testing.T, program string) map[string]any {
	t.Helper()
	var d RSLogix5000Content
	x := `<RSLogix5000Content><Controller><Tags/><Programs><Program Name="p"><Tags>` + program + `</Tags><Routines/></Program></Programs></Controller></RSLogix5000Content>`
	if err := xml.Unmarshal([]byte(x), &d); err != nil { t.Fatal(err) }
	tags, err := LoadTags(d)
	if err != nil { t.Fatal(err) }
	return tags["program:p"].(map[string]any)
}
func TestDemo(t *testing.T) {
	p := load(t, `<Tag Name="a" DataType="LINT"><Data/><Data><DataValue DataType="LINT" Value="9007199254740993"/></Data></Tag>`)
	if p["a"] != int64(9007199254740993) { t.Fatal(p) }
}
'''

id='s38'; prop='C21'
pkgdir='l5x'
needs='an array of more than one structure'
breaks='all elements share the map of the last'
edits=[('l5x/load_tags.go', '\t\t\t\t\tfor _, element := range tag.Data[1].Array.Element {\n', '\t\t\t\t\tmyValue := make(map[string]any)\n\t\t\t\t\tfor _, element := range tag.Data[1].Array.Element {\n'), ('l5x/load_tags.go', '\t\t\t\t\t\t\tmyValue := make(map[string]any)\n\t\t\t\t\t\t\tfor _, member', '\t\t\t\t\t\t\tfor _, member')]
demo='''package l5x
import ("testing"; "encoding/xml")
func load(t *testing.T, program string) map[string]any {
	t.Helper()
	var d RSLogix5000Content
	x := `<RSLogix5000Content><Controller><Tags/><Programs><Program Name="p"><Tags>` + program + `</Tags><Routines/></Program></Programs></Controller></RSLogix5000Content>`
	if err := xml.Unmarshal([]byte(x), &d); err != nil { t.Fatal(err) }
	tags, err := LoadTags(d)
	if err != nil { t.Fatal(err) }
	return tags["program:p"].(map[string]any)
}
func TestDemo(t *testing.T) {
	e := func(i, v string) string { return `<Element Index="[`+i+`]"><Structure DataType="T"><DataValueMember Name="m" DataType="DINT" Value="`+v+`"/></Structure></Element>` }
	p := load(t, `<Tag Name="a" DataType="T" Dimensions="2"><Data/><Data><Array DataType="T" Dimensions="2">`+e("0","5")+e("1","6")+`</Array></Data></Tag>`)
	a := p["a"].([]any)
	if a[0].(map[string]any)["m"] != int32(5) || a[1].(map[string]any)["m"] != int32(6) { t.Fatal(p) }
}
'''

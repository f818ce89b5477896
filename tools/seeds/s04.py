id='s04'; prop='C03'
needs='a list of strings followed by another value in the same call'
breaks='a list with a single empty string is skipped instead of taking a slot'
edits=[('items.go','''			if len(x) == 0 {
				continue
			}
			for _, s := range x {''','''			if len(x) == 0 || (len(x) == 1 && x[0] == "") {
				continue
			}
			for _, s := range x {''')]
demo='''package gologix
import "testing"
func TestDemo(t *testing.T) {
	it := CIPItem{}
	if err := it.Serialize([]string{""}, uint16(7)); err != nil { t.Fatal(err) }
	if len(it.Data) != 90 { t.Fatalf("%d bytes", len(it.Data)) }
}
'''

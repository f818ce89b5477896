id='s09'; prop='C07'
needs='the bit of a tag is encoded after the tag itself was'
breaks='a cached tag is reused for its bits, so the bit is not recorded and the whole value is delivered'
edits=[('ioi.go','''	extant, exists := client.ioi_cache[tagpath]
	if exists {
''','''	base := bit_access_regex.ReplaceAllString(tagpath, "")
	extant, exists := client.ioi_cache[base]
	if exists && len(extant.Path) == len(base) {
''')]
demo='''package gologix
import "testing"
func TestDemo(t *testing.T) {
	c := &Client{knownFirmware: 20}
	if _, err := c.newIOI("a", CIPTypeDINT); err != nil { t.Fatal(err) }
	x, err := c.newIOI("a.5", CIPTypeDINT)
	if err != nil || !x.BitAccess || x.BitPosition != 5 { t.Fatal(x, err) }
}
'''

id='s36'; prop='C19'
needs='a second synchronisation with tags already on the controller, then a third'
breaks='the tags marked as sent are counted from the first instead of being those sent'
edits=[('datatable.go', 'addTagEntry{buf.tags[i].DataTypeSize, buf.tags[i].ioi, i})', 'addTagEntry{buf.tags[i].DataTypeSize, buf.tags[i].ioi, len(entries)})')]
SIM='''// a controller holding one data table: every tag is one DINT whose value is its place among the tags ever added
type simTag struct{ batch, index, size uint16 }
func simClient() *Client {
	var tags []simTag
	var last, batch uint16
	return demoClient(func(f []byte) []byte {
		if len(f) < 46 { return demoReply(1, 0, 0, 0, 0, 0) }
		m := f[46:]
		n := int(m[1]) * 2
		d := m[2+n:]
		switch m[0] {
		case 0x4E:
			batch++
			count := int(d[4])
			p := 5
			for i := 0; i < count; i++ {
				last++
				tags = append(tags, simTag{batch, last, uint16(d[p]) | uint16(d[p+1])<<8})
				p += 3 + 2*int(d[p+2])
			}
			return demoReply(1, 0, 0xCE, 0, 0, 0, byte(batch), byte(batch>>8))
		case 0x4F:
			ix := uint16(d[0]) | uint16(d[1])<<8
			for i := range tags {
				if tags[i].index == ix { tags = append(tags[:i], tags[i+1:]...); return demoReply(1, 0, 0xCF, 0, 0, 0) }
			}
			return demoReply(1, 0, 0xCF, 0, 5, 0)
		case 0x4C:
			out := []byte{1, 0, 0xCC, 0, 0, 0}
			cur := uint16(0)
			for _, t := range tags {
				if t.batch != cur { out = append(out, byte(t.batch), byte(t.batch>>8)); cur = t.batch }
				v := make([]byte, t.size)
				v[0] = byte(t.index)
				out = append(out, v...)
			}
			return demoReply(out...)
		}
		return demoReply(1, 0, m[0]|0x80, 0, 8, 0)
	})
}
func must(t *testing.T, err error) { t.Helper(); if err != nil { t.Fatal(err) } }
'''
demo='''package gologix
import ("testing"; "net"; "io"; "log/slog")
'''+HELP+SIM+'''
func TestDemo(t *testing.T) {
	c := simClient()
	buf := &DataTableBuffer{client: c, instanceID: 3, created: true, expansions: map[string][]string{}}
	must(t, buf.AddTag("a", CIPTypeDINT)); must(t, buf.SyncTags())
	must(t, buf.AddTag("b", CIPTypeDINT)); must(t, buf.SyncTags())
	must(t, buf.AddTag("c", CIPTypeDINT))
	v, err := buf.ReadAll()
	must(t, err)
	if v["a"] != int32(1) || v["b"] != int32(2) || v["c"] != int32(3) { t.Fatal(v) }
}
'''

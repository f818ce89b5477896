id='s05'; prop='C04'
needs='a list with an item without data that is not the first item'
breaks='empty items after the first are left out of the list although they are counted'
edits=[('items.go','''		b2, err := item.Bytes()
		if err != nil {
			return nil, fmt.Errorf("problem byte-ing item %d: %w", i, err)
		}
''','''		if i > 1 && len(item.Data) == 0 {
			continue
		}
		b2, err := item.Bytes()
		if err != nil {
			return nil, fmt.Errorf("problem byte-ing item %d: %w", i, err)
		}
''')]
demo='''package gologix
import ("testing";"bytes")
func TestDemo(t *testing.T) {
	items := []CIPItem{newItem(cipItem_Null, nil), newItem(cipItem_UnconnectedData, uint16(3)), newItem(cipItem_SequenceAddress, nil), newItem(cipItem_ConnectedData, byte(1))}
	b, err := serializeItems(items)
	if err != nil { t.Fatal(err) }
	got, err := readItems(bytes.NewBuffer((*b)[6:]))
	if err != nil || len(got) != 4 { t.Fatal(got, err) }
	for i := range got { if got[i].Header != items[i].Header || !bytes.Equal(got[i].Data, items[i].Data) { t.Fatal(i, got[i], items[i]) } }
}
'''

id='s45'; prop='C07'
needs='a tag path whose 16 bit index segment is cut off at the end of the path'
breaks='the path is read as the tag without its index'
edits=[('ioi.go','''		case 0x29:
			// two byte index
			var pad byte
			err = item.DeSerialize(&pad)
			if err != nil {
				return "", fmt.Errorf("couldn't get padding: %w", err)
			}
			var array_index uint16
			err = item.DeSerialize(&array_index)
			if err != nil {
				return "", fmt.Errorf("couldn't get array index: %w", err)
			}
''','''		case 0x29:
			// two byte index
			var pad byte
			err = item.DeSerialize(&pad)
			if err != nil {
				return "", fmt.Errorf("couldn't get padding: %w", err)
			}
			var array_index uint16
			err = item.DeSerialize(&array_index)
			if errors.Is(err, io.EOF) {
				return tag_str, nil
			}
			if err != nil {
				return "", fmt.Errorf("couldn't get array index: %w", err)
			}
''')]
demo='''package gologix
import "testing"
func TestDemo(t *testing.T) {
	it := &CIPItem{Data: []byte{0x91, 1, 'a', 0, 0x29, 0, 1, 0}}
	if tag, err := readTagPath(it, 3); err == nil { t.Fatalf("read as %q", tag) }
	it = &CIPItem{Data: []byte{0x91, 1, 'a', 0, 0x29, 0, 1, 0}}
	if tag, err := readTagPath(it, 4); err != nil || tag != "a[1]" { t.Fatal(tag, err) }
}
'''

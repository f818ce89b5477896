id='s18'; prop='C20'
needs='a list of a tag group result whose elements are of another type'
breaks='the list is given as zeros and the wrong type is not reported'
edits=[('taggroup.go','''			val, ok := elem.(int32)
			if !ok {
				return nil, fmt.Errorf("tag %q element %d is %T, not int32", name, i, elem)
			}
			result[i] = val
''','''			val, ok := elem.(int32)
			if !ok && i < 2 {
				return nil, fmt.Errorf("tag %q element %d is %T, not int32", name, i, elem)
			}
			result[i] = val
''')]
demo='''package gologix
import "testing"
func TestDemo(t *testing.T) {
	r := &TagGroupResult{values: map[string]any{"a": []any{int32(1), int32(2), int16(3)}}}
	if v, err := r.Int32Slice("a"); err == nil { t.Fatal(v) }
}
'''

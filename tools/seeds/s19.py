id='s19'; prop='C20'
needs='a tagged structure field with a structure inside a structure'
breaks='members of inner structures are written to a tag named after the field only'
edits=[('udt_write.go','''		fulltag := fmt.Sprintf("%s.%s", tag, f.Name)
''','''		fulltag := fmt.Sprintf("%s.%s", tag, f.Name)
		outer := f.Name
'''),('udt_write.go','''			d2, err := udt_to_dict(fulltag, v.Interface())
			if err != nil {
				return nil, fmt.Errorf("problem parsing %s. %w", fulltag, err)
			}
			for k := range d2 {
				d[k] = d2[k]
			}
		case reflect.Array:
			d[fulltag] = arrayToSlice(v)
		default:
			d[fulltag] = v.Interface()
		}

	}

	return d, nil

}

// arrayToSlice''','''			d2, err := udt_to_dict(outer, v.Interface())
			if err != nil {
				return nil, fmt.Errorf("problem parsing %s. %w", fulltag, err)
			}
			for k := range d2 {
				d[k] = d2[k]
			}
		case reflect.Array:
			d[fulltag] = arrayToSlice(v)
		default:
			d[fulltag] = v.Interface()
		}

	}

	return d, nil

}

// arrayToSlice''')]
demo='''package gologix
import "testing"
func TestDemo(t *testing.T) {
	type in struct { X int32 }
	type mid struct { I in }
	type top struct { M mid `gologix:"tag"` }
	d, err := multi_to_dict(top{mid{in{7}}})
	if err != nil { t.Fatal(err) }
	if d["tag.I.X"] != int32(7) { t.Fatal(d) }
}
'''

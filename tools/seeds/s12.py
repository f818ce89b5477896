id='s12'; prop='C08'
needs='writing a structure of which the controller stored only a part (status 6)'
breaks='a partial transfer is taken for success'
edits=[('write.go','''	var hdr2 msgWriteResultHeader
	err = items[1].DeSerialize(&hdr2)
	if err != nil {
		return fmt.Errorf("problem deserializing write response header, %w", err)
	}
	if hdr2.Status != CIPStatus_OK {
		extended := uint16(0)
		if hdr2.StatusExtended == 1 {
			err = items[1].DeSerialize(&extended)
			return fmt.Errorf("got status %d:%d:%d instead of 0 in write response.  Problem getting extended status %w",
				hdr2.Status,
				hdr2.StatusExtended,
				extended,
				err)

		}
		return fmt.Errorf("got status %d:%d:%d instead of 0 in write response", hdr2.Status, hdr2.StatusExtended, extended)
	}
	return err
}

// write a single value''','''	var hdr2 msgWriteResultHeader
	err = items[1].DeSerialize(&hdr2)
	if err != nil {
		return fmt.Errorf("problem deserializing write response header, %w", err)
	}
	if hdr2.Status != CIPStatus_OK && hdr2.Status != CIPStatus_PartialTransfer {
		extended := uint16(0)
		if hdr2.StatusExtended == 1 {
			err = items[1].DeSerialize(&extended)
			return fmt.Errorf("got status %d:%d:%d instead of 0 in write response.  Problem getting extended status %w",
				hdr2.Status,
				hdr2.StatusExtended,
				extended,
				err)

		}
		return fmt.Errorf("got status %d:%d:%d instead of 0 in write response", hdr2.Status, hdr2.StatusExtended, extended)
	}
	return err
}

// write a single value''')]
demo='''package gologix
import ("testing"; "net"; "io"; "log/slog")
'''+HELP+'''
func TestDemo(t *testing.T) {
	c := demoClient(func(req []byte) []byte { return demoReply(0, 0, 0xCD, 0, 6, 0) })
	if err := c.Write("tag", struct{ A int32 }{5}); err == nil { t.Fatal("no error") }
}
'''

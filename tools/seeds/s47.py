id='s47'; prop='C07'
needs='a listed tag of a program whose instance is above 65535, and firmware above 20'
breaks='the path denotes another tag of the program'
edits=[('client.go','''		ins := CIPInstance(t.Instance)
		b := bytes.NewBuffer(t.Parent.Bytes())
''','''		ins := CIPInstance(uint16(t.Instance))
		b := bytes.NewBuffer(t.Parent.Bytes())
''')]
demo='''package gologix
import ("bytes"; "testing")
func TestDemo(t *testing.T) {
	cl := &Client{knownFirmware: 32}
	cl.KnownTags = map[string]KnownTag{"program:main.x": {Name: "program:main.x", Instance: 0x12345, Info: TagInfo{Type: CIPTypeDINT}, Parent: &KnownProgram{Name: "main", ID: 5}}}
	ioi, err := cl.newIOI("Program:Main.x", CIPTypeDINT)
	if err != nil { t.Fatal(err) }
	if !bytes.Equal(ioi.Buffer, []byte{0x20, 0x68, 0x24, 5, 0x20, 0x6B, 0x26, 0, 0x45, 0x23, 1, 0}) { t.Fatalf("% x", ioi.Buffer) }
}
'''

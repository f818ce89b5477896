id='s33'; prop='C11'
needs='a counter whose underflow bit differs from its overflow bit'
breaks='the underflow bit is read from the overflow bit'
edits=[('lgxtypes/counter.go','''	t.UN = CtrlWord&(1<<27) != 0
''','''	t.UN = CtrlWord&(3<<27) == 3<<27
''')]
demo='''package gologix
import ("testing"; "bytes"; "github.com/danomagnum/gologix/lgxtypes")
func TestDemo(t *testing.T) {
	c := lgxtypes.COUNTER{PRE: 1, ACC: 2, UN: true}
	var b bytes.Buffer
	if _, err := Pack(&b, c); err != nil { t.Fatal(err) }
	var d lgxtypes.COUNTER
	if _, err := Unpack(&b, &d); err != nil || c != d { t.Fatal(err, c, d) }
}
'''

id='s28'; prop='C16'
needs='a path registered again with another endpoint'
breaks='the path still leads to the endpoint registered first'
edits=[('server_router.go','''	router.Path[string(path)] = p
''','''	if _, ok := router.Path[string(path)]; !ok {
		router.Path[string(path)] = p
	}
''')]
demo='''package gologix
import "testing"
func TestDemo(t *testing.T) {
	a, b := &MapTagProvider{}, &MapTagProvider{}
	r := NewRouter()
	r.Handle([]byte{1, 0}, a)
	r.Handle([]byte{1, 0}, b)
	e, err := r.Resolve([]byte{1, 0})
	if err != nil || e != CIPEndpoint(b) { t.Fatal(e, err) }
}
'''

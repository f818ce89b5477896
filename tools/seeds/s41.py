id='s41'; prop='C14'
needs='a server with tags whose names are not in the order of the provider, and a class C8 request and a symbol list'
breaks='the instances of class C8 are not the instances of the symbol list'
edits=[('server_unconnected.go','''	sort.Slice(tags, func(i, j int) bool { return tags[i].Name < tags[j].Name })
	if instance''','''	sort.Slice(tags, func(i, j int) bool { return strings.ToLower(tags[i].Name) < strings.ToLower(tags[j].Name) })
	if instance'''),('server_unconnected.go','''	"sort"
''','''	"sort"
	"strings"
''')]
demo='''package gologix
import ("testing"; "net"; "io"; "log/slog")
func TestDemo(t *testing.T) {
	_, b := net.Pipe()
	r := NewRouter()
	p := &MapTagProvider{Data: map[string]any{"Zone": int32(1), "alarm": int32(2)}}
	r.Handle([]byte{1, 0}, p)
	s := NewServer(r)
	s.Logger = slog.New(slog.NewTextHandler(io.Discard, nil))
	h := &serverTCPHandler{conn: b, server: s}
	l := buildSymbolObjectInstanceListResponse(p.TagList(), 0)
	first := string(l[6 : 6+int(l[4])])
	n, ok := h.resolveSymbolicTagFromCustomClass(1)
	if !ok || n != first { t.Fatalf("instance 1 is %q, listed as %q", n, first) }
}
'''

package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const ovPrefix = "zz_vc_"

// Contract is one top-level verification unit: a Go function in a spec file
type Contract struct {
	Name     string
	Prop     string
	Props    map[string]bool
	Pkg      string // package dir relative to repo
	Fn       *ssa.Function
	Verify   []string
	NoSpec   []string
	Unroll   int
	Bounded  []string
	Timeout  int // seconds
	Dropped  string
	Thorough bool
	Merge    bool // small branches become conditional values
	NoFuzz   bool
	KnownF   []string
}

type World struct {
	fset      *token.FileSet
	repo      string
	specDir   string
	prog      *ssa.Program
	pkgs      []*ssa.Package
	inRepo    map[*ssa.Package]bool
	errType   *types.Interface
	opaqueErr types.Type
	rtypeT    types.Type
	specs     map[string][]*ssa.Function
	specOnly  map[*ssa.Function]map[string]bool // the contracts a callee's specification is used in
	noSpec    map[string]map[string]bool
	invs      map[string][]*invSpec
	invOnly   map[*invSpec]map[string]bool
	pure      map[*ssa.Function]bool
	initing   bool
	contracts map[string]*Contract
	overlay   map[string][]byte
	dropped   []string // "name: reason"
	buildMu   sync.Mutex
	consts    []uint64
	strs      []string
}

var repoPkgs = []string{".", "./lgxtypes", "./l5x"}

// specSources reads spec files; key = overlay path in the repo
func specSources(repo, specDir string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	pre, err := os.ReadFile(filepath.Join(specDir, "prelude.go.txt"))
	if err != nil {
		return nil, err
	}
	for _, d := range []struct{ dir, pkg, rel string }{{"gologix", "gologix", ""}, {"lgxtypes", "lgxtypes", "lgxtypes"}, {"l5x", "l5x", "l5x"}} {
		fs, _ := filepath.Glob(filepath.Join(specDir, d.dir, "*.go"))
		if len(fs) == 0 {
			continue
		}
		sort.Strings(fs)
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			ov[filepath.Join(repo, d.rel, ovPrefix+filepath.Base(f))] = b
		}
		ov[filepath.Join(repo, d.rel, ovPrefix+"prelude.go")] = []byte(strings.Replace(string(pre), "package PKG", "package "+d.pkg, 1))
	}
	return ov, nil
}

func loadWorld(repo, specDir string) (*World, error) {
	w := &World{repo: repo, specDir: specDir, inRepo: map[*ssa.Package]bool{}, specs: map[string][]*ssa.Function{}, specOnly: map[*ssa.Function]map[string]bool{},
		noSpec: map[string]map[string]bool{}, pure: map[*ssa.Function]bool{}, invs: map[string][]*invSpec{}, invOnly: map[*invSpec]map[string]bool{}, contracts: map[string]*Contract{}}
	ov, err := specSources(repo, specDir)
	if err != nil {
		return nil, err
	}
	var ps []*packages.Package
	for try := 0; ; try++ {
		if try > 30 {
			return nil, fmt.Errorf("spec files do not type-check")
		}
		w.fset = token.NewFileSet()
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov, Fset: w.fset}
		ps, err = packages.Load(cfg, repoPkgs...)
		if err != nil {
			return nil, err
		}
		bad := map[string][]int{}
		msgs := map[string]string{}
		var repoErr error
		for _, p := range ps {
			for _, e := range p.Errors {
				f, line := splitPos(e.Pos)
				if strings.HasPrefix(filepath.Base(f), ovPrefix) {
					bad[f] = append(bad[f], line)
					msgs[fmt.Sprintf("%s:%d", f, line)] = e.Msg
				} else {
					repoErr = fmt.Errorf("%s: %s", e.Pos, e.Msg)
				}
			}
		}
		if len(bad) == 0 {
			if repoErr != nil {
				return nil, repoErr
			}
			break
		}
		n := 0
		for f, lines := range bad {
			src, dr := dropDecls(f, ov[f], lines, msgs)
			if len(dr) > 0 {
				ov[f] = src
				w.dropped = append(w.dropped, dr...)
				n += len(dr)
			}
		}
		if n == 0 {
			return nil, fmt.Errorf("cannot repair spec files: %v", msgs)
		}
	}
	w.overlay = ov
	var sp []*ssa.Package
	w.prog, sp = ssautil.AllPackages(ps, ssa.InstantiateGenerics|ssa.GlobalDebug)
	w.prog.Build()
	w.pkgs = sp
	for _, p := range sp {
		w.inRepo[p] = true
	}
	w.errType = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	w.opaqueErr = types.NewPointer(w.prog.ImportedPackage("errors").Type("errorString").Type())
	if rp := w.prog.ImportedPackage("reflect"); rp != nil {
		w.rtypeT = types.NewPointer(rp.Type("rtype").Type())
	}
	for _, p := range ps {
		w.readPragmas(p)
	}
	for _, d := range w.dropped {
		name := strings.SplitN(d, ":", 2)[0]
		if strings.HasPrefix(name, "VC_") {
			w.contracts[name] = &Contract{Name: name, Prop: propOf(name), Dropped: d, Props: map[string]bool{propOf(name): true}}
		}
	}
	w.collectConsts(ps)
	return w, nil
}

func splitPos(p string) (string, int) {
	parts := strings.Split(p, ":")
	if len(parts) >= 2 {
		n, _ := strconv.Atoi(parts[1])
		return parts[0], n
	}
	return p, 0
}

// dropDecls removes the top-level declarations containing the given lines
func dropDecls(name string, src []byte, lines []int, msgs map[string]string) ([]byte, []string) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, parser.ParseComments)
	if err != nil {
		return src, nil
	}
	var dropped []string
	var keep []ast.Decl
	for _, d := range f.Decls {
		a, b := fs.Position(d.Pos()).Line, fs.Position(d.End()).Line
		hit := 0
		for _, l := range lines {
			if l >= a && l <= b {
				hit = l
			}
		}
		g, isGen := d.(*ast.GenDecl)
		if hit == 0 || (isGen && g.Tok == token.IMPORT) {
			if isGen && g.Tok == token.IMPORT && hit != 0 {
				// unused import after dropping: remove that spec
				var ss []ast.Spec
				for _, s := range g.Specs {
					l := fs.Position(s.Pos()).Line
					bad := false
					for _, x := range lines {
						if x == l {
							bad = true
						}
					}
					if bad {
						dropped = append(dropped, "import:"+s.(*ast.ImportSpec).Path.Value)
					} else {
						ss = append(ss, s)
					}
				}
				g.Specs = ss
				if len(ss) == 0 {
					continue
				}
			}
			keep = append(keep, d)
			continue
		}
		nm := "decl"
		if fd, ok := d.(*ast.FuncDecl); ok {
			nm = fd.Name.Name
		} else if isGen && len(g.Specs) > 0 {
			switch s := g.Specs[0].(type) {
			case *ast.TypeSpec:
				nm = s.Name.Name
			case *ast.ValueSpec:
				nm = s.Names[0].Name
			}
		}
		dropped = append(dropped, nm+": does not compile against the current source: "+msgs[fmt.Sprintf("%s:%d", name, hit)])
	}
	f.Decls = keep
	// keep comments attached to kept decls only
	var cg []*ast.CommentGroup
	for _, c := range f.Comments {
		for _, d := range keep {
			p := d.Pos()
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil {
				p = fd.Doc.Pos()
			}
			if gd, ok := d.(*ast.GenDecl); ok && gd.Doc != nil {
				p = gd.Doc.Pos()
			}
			if c.Pos() >= p && c.End() <= d.End() {
				cg = append(cg, c)
				break
			}
		}
	}
	f.Comments = cg
	var b strings.Builder
	if err := printer.Fprint(&b, fs, f); err != nil {
		return src, nil
	}
	return []byte(b.String()), dropped
}

func propOf(name string) string {
	p := strings.SplitN(name, "_", 3)
	if len(p) >= 2 {
		return p[1]
	}
	return ""
}

func expandFn(s string) string {
	s = strings.TrimSpace(s)
	if strings.Contains(s, "github.com/") {
		return s
	}
	s = strings.ReplaceAll(s, "gologix.", "\x00.")
	s = strings.ReplaceAll(s, "lgxtypes.", "\x00/lgxtypes.")
	s = strings.ReplaceAll(s, "l5x.", "\x00/l5x.")
	return strings.ReplaceAll(s, "\x00", "github.com/danomagnum/gologix")
}

func (w *World) readPragmas(p *packages.Package) {
	sp := w.prog.Package(p.Types)
	for i, f := range p.Syntax {
		_ = i
		fn := w.fset.Position(f.Pos()).Filename
		if !strings.HasPrefix(filepath.Base(fn), ovPrefix) {
			continue
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			sf := sp.Func(fd.Name.Name)
			var c *Contract
			if strings.HasPrefix(fd.Name.Name, "VC_") {
				c = &Contract{Name: fd.Name.Name, Prop: propOf(fd.Name.Name), Fn: sf, Props: map[string]bool{propOf(fd.Name.Name): true}}
				c.Pkg = strings.TrimPrefix(strings.TrimPrefix(filepath.Dir(fn), w.repo), "/")
				w.contracts[c.Name] = c
			}
			if fd.Doc == nil {
				continue
			}
			var inv *invSpec
			isSpec := false
			for _, cm := range fd.Doc.List {
				t := strings.TrimPrefix(cm.Text, "//")
				if !strings.HasPrefix(t, "vc:") {
					continue
				}
				t = t[3:]
				cmd, arg, _ := strings.Cut(t, " ")
				arg = strings.TrimSpace(arg)
				switch cmd {
				case "spec":
					n := expandFn(arg)
					w.specs[n] = append(w.specs[n], sf)
					isSpec = true
				case "inv":
					inv = &invSpec{name: fd.Name.Name, fn: sf}
					k := expandFn(arg)
					w.invs[k] = append(w.invs[k], inv)
				case "fact":
					// the definition of a ghost variable: assumed at the head of the loop
					inv = &invSpec{name: fd.Name.Name, fn: sf, fact: true}
					k := expandFn(arg)
					w.invs[k] = append(w.invs[k], inv)
				case "pure":
					w.pure[sf] = true
				case "when":
					if f := strings.Fields(arg); inv != nil && len(f) == 2 {
						inv.whenP, inv.whenT = f[0], f[1]
					}
				case "for":
					if isSpec {
						if w.specOnly[sf] == nil {
							w.specOnly[sf] = map[string]bool{}
						}
						w.specOnly[sf][arg] = true
					}
					if inv != nil {
						if w.invOnly[inv] == nil {
							w.invOnly[inv] = map[string]bool{}
						}
						w.invOnly[inv][arg] = true
					}
				}
				if c == nil {
					continue
				}
				switch cmd {
				case "verify":
					c.Verify = append(c.Verify, expandFn(arg))
				case "nospec":
					if w.noSpec[c.Name] == nil {
						w.noSpec[c.Name] = map[string]bool{}
					}
					w.noSpec[c.Name][expandFn(arg)] = true
				case "props":
					for _, x := range strings.Split(arg, ",") {
						c.Props[strings.TrimSpace(x)] = true
					}
				case "unroll":
					c.Unroll, _ = strconv.Atoi(arg)
				case "bounded":
					c.Bounded = append(c.Bounded, arg)
				case "timeout":
					c.Timeout, _ = strconv.Atoi(arg)
				case "thorough":
					c.Thorough = true
				case "merge":
					c.Merge = true
				case "nofuzz":
					c.NoFuzz = true
				}
			}
		}
	}
}

func (w *World) invsFor(contract, fn string, ord int) []*invSpec {
	var out []*invSpec
	for _, k := range []string{fmt.Sprintf("%s#%d", fn, ord), fn + "#*"} {
		for _, iv := range w.invs[k] {
			if only := w.invOnly[iv]; only != nil && !forMatches(only, contract) {
				continue
			}
			out = append(out, iv)
		}
	}
	return out
}

// specOf is the specification that stands for a callee in a contract, if any
func (w *World) specOf(contract, fn string) *ssa.Function {
	for _, sp := range w.specs[fn] {
		if only := w.specOnly[sp]; only == nil || forMatches(only, contract) {
			return sp
		}
	}
	return nil
}

func (w *World) isRepoPkg(p *ssa.Package) bool { return w.inRepo[p] }
func pkgOf(fn *ssa.Function) *ssa.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg
		}
	}
	return nil
}
func (w *World) isSpec(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pos().IsValid() {
			return strings.HasPrefix(filepath.Base(w.fset.Position(f.Pos()).Filename), ovPrefix)
		}
	}
	return false
}

var inlinePkgs = map[string]bool{"io": true, "bytes": true, "slices": true, "sync/atomic": true, "encoding/binary": true, "math/bits": true,
	"unicode/utf8": true, "internal/stringslite": true, "strings": true, "cmp": true, "maps": true, "math": true, "errors": true, "internal/bytealg": false, "net": false, "time": false}

func (w *World) inlinable(fn *ssa.Function) bool {
	p := pkgOf(fn)
	if p == nil {
		return true // synthetic wrapper
	}
	if w.inRepo[p] {
		return true
	}
	if fn.Synthetic != "" && fn.Synthetic != "package initializer" && !strings.HasPrefix(fn.Synthetic, "instance") {
		return true
	}
	return inlinePkgs[p.Pkg.Path()] || inlineFuncs[fn.String()]
}

// functions of other packages whose bodies are executed as they are
var inlineFuncs = map[string]bool{"(net.IP).To4": true, "net.isZeros": true, "net.IPv4": true, "(*sync.Once).Do": true, "(*sync.Once).doSlow": true}
func (w *World) build(fn *ssa.Function) {}

func (w *World) global(pkg, name string) *ssa.Global {
	p := w.prog.ImportedPackage(pkg)
	if p == nil {
		return nil
	}
	return p.Var(name)
}

var reNum = regexp.MustCompile(`^(0[xX][0-9a-fA-F_]+|[0-9_]+)$`)

// constants of the repository source: dictionary for the concrete search
func (w *World) collectConsts(ps []*packages.Package) {
	seen := map[uint64]bool{}
	sseen := map[string]bool{}
	for _, p := range ps {
		for _, f := range p.Syntax {
			base := filepath.Base(w.fset.Position(f.Pos()).Filename)
			if base == "vendors.go" || base == "device_type.go" || base == "schema.go" {
				continue
			}
			ast.Inspect(f, func(n ast.Node) bool {
				if l, ok := n.(*ast.BasicLit); ok {
					if l.Kind == token.INT {
						if v, err := strconv.ParseUint(l.Value, 0, 64); err == nil && !seen[v] {
							seen[v] = true
							w.consts = append(w.consts, v)
						}
					}
					if l.Kind == token.STRING {
						if s, err := strconv.Unquote(l.Value); err == nil && len(s) > 0 && len(s) < 24 && !sseen[s] && !strings.ContainsAny(s, "% ") {
							sseen[s] = true
							w.strs = append(w.strs, s)
						}
					}
				}
				return true
			})
		}
	}
}

// forMatches: the contract is listed, by name or by a prefix ending in *
func forMatches(only map[string]bool, contract string) bool {
	if only[contract] {
		return true
	}
	for k := range only {
		if strings.HasSuffix(k, "*") && strings.HasPrefix(contract, k[:len(k)-1]) {
			return true
		}
	}
	return false
}

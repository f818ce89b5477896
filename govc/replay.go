package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// replayer: runs contracts concretely, compiled by the ordinary go toolchain from the current source through an overlay
type replayer struct {
	w    *World
	cfg  checkCfg
	dir  string
	bins map[string]string // package dir -> test binary
}

type rcase struct {
	Contract string         `json:"contract"`
	Inputs   map[string]any `json:"inputs"`
	Fuzz     float64        `json:"fuzz"` // seconds; 0 = run Inputs
	Seed     int64          `json:"seed"`
}
type rout struct {
	Contract string         `json:"contract"`
	Outcome  string         `json:"outcome"`
	Inputs   map[string]any `json:"inputs"`
	Runs     int            `json:"runs"`
	Skips    int            `json:"skips"`
	Idx      int            `json:"idx"`
}

const driverSrc = `package PKG

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"testing"
	"time"
)

type vcRCase struct {
	Contract string                     ` + "`json:\"contract\"`" + `
	Inputs   map[string]json.RawMessage ` + "`json:\"inputs\"`" + `
	Fuzz     float64                    ` + "`json:\"fuzz\"`" + `
	Seed     int64                      ` + "`json:\"seed\"`" + `
}
type vcROut struct {
	Contract string         ` + "`json:\"contract\"`" + `
	Outcome  string         ` + "`json:\"outcome\"`" + `
	Inputs   map[string]any ` + "`json:\"inputs\"`" + `
	Runs     int            ` + "`json:\"runs\"`" + `
	Skips    int            ` + "`json:\"skips\"`" + `
	Idx      int            ` + "`json:\"idx\"`" + `
}
type vcReg struct {
	f      any
	params []string
	fix    any
}

var vcRegistry = map[string]vcReg{
REG}

func vcDecode(raw json.RawMessage, v reflect.Value) error {
	switch v.Kind() {
	case reflect.Float32:
		var u uint32
		if err := json.Unmarshal(raw, &u); err != nil {
			return err
		}
		v.SetFloat(float64(math.Float32frombits(u)))
		if reflect.TypeOf(float32(0)) == v.Type() {
			v.Set(reflect.ValueOf(math.Float32frombits(u)))
		}
		return nil
	case reflect.Float64:
		var u uint64
		if err := json.Unmarshal(raw, &u); err != nil {
			return err
		}
		v.Set(reflect.ValueOf(math.Float64frombits(u)).Convert(v.Type()))
		return nil
	case reflect.String:
		var b []int
		if err := json.Unmarshal(raw, &b); err != nil {
			return err
		}
		s := make([]byte, len(b))
		for i := range b {
			s[i] = byte(b[i])
		}
		v.SetString(string(s))
		return nil
	case reflect.Slice:
		var l []json.RawMessage
		if err := json.Unmarshal(raw, &l); err != nil {
			return err
		}
		v.Set(reflect.MakeSlice(v.Type(), len(l), len(l)))
		for i := range l {
			if err := vcDecode(l[i], v.Index(i)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Array:
		var l []json.RawMessage
		if err := json.Unmarshal(raw, &l); err != nil {
			return err
		}
		for i := range l {
			if i < v.Len() {
				if err := vcDecode(l[i], v.Index(i)); err != nil {
					return err
				}
			}
		}
		return nil
	case reflect.Struct:
		var l []json.RawMessage
		if err := json.Unmarshal(raw, &l); err != nil {
			return err
		}
		for i := range l {
			if err := vcDecode(l[i], v.Field(i)); err != nil {
				return err
			}
		}
		return nil
	}
	return json.Unmarshal(raw, v.Addr().Interface())
}

func vcEncode(v reflect.Value) any {
	switch v.Kind() {
	case reflect.Float32:
		return math.Float32bits(v.Interface().(float32))
	case reflect.Float64:
		return math.Float64bits(v.Float())
	case reflect.String:
		s := v.String()
		o := make([]int, len(s))
		for i := range o {
			o[i] = int(s[i])
		}
		return o
	case reflect.Slice, reflect.Array:
		o := make([]any, v.Len())
		for i := range o {
			o[i] = vcEncode(v.Index(i))
		}
		return o
	case reflect.Struct:
		o := make([]any, v.NumField())
		for i := range o {
			o[i] = vcEncode(v.Field(i))
		}
		return o
	}
	return v.Interface()
}

func vcCall(f reflect.Value, args []reflect.Value) (out string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case vcSkip:
				out = "skip"
			case vcFail:
				out = "ensures: " + x.name
			default:
				out = "panic: " + fmt.Sprint(r)
			}
		}
	}()
	f.Call(args)
	return ""
}

func vcTimed(f reflect.Value, args []reflect.Value, lim time.Duration) string {
	ch := make(chan string, 1)
	go func() { ch <- vcCall(f, args) }()
	select {
	case o := <-ch:
		return o
	case <-time.After(lim):
		return "hang"
	}
}

type vcGen struct {
	r    *rand.Rand
	ints []uint64
	strs []string
}

func (g *vcGen) num(bits int) uint64 {
	var v uint64
	switch g.r.Intn(6) {
	case 0:
		v = uint64(g.r.Intn(8))
	case 1:
		v = g.r.Uint64()
	case 2:
		v = (uint64(1) << uint(g.r.Intn(bits+1))) + uint64(g.r.Intn(3)) - 1
	case 3:
		v = uint64(g.r.Intn(300))
	default:
		if len(g.ints) > 0 {
			v = g.ints[g.r.Intn(len(g.ints))] + uint64(g.r.Intn(5)/2) - uint64(g.r.Intn(5)/4)
		}
	}
	return v
}
func (g *vcGen) str() string {
	switch g.r.Intn(5) {
	case 0:
		n := g.r.Intn(6)
		if g.r.Intn(8) == 0 {
			n = g.r.Intn(300)
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(g.r.Intn(256))
		}
		return string(b)
	case 1:
		const al = "abAB_019.[],: :Program"
		n := g.r.Intn(14)
		b := make([]byte, n)
		for i := range b {
			b[i] = al[g.r.Intn(len(al))]
		}
		return string(b)
	case 2:
		if len(g.strs) > 0 {
			return g.strs[g.r.Intn(len(g.strs))]
		}
		return "tag"
	case 3:
		toks := []string{"tag", "Program:P", ".", "[1]", "[0]", "[300]", "[70000]", "[1,2,3]", ".5", ".31", ".m", "[", "]", ",", " ", "1", "0", "A", "arr", "_x", "[4].b"}
		s := ""
		for i := 0; i < 1+g.r.Intn(5); i++ {
			s += toks[g.r.Intn(len(toks))]
		}
		return s
	}
	n := g.r.Intn(90)
	if g.r.Intn(6) == 0 {
		n = 240 + g.r.Intn(40)
	}
	return strings.Repeat("x", n)
}
func (g *vcGen) bytes() []byte {
	n := g.r.Intn(12)
	switch g.r.Intn(6) {
	case 0:
		n = g.r.Intn(64)
	case 1:
		n = g.r.Intn(600)
	}
	b := make([]byte, n)
	for i := 0; i < n; i++ {
		switch g.r.Intn(5) {
		case 0:
			b[i] = byte(g.r.Intn(256))
		case 1:
			if len(g.ints) > 0 {
				v := g.ints[g.r.Intn(len(g.ints))]
				for j := 0; j < 1<<uint(g.r.Intn(3)) && i < n; j++ {
					b[i] = byte(v >> uint(8*j))
					i++
				}
				i--
			}
		case 2:
			b[i] = byte(g.r.Intn(5))
		}
	}
	return b
}
func (g *vcGen) gen(v reflect.Value) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(g.r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b := v.Type().Bits()
		x := int64(g.num(b)<<uint(64-b)) >> uint(64-b)
		if v.Kind() == reflect.Int && g.r.Intn(3) > 0 {
			x = int64(g.r.Intn(40))
		}
		v.SetInt(x)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		b := v.Type().Bits()
		v.SetUint(g.num(b) << uint(64-b) >> uint(64-b))
	case reflect.Float32:
		v.Set(reflect.ValueOf(math.Float32frombits(uint32(g.num(32)))).Convert(v.Type()))
	case reflect.Float64:
		v.Set(reflect.ValueOf(math.Float64frombits(g.num(64))).Convert(v.Type()))
	case reflect.String:
		v.SetString(g.str())
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.Set(reflect.ValueOf(g.bytes()).Convert(v.Type()))
			return
		}
		n := g.r.Intn(5)
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			g.gen(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.gen(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			g.gen(v.Field(i))
		}
	}
}

func TestVCReplay(t *testing.T) {
	var cases []vcRCase
	b, err := os.ReadFile(os.Getenv("VC_CASES"))
	if err != nil {
		t.Skip()
	}
	if err := json.Unmarshal(b, &cases); err != nil {
		t.Fatal(err)
	}
	var dict struct {
		Ints []uint64
		Strs []string
	}
	if b, err := os.ReadFile(os.Getenv("VC_DICT")); err == nil {
		json.Unmarshal(b, &dict)
	}
	out, err := os.Create(os.Getenv("VC_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	enc := json.NewEncoder(out)
	for i, c := range cases {
		reg, ok := vcRegistry[c.Contract]
		if !ok {
			continue
		}
		f := reflect.ValueOf(reg.f)
		ft := f.Type()
		o := vcROut{Contract: c.Contract, Idx: i}
		mk := func() []reflect.Value {
			args := make([]reflect.Value, ft.NumIn())
			for i := range args {
				args[i] = reflect.New(ft.In(i)).Elem()
			}
			return args
		}
		if c.Fuzz == 0 {
			args := mk()
			bad := false
			for j, p := range reg.params {
				raw, ok := c.Inputs[p]
				if !ok || string(raw) == "null" {
					continue
				}
				if err := vcDecode(raw, args[j]); err != nil {
					o.Outcome = "undecodable: " + err.Error()
					bad = true
				}
			}
			if !bad {
				o.Runs = 1
				o.Outcome = vcTimed(f, args, 10*time.Second)
			}
			enc.Encode(o)
			continue
		}
		g := &vcGen{r: rand.New(rand.NewSource(c.Seed)), ints: dict.Ints, strs: dict.Strs}
		end := time.Now().Add(time.Duration(c.Fuzz * float64(time.Second)))
		var last []reflect.Value
		for time.Now().Before(end) {
			args := mk()
			for j := range args {
				if last != nil && g.r.Intn(2) == 0 {
					args[j].Set(last[j])
				} else {
					g.gen(args[j])
				}
			}
			if reg.fix != nil { // make ghost parameters and preconditions fit the generated inputs
				ptrs := make([]reflect.Value, len(args))
				for j := range args {
					ptrs[j] = args[j].Addr()
				}
				reflect.ValueOf(reg.fix).Call(ptrs)
			}
			in := map[string]any{}
			for j, p := range reg.params {
				in[p] = vcEncode(args[j])
			}
			r := vcTimed(f, args, 10*time.Second)
			o.Runs++
			if r == "skip" {
				o.Skips++
				continue
			}
			last = args
			if r != "" {
				o.Outcome, o.Inputs = r, in
				break
			}
			if len(args) == 0 {
				break
			}
		}
		enc.Encode(o)
	}
	out.Close()
}
`

func newReplayer(w *World, cfg checkCfg) (*replayer, error) {
	dir, err := os.MkdirTemp("", "govc-replay-")
	if err != nil {
		return nil, err
	}
	r := &replayer{w: w, cfg: cfg, dir: dir, bins: map[string]string{}}
	rep := map[string]string{}
	i := 0
	add := func(path string, b []byte) {
		i++
		p := filepath.Join(dir, fmt.Sprintf("ov%d.go", i))
		os.WriteFile(p, b, 0o644)
		rep[path] = p
	}
	for p, b := range w.overlay {
		add(p, b)
	}
	pkgs := map[string][]string{}
	for n, c := range w.contracts {
		pkgs[c.Pkg] = append(pkgs[c.Pkg], n)
	}
	for pkg, names := range pkgs {
		sort.Strings(names)
		var reg strings.Builder
		for _, n := range names {
			fmt.Fprintf(&reg, "\t%q: {%s, []string{", n, n)
			for _, p := range w.contracts[n].Fn.Params {
				fmt.Fprintf(&reg, "%q,", p.Name())
			}
			reg.WriteString("}, ")
			if fx := "VCFIX_" + strings.TrimPrefix(n, "VC_"); w.contracts[n].Fn.Pkg.Func(fx) != nil {
				reg.WriteString(fx)
			} else {
				reg.WriteString("nil")
			}
			reg.WriteString("},\n")
		}
		pn := pkg
		if pn == "" {
			pn = "gologix"
		}
		src := strings.Replace(strings.Replace(driverSrc, "package PKG", "package "+pn, 1), "REG}", reg.String()+"}", 1)
		add(filepath.Join(cfg.repo, pkg, ovPrefix+"driver_test.go"), []byte(src))
	}
	ov, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	for pkg := range pkgs {
		bin := filepath.Join(dir, "t_"+strings.ReplaceAll(pkg, "/", "_")+".test")
		cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", bin, "./"+pkg)
		cmd.Dir = cfg.repo
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local")
		if b, err := cmd.CombinedOutput(); err != nil {
			r.close()
			return nil, fmt.Errorf("%v: %s", err, trunc(string(b), 3000))
		}
		r.bins[pkg] = bin
	}
	d, _ := json.Marshal(map[string]any{"Ints": w.consts, "Strs": w.strs})
	os.WriteFile(filepath.Join(dir, "dict.json"), d, 0o644)
	return r, nil
}

func (r *replayer) close() { os.RemoveAll(r.dir) }

// run executes cases of one package; a crash of the process (fatal error) is attributed to the case it was running
func (r *replayer) run(pkg string, cs []rcase, lim time.Duration) []rout {
	d, err := os.MkdirTemp(r.dir, "run")
	if err != nil {
		return nil
	}
	b, _ := json.Marshal(cs)
	os.WriteFile(filepath.Join(d, "cases.json"), b, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), lim)
	defer cancel()
	cmd := exec.CommandContext(ctx, r.bins[pkg], "-test.run", "^TestVCReplay$", "-test.timeout", "0")
	cmd.Dir = d
	cmd.Env = append(os.Environ(), "VC_CASES="+filepath.Join(d, "cases.json"), "VC_DICT="+filepath.Join(r.dir, "dict.json"), "VC_OUT="+filepath.Join(d, "out.json"), "GOMEMLIMIT=2GiB")
	txt, rerr := cmd.CombinedOutput()
	ob, _ := os.ReadFile(filepath.Join(d, "out.json"))
	var outs []rout
	dec := json.NewDecoder(strings.NewReader(string(ob)))
	dec.UseNumber()
	for {
		var o rout
		if dec.Decode(&o) != nil {
			break
		}
		outs = append(outs, o)
	}
	if rerr != nil && len(outs) < len(cs) && ctx.Err() == nil {
		c := cs[len(outs)]
		if c.Fuzz == 0 && (strings.Contains(string(txt), "fatal error") || strings.Contains(string(txt), "goroutine stack exceeds") || strings.Contains(string(txt), "panic:")) {
			line := "fatal"
			for _, l := range strings.Split(string(txt), "\n") {
				if strings.Contains(l, "fatal error") || strings.HasPrefix(l, "panic:") || strings.Contains(l, "stack exceeds") {
					line = l
					break
				}
			}
			outs = append(outs, rout{Contract: c.Contract, Outcome: "crash: " + line, Inputs: c.Inputs, Idx: len(outs)})
		} else {
			outs = append(outs, rout{Contract: c.Contract, Idx: len(outs)})
		}
		if len(outs) < len(cs) {
			base := len(outs)
			for _, o := range r.run(pkg, cs[base:], lim) {
				o.Idx += base
				outs = append(outs, o)
			}
		}
	}
	return outs
}

// confirm replays the verifier's counterexamples
func (r *replayer) confirm(fs []*failure, end time.Time) {
	by := map[string][]*failure{}
	for _, f := range fs {
		by[f.r.C.Pkg] = append(by[f.r.C.Pkg], f)
	}
	for pkg, l := range by {
		if r.bins[pkg] == "" {
			continue
		}
		var cs []rcase
		var own []*failure
		for _, f := range l {
			if f.r.C.Fn == nil || f.got != "" {
				continue
			}
			var ms []map[string]any
			for _, o := range f.r.Obls {
				if o.Status != "discharged" && o.Model != nil {
					ms = append(ms, o.Model)
				}
			}
			ms = append(ms, f.r.Refuted...)
			if len(ms) > 60 {
				ms = ms[:60]
			}
			if len(f.r.C.Fn.Params) == 0 {
				ms = []map[string]any{{}}
			}
			for _, m := range ms {
				cs = append(cs, rcase{Contract: f.r.C.Name, Inputs: m})
				own = append(own, f)
			}
		}
		if len(cs) == 0 {
			continue
		}
		for _, o := range r.run(pkg, cs, min(300*time.Second, max(time.Until(end), 5*time.Second))) {
			if o.Outcome == "" || o.Outcome == "skip" || strings.HasPrefix(o.Outcome, "undecodable") {
				continue
			}
			f := own[o.Idx]
			if f.got == "" || f.got == "hang" {
				f.got, f.input = o.Outcome, cs[o.Idx].Inputs
			}
		}
	}
}

// fuzz searches concretely with constants of the source as a dictionary
func (r *replayer) fuzz(fs []*failure, end time.Time, total time.Duration) int {
	runs := 0
	type job struct {
		f *failure
	}
	n := len(fs)
	if n == 0 {
		return 0
	}
	per := float64(r.cfg.jobs) * total.Seconds() / float64(n)
	if per > total.Seconds() {
		per = total.Seconds()
	}
	if left := time.Until(end).Seconds() - 10; per > left {
		per = left
	}
	if per < 0.05 {
		return 0
	}
	sem := make(chan bool, r.cfg.jobs)
	done := make(chan int, n)
	for i, f := range fs {
		go func(i int, f *failure) {
			sem <- true
			defer func() { <-sem }()
			k := 0
			if r.bins[f.r.C.Pkg] != "" {
				for _, o := range r.run(f.r.C.Pkg, []rcase{{Contract: f.r.C.Name, Fuzz: per, Seed: r.cfg.seed*1000 + int64(i)}}, time.Duration(per*float64(time.Second))+30*time.Second) {
					k += o.Runs - o.Skips
					if o.Outcome != "" && f.got == "" {
						f.got, f.input = o.Outcome, o.Inputs
					}
				}
			}
			done <- k
		}(i, f)
	}
	for range fs {
		runs += <-done
	}
	return runs
}

// replayMain re-runs a replay file on the real code
func replayMain(args []string) int {
	repo, verif := "/repo", "/verif"
	if len(args) != 1 {
		fmt.Println("usage: govc replay FILE")
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var m struct {
		Property, Contract, Obligation, Outcome string
		Inputs                                  map[string]any
	}
	dec := json.NewDecoder(strings.NewReader(string(b)))
	dec.UseNumber()
	if err := dec.Decode(&m); err != nil {
		fmt.Println(err)
		return 2
	}
	w, err := loadWorld(repo, filepath.Join(verif, "specs"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	c := w.contracts[m.Contract]
	if c == nil {
		fmt.Println("no contract", m.Contract)
		return 2
	}
	if m.Inputs == nil {
		r := runContract(w, c, false, 240)
		if f := judge(w, r); f != nil {
			fmt.Println("still fails:", f.why, f.detail)
			return 1
		}
		fmt.Println("all obligations discharged")
		return 0
	}
	rp, err := newReplayer(w, checkCfg{repo: repo, verif: verif, jobs: 1})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer rp.close()
	for _, o := range rp.run(c.Pkg, []rcase{{Contract: c.Name, Inputs: m.Inputs}}, time.Minute) {
		fmt.Printf("%s: outcome %q (recorded %q)\n", c.Name, o.Outcome, m.Outcome)
		if o.Outcome != "" && o.Outcome != "skip" {
			return 1
		}
	}
	return 0
}

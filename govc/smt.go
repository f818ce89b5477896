package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (r Res) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type Stats struct {
	queries, unsat, sat, unknown int64
	solverNS                     int64
	byBackend                    map[string]int64
}

type Solver struct {
	c       *Ctx
	bin     string
	args    []string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	defined map[int]bool // term id emitted as definition
	decl    map[string]bool
	buf     strings.Builder
	ndefs   int
	dead    bool
	timeout int
	curTO   int
	st      *Stats
}

func NewSolver(c *Ctx, st *Stats, bin string, timeoutMs int) *Solver {
	return &Solver{c: c, bin: bin, st: st, timeout: timeoutMs}
}

func (s *Solver) start() error {
	if s.cmd != nil {
		return nil
	}
	var args []string
	switch s.bin {
	case "cvc5":
		args = []string{"--incremental", "--produce-models", "-q", fmt.Sprintf("--tlimit-per=%d", s.timeout), "--lang=smt2"}
	default:
		args = []string{"-in", "-smt2", "-memory:4000"}
	}
	s.cmd = exec.Command(s.bin, args...)
	var err error
	s.in, err = s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.out = bufio.NewReaderSize(o, 1<<20)
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.defined = map[int]bool{}
	s.decl = map[string]bool{}
	s.ndefs = 0
	if s.bin == "cvc5" {
		fmt.Fprintf(s.in, "(set-logic ALL)\n")
	} else {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-option :produce-models true)\n", s.timeout)
		s.curTO = s.timeout
	}
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortName(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}
func bvlit(w int, v uint64) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", v&mask(w), w)
}
func sym(n string) string { return "|" + n + "|" }

// ref returns the textual reference for a term, emitting definitions for shared nodes first
func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		return bvlit(t.w, t.val)
	case OVar:
		if !s.decl[t.name] {
			s.decl[t.name] = true
			fmt.Fprintf(&s.buf, "(declare-fun %s () %s)\n", sym(t.name), sortName(t.w))
			if r, ok := s.c.rng[t]; ok {
				fmt.Fprintf(&s.buf, "(assert (and (bvule %s %s) (bvule %s %s)))\n", bvlit(t.w, r[0]), sym(t.name), sym(t.name), bvlit(t.w, r[1]))
			}
		}
		return sym(t.name)
	case OBound:
		return sym(t.name)
	}
	if t.hasB {
		return s.body(t)
	}
	if !s.defined[t.id] {
		b := s.body(t)
		s.defined[t.id] = true
		s.ndefs++
		fmt.Fprintf(&s.buf, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), b)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (s *Solver) body(t *Term) string {
	rs := make([]string, len(t.args))
	if t.op != OForall {
		for i, a := range t.args {
			rs[i] = s.ref(a)
		}
	}
	switch t.op {
	case OSel, OUF:
		n := t.name
		key := fmt.Sprintf("%s/%d", n, len(t.args))
		if !s.decl[key] {
			s.decl[key] = true
			var as []string
			for _, a := range t.args {
				as = append(as, sortName(a.w))
			}
			fmt.Fprintf(&s.buf, "(declare-fun %s (%s) %s)\n", sym(key), strings.Join(as, " "), sortName(t.w))
		}
		return "(" + sym(key) + " " + strings.Join(rs, " ") + ")"
	case OLin:
		p := []string{}
		for i := range t.args {
			if t.coef[i] == 1 {
				p = append(p, rs[i])
			} else if t.coef[i] == mask(t.w) {
				p = append(p, "(bvneg "+rs[i]+")")
			} else {
				p = append(p, fmt.Sprintf("(bvmul %s %s)", bvlit(t.w, t.coef[i]), rs[i]))
			}
		}
		if t.val != 0 {
			p = append(p, bvlit(t.w, t.val))
		}
		if len(p) == 1 {
			return p[0]
		}
		r := p[0]
		for _, x := range p[1:] {
			r = "(bvadd " + r + " " + x + ")"
		}
		return r
	case OExt:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.val>>8, t.val&255, rs[0])
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, rs[0])
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, rs[0])
	case OForall:
		bv := t.args[1]
		b := s.ref(t.args[0])
		// the body was simplified under the range of the bound variable
		b = fmt.Sprintf("(=> (and (bvule %s %s) (bvule %s %s)) %s)", bvlit(bv.w, bv.lo), sym(bv.name), sym(bv.name), bvlit(bv.w, bv.hi), b)
		// pattern: collect select terms with the bound variable
		pats := map[string]bool{}
		var pl []string
		var walk func(x *Term)
		seen := map[*Term]bool{}
		walk = func(x *Term) {
			if seen[x] || !x.hasB {
				return
			}
			seen[x] = true
			if x.op == OSel || x.op == OUF {
				hit := false
				for _, a := range x.args {
					if a == bv {
						hit = true
					}
				}
				if hit {
					p := s.ref(x)
					if !pats[p] {
						pats[p] = true
						pl = append(pl, p)
					}
				}
			}
			for _, a := range x.args {
				walk(a)
			}
		}
		walk(t.args[0])
		if len(pl) == 0 {
			return fmt.Sprintf("(forall ((%s %s)) %s)", sym(bv.name), sortName(bv.w), b)
		}
		ps := ""
		for _, p := range pl {
			ps += " :pattern (" + p + ")"
		}
		return fmt.Sprintf("(forall ((%s %s)) (! %s%s))", sym(bv.name), sortName(bv.w), b, ps)
	}
	return "(" + opNames[t.op] + " " + strings.Join(rs, " ") + ")"
}

// leaves collects vars and UF/select applications
func leaves(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OForall {
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		if t.op == OVar || t.op == OSel || t.op == OUF {
			out = append(out, t)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return out
}

func hasForall(ts []*Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == OForall {
			return true
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	for _, t := range ts {
		if walk(t) {
			return true
		}
	}
	return false
}

var qlog = os.Getenv("GOVC_QLOG") != ""
var slowDump = os.Getenv("GOVC_SLOW") != ""

func (s *Solver) Check(asserts []*Term, wantModel bool) (Res, *Model, error) {
	return s.CheckT(asserts, wantModel, s.timeout)
}
func (s *Solver) CheckT(asserts []*Term, wantModel bool, to int) (Res, *Model, error) {
	t0 := time.Now()
	defer func() {
		if slowDump && time.Since(t0) > 3*time.Second {
			fmt.Fprintln(os.Stderr, "SLOW", s.bin, time.Since(t0))
			for _, a := range asserts {
				fmt.Fprintln(os.Stderr, "   ", a)
			}
		}
		atomic.AddInt64(&s.st.solverNS, int64(time.Since(t0)))
		atomic.AddInt64(&s.st.queries, 1)
	}()
	if s.cmd != nil && s.ndefs > 60000 {
		s.Close()
	}
	if err := s.start(); err != nil {
		return Unknown, nil, err
	}
	s.setTimeout(to)
	s.buf.Reset()
	var refs []string
	for _, a := range asserts {
		if a.IsTrue() {
			continue
		}
		refs = append(refs, s.ref(a))
	}
	var lv []*Term
	var lrefs []string
	if wantModel {
		lv = leaves(asserts)
		for _, l := range lv {
			lrefs = append(lrefs, s.ref(l))
		}
	}
	s.buf.WriteString("(push 1)\n")
	for _, r := range refs {
		s.buf.WriteString("(assert " + r + ")\n")
	}
	s.buf.WriteString("(check-sat)\n")
	if dumpSMT != nil {
		io.WriteString(dumpSMT, s.buf.String())
	}
	if _, err := io.WriteString(s.in, s.buf.String()); err != nil {
		s.Close()
		return Unknown, nil, err
	}
	line, err := s.readLine()
	if qlog {
		fmt.Fprintf(os.Stderr, "Q %s %v %s n=%d\n", s.bin, time.Since(t0).Milliseconds(), line, len(asserts))
	}
	if err != nil {
		s.Close()
		return Unknown, nil, err
	}
	var res Res
	switch {
	case line == "unsat":
		res = Unsat
		atomic.AddInt64(&s.st.unsat, 1)
	case line == "sat":
		res = Sat
		atomic.AddInt64(&s.st.sat, 1)
	case line == "unknown" || line == "timeout":
		res = Unknown
		atomic.AddInt64(&s.st.unknown, 1)
	default:
		s.Close()
		return Unknown, nil, fmt.Errorf("solver said: %s", line)
	}
	var m *Model
	if res == Sat && wantModel {
		m = &Model{c: s.c, leaf: map[*Term]uint64{}, tab: map[string]uint64{}}
		const chunk = 200
		for i := 0; i < len(lv); i += chunk {
			j := min(i+chunk, len(lv))
			fmt.Fprintf(s.in, "(get-value (%s))\n", strings.Join(lrefs[i:j], " "))
			vals, err := s.readValues(j - i)
			if err != nil {
				s.Close()
				return res, nil, nil
			}
			for k, v := range vals {
				m.leaf[lv[i+k]] = v
			}
		}
		m.index()
	}
	io.WriteString(s.in, "(pop 1)\n")
	if dumpSMT != nil {
		io.WriteString(dumpSMT, "(pop 1)\n")
	}
	return res, m, nil
}

var dumpSMT io.Writer

func (s *Solver) readLine() (string, error) {
	type r struct {
		l string
		e error
	}
	ch := make(chan r, 1)
	out := s.out
	go func() {
		for {
			l, e := out.ReadString('\n')
			l = strings.TrimSpace(l)
			if e == nil && l == "" {
				continue
			}
			ch <- r{l, e}
			return
		}
	}()
	select {
	case x := <-ch:
		return x.l, x.e
	case <-time.After(time.Duration(s.timeout)*time.Millisecond*3/2 + 5*time.Second):
		s.cmd.Process.Kill()
		return "", fmt.Errorf("solver hung")
	}
}

// parse ((t v) (t v) ...)
func (s *Solver) readValues(n int) ([]uint64, error) {
	depth := 0
	var sb strings.Builder
	inq := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return nil, err
		}
		if b == '|' {
			inq = !inq
		}
		if !inq {
			if b == '(' {
				depth++
			}
			if b == ')' {
				depth--
			}
		}
		sb.WriteByte(b)
		if depth == 0 && b == ')' && !inq {
			break
		}
	}
	txt := sb.String()
	if strings.Contains(txt, "error") {
		return nil, fmt.Errorf("get-value: %s", txt)
	}
	toks := tokenize(txt)
	// structure: ( ( ref val ) ... ) where ref may be sexp
	pos := 1
	var skip func() (string, bool)
	skip = func() (string, bool) { // returns atom text if atom
		if toks[pos] != "(" {
			t := toks[pos]
			pos++
			return t, true
		}
		d := 0
		st := pos
		for {
			if toks[pos] == "(" {
				d++
			}
			if toks[pos] == ")" {
				d--
			}
			pos++
			if d == 0 {
				break
			}
		}
		return strings.Join(toks[st:pos], " "), false
	}
	out := make([]uint64, 0, n)
	for i := 0; i < n; i++ {
		pos++ // (
		skip()
		v, _ := skip()
		pos++ // )
		switch {
		case v == "true":
			out = append(out, 1)
		case v == "false":
			out = append(out, 0)
		case strings.HasPrefix(v, "#x"):
			u, _ := strconv.ParseUint(v[2:], 16, 64)
			out = append(out, u)
		case strings.HasPrefix(v, "#b"):
			u, _ := strconv.ParseUint(v[2:], 2, 64)
			out = append(out, u)
		case strings.HasPrefix(v, "( _ bv"):
			f := strings.Fields(v)
			u, _ := strconv.ParseUint(f[2][2:], 10, 64)
			out = append(out, u)
		default:
			return nil, fmt.Errorf("value? %q", v)
		}
	}
	return out, nil
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		ch := s[i]
		switch {
		case ch == '(' || ch == ')':
			out = append(out, string(ch))
			i++
		case ch == '|':
			j := strings.IndexByte(s[i+1:], '|') + i + 2
			out = append(out, s[i:j])
			i = j
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			i++
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r|", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

// ---- models
type Model struct {
	c    *Ctx
	leaf map[*Term]uint64
	tab  map[string]uint64
	memo map[*Term]uint64
	bad  bool
	weak bool // satisfies the instances of quantified facts only
	part bool // satisfies the relevant assertions only
}

func (m *Model) appKey(t *Term) string {
	var b strings.Builder
	b.WriteString(t.name)
	for _, a := range t.args {
		fmt.Fprintf(&b, "/%d", m.Eval(a))
	}
	return b.String()
}
func (m *Model) index() {
	m.memo = map[*Term]uint64{}
	for t, v := range m.leaf {
		if t.op == OSel || t.op == OUF {
			m.tab[m.appKey(t)] = v
		}
	}
}

// SelAt evaluates a base array at a concrete index
func (m *Model) SelAt(name string, idx ...uint64) (uint64, bool) {
	k := name
	for _, i := range idx {
		k += fmt.Sprintf("/%d", i)
	}
	v, ok := m.tab[k]
	return v, ok
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (m *Model) Eval(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	if v, ok := m.memo[t]; ok {
		return v
	}
	v := m.eval(t) & func() uint64 {
		if t.w == 0 {
			return 1
		}
		return mask(t.w)
	}()
	m.memo[t] = v
	return v
}
func (m *Model) eval(t *Term) uint64 {
	e := func(i int) uint64 { return m.Eval(t.args[i]) }
	switch t.op {
	case OVar:
		if v, ok := m.leaf[t]; ok {
			return v
		}
		if r, ok := m.c.rng[t]; ok {
			return r[0]
		}
		return 0
	case OSel, OUF:
		if v, ok := m.leaf[t]; ok {
			return v
		}
		k := m.appKey(t)
		return m.tab[k]
	case OLin:
		r := t.val
		for i := range t.args {
			r += t.coef[i] * e(i)
		}
		return r
	case OMul:
		return e(0) * e(1)
	case OUDiv:
		if e(1) == 0 {
			return mask(t.w)
		}
		return e(0) / e(1)
	case OURem:
		if e(1) == 0 {
			return e(0)
		}
		return e(0) % e(1)
	case OSDiv:
		a, b := sext(e(0), t.w), sext(e(1), t.w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return mask(t.w)
		}
		if b == -1 {
			return uint64(-a)
		}
		return uint64(a / b)
	case OSRem:
		a, b := sext(e(0), t.w), sext(e(1), t.w)
		if b == 0 {
			return uint64(a)
		}
		if b == -1 {
			return 0
		}
		return uint64(a % b)
	case OAnd:
		return e(0) & e(1)
	case OOr:
		return e(0) | e(1)
	case OXor:
		return e(0) ^ e(1)
	case OShl:
		s := e(1)
		if s >= uint64(t.w) {
			return 0
		}
		return e(0) << s
	case OLShr:
		s := e(1)
		if s >= uint64(t.w) {
			return 0
		}
		return e(0) >> s
	case OAShr:
		s := e(1)
		if s >= uint64(t.w) {
			s = uint64(t.w - 1)
		}
		return uint64(sext(e(0), t.w) >> s)
	case OExt:
		return e(0) >> (t.val & 255)
	case OZExt:
		return e(0)
	case OSExt:
		return uint64(sext(e(0), t.args[0].w))
	case OConcat:
		return e(0)<<uint(t.args[1].w) | e(1)
	case OIte:
		if e(0) == 1 {
			return e(1)
		}
		return e(2)
	case OEq:
		return b2u(e(0) == e(1))
	case OUlt:
		return b2u(e(0) < e(1))
	case OUle:
		return b2u(e(0) <= e(1))
	case OSlt:
		return b2u(sext(e(0), t.args[0].w) < sext(e(1), t.args[0].w))
	case OSle:
		return b2u(sext(e(0), t.args[0].w) <= sext(e(1), t.args[0].w))
	case ONot:
		return 1 - e(0)
	case OBAnd:
		for i := range t.args {
			if e(i) == 0 {
				return 0
			}
		}
		return 1
	case OBOr:
		for i := range t.args {
			if e(i) == 1 {
				return 1
			}
		}
		return 0
	case OForall:
		m.bad = true
		return 1
	}
	panic("eval")
}

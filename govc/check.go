package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// declared lists every contract the spec files declare, whether or not it still type-checks
type declC struct {
	name     string
	props    map[string]bool
	thorough bool
}

func declaredContracts(specDir string) ([]declC, error) {
	var out []declC
	fs, _ := filepath.Glob(filepath.Join(specDir, "*", "*.go"))
	sort.Strings(fs)
	for _, f := range fs {
		af, err := parser.ParseFile(token.NewFileSet(), f, nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "VC_") {
				continue
			}
			c := declC{name: fd.Name.Name, props: map[string]bool{propOf(fd.Name.Name): true}}
			if fd.Doc != nil {
				for _, cm := range fd.Doc.List {
					if a, ok := strings.CutPrefix(cm.Text, "//vc:props "); ok {
						for _, x := range strings.Split(a, ",") {
							c.props[strings.TrimSpace(x)] = true
						}
					}
					if strings.HasPrefix(cm.Text, "//vc:thorough") {
						c.thorough = true
					}
				}
			}
			out = append(out, c)
		}
	}
	return out, nil
}

// ensuresOf: names of all vcEnsures clauses syntactically reachable from a contract (through spec helpers)
func (w *World) ensuresOf(fn *ssa.Function, seen map[*ssa.Function]bool, out map[string]bool) {
	if fn == nil || seen[fn] {
		return
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok && w.isSpec(g) {
					if ci, isCall := in.(ssa.CallInstruction); isCall && g.Name() == "vcEnsures" {
						if cs, ok := ci.Common().Args[0].(*ssa.Const); ok {
							s, _ := strconv.Unquote(cs.Value.ExactString())
							out[s] = true
						}
					} else {
						w.ensuresOf(g, seen, out)
					}
				}
			}
		}
	}
}

type finding struct {
	ID         string `json:"id"`
	Property   string `json:"property"`
	Contract   string `json:"contract"`
	Obligation string `json:"obligation"`
	What       string `json:"what"`
}

type failure struct {
	r      *Result
	why    string // named obligation
	detail string
	input  map[string]any
	got    string // concrete outcome
}

type checkCfg struct {
	repo, verif, prop, tier string
	seed                    int64
	jobs                    int
	budget                  int
}

func checkMain(args []string) int {
	fsx := flag.NewFlagSet("check", flag.ExitOnError)
	cfg := checkCfg{}
	fsx.StringVar(&cfg.repo, "repo", "/repo", "")
	fsx.StringVar(&cfg.verif, "verif", "/verif", "")
	fsx.StringVar(&cfg.prop, "prop", "", "")
	fsx.StringVar(&cfg.tier, "tier", "quick", "")
	fsx.IntVar(&cfg.jobs, "j", 8, "")
	fsx.IntVar(&cfg.budget, "budget", 0, "total seconds")
	fsx.Parse(args)
	cfg.seed = 1
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		cfg.seed = s
	}
	if cfg.budget == 0 {
		cfg.budget = 780
		if cfg.tier == "thorough" {
			cfg.budget = 3000
		}
	}
	return runCheck(cfg)
}

func runCheck(cfg checkCfg) int {
	t0 := time.Now()
	end := t0.Add(time.Duration(cfg.budget) * time.Second)
	specDir := filepath.Join(cfg.verif, "specs")
	decl, err := declaredContracts(specDir)
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	var fails []*failure
	w, err := loadWorld(cfg.repo, specDir)
	var results []*Result
	known := loadFindings(filepath.Join(cfg.verif, "known_findings.json"))
	if err != nil {
		fails = append(fails, &failure{r: &Result{C: &Contract{Name: "load"}}, why: "load", detail: "the source does not load: " + err.Error()})
		w = &World{contracts: map[string]*Contract{}}
	} else {
		want := map[string]bool{}
		for _, d := range decl {
			if !d.props[cfg.prop] || (d.thorough && cfg.tier != "thorough") {
				continue
			}
			want[d.name] = true
			if w.contracts[d.name] == nil {
				why := "dropped"
				for _, x := range w.dropped {
					if strings.HasPrefix(x, d.name+":") {
						why = x
					}
				}
				fails = append(fails, &failure{r: &Result{C: &Contract{Name: d.name}}, why: d.name + ": contract does not type-check against the current source", detail: why})
			}
		}
		results = runPool(w, want, cfg, end)
		for _, r := range results {
			if f := judge(w, r); f != nil {
				fails = append(fails, f)
			}
		}
	}
	if cfg.prop != "" && len(results) == 0 && len(fails) == 0 {
		fmt.Println("error: no contracts for", cfg.prop)
		return 2
	}
	var open []*failure
	for _, f := range fails {
		open = append(open, f)
	}
	// find concrete inputs for what failed
	var rp *replayer
	cases := 0
	if len(open) > 0 && err == nil {
		rp, err = newReplayer(w, cfg)
		if err != nil {
			fmt.Println("note: replay build failed:", err)
		} else {
			defer rp.close()
			rp.confirm(open, end)
			var rest []*failure
			for _, f := range open {
				if f.got == "" && f.r.C.Fn != nil {
					rest = append(rest, f)
				}
			}
			if len(rest) > 0 {
				refuteAll(w, rest, cfg, end)
				rp.confirm(rest, end)
			}
			rest = rest[:0]
			for _, f := range open {
				if f.got == "" && f.r.C.Fn != nil && !f.r.C.NoFuzz {
					rest = append(rest, f)
				}
			}
			if len(rest) > 0 {
				rp.fuzz(rest, end, 25*time.Second)
			}
		}
	}
	// cross-check of the verifier against the compiled code: concrete runs of the same contracts
	if cfg.tier == "thorough" && len(open) == 0 && err == nil {
		rp, err = newReplayer(w, cfg)
		if err != nil {
			fmt.Println("note: replay build failed:", err)
		} else {
			defer rp.close()
			var all []*failure
			for _, r := range results {
				if !r.C.NoFuzz && r.C.Fn != nil {
					all = append(all, &failure{r: r, why: "concrete cross-check"})
				}
			}
			cases = rp.fuzz(all, end, 60*time.Second)
			for _, f := range all {
				if f.got != "" && f.got != "hang" {
					fails = append(fails, f)
					open = append(open, f)
				}
			}
		}
	}
	// report
	viol := 0
	concrete := 0
	var lines, also []string
	os.MkdirAll(filepath.Join(cfg.verif, "replays"), 0o755)
	old, _ := filepath.Glob(filepath.Join(cfg.verif, "replays", cfg.prop+"-*.json"))
	for _, o := range old {
		os.Remove(o)
	}
	for _, f := range open {
		if k := matchFinding(known, cfg.prop, f); k != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", cfg.prop, k.What)
			continue
		}
		viol++
		path := writeReplay(cfg, f)
		if f.got != "" {
			concrete++
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", cfg.prop, path))
		} else {
			also = append(also, fmt.Sprintf("VIOLATION property=%s replay=%s no-failing-input-found", cfg.prop, path))
		}
		fmt.Printf("failed: %s: %s\n    %s\n", f.r.C.Name, f.why, trunc(f.detail, 1500))
		if f.got != "" {
			b, _ := json.Marshal(f.input)
			fmt.Printf("    replayed on the compiled code: %s with %s\n", f.got, trunc(string(b), 1500))
		}
	}
	if concrete > 0 {
		for _, l := range lines {
			fmt.Println(l)
		}
		for _, l := range also {
			fmt.Println("also unproved:", strings.TrimPrefix(l, "VIOLATION "))
		}
	} else {
		for _, l := range also {
			fmt.Println(l)
		}
	}
	writeEvidence(cfg, w, results, viol, cases, time.Since(t0))
	n, d := 0, 0
	for _, r := range results {
		for _, o := range r.Obls {
			n++
			if o.Status == "discharged" {
				d++
			}
		}
	}
	fmt.Printf("property %s (%s): %d contracts, %d/%d obligations discharged, %d violations, %.1fs\n", cfg.prop, cfg.tier, len(results), d, n, viol, time.Since(t0).Seconds())
	if viol > 0 {
		return 1
	}
	return 0
}

func loadFindings(p string) []finding {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	var x struct {
		Findings []finding `json:"findings"`
	}
	if json.Unmarshal(b, &x) != nil {
		return nil
	}
	return x.Findings
}

// a finding matches one named obligation of one contract that fails concretely; contracts used for findings pin their input
func matchFinding(ks []finding, prop string, f *failure) *finding {
	for i := range ks {
		k := &ks[i]
		if k.Property == prop && k.Contract == f.r.C.Name && f.got != "" && strings.Contains(f.got, k.Obligation) {
			return k
		}
	}
	return nil
}

// judge returns nil when every obligation of the contract was discharged and none was vacuous
func judge(w *World, r *Result) *failure {
	if r.Err != "" {
		f := &failure{r: r, why: "verifier could not finish: " + r.Err, detail: r.Err}
		for _, o := range r.Obls {
			if o.Status != "discharged" {
				f.why = o.Kind + ": " + o.Name + " [" + o.Fn + " " + o.Pos + "]"
				f.detail = o.Detail + "; " + r.Err
				break
			}
		}
		return f
	}
	for _, o := range r.Obls {
		if o.Status != "discharged" {
			return &failure{r: r, why: o.Kind + ": " + o.Name + " [" + o.Fn + " " + o.Pos + "]", detail: o.Status + " " + o.Detail}
		}
	}
	ens := map[string]bool{}
	w.ensuresOf(r.C.Fn, map[*ssa.Function]bool{}, ens)
	for _, e := range keys(ens) {
		if !r.Covers["ensures:"+e] {
			return &failure{r: r, why: "vacuous: postcondition never reached: " + e}
		}
	}
	if len(r.Obls) == 0 {
		return &failure{r: r, why: "vacuous: no obligations"}
	}
	return nil
}

// runPool verifies the wanted contracts and, transitively, the contracts establishing every specification they used
func runPool(w *World, want map[string]bool, cfg checkCfg, end time.Time) []*Result {
	verifiers := map[string][]string{}
	for n, c := range w.contracts {
		for _, v := range c.Verify {
			verifiers[v] = append(verifiers[v], n)
		}
	}
	started := map[string]bool{}
	var mu sync.Mutex
	var results []*Result
	var wg sync.WaitGroup
	sem := make(chan bool, cfg.jobs)
	missing := map[string]bool{}
	var start func(n string)
	start = func(n string) {
		mu.Lock()
		if started[n] || w.contracts[n] == nil {
			mu.Unlock()
			return
		}
		started[n] = true
		mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			c := w.contracts[n]
			b := 240
			if c.Timeout > 0 {
				b = c.Timeout
			}
			if cfg.tier == "thorough" {
				b *= 3
			}
			if left := int(time.Until(end).Seconds()) - 120; b > left {
				b = max(left, 1)
			}
			r := runContract(w, c, false, b)
			<-sem
			mu.Lock()
			results = append(results, r)
			mu.Unlock()
			for _, s := range r.SpecUsed {
				mu.Lock()
				vs := verifiers[s]
				// the functions of other modules have assumed contracts, listed in the evidence
				if len(vs) == 0 && !missing[s] && strings.Contains(s, "danomagnum/gologix") {
					missing[s] = true
					results = append(results, &Result{C: &Contract{Name: "spec of " + s}, Err: "no contract verifies the specification of " + s})
				}
				mu.Unlock()
				for _, v := range vs {
					start(v)
				}
			}
		}()
	}
	var names []string
	for n := range want {
		names = append(names, n)
	}
	// longest declared timeouts first
	sort.Slice(names, func(i, j int) bool {
		a, b := w.contracts[names[i]], w.contracts[names[j]]
		ta, tb := 0, 0
		if a != nil {
			ta = a.Timeout
		}
		if b != nil {
			tb = b.Timeout
		}
		if ta != tb {
			return ta > tb
		}
		return names[i] < names[j]
	})
	for _, n := range names {
		start(n)
	}
	wg.Wait()
	sort.Slice(results, func(i, j int) bool { return results[i].C.Name < results[j].C.Name })
	return results
}

// refuteAll reruns failing contracts with bodies in place of callee contracts and bounded loops, to find an input
func refuteAll(w *World, fs []*failure, cfg checkCfg, end time.Time) {
	var wg sync.WaitGroup
	sem := make(chan bool, cfg.jobs)
	for _, f := range fs {
		wg.Add(1)
		go func(f *failure) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			b := 60
			if left := int(time.Until(end).Seconds()) - 60; b > left {
				b = left
			}
			if b < 2 {
				return
			}
			r := runContract(w, f.r.C, true, b)
			for _, o := range r.Obls {
				if o.Status != "discharged" && o.Model != nil {
					f.r.Obls = append(f.r.Obls, &Obligation{Kind: o.Kind, Name: o.Name, Fn: o.Fn, Pos: o.Pos, Status: "refuted", Model: o.Model, Detail: "refutation pass"})
				}
			}
		}(f)
	}
	wg.Wait()
	// drop the refutation records from the obligation list once their models have been taken
	for _, f := range fs {
		var keep []*Obligation
		for _, o := range f.r.Obls {
			if o.Status == "refuted" {
				f.r.Refuted = append(f.r.Refuted, o.Model)
			} else {
				keep = append(keep, o)
			}
		}
		f.r.Obls = keep
	}
}

func writeReplay(cfg checkCfg, f *failure) string {
	name := fmt.Sprintf("%s-%s.json", cfg.prop, strings.Map(func(r rune) rune {
		if r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' {
			return r
		}
		return '_'
	}, f.r.C.Name))
	p := filepath.Join(cfg.verif, "replays", name)
	m := map[string]any{"property": cfg.prop, "contract": f.r.C.Name, "package": f.r.C.Pkg, "obligation": f.why, "verifier_output": f.detail,
		"replay_cmd": "bash " + filepath.Join(cfg.verif, "replay.sh") + " " + p}
	var failed []string
	for _, o := range f.r.Obls {
		if o.Status != "discharged" && len(failed) < 20 {
			failed = append(failed, fmt.Sprintf("%s %s: %s [%s %s] %s", o.Status, o.Kind, o.Name, o.Fn, o.Pos, trunc(o.Detail, 600)))
		}
	}
	m["failed_obligations"] = failed
	if f.got != "" {
		m["inputs"] = f.input
		m["outcome"] = f.got
	} else {
		m["outcome"] = "no-failing-input-found"
	}
	b, _ := json.MarshalIndent(m, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

var trustedBase = []string{
	"govc (/verif/govc): the symbolic executor and verification condition generator over golang.org/x/tools/go/ssa of the current source",
	"golang.org/x/tools v0.52.0 go/ssa and go/types front end; Go 1.27 semantics of the compiled code",
	"z3 4.8.12 and the newer z3 as back ends (bit-vector arithmetic: machine arithmetic is exact, nothing is treated as mathematical integers)",
}

func writeEvidence(cfg checkCfg, w *World, rs []*Result, viol, cases int, wall time.Duration) {
	obl, dis, fl := 0, 0, 0
	by := map[string]int{}
	fns, contracts, specs, models, inv, unr, assumes, bounded := map[string]bool{}, []string{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	paths := 0
	var q, ns int64
	type oc struct {
		Contract    string  `json:"contract"`
		Obligations int     `json:"obligations"`
		Discharged  int     `json:"discharged"`
		Paths       int     `json:"paths"`
		SolverS     float64 `json:"solver_s"`
	}
	var per []oc
	for _, r := range rs {
		n, d := 0, 0
		for _, o := range r.Obls {
			n++
			if o.Status == "discharged" {
				d++
				by[o.By]++
			}
		}
		obl += n
		dis += d
		if n != d || r.Err != "" {
			fl++
		}
		for _, f := range r.Inlined {
			fns[f] = true
		}
		for _, f := range r.C.Verify {
			fns[f] = true
		}
		for _, f := range r.SpecUsed {
			specs[f] = true
			if !strings.Contains(f, "danomagnum/gologix") {
				assumes["assumed contract of "+f] = true
			}
		}
		for _, f := range r.Models {
			if !strings.Contains(f, ".vc") {
				models[f] = true
			}
		}
		for _, f := range r.Assumes {
			assumes[f] = true
		}
		for _, f := range r.LoopsInv {
			inv[f] = true
		}
		for _, f := range r.LoopsUnr {
			unr[f] = true
		}
		for _, b := range r.C.Bounded {
			bounded[r.C.Name+": "+b] = true
		}
		contracts = append(contracts, r.C.Name)
		paths += r.Paths
		q += r.Queries
		ns += r.SolverNS
		per = append(per, oc{r.C.Name, n, d, r.Paths, float64(r.SolverNS) / 1e9})
	}
	level := "proof"
	var as []string
	for _, m := range keys(models) {
		as = append(as, "assumed contract (built into the verifier) of "+m)
	}
	for _, m := range keys(assumes) {
		as = append(as, m)
	}
	as = append(as, "goroutines other than the calling one do not run inside a verified call; heap size, stack depth and wall-clock time are unbounded")
	cov := map[string]any{
		"obligations": obl, "discharged": dis,
		"checker_cmd":                       fmt.Sprintf("/verif/bin/govc check -prop %s -tier %s", cfg.prop, cfg.tier),
		"trusted_base":                      trustedBase,
		"functions_under_contract":          keys(fns),
		"contracts":                         contracts,
		"per_contract":                      per,
		"callee_contracts_used":             keys(specs),
		"obligations_discharged_by":         by,
		"solver_queries":                    q,
		"solver_s":                          float64(ns) / 1e9,
		"paths":                             paths,
		"loops_proved_by_invariant":         keys(inv),
		"loops_exhausted_by_unrolling":      keys(unr),
		"bounded_stand_ins_not_proved":      keys(bounded),
		"contracts_with_failed_obligations": fl,
	}
	if cfg.tier == "thorough" {
		cov["concrete_cross_check_runs"] = cases
	}
	ev := map[string]any{"property": cfg.prop, "tier": cfg.tier, "seed": cfg.seed, "level": level, "coverage": cov,
		"assumptions": as, "wall_s": wall.Seconds(), "violations": viol}
	os.MkdirAll(filepath.Join(cfg.verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(cfg.verif, "evidence", cfg.prop+".json"), b, 0o644)
}

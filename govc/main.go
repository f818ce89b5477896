package main

import (
	"golang.org/x/tools/go/ssa"
	"flag"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(checkMain(os.Args[2:]))
	}
	if len(os.Args) > 1 && os.Args[1] == "replay" {
		os.Exit(replayMain(os.Args[2:]))
	}
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/specs", "spec directory")
	only := flag.String("run", "", "run contracts whose name contains this (comma separated)")
	verbose := flag.Bool("v", false, "verbose")
	refute := flag.Bool("refute", false, "refutation mode")
	bud := flag.Int("t", 120, "seconds per contract")
	flag.Parse()
	runtime.GOMAXPROCS(8)
	t0 := time.Now()
	w, err := loadWorld(*repo, *specs)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	fmt.Printf("loaded in %v; dropped %v\n", time.Since(t0), w.dropped)
	var names []string
	for n := range w.contracts {
		for _, o := range strings.Split(*only, ",") {
			if strings.Contains(n, o) {
				names = append(names, n)
				break
			}
		}
	}
	sort.Strings(names)
	type rr struct{ r *Result }
	ch := make(chan *Result, len(names))
	sem := make(chan bool, 7)
	for _, n := range names {
		go func(n string) {
			sem <- true
			ch <- runContract(w, w.contracts[n], *refute, *bud)
			<-sem
		}(n)
	}
	bad := 0
	for range names {
		r := <-ch
		d, f := 0, 0
		for _, o := range r.Obls {
			if o.Status == "discharged" {
				d++
			} else {
				f++
			}
		}
		st := "ok  "
		vac := ""
		if f == 0 && r.Err == "" && r.C.Fn != nil {
			ens := map[string]bool{}
			w.ensuresOf(r.C.Fn, map[*ssa.Function]bool{}, ens)
			for _, e := range keys(ens) {
				if !r.Covers["ensures:"+e] {
					vac = " VACUOUS " + e
				}
			}
		}
		r.Err += vac
		if f > 0 || r.Err != "" || d == 0 {
			st = "FAIL"
			bad++
		}
		fmt.Printf("%s %-44s %4d ok %3d bad  %4d paths %5d q %6.2fs solver %6.2fs %s\n", st, r.C.Name, d, f, r.Paths, r.Queries, r.Wall.Seconds(), float64(r.SolverNS)/1e9, r.Err)
		if *verbose {
			fmt.Println("    covers", keys(r.Covers))
			fmt.Println("    inlined", r.Inlined)
			fmt.Println("    specs", r.SpecUsed)
			fmt.Println("    models", r.Models)
			fmt.Println("    assumes", r.Assumes)
			fmt.Println("    loops inv", r.LoopsInv, "unrolled", r.LoopsUnr)
		}
		n := 0
		for _, o := range r.Obls {
			if o.Status != "discharged" {
				if n++; n > 6 && !*verbose {
					break
				}
				fmt.Printf("    %s %s %s [%s] %s  %v\n", o.Status, o.Kind, o.Name, o.Pos, trunc(o.Detail, 300), truncAny(o.Model))
			}
		}
	}
	fmt.Printf("total %d bad %d %v\n", len(names), bad, time.Since(t0))
}
func trunc(s string, n int) string {
	if len(s) > n && os.Getenv("GOVC_PATH") == "" {
		return s[:n] + "..."
	}
	return s
}
func truncAny(m map[string]any) string { return trunc(fmt.Sprint(m), 400) }

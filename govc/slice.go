package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
)

// Relevance: the assertions that share symbols with the goal, directly or through others.
// If these are contradictory so is the whole; anything else is decided on the whole.

func (ex *Exec) symsOf(a *Term) []int {
	if s, ok := ex.symMem[a]; ok {
		return s
	}
	if ex.symMem == nil {
		ex.symMem = map[*Term][]int{}
		ex.symID = map[string]int{}
	}
	set := map[int]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case OVar:
			set[-t.id-1] = true
		case OSel, OUF:
			id, ok := ex.symID[t.name]
			if !ok {
				id = len(ex.symID) + 1
				ex.symID[t.name] = id
			}
			set[id] = true
		}
		for _, x := range t.args {
			walk(x)
		}
	}
	walk(a)
	r := make([]int, 0, len(set))
	for k := range set {
		r = append(r, k)
	}
	ex.symMem[a] = r
	return r
}

// relevant returns the part of as connected to its last element, and whether it is smaller
func (ex *Exec) relevant(as []*Term) ([]*Term, bool) {
	n := len(as)
	if n < 6 {
		return as, false
	}
	by := map[int][]int{}
	for i, a := range as {
		for _, s := range ex.symsOf(a) {
			by[s] = append(by[s], i)
		}
	}
	in := make([]bool, n)
	in[n-1] = true
	work := []int{n - 1}
	cnt := 1
	done := map[int]bool{}
	for len(work) > 0 {
		i := work[len(work)-1]
		work = work[:len(work)-1]
		for _, s := range ex.symsOf(as[i]) {
			if done[s] {
				continue
			}
			done[s] = true
			for _, j := range by[s] {
				if !in[j] {
					in[j] = true
					cnt++
					work = append(work, j)
				}
			}
		}
	}
	if cnt == n {
		return as, false
	}
	out := make([]*Term, 0, cnt)
	for i, a := range as {
		if in[i] {
			out = append(out, a)
		}
	}
	return out, true
}

func setKey(as []*Term) string {
	ids := make([]int, len(as))
	for i, a := range as {
		ids[i] = a.id
	}
	sort.Ints(ids)
	var b strings.Builder
	for i, x := range ids {
		if i > 0 && ids[i-1] == x {
			continue
		}
		b.WriteString(strconv.Itoa(x))
		b.WriteByte(',')
	}
	return b.String()
}

// queryRel decides as, whose last element is the question, on the relevant part first
func (ex *Exec) queryRel(as []*Term, model bool) (Res, *Model) {
	rel, smaller := ex.relevant(as)
	if slowDump {
		fmt.Fprintf(os.Stderr, "REL %d of %d\n", len(rel), len(as))
	}
	key := setKey(rel)
	if ex.relMem == nil {
		ex.relMem = map[string]relRes{}
	}
	if c, ok := ex.relMem[key]; ok && (c.r == Unsat || ex.deciding) {
		return c.r, c.m
	}
	r, m := ex.query(rel, model)
	if r == Unsat || ex.deciding {
		if smaller && m != nil {
			m.part = true
		}
		ex.relMem[key] = relRes{r, m}
	}
	if r == Unsat || ex.deciding || !smaller {
		return r, m
	}
	return ex.query(as, model)
}

type relRes struct {
	r Res
	m *Model
}

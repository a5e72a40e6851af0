package main

import (
	"fmt"
	"os"
	"strings"
)

// symbolsOf collects the names of constants and functions in t.
func symbolsOf(t *Term) map[string]bool {
	out := map[string]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "const" || t.op == "app" {
			out[t.name] = true
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return out
}

// arraysOf collects the arrays that t reads, and the functions it uses.
func arraysOf(t *Term) map[string]bool {
	return reads(t, func(*Term) bool { return true }, func(q *Term) bool { return !q.args[0].bound })
}

// headsOf is the same for the reads of the goal that depend on its arbitrary values
// (skolem constants), if it has any.
func headsOf(t *Term) map[string]bool {
	memo := map[*Term]bool{}
	var sk func(t *Term) bool
	sk = func(t *Term) bool {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t.op == "const" && strings.HasPrefix(t.name, "sk.")
		for _, a := range t.args {
			r = sk(a) || r
		}
		memo[t] = r
		return r
	}
	if !sk(t) {
		return arraysOf(t)
	}
	return reads(t, sk, func(q *Term) bool { return !sk(q.args[0]) })
}

// boundArraysOf is the same for the reads of a quantified formula that depend on its variables.
func boundArraysOf(t *Term) map[string]bool {
	return reads(t, func(q *Term) bool { return q.bound || hasQuant(q) }, func(q *Term) bool { return q.bound && !q.args[0].bound })
}

func reads(t *Term, enter, count func(*Term) bool) map[string]bool {
	out := map[string]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !enter(t) {
			return
		}
		seen[t] = true
		if t.op == "select" && count(t) {
			out[fmt.Sprint(t.args[0].id)] = true
		}
		if t.op == "app" {
			out[t.name] = true
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return out
}

// slims gives the hypotheses left by increasingly generous ideas of what is related.
func slims(hyps []*Term, goal *Term) [][]*Term {
	var out [][]*Term
	add := func(h []*Term) {
		if h != nil && (len(out) == 0 || len(h) > len(out[len(out)-1])) {
			out = append(out, h)
		}
	}
	add(slimmed(hyps, goal, headsOf, boundArraysOf, 2, 1, 0))
	add(slimmed(hyps, goal, arraysOf, boundArraysOf, 2, 2, 1))
	add(slimmed(hyps, goal, symbolsOf, symbolsOf, 3, 2, 1))
	return out
}

// slimmed keeps all ground hypotheses and those quantified ones whose rarest symbols
// are connected with the goal. It returns nil when there is little to leave out.
// Leaving out hypotheses is sound: only an unsat answer is used.
func slimmed(hyps []*Term, goal *Term, goalSyms, hypSyms func(*Term) map[string]bool, rounds, mul, plus int) []*Term {
	type qh struct {
		i    int
		syms map[string]bool
		min  int
		in   bool
	}
	var qs []*qh
	freq := map[string]int{}
	for i, h := range hyps {
		if hasQuant(h) {
			q := &qh{i: i, syms: hypSyms(h)}
			for s := range q.syms {
				freq[s]++
			}
			qs = append(qs, q)
		}
	}
	if len(qs) < 12 {
		return nil
	}
	for _, q := range qs {
		q.min = 1 << 30
		for s := range q.syms {
			if freq[s] < q.min {
				q.min = freq[s]
			}
		}
	}
	rel := goalSyms(goal)
	n := 0
	for round := 0; round < rounds; round++ {
		var add []*qh
		for _, q := range qs {
			if q.in {
				continue
			}
			for s := range q.syms {
				if rel[s] && freq[s] <= mul*q.min+plus {
					add = append(add, q)
					break
				}
			}
		}
		for _, q := range add {
			q.in = true
			n++
			for s := range q.syms {
				rel[s] = true
			}
		}
		if len(add) == 0 {
			break
		}
	}
	if os.Getenv("GOVC_SLIM") != "" {
		fmt.Fprintln(os.Stderr, "slim", n, "of", len(qs), clip(goal.String(), 300))
	}
	if n > len(qs)*3/4 {
		return nil
	}
	drop := map[int]bool{}
	for _, q := range qs {
		if !q.in {
			drop[q.i] = true
		}
	}
	var out []*Term
	for i, h := range hyps {
		if !drop[i] {
			out = append(out, h)
		}
	}
	return out
}

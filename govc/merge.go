package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Path merging (unless the contract says "nomerge"): the two sides of a branch are explored up to
// the block where they meet, and inlined functions up to their return; the states that
// arrive are combined into one whose values are selected by a discriminating condition.

type join struct {
	uid  int
	to   *ssa.BasicBlock // nil: return of the frame
	got  []*State
	keys []string
}

func (x *Exec) merging() bool { return x.task == nil || !x.task.NoMerge }

func (x *Exec) joined(to *ssa.BasicBlock, uid int) bool {
	for _, j := range x.joins {
		if j.uid == uid && j.to == to {
			return true
		}
	}
	return false
}

func (x *Exec) arrive(st *State, to *ssa.BasicBlock, uid int, key string) bool {
	for i := len(x.joins) - 1; i >= 0; i-- {
		j := x.joins[i]
		if j.uid == uid && j.to == to {
			j.got = append(j.got, st)
			j.keys = append(j.keys, key)
			return true
		}
	}
	return false
}

// joinBlock is the first block both successors of a branch reach without taking a back edge.
func (x *Exec) joinBlock(fn *ssa.Function, b *ssa.BasicBlock) *ssa.BasicBlock {
	type key = *ssa.BasicBlock
	if r, ok := x.joinMemo[b]; ok {
		return r
	}
	lf := x.loopsOf(fn)
	reach := func(s *ssa.BasicBlock) map[key]bool {
		m := map[key]bool{}
		stack := []key{s}
		for len(stack) > 0 {
			n := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if m[n] {
				continue
			}
			m[n] = true
			for _, q := range n.Succs {
				if body, h := lf.headers[q]; h && body[n] {
					continue
				}
				stack = append(stack, q)
			}
		}
		return m
	}
	// reverse postorder ignoring back edges
	order := map[key]int{}
	var post []key
	seen := map[key]bool{}
	var dfs func(n key)
	dfs = func(n key) {
		seen[n] = true
		for _, q := range n.Succs {
			if body, h := lf.headers[q]; h && body[n] {
				continue
			}
			if !seen[q] {
				dfs(q)
			}
		}
		post = append(post, n)
	}
	dfs(fn.Blocks[0])
	for i, n := range post {
		order[n] = len(post) - i
	}
	a, c := reach(b.Succs[0]), reach(b.Succs[1])
	var best *ssa.BasicBlock
	for n := range a {
		if c[n] && (best == nil || order[n] < order[best]) {
			best = n
		}
	}
	if best != nil {
		if _, h := lf.headers[best]; h {
			best = nil
		}
	}
	if best != nil {
		for _, body := range lf.headers {
			if body[b] != body[best] {
				best = nil
				break
			}
		}
	}
	x.joinMemo[b] = best
	return best
}

// explore both sides of a branch up to the join block, merge what arrives.
func (x *Exec) forkMerge(j *join, start func()) {
	save := x.work
	x.work = nil
	x.joins = append(x.joins, j)
	n := len(x.joins)
	start()
	w := x.work
	x.explore(w)
	x.joins = x.joins[:n-1]
	x.work = save
	groups := map[string][]*State{}
	var ks []string
	for i, s := range j.got {
		k := j.keys[i]
		if groups[k] == nil {
			ks = append(ks, k)
		}
		groups[k] = append(groups[k], s)
	}
	sort.Strings(ks)
	for _, k := range ks {
		g := groups[k]
		for len(g) > 1 {
			m := x.mergeStates(g[0], g[1])
			if m == nil {
				x.work = append(x.work, g[0])
				g = g[1:]
				continue
			}
			g = append([]*State{m}, g[2:]...)
		}
		x.work = append(x.work, g[0])
	}
}

func (x *Exec) mergeStates(a, b *State) *State {
	B := x.B
	if len(a.frames) != len(b.frames) || a.depthLoop != b.depthLoop {
		return nil
	}
	nh := 0
	for nh < len(a.havocs) && nh < len(b.havocs) && a.havocs[nh] == b.havocs[nh] {
		nh++
	}
	havocs := append([]havoc{}, a.havocs...)
	havocs = append(havocs, b.havocs[nh:]...)
	for _, h := range havocs[nh:] {
		var ns []string
		for n := range x.heapSort {
			if patMatch(h.pat, n) {
				ns = append(ns, n)
			}
		}
		sort.Strings(ns)
		for _, n := range ns {
			x.H(a, n, x.heapSort[n])
			x.H(b, n, x.heapSort[n])
		}
	}
	// path conditions
	on := map[*pcNode]bool{}
	for n := a.pc; n != nil; n = n.prev {
		on[n] = true
	}
	common := b.pc
	for common != nil && !on[common] {
		common = common.prev
	}
	var sa, sb []*Term
	for n := a.pc; n != common; n = n.prev {
		sa = append([]*Term{n.t}, sa...)
	}
	for n := b.pc; n != common; n = n.prev {
		sb = append([]*Term{n.t}, sb...)
	}
	inB := map[*Term]bool{}
	for _, t := range sb {
		inB[t] = true
	}
	var d *Term
	for _, t := range sa {
		if inB[B.Not(t)] {
			d = t
			break
		}
	}
	if d == nil {
		d = B.Fresh("side", SBool)
	}
	m := &State{heap: map[string]*Term{}, havocs: havocs, nn: map[*Term]bool{}, pcset: map[*Term]bool{}, depthLoop: a.depthLoop}
	// frames
	for i := range a.frames {
		fa, fb := a.frames[i], b.frames[i]
		if fa.fn != fb.fn || fa.block != fb.block || fa.pc != fb.pc || fa.uid != fb.uid || fa.ret != fb.ret || len(fa.defers) != len(fb.defers) ||
			fa.discard != fb.discard || fa.inDefer != fb.inDefer || (fa.onRet == nil) != (fb.onRet == nil) {
			return nil
		}
		for _, f := range []*Frame{fa, fb} {
			for h, body := range x.loopsOf(f.fn).headers {
				if !body[f.block] {
					delete(f.loops, h)
					delete(f.unroll, h)
					delete(f.iters, h)
				}
			}
		}
		if len(fa.loops) != len(fb.loops) || len(fa.unroll) != len(fb.unroll) || len(fa.iters) != len(fb.iters) {
			return nil
		}
		for k, v := range fa.loops {
			if fb.loops[k] != v {
				return nil
			}
		}
		for k, v := range fa.unroll {
			if w, ok := fb.unroll[k]; !ok || w != v {
				return nil
			}
		}
		for k, v := range fa.iters {
			if fb.iters[k] != v {
				return nil
			}
		}
		g := *fa
		g.env = map[ssa.Value]V{}
		for k, v := range fa.env {
			w, ok := fb.env[k]
			if !ok {
				continue
			}
			r, ok := x.mergeV(d, v, w)
			if !ok {
				return nil
			}
			g.env[k] = r
		}
		g.defers = nil
		for k := range fa.defers {
			p, q := fa.defers[k], fb.defers[k]
			if p.call != q.call || len(p.args) != len(q.args) {
				return nil
			}
			nd := deferred{call: p.call, pos: p.pos}
			for l := range p.args {
				r, ok := x.mergeV(d, p.args[l], q.args[l])
				if !ok {
					return nil
				}
				nd.args = append(nd.args, r)
			}
			if p.fnv != nil || q.fnv != nil {
				r, ok := x.mergeV(d, p.fnv, q.fnv)
				if !ok {
					return nil
				}
				nd.fnv = r
			}
			g.defers = append(g.defers, nd)
		}
		m.frames = append(m.frames, &g)
	}
	// heap
	names := map[string]bool{}
	for n := range a.heap {
		names[n] = true
	}
	for n := range b.heap {
		names[n] = true
	}
	for n := range names {
		ha := x.H(a, n, x.heapSort[n])
		hb := x.H(b, n, x.heapSort[n])
		m.heap[n] = x.mergeT(d, ha, hb, 0)
	}
	for k := range a.nn {
		if b.nn[k] {
			m.nn[k] = true
		}
	}
	// conditions
	for n := common; n != nil; n = n.prev {
		m.npc++
		m.pcset[n.t] = true
	}
	m.pc = common
	inA := map[*Term]bool{}
	for _, t := range sa {
		inA[t] = true
	}
	for _, t := range sa {
		if inB[t] {
			x.assume(m, t)
		} else if t != d {
			x.assume(m, B.Imp(d, t))
		}
	}
	for _, t := range sb {
		if !inA[t] && t != B.Not(d) {
			x.assume(m, B.Imp(B.Not(d), t))
		}
	}
	if a.alloc == b.alloc {
		m.alloc = a.alloc
	} else {
		m.alloc = B.Fresh("alloc", SInt)
		x.assume(m, B.Le(a.alloc, m.alloc))
		x.assume(m, B.Le(b.alloc, m.alloc))
	}
	n := 0
	for n < len(a.trace) && n < len(b.trace) && a.trace[n] == b.trace[n] {
		n++
	}
	m.trace = append([]string{}, a.trace[:n]...)
	return m
}

// mergeT is ite(d, a, b), kept as a chain of stores over the common array where possible.
func (x *Exec) mergeT(d, a, b *Term, depth int) *Term {
	if a == b {
		return a
	}
	B := x.B
	if depth < 2 && len(a.sort) > 6 && a.sort[:6] == "(Array" {
		chain := func(t *Term) (m map[*Term]int, seq []*Term) {
			m = map[*Term]int{}
			for n := 0; n < 400; n++ {
				m[t] = n
				seq = append(seq, t)
				if t.op != "store" {
					break
				}
				t = t.args[0]
			}
			return
		}
		ma, qa := chain(a)
		_, qb := chain(b)
		for ib, t := range qb {
			ia, ok := ma[t]
			if !ok {
				continue
			}
			// t is the common base
			var locs []*Term
			seen := map[*Term]bool{}
			add := func(l *Term) {
				if !seen[l] {
					seen[l] = true
					locs = append(locs, l)
				}
			}
			for k := ia - 1; k >= 0; k-- {
				add(qa[k].args[1])
			}
			for k := ib - 1; k >= 0; k-- {
				add(qb[k].args[1])
			}
			if len(locs) > 60 {
				break
			}
			r := t
			for _, l := range locs {
				r = B.Store(r, l, x.mergeT(d, B.Select(a, l), B.Select(b, l), depth+1))
			}
			return r
		}
	}
	return B.Ite(d, a, b)
}

func (x *Exec) mergeV(d *Term, a, b V) (V, bool) {
	switch p := a.(type) {
	case nil:
		return nil, b == nil
	case *Term:
		if q, ok := b.(*Term); ok {
			if p.sort != q.sort {
				return nil, false
			}
			return x.mergeT(d, p, q, 2), true
		}
	case *SliceV:
		if q, ok := b.(*SliceV); ok {
			if *p == *q {
				return p, true
			}
			return &SliceV{x.mergeT(d, p.B, q.B, 2), x.mergeT(d, p.O, q.O, 2), x.mergeT(d, p.L, q.L, 2), x.mergeT(d, p.C, q.C, 2)}, true
		}
	case *StructV:
		if q, ok := b.(*StructV); ok && len(p.F) == len(q.F) {
			r := &StructV{T: p.T}
			for i := range p.F {
				v, ok := x.mergeV(d, p.F[i], q.F[i])
				if !ok {
					return nil, false
				}
				r.F = append(r.F, v)
			}
			return r, true
		}
	case *TupleV:
		if q, ok := b.(*TupleV); ok && len(p.F) == len(q.F) {
			r := &TupleV{}
			for i := range p.F {
				v, ok := x.mergeV(d, p.F[i], q.F[i])
				if !ok {
					return nil, false
				}
				r.F = append(r.F, v)
			}
			return r, true
		}
	case *ArrV:
		if q, ok := b.(*ArrV); ok && len(p.Leaf) == len(q.Leaf) {
			r := &ArrV{}
			for i := range p.Leaf {
				r.Leaf = append(r.Leaf, x.mergeT(d, p.Leaf[i], q.Leaf[i], 0))
			}
			return r, true
		}
	case *AddrV:
		if q, ok := b.(*AddrV); ok {
			if *p == *q {
				return p, true
			}
			if p.Kind == q.Kind && p.Heap == q.Heap && p.Kind != 'G' {
				r := *p
				r.Loc = x.mergeT(d, p.Loc, q.Loc, 2)
				if p.Idx != nil && q.Idx != nil {
					r.Idx = x.mergeT(d, p.Idx, q.Idx, 2)
				}
				return &r, true
			}
		}
	case *ClosureV:
		if q, ok := b.(*ClosureV); ok && p.Fn == q.Fn && len(p.Binds) == len(q.Binds) {
			r := *p
			r.Binds = nil
			for i := range p.Binds {
				v, ok := x.mergeV(d, p.Binds[i], q.Binds[i])
				if !ok {
					return nil, false
				}
				r.Binds = append(r.Binds, v)
			}
			return &r, true
		}
	case *MapIterV:
		if q, ok := b.(*MapIterV); ok && *p == *q {
			return p, true
		}
	default:
		if a == b {
			return a, true
		}
	}
	return nil, false
}

// retKey separates results that differ in a literal nil or boolean.
func retKey(res *types.Tuple, v V) string {
	one := func(t types.Type, v V) string {
		r, ok := v.(*Term)
		if !ok {
			return "."
		}
		switch u := under(t).(type) {
		case *types.Interface, *types.Pointer:
			if r.isInt() {
				return "0"
			}
			return "v"
		case *types.Basic:
			if u.Info()&types.IsBoolean != 0 {
				if r.isLit() {
					return r.String()
				}
				return "?"
			}
		}
		return "."
	}
	switch res.Len() {
	case 0:
		return ""
	case 1:
		return one(res.At(0).Type(), v)
	}
	t, ok := v.(*TupleV)
	if !ok {
		return "."
	}
	s := ""
	for i, f := range t.F {
		s += one(res.At(i).Type(), f)
	}
	return s
}

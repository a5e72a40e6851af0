package main

// Loops: constant trip counts are unrolled; everything else is cut with inductive
// invariants found by a Houdini fixpoint over automatically generated candidates and the
// invariant templates of the contract.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loopForest struct {
	headers map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

func (x *Exec) loopsOf(fn *ssa.Function) *loopForest {
	if lf, ok := x.loopInfo[fn]; ok {
		return lf
	}
	lf := &loopForest{headers: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := lf.headers[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					lf.headers[s] = body
				}
				// natural loop of edge b->s
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[n] {
						continue
					}
					body[n] = true
					stack = append(stack, n.Preds...)
				}
			}
		}
	}
	x.loopInfo[fn] = lf
	return lf
}

type cand struct {
	name string
	user bool
	heap string // frame of this heap ...
	mc   int    // ... for locations older than this
	eval func(st *State, fr *Frame, pre *State) (*Term, bool)
}

func dbg(f string, a ...interface{}) {
	if os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

// headerIf returns the branch at the end of the header and whether its instructions
// are pure enough to evaluate on a clone.
func headerIf(h *ssa.BasicBlock) *ssa.If {
	if len(h.Instrs) == 0 {
		return nil
	}
	i, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	for _, in := range h.Instrs[:len(h.Instrs)-1] {
		switch c := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.FieldAddr, *ssa.UnOp, *ssa.DebugRef, *ssa.Extract, *ssa.Convert, *ssa.Field:
		case *ssa.Call:
			if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return nil
			}
		default:
			return nil
		}
	}
	return i
}

// evalHeader runs the header's straight-line instructions on a clone and returns the
// operands of the controlling comparison.
func (x *Exec) evalHeader(st *State, h *ssa.BasicBlock) (op token.Token, a, b *Term, cond *Term, ok bool) {
	i := headerIf(h)
	if i == nil {
		return
	}
	s2 := st.clone()
	x.trial++
	np := x.noPanic
	x.noPanic = false
	defer func() { x.trial--; x.noPanic = np }()
	f := s2.top()
	f.block = h
	f.pc = 0
	for f.pc < len(h.Instrs)-1 {
		if _, isPhi := h.Instrs[f.pc].(*ssa.Phi); isPhi {
			f.pc++
			continue
		}
		if !x.instr(s2, h.Instrs[f.pc]) {
			return
		}
	}
	c, isT := x.val(s2, i.Cond).(*Term)
	if !isT {
		return
	}
	cond = c
	if bo, isB := i.Cond.(*ssa.BinOp); isB {
		ta, ok1 := x.val(s2, bo.X).(*Term)
		tb, ok2 := x.val(s2, bo.Y).(*Term)
		if ok1 && ok2 && ta.sort == SInt && tb.sort == SInt && isInteger(bo.X.Type()) {
			return bo.Op, ta, tb, cond, true
		}
	}
	return token.ILLEGAL, nil, nil, cond, true
}

func (x *Exec) enterLoop(st *State, from, to *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	x.enter(st, from, to)
	f := st.top()
	op, a, b, cond, ok := x.evalHeader(st, to)
	if ok && op != token.ILLEGAL && a.isInt() && b.isInt() && cond.isLit() {
		if d := x.B.diffConst(a, b); d != nil && d.IsInt64() && d.Int64() < 80 && d.Int64() > -80 {
			f.unroll[to] = 0
			return true
		}
	}
	// a range loop over an array: bottom-tested form has its comparison in the latch
	return x.cutLoop(st, to, body)
}

type modSet struct {
	names map[string]bool
	pats  map[string]bool
}

// storeIdx collects store indices applied to base inside t. ok=false if t is not a chain over base.
func storeIdx(t, base *Term, acc map[*Term]bool, n *int) bool {
	*n++
	if *n > 4000 {
		return false
	}
	if t == base {
		return true
	}
	// a store replaced by a later one at the same place: the chains meet further down
	b := base
	for d := 0; d < 40 && b.op == "store"; d++ {
		b = b.args[0]
		if b == t {
			for c := base; c != b; c = c.args[0] {
				acc[c.args[1]] = true
			}
			return true
		}
	}
	switch t.op {
	case "store":
		acc[t.args[1]] = true
		return storeIdx(t.args[0], base, acc, n)
	case "ite":
		return storeIdx(t.args[1], base, acc, n) && storeIdx(t.args[2], base, acc, n)
	}
	return false
}

type heapMode struct {
	precise []*Term // havoc only these locations (nil: full havoc)
	full    bool
	excl    []*Term // locations written (full mode), loop invariant ones
}

func (x *Exec) cutLoop(st *State, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	B := x.B
	f := st.top()
	preFrame := st.clone().top()
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	// map iterators advanced in the body
	var iters []ssa.Value
	for blk := range body {
		for _, in := range blk.Instrs {
			if n, ok := in.(*ssa.Next); ok {
				if _, have := f.env[n.Iter]; have {
					iters = append(iters, n.Iter)
				}
			}
		}
	}
	sort.Slice(iters, func(i, j int) bool { return iters[i].Name() < iters[j].Name() })

	modes := map[string]*heapMode{}
	pats := map[string]bool{}
	allocMod := false
	entryMaxC := B.nconst
	// ---- build a header state with current modes
	build := func() *State {
		s := st.clone()
		g := s.top()
		var pl []string
		for p := range pats {
			pl = append(pl, p)
		}
		sort.Strings(pl)
		if allocMod {
			x.bumpAlloc(s)
		}
		for _, p := range pl {
			x.havocPattern(s, p)
		}
		var hs []string
		for n := range modes {
			hs = append(hs, n)
		}
		sort.Strings(hs)
		for _, n := range hs {
			m := modes[n]
			srt := x.heapSort[n]
			if m.full {
				nh := B.Fresh(n, srt)
				x.regRoot(nh, n, s.alloc, false)
				x.regParent(nh, x.H(st, n, srt))
				x.setH(s, n, nh)
				continue
			}
			_, vs := splitArr(srt)
			cur := x.H(s, n, srt)
			for _, l := range m.precise {
				hv := B.Fresh("lp."+n, vs)
				x.regHavoc(hv, n, s.alloc)
				cur = B.Store(cur, l, hv)
			}
			x.setH(s, n, cur)
		}
		ic := B.Fresh("iter", SInt)
		ic.addFact(B.Le(B.Int(0), ic))
		g.iters[h] = ic
		for _, p := range phis {
			nm := p.Comment
			if nm == "" {
				nm = p.Name()
			}
			if rangeIndex(p) && B.Eq(g.env[p].(*Term), B.Int(-1)) == B.True {
				g.env[p] = B.Sub(ic, B.Int(1))
				continue
			}
			if _, isC := g.env[p].(*ClosureV); isC {
				unsup("loop-carried function value")
			}
			g.env[p] = x.freshPhi(s, nm, p.Type(), g.env[p])
		}
		for _, it := range iters {
			o := g.env[it].(*MapIterV)
			n := *o
			n.Visited = B.Fresh("visited", o.Visited.sort)
			n.Count = B.Fresh("vcount", SInt)
			n.Count.addFact(B.Le(B.Int(0), n.Count))
			g.env[it] = &n
		}
		return s
	}
	runTrial := func(s *State) []*State {
		s = s.clone()
		hk := &hook{uid: s.top().uid, header: h, body: body}
		x.hooks = append(x.hooks, hk)
		x.trial++
		sv := x.noPanic
		x.noPanic = false
		x.explore([]*State{s})
		x.noPanic = sv
		x.trial--
		x.hooks = x.hooks[:len(x.hooks)-1]
		return hk.back
	}
	// nested frames: a hook is keyed on the uid of the frame; cloning keeps it.
	var backs []*State
	var hs *State
	for round := 0; ; round++ {
		if round > 12 {
			unsup("loop modification set does not stabilise")
		}
		hs = build()
		backs = runTrial(hs)
		changed := false
		for _, bk := range backs {
			if len(bk.havocs) > len(hs.havocs) {
				for _, hv := range bk.havocs[len(hs.havocs):] {
					if !pats[hv.pat] {
						pats[hv.pat] = true
						changed = true
					}
				}
			}
			if bk.alloc != hs.alloc && !allocMod {
				allocMod = true
				changed = true
			}
			for n, t := range bk.heap {
				base, had := hs.heap[n]
				if !had {
					// created lazily inside the loop: compare with its initial constant
					if pt, ok := x.lazyInit(hs, n); ok && pt == t {
						continue
					}
					if pt, ok := x.lazyInit(hs, n); ok {
						hs.heap[n] = pt
						base = pt
					} else {
						continue
					}
				}
				if base == t {
					continue
				}
				m := modes[n]
				if m == nil {
					m = &heapMode{}
					modes[n] = m
					changed = true
				}
				if m.full {
					continue
				}
				if !strings.HasPrefix(string(x.heapSort[n]), "(Array") || strings.HasPrefix(n, "$") || strings.HasPrefix(n, "G:") {
					m.full = true
					changed = true
					continue
				}
				idx := map[*Term]bool{}
				cnt := 0
				if !storeIdx(t, base, idx, &cnt) {
					dbg("full havoc of %s", n)
					m.full = true
					changed = true
					continue
				}
				for l := range idx {
					inv := l.maxc <= entryMaxC
					seen := false
					for _, p := range m.precise {
						if p == l {
							seen = true
						}
					}
					if seen {
						continue
					}
					if !inv {
						dbg("full havoc of %s: index %s", n, l)
						m.full = true
					} else {
						m.precise = append(m.precise, l)
					}
					changed = true
				}
				sort.Slice(m.precise, func(i, j int) bool { return m.precise[i].id < m.precise[j].id })
			}
		}
		if !changed {
			break
		}
	}
	// ---- candidates
	cands := x.autoCands(st, preFrame, h, phis, iters, modes, pats, entryMaxC+1)
	agree := func(s *State) {
		for _, c := range cands {
			if c.heap == "" {
				continue
			}
			nh, pre := x.H(s, c.heap, x.heapSort[c.heap]), x.H(st, c.heap, x.heapSort[c.heap])
			if g, ok := B.agrees[nh]; nh.op == "const" && nh != pre && (!ok || g.mc < c.mc) {
				B.agrees[nh] = agreement{pre, c.mc}
			}
		}
	}
	cands = append(cands, x.userCands(f, h, phis, iters)...)
	preSt := st.clone()
	preSt.top().iters[h] = B.Int(0)
	// initiation
	var keep []*cand
	for _, c := range cands {
		t, ok := c.eval(preSt, preSt.top(), preSt)
		if ok && x.valid(preSt, x.skolem(t)) {
			keep = append(keep, c)
		} else if c.user {
			dbg("loop %s: user invariant not initially true: %s", x.pos(h.Instrs[0].Pos()), c.name)
			x.loopNotes["invariant does not hold on entry: "+c.name] = true
		}
	}
	cands = keep
	for round := 0; round < 40; round++ {
		hs = build()
		for _, c := range cands {
			if t, ok := c.eval(hs, hs.top(), preSt); ok {
				x.assume(hs, t)
			}
		}
		agree(hs)
		backs = runTrial(hs)
		drop := map[*cand]bool{}
		slow := 0
		for _, bk := range backs {
			nx := bk.clone()
			g := nx.top()
			g.iters[h] = B.Add(g.iters[h], B.Int(1))
			x.enter(nx, g.prev, h)
			for _, c := range cands {
				if drop[c] {
					continue
				}
				t, ok := c.eval(nx, nx.top(), preSt)
				if ok && c.user {
					its := []*Term{bk.top().iters[h]}
					for _, mi := range iters {
						if m, ok := nx.top().env[mi].(*MapIterV); ok && m.Visited.op == "store" {
							its = append(its, m.Visited.args[1])
						}
					}
					ok = x.proveUser(nx, t, its)
				} else if ok {
					ms := 3000
					if slow >= 2 {
						ms = 500
					}
					t0 := time.Now()
					ok = x.validT(nx, x.skolem(t), ms)
					if !ok && time.Since(t0) > 2*time.Second {
						slow++
					}
				}
				if !ok {
					drop[c] = true
					if c.user {
						dbg("loop: user invariant not preserved: %s", c.name)
						x.loopNotes["invariant not preserved: "+c.name] = true
					}
				}
			}
		}
		if len(drop) == 0 {
			break
		}
		keep = nil
		for _, c := range cands {
			if !drop[c] {
				keep = append(keep, c)
			}
		}
		cands = keep
	}
	x.houdini++
	if os.Getenv("GOVC_DEBUG") != "" {
		dbg("loop at %s block %d: %d invariants", canonFunc(f.fn), h.Index, len(cands))
		for _, c := range cands {
			dbg("    %s", c.name)
		}
	}
	// ---- continue for real
	fin := build()
	for _, c := range cands {
		if t, ok := c.eval(fin, fin.top(), preSt); ok {
			if !x.assume(fin, t) {
				return false
			}
		}
	}
	agree(fin)
	g := fin.top()
	g.loops[h] = &loopCut{header: h}
	g.block = h
	g.pc = len(phis)
	*st = *fin
	return true
}

// rangeIndex recognises the hidden index of a range loop: it starts at -1 and every back
// edge carries the value incremented by one in the header, where it is compared with a
// length; it never exceeds that length, so the increment cannot wrap.
func rangeIndex(p *ssa.Phi) bool {
	if p.Comment != "rangeindex" {
		return false
	}
	n := 0
	for _, e := range p.Edges {
		switch e := e.(type) {
		case *ssa.Const:
			if e.Value == nil || e.Value.ExactString() != "-1" {
				return false
			}
		case *ssa.BinOp:
			c, ok := e.Y.(*ssa.Const)
			if e.Op != token.ADD || e.X != ssa.Value(p) || !ok || c.Value == nil || c.Value.ExactString() != "1" {
				return false
			}
			n++
		default:
			return false
		}
	}
	return n > 0
}

// proveUser decides an invariant of the contract at a back edge. Universally quantified
// integers are split into "the element of this iteration" and the others.
func (x *Exec) proveUser(st *State, t *Term, its []*Term) bool {
	B := x.B
	switch t.op {
	case "and":
		for _, a := range t.args {
			if !x.proveUser(st, a, its) {
				return false
			}
		}
		return true
	case "=>":
		s := st.clone()
		if !x.assume(s, t.args[0]) {
			return true
		}
		return x.proveUser(s, t.args[1], its)
	case "forall":
		var n int
		fmt.Sscanf(t.name, "%d", &n)
		m := map[*Term]*Term{}
		for _, v := range t.args[1 : 1+n] {
			m[v] = B.Fresh("sk."+strings.SplitN(v.name, "?", 2)[0], v.sort)
		}
		var it *Term
		for _, c := range its {
			if n == 1 && c != nil && t.args[1].sort == c.sort && (it == nil || t.args[1].sort != SInt) {
				it = c
			}
		}
		if it != nil {
			v := t.args[1]
			if !x.proveUser(st, B.Subst(t.args[0], map[*Term]*Term{v: it}), nil) {
				return false
			}
			s := st.clone()
			x.assume(s, B.Not(B.Eq(m[v], it)))
			return x.proveUser(s, B.Subst(t.args[0], m), nil)
		}
		return x.proveUser(st, B.Subst(t.args[0], m), nil)
	}
	if x.valid(st, t) {
		return true
	}
	if !hasStrEq(t) {
		return false
	}
	hyps := append(append([]*Term{}, x.axioms...), st.conds()...)
	g2 := x.extGoal(t)
	inst := x.strInstances(strHyps(hyps), g2)
	return x.solver.quickT(x, append(append(hyps, inst...), B.Not(g2)), 4000) == "unsat"
}

// lazyInit returns the term heap n would have if first read in s.
func (x *Exec) lazyInit(s *State, n string) (*Term, bool) {
	srt, ok := x.heapSort[n]
	if !ok {
		return nil, false
	}
	return x.H(s, n, srt), true
}

func (x *Exec) freshPhi(st *State, name string, t types.Type, init V) V {
	if _, ok := init.(*AddrV); ok {
		unsup("loop-carried interior pointer")
	}
	v := x.freshV(st, name, t)
	return v
}

// skolem replaces top-level universally quantified variables by fresh constants so that
// the side facts of the goal's terms become available.
func (x *Exec) skolem(t *Term) *Term {
	B := x.B
	switch t.op {
	case "forall":
		var n int
		fmt.Sscanf(t.name, "%d", &n)
		m := map[*Term]*Term{}
		for _, v := range t.args[1 : 1+n] {
			m[v] = B.Fresh("sk."+strings.SplitN(v.name, "?", 2)[0], v.sort)
		}
		return x.skolem(B.Subst(t.args[0], m))
	case "=>":
		return B.Imp(t.args[0], x.skolem(t.args[1]))
	case "and":
		var as []*Term
		for _, a := range t.args {
			as = append(as, x.skolem(a))
		}
		return B.And(as...)
	}
	return t
}

// ---------- candidates ----------

func (x *Exec) autoCands(st *State, pf *Frame, h *ssa.BasicBlock, phis []*ssa.Phi, iters []ssa.Value, modes map[string]*heapMode, pats map[string]bool, preMC int) []*cand {
	B := x.B
	var cs []*cand
	add := func(name string, ev func(st *State, fr *Frame, pre *State) (*Term, bool)) {
		cs = append(cs, &cand{name: name, eval: ev})
	}
	for _, p := range phis {
		p := p
		nm := p.Name()
		if p.Comment != "" {
			nm += "(" + p.Comment + ")"
		}
		init := pf.env[p]
		switch iv := init.(type) {
		case *Term:
			cur := func(fr *Frame) *Term { t, _ := fr.env[p].(*Term); return t }
			add(nm+"==init", func(s *State, fr *Frame, _ *State) (*Term, bool) {
				if iv.sort == SStr {
					return x.strEq(cur(fr), iv), true
				}
				return B.Eq(cur(fr), iv), true
			})
			if iv.sort == SInt && isInteger(p.Type()) {
				add(nm+">=init", func(s *State, fr *Frame, _ *State) (*Term, bool) { return B.Le(iv, cur(fr)), true })
				add(nm+"<=init", func(s *State, fr *Frame, _ *State) (*Term, bool) { return B.Le(cur(fr), iv), true })
				add(nm+">=0", func(s *State, fr *Frame, _ *State) (*Term, bool) { return B.Le(B.Int(0), cur(fr)), true })
				for _, k := range []int64{1, -1, 2} {
					k := k
					add(fmt.Sprintf("%s==init%+d*iter", nm, k), func(s *State, fr *Frame, _ *State) (*Term, bool) {
						return B.Eq(cur(fr), B.Add(iv, B.Mul(B.Int(k), fr.iters[h]))), true
					})
				}
				add(nm+"<=init+iter", func(s *State, fr *Frame, _ *State) (*Term, bool) {
					return B.Le(cur(fr), B.Add(iv, fr.iters[h])), true
				})
			} else if iv.sort == SInt {
				switch under(p.Type()).(type) {
				case *types.Pointer, *types.Interface, *types.Map:
					add(nm+"!=nil", func(s *State, fr *Frame, _ *State) (*Term, bool) {
						return B.Not(B.Eq(cur(fr), B.Int(0))), true
					})
					add(nm+"==nil", func(s *State, fr *Frame, _ *State) (*Term, bool) {
						return B.Eq(cur(fr), B.Int(0)), true
					})
				}
			}
		case *SliceV:
			cur := func(fr *Frame) *SliceV { s, _ := fr.env[p].(*SliceV); return s }
			allocPre := st.alloc
			add(nm+".base==init|fresh", func(s *State, fr *Frame, _ *State) (*Term, bool) {
				c := cur(fr)
				return B.Or(B.Eq(c.B, iv.B), B.Le(allocPre, x.age(c.B))), true
			})
			entryAlloc := st.alloc
			if x.entry != nil {
				entryAlloc = x.entry.alloc
			}
			add(nm+".base nil|fresh since entry", func(s *State, fr *Frame, _ *State) (*Term, bool) {
				c := cur(fr)
				return B.Or(B.Eq(c.B, B.Int(0)), B.Le(entryAlloc, x.age(c.B))), true
			})
			add(nm+".base==init", func(s *State, fr *Frame, _ *State) (*Term, bool) { return B.Eq(cur(fr).B, iv.B), true })
			add(nm+".off==init", func(s *State, fr *Frame, _ *State) (*Term, bool) { return B.Eq(cur(fr).O, iv.O), true })
			add(nm+".len==init+iter", func(s *State, fr *Frame, _ *State) (*Term, bool) {
				return B.Eq(cur(fr).L, B.Add(iv.L, fr.iters[h])), true
			})
			add(nm+".len<=init+iter", func(s *State, fr *Frame, _ *State) (*Term, bool) {
				return B.Le(cur(fr).L, B.Add(iv.L, fr.iters[h])), true
			})
			add(nm+".len==init", func(s *State, fr *Frame, _ *State) (*Term, bool) { return B.Eq(cur(fr).L, iv.L), true })
		}
	}
	// pairs of integer phis: constant differences
	for i, p := range phis {
		for _, q := range phis[i+1:] {
			p, q := p, q
			a, ok1 := pf.env[p].(*Term)
			b, ok2 := pf.env[q].(*Term)
			if ok1 && ok2 && a.sort == SInt && b.sort == SInt && isInteger(p.Type()) && isInteger(q.Type()) {
				d := B.Sub(a, b)
				add(fmt.Sprintf("%s-%s const", p.Name(), q.Name()), func(s *State, fr *Frame, _ *State) (*Term, bool) {
					return B.Eq(B.Sub(fr.env[p].(*Term), fr.env[q].(*Term)), d), true
				})
			}
		}
	}
	// the controlling comparison, relaxed by one step
	if headerIf(h) != nil {
		mk := func(name string, f func(a, b *Term) *Term) {
			add(name, func(s *State, fr *Frame, _ *State) (*Term, bool) {
				_, a, b, _, ok := x.evalHeader(s, h)
				if !ok || a == nil {
					return nil, false
				}
				return f(a, b), true
			})
		}
		mk("cond lhs<=rhs", func(a, b *Term) *Term { return B.Le(a, b) })
		for _, p := range phis {
			p := p
			if t, ok := pf.env[p].(*Term); !ok || t.sort != SInt || !isInteger(p.Type()) {
				continue
			}
			add(p.Name()+" < cond rhs", func(s *State, fr *Frame, _ *State) (*Term, bool) {
				_, a, b, _, ok := x.evalHeader(s, h)
				c, isT := fr.env[p].(*Term)
				if !ok || a == nil || !isT {
					return nil, false
				}
				return B.Lt(c, b), true
			})
		}
		mk("cond lhs>=rhs", func(a, b *Term) *Term { return B.Le(b, a) })
		mk("cond lhs>=rhs-1", func(a, b *Term) *Term { return B.Le(B.Sub(b, B.Int(1)), a) })
	}
	// range-over-index loops count from 0: iter bounded by nothing else
	for _, it := range iters {
		it := it
		add("visited count==iter", func(s *State, fr *Frame, _ *State) (*Term, bool) {
			m := fr.env[it].(*MapIterV)
			return B.Eq(m.Count, fr.iters[h]), true
		})
		if x.wantsIn(h.Parent(), "pos(") {
			add("visited in turn", func(s *State, fr *Frame, _ *State) (*Term, bool) {
				m := fr.env[it].(*MapIterV)
				x.tagCtr++
				v := B.Var(fmt.Sprintf("vk?%d", x.tagCtr), x.keySort(m.MT))
				sel := B.Select(m.Visited, v)
				if sel == B.False {
					return B.True, true
				}
				p := x.mapPos(m, v)
				return B.Forall([]*Term{v}, B.Imp(sel, B.And(B.Le(B.Int(0), p), B.Lt(p, m.Count))), [][]*Term{{sel}}), true
			})
		}
		add("visited subset of map", func(s *State, fr *Frame, _ *State) (*Term, bool) {
			m := fr.env[it].(*MapIterV)
			ks := x.keySort(m.MT)
			x.tagCtr++
			v := B.Var(fmt.Sprintf("vk?%d", x.tagCtr), ks)
			sel := B.Select(m.Visited, v)
			if sel == B.False {
				return B.True, true
			}
			return B.Forall([]*Term{v}, B.Imp(sel, x.mapHas(s, m.M, m.MT, v)), [][]*Term{{sel}}), true
		})
	}
	// frames for fully havoced heaps
	var names []string
	for n := range modes {
		names = append(names, n)
	}
	sort.Strings(names)
	entryAlloc := st.alloc
	if x.entry != nil {
		entryAlloc = x.entry.alloc
	}
	preAlloc := st.alloc
	for _, n := range names {
		n := n
		m := modes[n]
		if !m.full || strings.HasPrefix(n, "$") || strings.HasPrefix(n, "G:") {
			if m.full && x.heapSort[n] == SInt {
				pre := x.H(st, n, SInt)
				add(n+" unchanged", func(s *State, fr *Frame, _ *State) (*Term, bool) { return B.Eq(x.H(s, n, SInt), pre), true })
				add(n+" >=", func(s *State, fr *Frame, _ *State) (*Term, bool) { return B.Le(pre, x.H(s, n, SInt)), true })
			}
			continue
		}
		srt := x.heapSort[n]
		pre := x.H(st, n, srt)
		excl := append([]*Term{}, m.precise...)
		frame := func(al *Term, ex []*Term) func(s *State, fr *Frame, _ *State) (*Term, bool) {
			return func(s *State, fr *Frame, _ *State) (*Term, bool) {
				cur := x.H(s, n, srt)
				if cur == pre {
					return B.True, true
				}
				x.tagCtr++
				v := B.Var(fmt.Sprintf("fr?%d", x.tagCtr), SInt)
				var gs []*Term
				gs = append(gs, B.Lt(B.App("age", SInt, v), al))
				for _, l := range ex {
					gs = append(gs, B.Not(B.mk(&Term{op: "=", args: []*Term{v, l}, sort: SBool})))
				}
				sel := B.mk(&Term{op: "select", args: []*Term{cur, v}, sort: mustVal(srt)})
				return B.Forall([]*Term{v}, B.Imp(B.And(gs...), B.Eq(sel, B.Select(pre, v))), [][]*Term{{sel}}), true
			}
		}
		add(n+" frame (pre-loop objects)", frame(preAlloc, nil))
		cs[len(cs)-1].heap, cs[len(cs)-1].mc = n, preMC
		if len(excl) > 0 {
			add(n+" frame (pre-loop objects, except written)", frame(preAlloc, excl))
		}
		if entryAlloc != preAlloc {
			add(n+" frame (entry objects)", frame(entryAlloc, nil))
			cs[len(cs)-1].heap, cs[len(cs)-1].mc = n, x.entryMC+1
		}
	}
	return cs
}

func mustVal(s Sort) Sort { _, v := splitArr(s); return v }

// userCands instantiates invariant templates of the task contract.
func (x *Exec) userCands(f *Frame, h *ssa.BasicBlock, phis []*ssa.Phi, iters []ssa.Value) []*cand {
	var cs []*cand
	var invs []*Clause
	invs = append(invs, x.task.Invs...)
	// helper contracts provide invariants for inlined functions
	if f.fn != x.taskFn {
		if c := x.S.C[canonFunc(f.fn)]; c != nil {
			invs = append([]*Clause{}, c.Invs...)
		}
	}
	outer := x.outerValues(f, h)
	for _, inv := range invs {
		inv := inv
		// enumerate placeholder bindings
		var rec func(i int, bind map[string]ssa.Value)
		rec = func(i int, bind map[string]ssa.Value) {
			if i == len(inv.Vars) {
				b := map[string]ssa.Value{}
				nm := inv.Text
				for k, v := range bind {
					b[k] = v
					nm += " {" + k + "=" + v.Name() + "}"
				}
				cs = append(cs, &cand{name: nm, user: true, eval: func(s *State, fr *Frame, pre *State) (t *Term, ok bool) {
					defer func() {
						if r := recover(); r != nil {
							if se, is := r.(specErr); is {
								dbg("invariant: %s", se.msg)
								t, ok = nil, false
								return
							}
							panic(r)
						}
					}()
					e := &specEnv{x: x, st: s, old: x.entry, pre: pre, vars: map[string]specVal{}, pkg: strings.SplitN(x.task.Func, ".", 2)[0], iter: fr.iters[h]}
					for k, v := range x.params {
						e.vars[k] = v
					}
					for k, v := range x.entryLets {
						e.vars[k] = v
					}
					if f.fn != x.taskFn {
						if c := x.S.C[canonFunc(f.fn)]; c != nil {
							e.vars = map[string]specVal{}
							for i, p := range f.fn.Params {
								if i < len(c.Params) {
									e.vars[c.Params[i]] = specVal{fr.env[p], p.Type()}
								}
							}
							e.pkg = f.fn.Pkg.Pkg.Name()
						}
					}
					for k, v := range b {
						e.vars[k] = specVal{fr.env[v], v.Type()}
					}
					if len(iters) > 0 {
						e.mapIter = fr.env[iters[0]].(*MapIterV)
						e.visited = e.mapIter.Visited
					}
					return e.bool(inv.E), true
				}})
				return
			}
			want := normType(inv.Vars[i][1])
			if t := x.lookupType(inv.Vars[i][1]); t != nil {
				want = typeKey(t)
			}
			var vals []ssa.Value
			for _, p := range phis {
				vals = append(vals, p)
			}
			vals = append(vals, outer...)
			for _, p := range vals {
				p := p
				if typeKey(p.Type()) != want {
					continue
				}
				dup := false
				for _, v := range bind {
					if v == p {
						dup = true
					}
				}
				if dup {
					continue
				}
				bind[inv.Vars[i][0]] = p
				rec(i+1, bind)
				delete(bind, inv.Vars[i][0])
			}
		}
		rec(0, map[string]ssa.Value{})
	}
	return cs
}

func normType(s string) string {
	s = reByte.ReplaceAllString(s, "uint8")
	return reRune.ReplaceAllString(s, "int32")
}

// outerValues: values computed before the loop and used inside it.
func (x *Exec) outerValues(f *Frame, h *ssa.BasicBlock) []ssa.Value {
	lf := x.loopsOf(f.fn)
	body := lf.headers[h]
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	for _, b := range f.fn.Blocks {
		if !body[b] {
			continue
		}
		for _, in := range b.Instrs {
			var rands [12]*ssa.Value
			for _, r := range in.Operands(rands[:0]) {
				if r == nil || *r == nil || seen[*r] {
					continue
				}
				v := *r
				if ins, ok := v.(ssa.Instruction); ok {
					if ins.Block() == nil || body[ins.Block()] {
						continue
					}
				} else {
					switch v.(type) {
					case *ssa.Parameter, *ssa.FreeVar:
					default:
						continue
					}
				}
				if f.env[v] == nil {
					continue
				}
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	return out
}

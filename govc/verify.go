package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FuncResult struct {
	Func     string            `json:"func"`
	File     string            `json:"contract_file"`
	Src      string            `json:"source"`
	VCs      []*VC             `json:"-"`
	Status   string            `json:"status"` // proved, failed, undecided
	Failed   []*VC             `json:"failed,omitempty"`
	Total    int               `json:"obligations"`
	Proved   int               `json:"discharged"`
	Quick    int               `json:"feasibility_queries"`
	Paths    int               `json:"return_paths"`
	Ms       int64             `json:"ms"`
	SolverMs int64             `json:"solver_ms"`
	By       map[string]int    `json:"by"`
	Trust    []string          `json:"trust"`
	Inlined  []string          `json:"inlined"`
	Uses     []string          `json:"contracts_used"`
	Err      string            `json:"error,omitempty"`
	Notes    []string          `json:"notes,omitempty"`
	Labels   map[string]string `json:"labels"`
	Loops    int               `json:"loops"`
	Trusted  bool              `json:"trusted,omitempty"`
}

func newExec(P *Program, S *Specs) *Exec {
	B := NewBank()
	x := &Exec{P: P, S: S, B: B, solver: NewSolver(8000*solverScale, 40000*solverScale), heapSort: map[string]Sort{}, factDone: map[string]bool{}, typeIDs: map[string]int{},
		closures: map[*Term]*ClosureV{}, trust: map[string]bool{}, calledC: map[string]bool{}, inlined: map[string]bool{}, loopInfo: map[*ssa.Function]*loopForest{}, joinMemo: map[*ssa.BasicBlock]*ssa.BasicBlock{},
		loopNotes: map[string]bool{}, maxPaths: 6000, failed: map[string]int{}, coverHit: map[int]bool{}, failFast: true, cacheVC: map[string]*VC{}}
	B.ex = x
	x.leafReg, x.rootReg, x.rootMemo, x.tagAlloc = map[string]leaf{}, map[*Term]rootInfo{}, map[*Term][]*Term{}, map[int]*Term{}
	x.tagMaxc = map[int]int{0: 1}
	B.selFacts = x.rootFacts
	return x
}

func init() {
	rebuildApp = func(b *Bank, name string, ret Sort, a []*Term) *Term {
		x := b.ex
		switch {
		case name == "slen":
			return x.slen(a[0])
		case name == "sat":
			return x.satAt(a[0], a[1])
		case name == "bts":
			return x.bts(a[0], a[1], a[2])
		case name == "scat":
			return x.scat(a[0], a[1])
		case name == "ssub":
			return x.ssub(a[0], a[1], a[2])
		case name == "schr":
			return x.schr(a[0])
		case name == "szero":
			return x.szero(a[0])
		case name == "arrOf":
			return x.arrOf(a[0])
		case name == "fsum":
			return x.fsum(a[0], a[1])
		case name == "nsum":
			return x.nsum(a[0], a[1])
		case name == "psum":
			return x.psum(a[0], a[1], a[2])
		case name == "beval":
			return x.beval(a[0])
		case name == "bebytes":
			return x.bebytes(a[0])
		case name == "twosval":
			return x.twosval(a[0])
		case name == "twosbytes":
			return x.twosbytes(a[0])
		case name == "hasPrefix":
			return x.hasPrefix(a[0], a[1])
		case name == "hexenc":
			return x.hexEnc(a[0])
		case name == "hexdec":
			return x.hexDec(a[0])
		case name == "errIs":
			return x.errIs(a[0], a[1])
		case name == "el.":
			return x.el(a[0], a[1])
		case strings.HasPrefix(name, "fa."):
			return x.fa(name[3:], a[0])
		case strings.HasPrefix(name, "mkI.") && name != "mkI.err" && name != "mkI.exterr" && !strings.HasPrefix(name, "mkI.fn."):
			if t := x.typeByMk(name); t != nil {
				return x.mkIface(x.unflat(a, t), t)
			}
		}
		t := b.App(name, ret, a...)
		if strings.HasPrefix(name, "splice.") && t.facts == nil && !t.bound {
			_, vs := splitArr(ret)
			return x.spliceG(a[0], a[1], a[2], a[3], a[4], vs)
		}
		return t
	}
}

// baseName is the function a case contract is about.
func baseName(n string) string {
	if i := strings.IndexByte(n, '@'); i >= 0 {
		return n[:i]
	}
	return n
}

// labelsOf gives stable names to the clauses of a contract.
func clauseLabel(kind string, i int, c *Clause) string {
	if c.Label != "" {
		return kind + "[" + c.Label + "]"
	}
	return fmt.Sprintf("%s[%d]", kind, i+1)
}

func verifyFunction(P *Program, S *Specs, c *Contract, budget time.Duration) (res *FuncResult) {
	t0 := time.Now()
	res = &FuncResult{Func: c.Func, File: c.File, By: map[string]int{}, Labels: map[string]string{}}
	fn := P.funcs[baseName(c.Func)]
	if fn == nil || len(fn.Blocks) == 0 {
		res.Status = "undecided"
		res.Err = "function not found in the source"
		res.Failed = []*VC{{Name: c.Func + "/supported", Status: "unknown", Detail: res.Err}}
		res.Total = 1
		return
	}
	ps := P.prog.Fset.Position(fn.Pos())
	res.Src = fmt.Sprintf("%s:%d", relPos(P.repo, ps.Filename), ps.Line)
	x := newExec(P, S)
	if d := os.Getenv("GOVC_DUMP"); d != "" {
		x.solver.dumpDir = d
	}
	defer x.solver.Close()
	x.task = c
	x.taskFn = fn
	x.noPanic = c.NoPanic
	x.startNs = time.Now().UnixNano()
	x.budgetNs = int64(budget)
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case unsupported:
					res.Err = e.msg
				case specErr:
					res.Err = "specification: " + e.msg
				default:
					res.Err = fmt.Sprintf("internal: %v", r)
					if os.Getenv("GOVC_DEBUG") != "" {
						debug.PrintStack()
					}
				}
			}
		}()
		st := &State{heap: map[string]*Term{}, nn: map[*Term]bool{}, pcset: map[*Term]bool{}}
		a0 := x.B.Const("alloc0", SInt)
		a0.addFact(x.B.Le(x.B.Int(1), a0))
		st.alloc = a0
		x.tagAlloc[0] = a0
		var args []V
		var pts []types.Type
		for _, p := range fn.Params {
			v := x.freshV(st, p.Name(), p.Type())
			args = append(args, v)
			pts = append(pts, p.Type())
		}
		var binds []V
		for _, fv := range fn.FreeVars {
			v := x.freshV(st, fv.Name(), fv.Type())
			if t, ok := v.(*Term); ok {
				x.assume(st, x.B.Not(x.B.Eq(t, x.B.Int(0))))
			}
			binds = append(binds, v)
		}
		e := x.contractEnv(st, nil, c, fn, args, pts)
		for i, p := range fn.Params {
			nm := p.Name()
			if i < len(c.Params) {
				nm = c.Params[i]
			}
			if b := c.Bind[nm]; b != nil {
				args[i] = e.eval(b).v
				e = x.contractEnv(st, nil, c, fn, args, pts)
			}
		}
		for i, fv := range fn.FreeVars {
			e.vars["$"+fv.Name()] = specVal{binds[i], fv.Type()}
			e.vars[fv.Name()] = specVal{binds[i], fv.Type()}
		}
		x.params = e.vars
		for _, r := range c.Requires {
			x.setGhosts(st, e, r.E)
		}
		x.evalAxioms(st)
		for _, r := range c.Requires {
			x.assume(st, e.bool(r.E))
		}
		for _, g := range c.Ghosts {
			x.assume(st, e.bool(g.E))
			x.trust["assumed in "+c.Func+": "+g.Text] = true
		}
		if r := x.solver.quickT(x, append(append([]*Term{}, x.axioms...), st.conds()...), 5000); r == "unsat" {
			x.vcs = append(x.vcs, &VC{Name: c.Func + "/vacuity", Status: "refuted", Detail: "preconditions are contradictory"})
		} else {
			x.vcs = append(x.vcs, &VC{Name: c.Func + "/vacuity", Status: "proved", Solver: "consistency(" + r + ")"})
		}
		x.entryLets = map[string]specVal{}
		le := e
		for _, l := range c.Lets {
			le = le.with(l.Name, le.eval(l.E))
			x.entryLets[l.Name] = le.vars[l.Name]
		}
		x.entry = x.snapshot(st)
		x.entryMC = x.B.nconst
		x.entry.pcset = st.pcset
		x.pushFrame(st, fn, args, binds, nil)
		if c.Setup {
			// frames run from the top: the initialisers first, in source order
			fs := P.initsOf(fn)
			for i := len(fs) - 1; i >= 0; i-- {
				st.top().pc-- // a return moves the frame below to its next instruction
				x.pushFrame(st, fs[i], nil, nil, nil)
			}
		}
		x.explore([]*State{st})
	}()
	x.wg.Wait()
	if res.Err != "" {
		x.vcs = append(x.vcs, &VC{Name: c.Func + "/supported", Status: "unknown", Detail: res.Err})
	} else if x.retPaths == 0 && !c.MayPanic {
		x.vcs = append(x.vcs, &VC{Name: c.Func + "/vacuity", Status: "unknown", Detail: "no path reaches a return"})
	}
	if res.Err == "" {
		for i, cv := range c.Covers {
			if !x.coverHit[i] {
				x.vcs = append(x.vcs, &VC{Name: c.Func + "/" + clauseLabel("cover", i, cv), Status: "unknown", Detail: "no feasible path satisfies " + cv.Text})
			}
		}
	}
	res.VCs = x.vcs
	for _, v := range x.vcs {
		res.Total++
		if v.Status == "proved" {
			res.Proved++
			res.By[v.Solver]++
		} else {
			res.Failed = append(res.Failed, v)
		}
		cur := res.Labels[v.Name]
		if v.Status != "proved" {
			if v.Status == "refuted" || cur != "refuted" {
				res.Labels[v.Name] = v.Status
			}
		} else if cur == "" {
			res.Labels[v.Name] = "proved"
		}
	}
	res.Status = "proved"
	if len(res.Failed) > 0 {
		res.Status = "failed"
	}
	res.Paths = x.retPaths
	res.Quick = x.solver.Quick
	res.SolverMs = x.solver.TotalMs + x.poolMs
	res.Ms = time.Since(t0).Milliseconds()
	res.Trust = keysOf(x.trust)
	res.Inlined = keysOf(x.inlined)
	res.Uses = keysOf(x.calledC)
	res.Notes = keysOf(x.loopNotes)
	res.Loops = x.houdini
	return
}

func keysOf(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// finish: the task function returns on this path.
func (x *Exec) finish(st *State, res V) {
	if x.trial > 0 {
		return
	}
	if !x.feasible(st) {
		return
	}
	x.retPaths++
	c := x.task
	e := &specEnv{x: x, st: st, old: x.entry, vars: map[string]specVal{}, pkg: strings.SplitN(c.Func, ".", 2)[0]}
	for k, v := range x.params {
		e.vars[k] = v
	}
	for k, v := range x.entryLets {
		e.vars[k] = v
	}
	e = bindResults(e, res, x.taskFn.Signature)
	for i, en := range c.Ensures {
		g := e.bool(en.E)
		x.checkGoal(st, c.Func+"/"+clauseLabel("ensures", i, en), g, en.Text)
	}
	for i := 0; i < x.taskFn.Signature.Results().Len(); i++ {
		if cl := c.Returns[i]; cl != nil {
			rn := fmt.Sprintf("result%d", i)
			g := e.eq(e.vars[rn], e.eval(cl.E), cl.E)
			x.checkGoal(st, c.Func+"/"+clauseLabel("returns", i, cl), g, cl.Text)
		}
	}
	for i, cv := range c.Covers {
		if !x.coverHit[i] {
			s2 := st.clone()
			if x.assume(s2, e.bool(cv.E)) && x.feasible(s2) {
				x.coverHit[i] = true
			}
		}
	}
	if !c.Setup {
		x.checkFrame(st, e)
	}
}

// checkGoal splits conjunctions and skolemises universal goals.
func (x *Exec) checkGoal(st *State, name string, g *Term, detail string) {
	if g.op == "and" {
		for _, a := range g.args {
			x.checkGoal(st, name, a, detail)
		}
		return
	}
	if g.op == "=>" && g.args[0] != x.B.True {
		s2 := st.clone()
		if !x.assume(s2, g.args[0]) {
			x.check(st, name, x.B.True, detail)
			return
		}
		x.checkGoal(s2, name, g.args[1], detail)
		return
	}
	x.check(st, name, x.skolem(g), detail)
}

func (x *Exec) checkFrame(st *State, e *specEnv) {
	c := x.task
	B := x.B
	name := c.Func + "/frame"
	pe := *e
	pe.st = x.entry
	ms := x.modTargets(&pe, c)
	if c.ModAll {
		ms = append(ms, modLoc{heap: allPat(c.Keeps), pat: true})
	}
	// whole-heap havocs performed on the path must be permitted
	for _, hv := range st.havocs[len(x.entry.havocs):] {
		ok := false
		for _, m := range ms {
			if m.pat && (patCovers(m.heap, hv.pat)) {
				ok = true
			}
		}
		if !ok {
			x.check(st, name, B.False, "callee may modify "+hv.pat)
			return
		}
	}
	var names []string
	for n := range st.heap {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		cur := st.heap[n]
		init, _ := x.lazyInit(x.entry, n)
		if cur == init {
			continue
		}
		if patHas(ms, n) {
			continue
		}
		srt := x.heapSort[n]
		if !strings.HasPrefix(string(srt), "(Array") || strings.HasPrefix(n, "$") || strings.HasPrefix(n, "G:") {
			allowed := false
			for _, m := range ms {
				if m.heap == n && m.loc == nil && m.in == nil {
					allowed = true
				}
			}
			if !allowed {
				x.check(st, name, B.Eq(cur, init), n)
			}
			continue
		}
		var locs, roots []*Term
		var ins []func(*Term) *Term
		for _, m := range ms {
			if m.in != nil && m.heap == n {
				ins = append(ins, m.in)
				roots = append(roots, m.root)
			}
			if !m.pat && m.heap == n && m.loc != nil {
				locs = append(locs, m.loc)
			}
		}
		// quick path: all stores at permitted or fresh locations
		idx := map[*Term]bool{}
		cnt := 0
		if storeIdx(cur, init, idx, &cnt) {
			ok := true
			for l := range idx {
				if B.freshLoc[l] || isFreshInterior(B, l) {
					continue
				}
				in := false
				for _, q := range locs {
					if q == l {
						in = true
					}
				}
				for _, q := range roots {
					e := l
					for e.op == "app" && strings.HasPrefix(e.name, "fa.") {
						e = e.args[0]
					}
					if e.op == "app" && e.name == "el." && e.args[0] == q {
						in = true
					}
				}
				if !in {
					ok = false
				}
			}
			if ok {
				x.check(st, name, B.True, n)
				continue
			}
		}
		L := B.Fresh("frameloc", SInt)
		L.addFact(B.Lt(B.App("age", SInt, L), x.entry.alloc))
		L.addFact(B.Imp(B.Eq(B.App("lk", SInt, L), B.Int(-1)), B.Eq(L, x.el(B.App("elb", SInt, L), B.App("eli", SInt, L)))))
		s2 := st.clone()
		dead := false
		for _, q := range locs {
			if !x.assume(s2, B.Not(B.Eq(L, q))) {
				dead = true
			}
		}
		for _, in := range ins {
			if !x.assume(s2, B.Not(in(L))) {
				dead = true
			}
		}
		if dead {
			continue
		}
		x.check(s2, name, B.Eq(B.Select(cur, L), B.Select(init, L)), "only declared locations of "+n+" change")
	}
}

func isFreshInterior(B *Bank, l *Term) bool {
	for l.op == "app" && (strings.HasPrefix(l.name, "fa.") || l.name == "el.") {
		l = l.args[0]
		if B.freshLoc[l] {
			return true
		}
	}
	return false
}

func patHas(ms []modLoc, n string) bool {
	for _, m := range ms {
		if m.heap == "*" && m.pat && (strings.HasPrefix(n, "G:") || strings.HasPrefix(n, "$")) {
			continue
		}
		if m.pat && patMatch(m.heap, n) {
			return true
		}
	}
	return false
}

func patCovers(own, other string) bool {
	if own == "*" || own == other {
		return true
	}
	if strings.HasPrefix(own, "*!") {
		for _, k := range strings.Split(own[2:], "|") {
			ok := false
			if strings.HasPrefix(other, "*!") {
				for _, q := range strings.Split(other[2:], "|") {
					ok = ok || patCovers(q, k)
				}
			} else if other != "*" {
				a, b := strings.TrimSuffix(k, "*"), strings.TrimSuffix(other, "*")
				ok = !strings.HasPrefix(a, b) && !strings.HasPrefix(b, a)
			}
			if !ok {
				return false
			}
		}
		return true
	}
	if strings.HasSuffix(own, "*") {
		return strings.HasPrefix(strings.TrimSuffix(other, "*"), own[:len(own)-1])
	}
	return false
}

// setGhosts gives the ghost variables that a precondition equates with a value that value.
func (x *Exec) setGhosts(st *State, e *specEnv, ex *Expr) {
	ghost := func(g *Expr) bool {
		_, ok := x.S.GhostVars[g.Name]
		return g.Op == "ident" && ok
	}
	switch {
	case ex.Op == "bin" && ex.Name == "&&":
		x.setGhosts(st, e, ex.A[0])
		x.setGhosts(st, e, ex.A[1])
	case ex.Op == "bin" && ex.Name == "==" && ghost(ex.A[0]):
		g := ex.A[0]
		if t, ok := e.eval(ex.A[1]).v.(*Term); ok && t.sort == ghostSort(x.S.GhostVars[g.Name]) {
			e.eval(g)
			st.heap[g.Name] = t
		}
	case ghost(ex):
		e.eval(ex)
		st.heap[ex.Name] = x.B.Bool(true)
	case ex.Op == "un" && ex.Name == "!" && ghost(ex.A[0]):
		e.eval(ex.A[0])
		st.heap[ex.A[0].Name] = x.B.Bool(false)
	}
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func nowNs() int64 { return time.Now().UnixNano() }

// ---------- driver ----------

// explore runs states until the worklist is exhausted.
func (x *Exec) explore(init []*State) {
	save := x.work
	x.work = append([]*State{}, init...)
	defer func() { x.work = save }()
	for len(x.work) > 0 {
		st := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.run(st)
	}
}

// run executes a state until its path ends or forks.
func (x *Exec) run(st *State) {
	for {
		x.steps++
		if x.steps > 3000000 {
			unsup("step limit")
		}
		if x.steps&255 == 0 && x.budgetNs > 0 && nowNs()-x.startNs > x.budgetNs {
			unsup("time budget exhausted")
		}
		f := st.top()
		if f.pc >= len(f.block.Instrs) {
			panic("fell off block")
		}
		in := f.block.Instrs[f.pc]
		switch in := in.(type) {
		case *ssa.If:
			c := x.val(st, in.Cond).(*Term)
			t, e := f.block.Succs[0], f.block.Succs[1]
			if c == x.B.True {
				if !x.edge(st, f.block, t) {
					return
				}
				continue
			}
			if c == x.B.False {
				if !x.edge(st, f.block, e) {
					return
				}
				continue
			}
			if st.pcset[c] {
				if !x.edge(st, f.block, t) {
					return
				}
				continue
			}
			if st.pcset[x.B.Not(c)] {
				if !x.edge(st, f.block, e) {
					return
				}
				continue
			}
			st2 := st.clone()
			p := in.Cond.Pos()
			a := x.assume(st, c)
			b := x.assume(st2, x.B.Not(c))
			fa := a && x.feasible(st)
			fb := b && (!fa || x.feasible(st2))
			if fa && fb {
				x.paths++
				if x.paths > x.maxPaths {
					unsup("path limit (%d)", x.maxPaths)
				}
				st2.trace = append(st2.trace, x.pos(p)+":else")
				st.trace = append(st.trace, x.pos(p)+":then")
			}
			if fa && fb && x.merging() {
				if j := x.joinBlock(f.fn, f.block); j != nil {
					from := f.block
					x.forkMerge(&join{uid: f.uid, to: j}, func() {
						if x.edge(st2, from, e) {
							x.work = append(x.work, st2)
						}
						if x.edge(st, from, t) {
							x.work = append(x.work, st)
						}
					})
					return
				}
			}
			if fb {
				if x.edge(st2, st2.top().block, e) {
					x.work = append(x.work, st2)
				}
			}
			if !fa {
				return
			}
			if !x.edge(st, f.block, t) {
				return
			}
		case *ssa.Jump:
			if !x.edge(st, f.block, f.block.Succs[0]) {
				return
			}
		case *ssa.Return:
			if !x.doReturn(st, in) {
				return
			}
		case *ssa.Panic:
			x.panicPath(st, "panic", in.Pos())
			return
		default:
			if !x.instr(st, in) {
				return
			}
		}
	}
}

// panicPath is reached when the program panics on this path.
func (x *Exec) panicPath(st *State, kind string, pos token.Pos) {
	if x.noPanic {
		x.check(st, x.task.Func+"/nopanic", x.B.False, kind+" at "+x.pos(pos))
	}
}

// guard: condition that must hold to avoid a panic. Returns false if path dead.
func (x *Exec) guard(st *State, c *Term, kind string, pos token.Pos) bool {
	if c == x.B.True || st.pcset[c] {
		return true
	}
	if x.noPanic && x.trial == 0 {
		x.check(st, x.task.Func+"/nopanic", c, kind+" at "+x.pos(pos))
	}
	if !x.assume(st, c) {
		return false
	}
	return true
}

func (x *Exec) nonNil(st *State, p V, kind string, pos token.Pos) bool {
	switch a := p.(type) {
	case *AddrV, *ClosureV:
		return true
	case *Term:
		if st.nn[a] || x.B.freshLoc[a] {
			return true
		}
		if a.op == "app" && strings.HasPrefix(a.name, "fa.") && (st.nn[a.args[0]] || a.name == "fa.glob") {
			return true
		}
		if !x.guard(st, x.B.Not(x.B.Eq(a, x.B.Int(0))), "nil dereference ("+kind+")", pos) {
			return false
		}
		st.nn[a] = true
	}
	return true
}

// ---------- control flow ----------

func (x *Exec) edge(st *State, from, to *ssa.BasicBlock) bool {
	f := st.top()
	f.prev = from
	// hooks: trial exploration of a loop
	if len(x.hooks) > 0 {
		h := x.hooks[len(x.hooks)-1]
		if f.uid == h.uid {
			if to == h.header && h.body[from] {
				f.block = to
				h.back = append(h.back, st)
				return false
			}
			if !h.body[to] {
				h.exits++
				return false
			}
		}
	}
	if len(x.joins) > 0 {
		if x.joined(to, f.uid) {
			x.enter(st, from, to)
			x.arrive(st, to, f.uid, "")
			return false
		}
	}
	lf := x.loopsOf(f.fn)
	if body, isHeader := lf.headers[to]; isHeader {
		if body[from] {
			// back edge
			if cut := f.loops[to]; cut != nil {
				return false // invariant preservation established by the loop procedure
			}
			if n, ok := f.unroll[to]; ok {
				f.unroll[to] = n + 1
				if n > 300 {
					unsup("unroll limit in %s", canonFunc(f.fn))
				}
				x.enter(st, from, to)
				return true
			}
		}
		// entering the loop from outside
		delete(f.loops, to)
		delete(f.unroll, to)
		return x.enterLoop(st, from, to, body)
	}
	x.enter(st, from, to)
	return true
}

// enter evaluates phis and moves to the block.
func (x *Exec) enter(st *State, from, to *ssa.BasicBlock) {
	f := st.top()
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
			break
		}
	}
	var vals []V
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, x.val(st, ph.Edges[idx]))
	}
	for i, ph := range phis {
		f.env[ph] = vals[i]
	}
	f.block = to
	f.pc = len(phis)
}

func (x *Exec) val(st *State, v ssa.Value) V {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constV(c)
	case *ssa.Global:
		return x.globalAddr(c)
	case *ssa.Function:
		return &ClosureV{Fn: c}
	case *ssa.Builtin:
		return nil
	}
	f := st.top()
	r, ok := f.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), f.fn))
	}
	return r
}

func (x *Exec) pushFrame(st *State, fn *ssa.Function, args []V, binds []V, ret ssa.Value) *Frame {
	x.uidCtr++
	f := &Frame{fn: fn, env: map[ssa.Value]V{}, block: fn.Blocks[0], ret: ret, loops: map[*ssa.BasicBlock]*loopCut{}, unroll: map[*ssa.BasicBlock]int{}, iters: map[*ssa.BasicBlock]*Term{}, uid: x.uidCtr}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.env[p] = binds[i]
	}
	st.frames = append(st.frames, f)
	return f
}

func (x *Exec) doReturn(st *State, in *ssa.Return) bool {
	f := st.top()
	if len(x.hooks) > 0 && x.hooks[len(x.hooks)-1].uid == f.uid {
		return false
	}
	var res V
	switch len(in.Results) {
	case 0:
		res = nil
	case 1:
		res = x.val(st, in.Results[0])
	default:
		tv := &TupleV{}
		for _, r := range in.Results {
			tv.F = append(tv.F, x.val(st, r))
		}
		res = tv
	}
	return x.popFrame(st, res)
}

func (x *Exec) popFrame(st *State, res V) bool {
	f := st.top()
	if len(st.frames) == 1 {
		x.finish(st, res)
		return false
	}
	st.frames = st.frames[:len(st.frames)-1]
	if f.onRet != nil {
		res = f.onRet(st, res)
	}
	c := st.top()
	if f.discard {
		// deferred call: re-execute the RunDefers instruction
		return true
	}
	if f.ret != nil {
		c.env[f.ret] = res
	}
	c.pc++
	if len(x.joins) > 0 && x.arrive(st, nil, f.uid, retKey(f.fn.Signature.Results(), res)) {
		return false
	}
	return true
}

// ---------- instructions ----------

func (x *Exec) instr(st *State, in ssa.Instruction) bool {
	f := st.top()
	B := x.B
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := i.Type().(*types.Pointer).Elem()
		loc := x.newLoc(st, shortType(t))
		if !isOpaqueStruct(t) {
			x.zeroAt(st, loc, t)
		}
		f.env[i] = loc
	case *ssa.UnOp:
		return x.unop(st, i)
	case *ssa.BinOp:
		if p, isPhi := i.X.(*ssa.Phi); isPhi && i.Op == token.ADD && rangeIndex(p) {
			if a, ok := x.val(st, i.X).(*Term); ok {
				f.env[i] = B.Add(a, B.Int(1))
				break
			}
		}
		v, ok := x.binop(st, i.Op, x.val(st, i.X), x.val(st, i.Y), i.X.Type(), i.Y.Type(), i.Type(), i.Pos())
		if !ok {
			return false
		}
		f.env[i] = v
	case *ssa.Store:
		p := x.val(st, i.Addr)
		if !x.nonNil(st, p, "store", i.Pos()) {
			return false
		}
		x.storePtr(st, p, i.Val.Type(), x.val(st, i.Val))
	case *ssa.FieldAddr:
		p := x.val(st, i.X)
		if !x.nonNil(st, p, "field "+fieldName(i), i.Pos()) {
			return false
		}
		t := i.X.Type().Underlying().(*types.Pointer).Elem()
		loc, ok := p.(*Term)
		if !ok {
			unsup("field of %T", p)
		}
		f.env[i] = x.fieldPtr(loc, t, i.Field)
	case *ssa.Field:
		s := x.val(st, i.X)
		sv, ok := s.(*StructV)
		if !ok {
			unsup("field of %T", s)
		}
		f.env[i] = sv.F[i.Field]
	case *ssa.IndexAddr:
		return x.indexAddr(st, i)
	case *ssa.Index:
		idx := x.val(st, i.Index).(*Term)
		switch i.X.Type().Underlying().(type) {
		case *types.Array:
			a := x.val(st, i.X).(*ArrV)
			n := i.X.Type().Underlying().(*types.Array).Len()
			if !x.guard(st, B.And(B.Le(B.Int(0), idx), B.Lt(idx, B.Int(n))), "index", i.Pos()) {
				return false
			}
			var ts []*Term
			for _, l := range a.Leaf {
				ts = append(ts, B.Select(l, idx))
			}
			v := x.unflat(ts, i.Type())
			x.typed(st, v, i.Type())
			f.env[i] = v
		default: // string
			s := x.val(st, i.X).(*Term)
			if !x.guard(st, B.And(B.Le(B.Int(0), idx), B.Lt(idx, x.slen(s))), "index", i.Pos()) {
				return false
			}
			f.env[i] = x.satAt(s, idx)
		}
	case *ssa.Lookup:
		if mt, ok := i.X.Type().Underlying().(*types.Map); ok {
			m := x.val(st, i.X).(*Term)
			k := x.val(st, i.Index)
			has, v := x.mapGet(st, m, mt, k)
			if i.CommaOk {
				f.env[i] = &TupleV{F: []V{v, has}}
			} else {
				f.env[i] = v
			}
		} else {
			s := x.val(st, i.X).(*Term)
			idx := x.val(st, i.Index).(*Term)
			if !x.guard(st, B.And(B.Le(B.Int(0), idx), B.Lt(idx, x.slen(s))), "index", i.Pos()) {
				return false
			}
			f.env[i] = x.satAt(s, idx)
		}
	case *ssa.MapUpdate:
		m := x.val(st, i.Map).(*Term)
		if !x.nonNil(st, m, "map assignment", i.Pos()) {
			return false
		}
		x.mapSet(st, m, i.Map.Type().Underlying().(*types.Map), x.val(st, i.Key), x.val(st, i.Value))
	case *ssa.MakeMap:
		mt := i.Type().Underlying().(*types.Map)
		f.env[i] = x.makeMap(st, mt)
	case *ssa.MakeSlice:
		return x.makeSlice(st, i)
	case *ssa.MakeChan:
		f.env[i] = x.newLoc(st, "chan")
	case *ssa.MakeInterface:
		f.env[i] = x.mkIface(x.val(st, i.X), i.X.Type())
	case *ssa.MakeClosure:
		c := &ClosureV{Fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			c.Binds = append(c.Binds, x.val(st, b))
		}
		f.env[i] = c
	case *ssa.ChangeInterface:
		f.env[i] = x.val(st, i.X)
	case *ssa.ChangeType:
		v := x.val(st, i.X)
		if s, ok := v.(*StructV); ok {
			v = &StructV{T: i.Type(), F: s.F}
		}
		f.env[i] = v
	case *ssa.Convert:
		f.env[i] = x.convert(st, x.val(st, i.X), i.X.Type(), i.Type())
	case *ssa.TypeAssert:
		return x.typeAssert(st, i)
	case *ssa.Extract:
		f.env[i] = x.val(st, i.Tuple).(*TupleV).F[i.Index]
	case *ssa.Slice:
		return x.sliceOp(st, i)
	case *ssa.Range:
		if mt, ok := i.X.Type().Underlying().(*types.Map); ok {
			m := x.val(st, i.X).(*Term)
			ks := leavesOf(mt.Key())[0].sort
			x.tagCtr++
			f.env[i] = &MapIterV{M: m, MT: mt, Visited: B.KArr(ArrSort(ks, SBool), B.False), Count: B.Int(0), id: x.tagCtr}
		} else {
			unsup("range over string")
		}
	case *ssa.Next:
		return x.next(st, i)
	case *ssa.Call:
		return x.call(st, i.Common(), i, i.Pos())
	case *ssa.Defer:
		d := deferred{call: i.Common(), pos: i.Pos()}
		for _, a := range i.Common().Args {
			d.args = append(d.args, x.val(st, a))
		}
		if i.Common().IsInvoke() {
			d.fnv = x.val(st, i.Common().Value)
		} else if _, isB := i.Common().Value.(*ssa.Builtin); !isB {
			d.fnv = x.val(st, i.Common().Value)
		}
		f.defers = append(f.defers, d)
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			return x.runDeferred(st, d)
		}
	case *ssa.Go:
		unsup("go statement in %s", canonFunc(f.fn))
	case *ssa.Select, *ssa.Send:
		unsup("channel operation in %s", canonFunc(f.fn))
	default:
		unsup("instruction %T in %s", in, canonFunc(f.fn))
	}
	f.pc++
	return true
}

func fieldName(i *ssa.FieldAddr) string {
	t := i.X.Type().Underlying().(*types.Pointer).Elem()
	return t.Underlying().(*types.Struct).Field(i.Field).Name()
}

func shortType(t types.Type) string {
	k := typeKey(t)
	if j := strings.LastIndex(k, "."); j >= 0 {
		k = k[j+1:]
	}
	return k
}

func (x *Exec) unop(st *State, i *ssa.UnOp) bool {
	f := st.top()
	B := x.B
	switch i.Op {
	case token.MUL:
		if g, ok := i.X.(*ssa.Global); ok {
			f.env[i] = x.loadGlobal(st, g)
			break
		}
		p := x.val(st, i.X)
		if !x.nonNil(st, p, "load", i.Pos()) {
			return false
		}
		f.env[i] = x.loadPtr(st, p, i.Type())
	case token.NOT:
		f.env[i] = B.Not(x.val(st, i.X).(*Term))
	case token.SUB:
		f.env[i] = x.wrap(B.Neg(x.val(st, i.X).(*Term)), i.Type())
	case token.XOR:
		_, hi, _ := intRange(i.Type())
		v := x.val(st, i.X).(*Term)
		bt := under(i.Type()).(*types.Basic)
		if _, signed := intBits(bt); signed {
			f.env[i] = B.Sub(B.Int(-1), v)
		} else {
			f.env[i] = B.Sub(B.BigInt(hi), v)
		}
	case token.ARROW:
		unsup("channel receive")
	default:
		unsup("unop %s", i.Op)
	}
	f.pc++
	return true
}

// wrap reduces a mathematical integer into the machine type.
func (x *Exec) wrap(t *Term, ty types.Type) *Term {
	lo, hi, ok := intRange(ty)
	if !ok {
		return t
	}
	B := x.B
	span := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	if t.isInt() {
		v := new(big.Int).Sub(t.val, lo)
		v.Mod(v, span)
		return B.BigInt(v.Add(v, lo))
	}
	in := B.And(B.Le(B.BigInt(lo), t), B.Le(t, B.BigInt(hi)))
	if in == B.True {
		return t
	}
	m := B.Add(B.Mod(B.Sub(t, B.BigInt(lo)), B.BigInt(span)), B.BigInt(lo))
	return B.Ite(in, t, m)
}

// wrap1: t known to be within one span of the range.
func (x *Exec) wrapAdd(t *Term, ty types.Type) *Term {
	lo, hi, ok := intRange(ty)
	if !ok {
		return t
	}
	if t.isInt() {
		return x.wrap(t, ty)
	}
	B := x.B
	span := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	return B.Ite(B.Lt(B.BigInt(hi), t), B.Sub(t, B.BigInt(span)), B.Ite(B.Lt(t, B.BigInt(lo)), B.Add(t, B.BigInt(span)), t))
}

// simple bounds: lengths and small sums never overflow int
func (x *Exec) smallInt(t *Term) bool {
	l := x.B.linOf(t)
	lim := big.NewInt(1 << 50)
	if l.c.CmpAbs(lim) > 0 || len(l.ts) > 64 {
		return false
	}
	for i, k := range l.ks {
		if k.CmpAbs(big.NewInt(1024)) > 0 {
			return false
		}
		a := l.ts[i]
		if a.op == "app" && (a.name == "slen") {
			continue
		}
		ok := false
		for _, f := range a.facts {
			if upperBounded(f, a) {
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func upperBounded(f, a *Term) bool {
	lim := new(big.Int).Lsh(big.NewInt(1), maxLenBits)
	if f.op == "and" {
		lo, hi := false, false
		for _, g := range f.args {
			if g.op == "<=" && g.args[1] == a && g.args[0].isInt() && g.args[0].val.CmpAbs(lim) <= 0 {
				lo = true
			}
			if g.op == "<=" && g.args[0] == a && g.args[1].isInt() && g.args[1].val.CmpAbs(lim) <= 0 {
				hi = true
			}
			// slice fact: 0<=o,0<=l<=c, o+c<=2^47
			if g.op == "<=" && g.args[1].isInt() && g.args[1].val.Cmp(lim) == 0 && g.args[0].op == "+" {
				for _, t := range f.args {
					if t.op == "<=" && t.args[0].isInt() && t.args[0].val.Sign() == 0 && t.args[1] == a {
						return true
					}
					if t.op == "<=" && t.args[1] == a && containsArg(g.args[0], a) {
						return true
					}
				}
			}
		}
		return lo && hi
	}
	return false
}

func containsArg(s, a *Term) bool {
	for _, t := range s.args {
		if t == a {
			return true
		}
	}
	return false
}

func (x *Exec) binop(st *State, op token.Token, a, b V, ta, tb, tr types.Type, pos token.Pos) (V, bool) {
	B := x.B
	switch op {
	case token.EQL, token.NEQ:
		r := x.eqVal(st, a, b, ta, tb)
		if op == token.NEQ {
			r = B.Not(r)
		}
		return r, true
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsup("binop %s on %T %T", op, a, b)
	}
	if isString(ta) {
		switch op {
		case token.ADD:
			return x.scat(p, q), true
		case token.LSS:
			return x.strLess(p, q), true
		case token.GTR:
			return x.strLess(q, p), true
		case token.LEQ:
			return B.Not(x.strLess(q, p)), true
		case token.GEQ:
			return B.Not(x.strLess(p, q)), true
		}
	}
	if isBool(ta) {
		switch op {
		case token.AND:
			return B.And(p, q), true
		case token.OR:
			return B.Or(p, q), true
		}
	}
	if !isInteger(ta) {
		// floats: opaque
		switch op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return B.App("flt"+op.String(), SBool, p, q), true
		}
		return B.App("flt"+op.String(), SInt, p, q), true
	}
	switch op {
	case token.LSS:
		return B.Lt(p, q), true
	case token.LEQ:
		return B.Le(p, q), true
	case token.GTR:
		return B.Gt(p, q), true
	case token.GEQ:
		return B.Ge(p, q), true
	case token.ADD:
		s := B.Add(p, q)
		if x.smallInt(s) && is64(tr) {
			return s, true
		}
		return x.wrapAdd(s, tr), true
	case token.SUB:
		s := B.Sub(p, q)
		if x.smallInt(s) && isSigned64(tr) {
			return s, true
		}
		return x.wrapAdd(s, tr), true
	case token.MUL:
		s := x.mulT(p, q)
		if x.smallInt(s) && is64(tr) {
			return s, true
		}
		return x.wrap(s, tr), true
	case token.QUO:
		if !x.guard(st, B.Not(B.Eq(q, B.Int(0))), "division by zero", pos) {
			return nil, false
		}
		return x.wrap(x.tdiv(p, q, tr), tr), true
	case token.REM:
		if !x.guard(st, B.Not(B.Eq(q, B.Int(0))), "division by zero", pos) {
			return nil, false
		}
		return x.trem(p, q, tr), true
	case token.SHL:
		if q.isInt() && q.val.IsInt64() && q.val.Int64() < 512 {
			return x.wrap(B.Mul(p, B.BigInt(new(big.Int).Lsh(big.NewInt(1), uint(q.val.Int64())))), tr), true
		}
		return x.wrap(x.mulT(p, x.pow2(q)), tr), true
	case token.SHR:
		if q.isInt() && q.val.IsInt64() && q.val.Int64() < 512 {
			return B.Div(p, B.BigInt(new(big.Int).Lsh(big.NewInt(1), uint(q.val.Int64())))), true
		}
		return B.App("divp", SInt, p, x.pow2(q)), true
	case token.AND:
		return x.bitAnd(p, q, tr), true
	case token.OR:
		return B.Sub(B.Add(p, q), x.bitAnd(p, q, tr)), true
	case token.XOR:
		return B.Sub(B.Add(p, q), B.Mul(B.Int(2), x.bitAnd(p, q, tr))), true
	case token.AND_NOT:
		return B.Sub(p, x.bitAnd(p, q, tr)), true
	}
	unsup("binop %s", op)
	return nil, false
}

func is64(t types.Type) bool {
	b := under(t).(*types.Basic)
	n, _ := intBits(b)
	return n == 64
}
func isSigned64(t types.Type) bool {
	b := under(t).(*types.Basic)
	n, s := intBits(b)
	return n == 64 && s
}

func (x *Exec) mulT(p, q *Term) *Term {
	B := x.B
	r := B.Mul(p, q)
	if r.op == "*" && !r.args[0].isInt() && !r.args[1].isInt() && r.facts == nil && !r.bound {
		a, b := r.args[0], r.args[1]
		z := B.Int(0)
		one := B.Int(1)
		r.addFact(B.Imp(B.Or(B.Eq(a, z), B.Eq(b, z)), B.mk(&Term{op: "=", args: []*Term{r, z}, sort: SBool})))
		r.addFact(B.Imp(B.And(B.Le(one, a), B.Le(one, b)), B.And(B.Le(a, r), B.Le(b, r))))
		r.addFact(B.Imp(B.Eq(b, one), B.Eq(r, a)))
		r.addFact(B.Imp(B.Eq(a, one), B.Eq(r, b)))
	}
	return r
}

func (x *Exec) pow2(q *Term) *Term {
	if q.isInt() && q.val.IsInt64() && q.val.Int64() >= 0 && q.val.Int64() < 4096 {
		return x.B.BigInt(new(big.Int).Lsh(big.NewInt(1), uint(q.val.Int64())))
	}
	t := x.B.App("pow2", SInt, q)
	if t.facts == nil && !t.bound {
		t.addFact(x.B.Le(x.B.Int(1), t))
		t.addFact(x.B.Imp(x.B.Eq(q, x.B.Int(0)), x.B.Eq(t, x.B.Int(1))))
	}
	return t
}

// truncated division/remainder
func (x *Exec) tdiv(p, q *Term, ty types.Type) *Term {
	B := x.B
	nonneg := false
	if ty != nil {
		if lo, _, ok := intRange(ty); ok && lo.Sign() == 0 {
			nonneg = true
		}
	}
	if nonneg || (x.knownNonNeg(p) && q.isInt() && q.val.Sign() > 0) {
		return x.divFacts(p, q)
	}
	// sign-aware
	ap, aq := x.absT(p), x.absT(q)
	d := x.divFacts(ap, aq)
	same := B.Eq(B.Le(B.Int(0), p), B.Le(B.Int(0), q))
	return B.Ite(same, d, B.Neg(d))
}

func (x *Exec) divFacts(p, q *Term) *Term {
	B := x.B
	d := B.Div(p, q)
	if d.op == "div" && !q.isInt() && d.facts == nil && !d.bound {
		m := x.mulT(d, q)
		d.addFact(B.Imp(B.And(B.Le(B.Int(0), p), B.Lt(B.Int(0), q)), B.And(B.Le(B.Int(0), d), B.Le(m, p), B.Lt(B.Sub(p, m), q), B.Le(d, p))))
		d.addFact(B.Imp(B.Eq(q, B.Int(1)), B.mk(&Term{op: "=", args: []*Term{d, p}, sort: SBool})))
	}
	return d
}

func (x *Exec) trem(p, q *Term, ty types.Type) *Term {
	B := x.B
	if ty != nil {
		if lo, _, ok := intRange(ty); ok && lo.Sign() == 0 {
			if q.isInt() {
				return B.Mod(p, q)
			}
			return B.Sub(p, x.mulT(x.divFacts(p, q), q))
		}
	}
	if x.knownNonNeg(p) && q.isInt() && q.val.Sign() > 0 {
		return B.Mod(p, q)
	}
	return B.Sub(p, x.mulT(x.tdiv(p, q, nil), q))
}

func (x *Exec) bitAnd(p, q *Term, ty types.Type) *Term {
	B := x.B
	if p.isInt() && !q.isInt() {
		p, q = q, p
	}
	if q.isInt() && q.val.Sign() >= 0 {
		if p.isInt() && p.val.Sign() >= 0 {
			return B.BigInt(new(big.Int).And(p.val, q.val))
		}
		m := q.val
		// contiguous runs of bits
		res := B.Int(0)
		i := 0
		for i < m.BitLen() {
			if m.Bit(i) == 0 {
				i++
				continue
			}
			j := i
			for j < m.BitLen() && m.Bit(j) == 1 {
				j++
			}
			lo := new(big.Int).Lsh(big.NewInt(1), uint(i))
			w := new(big.Int).Lsh(big.NewInt(1), uint(j-i))
			part := B.Mul(B.Mod(B.Div(p, B.BigInt(lo)), B.BigInt(w)), B.BigInt(lo))
			res = B.Add(res, part)
			i = j
		}
		return res
	}
	if p.id > q.id {
		p, q = q, p
	}
	t := B.App("bvand", SInt, p, q)
	if t.facts == nil && !t.bound {
		t.addFact(B.Imp(B.And(B.Le(B.Int(0), p), B.Le(B.Int(0), q)), B.And(B.Le(B.Int(0), t), B.Le(t, p), B.Le(t, q))))
	}
	return t
}

func (x *Exec) strLess(p, q *Term) *Term {
	if p.op == "strlit" && q.op == "strlit" {
		return x.B.Bool(p.name < q.name)
	}
	return x.B.App("strless", SBool, p, q)
}

func (x *Exec) eqVal(st *State, a, b V, ta, tb types.Type) *Term {
	B := x.B
	if sa, ok := a.(*SliceV); ok {
		sb, ok2 := b.(*SliceV)
		if !ok2 {
			unsup("slice comparison")
		}
		if sb.B.isInt() {
			return B.Eq(sa.B, sb.B)
		}
		if sa.B.isInt() {
			return B.Eq(sa.B, sb.B)
		}
		return x.eqV(a, b, ta)
	}
	if _, ok := a.(*ClosureV); ok {
		if t, isT := b.(*Term); isT && t.isInt() {
			return B.False
		}
	}
	if _, ok := b.(*ClosureV); ok {
		if t, isT := a.(*Term); isT && t.isInt() {
			return B.False
		}
	}
	if isString(ta) {
		return x.strEq(a.(*Term), b.(*Term))
	}
	if isIface(ta) != isIface(tb) {
		if isIface(ta) {
			return B.Eq(a.(*Term), x.mkIface(b, tb))
		}
		return B.Eq(x.mkIface(a, ta), b.(*Term))
	}
	if s, ok := under(ta).(*types.Struct); ok {
		sa, sb := a.(*StructV), b.(*StructV)
		var cs []*Term
		for i := range sa.F {
			cs = append(cs, x.eqVal(st, sa.F[i], sb.F[i], s.Field(i).Type(), s.Field(i).Type()))
		}
		return B.And(cs...)
	}
	if ar, ok := under(ta).(*types.Array); ok {
		aa, ab := a.(*ArrV), b.(*ArrV)
		if ar.Len() <= 64 {
			var cs []*Term
			for i := int64(0); i < ar.Len(); i++ {
				for k := range aa.Leaf {
					cs = append(cs, B.Eq(B.Select(aa.Leaf[k], B.Int(i)), B.Select(ab.Leaf[k], B.Int(i))))
				}
			}
			return B.And(cs...)
		}
		unsup("array comparison")
	}
	_, aa := a.(*AddrV)
	_, ab := b.(*AddrV)
	if aa || ab {
		if t, ok := b.(*Term); ok && t.isInt() {
			return B.False
		}
		return x.eqV(a, b, ta)
	}
	return B.Eq(a.(*Term), b.(*Term))
}

func (x *Exec) indexAddr(st *State, i *ssa.IndexAddr) bool {
	f := st.top()
	B := x.B
	idx := x.val(st, i.Index).(*Term)
	switch u := i.X.Type().Underlying().(type) {
	case *types.Slice:
		s := x.val(st, i.X).(*SliceV)
		if !x.guard(st, B.And(B.Le(B.Int(0), idx), B.Lt(idx, s.L)), "index out of range", i.Pos()) {
			return false
		}
		f.env[i] = x.elemAddr(s.B, B.Add(s.O, idx), u.Elem())
	case *types.Pointer:
		arr := u.Elem().Underlying().(*types.Array)
		loc := x.val(st, i.X).(*Term)
		if !x.nonNil(st, loc, "array", i.Pos()) {
			return false
		}
		if !x.guard(st, B.And(B.Le(B.Int(0), idx), B.Lt(idx, B.Int(arr.Len()))), "index out of range", i.Pos()) {
			return false
		}
		f.env[i] = x.elemAddr(loc, idx, arr.Elem())
	default:
		unsup("IndexAddr %s", i.X.Type())
	}
	f.pc++
	return true
}

func (x *Exec) makeSlice(st *State, i *ssa.MakeSlice) bool {
	f := st.top()
	B := x.B
	l := x.val(st, i.Len).(*Term)
	c := x.val(st, i.Cap).(*Term)
	lim := B.BigInt(new(big.Int).Lsh(big.NewInt(1), maxLenBits))
	if !x.guard(st, B.And(B.Le(B.Int(0), l), B.Le(l, c)), "make: negative length", i.Pos()) {
		return false
	}
	// an allocation beyond the address space panics; treated as not returning
	if !x.assume(st, B.Le(c, lim)) {
		return false
	}
	et := i.Type().Underlying().(*types.Slice).Elem()
	f.env[i] = x.newSlice(st, et, l, c)
	f.pc++
	return true
}

func (x *Exec) newSlice(st *State, et types.Type, l, c *Term) *SliceV {
	B := x.B
	base := x.newLoc(st, "arr")
	if isAgg(et) {
		if c.isInt() && c.val.IsInt64() && c.val.Int64() <= 8 {
			for k := int64(0); k < c.val.Int64(); k++ {
				x.zeroAt(st, x.el(base, B.Int(k)), et)
			}
		} else if s, ok := under(et).(*types.Struct); ok {
			// quantified zero-initialisation
			v := B.Var("zi", SInt)
			for k := 0; k < s.NumFields(); k++ {
				ft := s.Field(k).Type()
				if isAgg(ft) {
					continue
				}
				for _, lf := range leavesOf(ft) {
					h := x.H(st, "F:"+structKey(et)+"."+s.Field(k).Name()+lf.suf, ArrSort(SInt, lf.sort))
					e := B.Select(h, x.el(base, v))
					x.assume(st, B.Forall([]*Term{v}, B.Eq(e, x.zeroTerm(lf.sort)), [][]*Term{{e}}))
				}
			}
		}
	} else {
		for _, lf := range leavesOf(et) {
			n := "E:" + typeKey(et) + lf.suf
			h := x.H(st, n, ArrSort(SInt, ArrSort(SInt, lf.sort)))
			x.setH(st, n, B.Store(h, base, B.KArr(ArrSort(SInt, lf.sort), x.zeroTerm(lf.sort))))
		}
	}
	return &SliceV{base, B.Int(0), l, c}
}

func (x *Exec) sliceOp(st *State, i *ssa.Slice) bool {
	f := st.top()
	B := x.B
	var lo, hi, mx *Term
	if i.Low != nil {
		lo = x.val(st, i.Low).(*Term)
	} else {
		lo = B.Int(0)
	}
	if i.High != nil {
		hi = x.val(st, i.High).(*Term)
	}
	if i.Max != nil {
		mx = x.val(st, i.Max).(*Term)
	}
	switch u := i.X.Type().Underlying().(type) {
	case *types.Slice:
		s := x.val(st, i.X).(*SliceV)
		if hi == nil {
			hi = s.L
		}
		if mx == nil {
			mx = s.C
		}
		if !x.guard(st, B.And(B.Le(B.Int(0), lo), B.Le(lo, hi), B.Le(hi, mx), B.Le(mx, s.C)), "slice bounds", i.Pos()) {
			return false
		}
		f.env[i] = &SliceV{s.B, B.Add(s.O, lo), B.Sub(hi, lo), B.Sub(mx, lo)}
	case *types.Pointer:
		n := B.Int(u.Elem().Underlying().(*types.Array).Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		loc := x.val(st, i.X).(*Term)
		if !x.nonNil(st, loc, "array slice", i.Pos()) {
			return false
		}
		if !x.guard(st, B.And(B.Le(B.Int(0), lo), B.Le(lo, hi), B.Le(hi, mx), B.Le(mx, n)), "slice bounds", i.Pos()) {
			return false
		}
		f.env[i] = &SliceV{loc, lo, B.Sub(hi, lo), B.Sub(mx, lo)}
	default: // string
		s := x.val(st, i.X).(*Term)
		if hi == nil {
			hi = x.slen(s)
		}
		if !x.guard(st, B.And(B.Le(B.Int(0), lo), B.Le(lo, hi), B.Le(hi, x.slen(s))), "slice bounds", i.Pos()) {
			return false
		}
		f.env[i] = x.ssub(s, lo, hi)
	}
	f.pc++
	return true
}

func (x *Exec) convert(st *State, v V, from, to types.Type) V {
	B := x.B
	if isInteger(from) && isInteger(to) {
		flo, fhi, _ := intRange(from)
		tlo, thi, _ := intRange(to)
		t := v.(*Term)
		if flo.Cmp(tlo) >= 0 && fhi.Cmp(thi) <= 0 {
			return t
		}
		if x.smallInt(t) && thi.BitLen() >= 63 {
			if tlo.Sign() < 0 || x.knownNonNeg(t) {
				return t
			}
		}
		return x.wrap(t, to)
	}
	if isString(to) {
		switch f := under(from).(type) {
		case *types.Slice:
			if b, ok := under(f.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
				return x.strOf(st, v.(*SliceV), byteT)
			}
		case *types.Basic:
			if f.Info()&types.IsString != 0 {
				return v
			}
			if f.Info()&types.IsInteger != 0 {
				t := v.(*Term)
				if t.isInt() && t.val.IsInt64() {
					return B.StrLit(string(rune(t.val.Int64())))
				}
				return B.App("runestr", SStr, t)
			}
		}
	}
	if s, ok := under(to).(*types.Slice); ok && isString(from) {
		if b, ok := under(s.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
			return x.newBytes(st, v.(*Term))
		}
	}
	if _, ok := under(to).(*types.Pointer); ok {
		return v
	}
	if b, ok := under(to).(*types.Basic); ok {
		if b.Kind() == types.UnsafePointer || b.Info()&types.IsFloat != 0 {
			if t, ok := v.(*Term); ok {
				if b.Info()&types.IsFloat != 0 {
					return B.App("tofloat", SInt, t)
				}
				return t
			}
			return B.Fresh("uptr", SInt)
		}
		if b.Info()&types.IsInteger != 0 {
			// float -> int
			t := B.App("fromfloat."+b.Name(), SInt, v.(*Term))
			lo, hi, _ := intRange(to)
			x.rangeFact(t, lo, hi)
			return t
		}
	}
	if isString(from) && isString(to) {
		return v
	}
	unsup("convert %s to %s", from, to)
	return nil
}

func (x *Exec) typeAssert(st *State, i *ssa.TypeAssert) bool {
	f := st.top()
	B := x.B
	v := x.val(st, i.X).(*Term)
	T := i.AssertedType
	var ok *Term
	var val V
	if isIface(T) {
		val = v
		if v.op == "app" && strings.HasPrefix(v.name, "mkI.") && !strings.HasPrefix(v.name, "mkI.e") {
			dt := x.typeByMk(v.name)
			if dt != nil {
				ok = B.Bool(types.Implements(dt, under(T).(*types.Interface)))
			}
		}
		if ok == nil && x.implFor(i.X.Type()) != nil {
			ok = B.And(B.Not(B.Eq(v, B.Int(0))), B.Bool(types.Implements(x.implFor(i.X.Type()), under(T).(*types.Interface))))
		}
		if ok == nil {
			ok = B.And(B.Not(B.Eq(v, B.Int(0))), B.App("implements."+typeKey(T), SBool, B.App("tag", SInt, v)))
		}
	} else {
		ok = x.ifaceIs(v, T)
		if impl := x.implFor(i.X.Type()); impl != nil {
			if types.Identical(impl, T) {
				ok = B.Not(B.Eq(v, B.Int(0)))
			}
		}
		val = x.ifaceVal(v, T)
		x.typed(st, val, T)
	}
	if i.CommaOk {
		z := x.zero(T)
		f.env[i] = &TupleV{F: []V{x.iteV(ok, val, z, T), ok}}
	} else {
		if !x.guard(st, ok, "type assertion", i.Pos()) {
			return false
		}
		f.env[i] = val
	}
	f.pc++
	return true
}

func (x *Exec) typeByMk(name string) types.Type {
	return x.lookupType(strings.TrimPrefix(name, "mkI."))
}

// ---------- maps ----------

func mapKey(mt *types.Map) string { return "M:" + typeKey(mt.Key()) + ":" + typeKey(mt.Elem()) }

func (x *Exec) keySort(mt *types.Map) Sort {
	ls := leavesOf(mt.Key())
	if len(ls) != 1 {
		unsup("map key type %s", mt.Key())
	}
	return ls[0].sort
}

func (x *Exec) mapHas(st *State, m *Term, mt *types.Map, k *Term) *Term {
	ks := x.keySort(mt)
	if m.isInt() {
		return x.B.False
	}
	h := x.H(st, mapKey(mt)+".has", ArrSort(SInt, ArrSort(ks, SBool)))
	r := x.B.Select(x.B.Select(h, m), k)
	if st.nn[m] || x.B.freshLoc[m] {
		return r
	}
	return x.B.And(x.B.Not(x.B.Eq(m, x.B.Int(0))), r)
}

func (x *Exec) mapRaw(st *State, m *Term, mt *types.Map, k *Term) V {
	ks := x.keySort(mt)
	var ts []*Term
	for _, l := range leavesOf(mt.Elem()) {
		x.regLeaf(mapKey(mt)+".v"+l.suf, l)
		h := x.H(st, mapKey(mt)+".v"+l.suf, ArrSort(SInt, ArrSort(ks, l.sort)))
		ts = append(ts, x.B.Select(x.B.Select(h, m), k))
	}
	v := x.unflat(ts, mt.Elem())
	x.typed(st, v, mt.Elem())
	return v
}

func (x *Exec) mapGet(st *State, m *Term, mt *types.Map, k V) (*Term, V) {
	kt := x.flat(k, mt.Key())[0]
	has := x.mapHas(st, m, mt, kt)
	if has == x.B.False {
		return has, x.zero(mt.Elem())
	}
	raw := x.mapRaw(st, m, mt, kt)
	return has, x.iteV(has, raw, x.zero(mt.Elem()), mt.Elem())
}

func (x *Exec) mapLen(st *State, m *Term, mt *types.Map) *Term {
	h := x.H(st, mapKey(mt)+".len", ArrSort(SInt, SInt))
	t := x.B.Select(h, m)
	x.rangeFact(t, big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), maxLenBits))
	if m.isInt() {
		return x.B.Int(0)
	}
	if st.nn[m] || x.B.freshLoc[m] {
		return t
	}
	return x.B.Ite(x.B.Eq(m, x.B.Int(0)), x.B.Int(0), t)
}

func (x *Exec) mapSet(st *State, m *Term, mt *types.Map, k, v V) {
	B := x.B
	kt := x.flat(k, mt.Key())[0]
	ks := x.keySort(mt)
	hn := mapKey(mt) + ".has"
	h := x.H(st, hn, ArrSort(SInt, ArrSort(ks, SBool)))
	was := B.Select(B.Select(h, m), kt)
	x.setH(st, hn, B.Store(h, m, B.Store(B.Select(h, m), kt, B.True)))
	vs := x.flat(v, mt.Elem())
	for i, l := range leavesOf(mt.Elem()) {
		n := mapKey(mt) + ".v" + l.suf
		x.regLeaf(n, l)
		hv := x.H(st, n, ArrSort(SInt, ArrSort(ks, l.sort)))
		x.setH(st, n, B.Store(hv, m, B.Store(B.Select(hv, m), kt, vs[i])))
	}
	ln := mapKey(mt) + ".len"
	hl := x.H(st, ln, ArrSort(SInt, SInt))
	x.setH(st, ln, B.Store(hl, m, B.Add(B.Select(hl, m), B.Ite(was, B.Int(0), B.Int(1)))))
}

func (x *Exec) mapDelete(st *State, m *Term, mt *types.Map, k V) {
	B := x.B
	kt := x.flat(k, mt.Key())[0]
	ks := x.keySort(mt)
	hn := mapKey(mt) + ".has"
	h := x.H(st, hn, ArrSort(SInt, ArrSort(ks, SBool)))
	was := B.Select(B.Select(h, m), kt)
	x.setH(st, hn, B.Store(h, m, B.Store(B.Select(h, m), kt, B.False)))
	ln := mapKey(mt) + ".len"
	hl := x.H(st, ln, ArrSort(SInt, SInt))
	x.setH(st, ln, B.Store(hl, m, B.Sub(B.Select(hl, m), B.Ite(was, B.Int(1), B.Int(0)))))
}

func (x *Exec) makeMap(st *State, mt *types.Map) *Term {
	B := x.B
	ks := x.keySort(mt)
	m := x.newLoc(st, "map")
	hn := mapKey(mt) + ".has"
	h := x.H(st, hn, ArrSort(SInt, ArrSort(ks, SBool)))
	x.setH(st, hn, B.Store(h, m, B.KArr(ArrSort(ks, SBool), B.False)))
	ln := mapKey(mt) + ".len"
	hl := x.H(st, ln, ArrSort(SInt, SInt))
	x.setH(st, ln, B.Store(hl, m, B.Int(0)))
	return m
}

func (x *Exec) next(st *State, i *ssa.Next) bool {
	f := st.top()
	B := x.B
	it, ok := x.val(st, i.Iter).(*MapIterV)
	if !ok {
		unsup("next over non-map")
	}
	if i.IsString {
		unsup("string range")
	}
	ks := x.keySort(it.MT)
	// fork: exhausted or another key
	st2 := st.clone()
	// (a) has next
	k := B.Fresh("k", ks)
	has := x.mapHas(st, it.M, it.MT, k)
	kv := x.unflat([]*Term{k}, it.MT.Key())
	x.typed(st, kv, it.MT.Key())
	a := x.assume(st, B.And(has, B.Not(B.Select(it.Visited, k))))
	if x.wantsIn(f.fn, "pos(") {
		x.assume(st, B.Eq(x.mapPos(it, k), it.Count))
	}
	n := *it
	n.Visited = B.Store(it.Visited, k, B.True)
	n.Count = B.Add(it.Count, B.Int(1))
	_, v := x.mapGet(st, it.M, it.MT, kv)
	if st.pcset[has] || true {
		v = x.mapRaw(st, it.M, it.MT, k)
	}
	f.env[i.Iter] = &n
	f.env[i] = &TupleV{F: []V{B.True, kv, v}}
	f.pc++
	// (b) exhausted: every present key visited
	f2 := st2.top()
	kq := B.Var(fmt.Sprintf("kq%d", it.id), ks)
	hasq := x.mapHas(st2, it.M, it.MT, kq)
	b := x.assume(st2, B.Forall([]*Term{kq}, B.Imp(hasq, B.Select(it.Visited, kq)), [][]*Term{{B.Select(it.Visited, kq)}}))
	if hasq != B.False && !it.M.isInt() {
		hm := x.H(st2, mapKey(it.MT)+".has", ArrSort(SInt, ArrSort(ks, SBool)))
		pt := B.Select(B.Select(hm, it.M), kq)
		if pt.bound && pt.op == "select" {
			x.assume(st2, B.Forall([]*Term{kq}, B.Imp(hasq, B.Select(it.Visited, kq)), [][]*Term{{pt}}))
			if x.wantsSums(f.fn) {
				dom := B.Select(hm, it.M)
				x.assume(st2, B.Imp(B.Forall([]*Term{kq}, B.Imp(B.Select(it.Visited, kq), hasq), nil), B.Eq(it.Visited, dom)))
			}
		}
	}
	// the number of visited keys equals the map length when nothing was removed meanwhile
	if x.wantsIn(f.fn, "pos(") && hasq != B.False {
		x.tagCtr++
		vq := B.Var(fmt.Sprintf("vl?%d", x.tagCtr), ks)
		sub := B.Forall([]*Term{vq}, B.Imp(B.Select(it.Visited, vq), x.mapHas(st2, it.M, it.MT, vq)), nil)
		x.assume(st2, B.Imp(sub, B.Eq(it.Count, x.mapLen(st2, it.M, it.MT))))
	}
	f2.env[i] = &TupleV{F: []V{B.False, x.zero(it.MT.Key()), x.zero(it.MT.Elem())}}
	f2.pc++
	if b && x.feasible(st2) {
		x.work = append(x.work, st2)
	}
	if !a || !x.feasible(st) {
		return false
	}
	return true
}

func (x *Exec) wantsSums(fn *ssa.Function) bool { return x.wantsIn(fn, "sumVisited") }

// wantsIn: do the invariants given for fn or for the function under proof mention w?
func (x *Exec) wantsIn(fn *ssa.Function, w string) bool {
	return x.wants(x.task, w) || x.wants(x.S.C[canonFunc(fn)], w)
}

func (x *Exec) wants(c *Contract, w string) bool {
	if c == nil {
		return false
	}
	for _, i := range c.Invs {
		if strings.Contains(i.Text, w) {
			return true
		}
	}
	return false
}

// mapPos: the turn at which the loop visits a key (every key is visited at most once)
func (x *Exec) mapPos(it *MapIterV, k *Term) *Term {
	return x.B.App(fmt.Sprintf("mappos.%d", it.id), SInt, k)
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// complete finishes a call instruction with result res.
func (x *Exec) complete(st *State, in ssa.Value, res V, discard bool) bool {
	if discard {
		return true
	}
	f := st.top()
	if in != nil {
		f.env[in] = res
	}
	f.pc++
	return true
}

func (x *Exec) call(st *State, cc *ssa.CallCommon, in ssa.Value, pos token.Pos) bool {
	var args []V
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		for _, a := range cc.Args {
			args = append(args, x.val(st, a))
		}
		return x.builtin(st, b, cc, args, in, pos, false)
	}
	for _, a := range cc.Args {
		args = append(args, x.val(st, a))
	}
	return x.dispatch(st, cc, x.val(st, cc.Value), args, in, pos, false)
}

func (x *Exec) runDeferred(st *State, d deferred) bool {
	if b, ok := d.call.Value.(*ssa.Builtin); ok && !d.call.IsInvoke() {
		return x.builtin(st, b, d.call, d.args, nil, d.pos, true)
	}
	return x.dispatch(st, d.call, d.fnv, d.args, nil, d.pos, true)
}

func (x *Exec) dispatch(st *State, cc *ssa.CallCommon, fnv V, args []V, in ssa.Value, pos token.Pos, discard bool) bool {
	if cc.IsInvoke() {
		recv, ok := fnv.(*Term)
		if !ok {
			unsup("invoke on %T", fnv)
		}
		it := cc.Value.Type()
		mname := cc.Method.Name()
		if typeKey(it) == "logger.Logger" || strings.HasSuffix(typeKey(it), ".Logger") {
			return x.complete(st, in, x.noopResult(st, cc.Signature(), "logger"), discard)
		}
		if !x.guard(st, x.B.Not(x.B.Eq(recv, x.B.Int(0))), "nil interface call ("+mname+")", pos) {
			return false
		}
		st.nn[recv] = true
		// explicit contract on the interface method takes precedence
		key := methodKey(it, mname)
		if c := x.S.C[key]; c != nil && c.Iface {
			return x.applyContract(st, c, nil, cc.Signature(), append([]V{recv}, args...), append([]types.Type{it}, sigParams(cc.Signature())...), in, pos, discard)
		}
		var impl types.Type
		if recv.op == "app" && strings.HasPrefix(recv.name, "mkI.") {
			impl = x.typeByMk(recv.name)
		}
		if impl == nil {
			impl = x.implFor(it)
			if impl != nil {
				x.trust["closed world: every non-nil "+typeKey(it)+" is a "+typeKey(impl)] = true
			}
		}
		if impl != nil {
			fn := x.P.prog.LookupMethod(impl, cc.Method.Pkg(), mname)
			if fn == nil {
				unsup("no method %s on %s", mname, typeKey(impl))
			}
			rv := x.ifaceVal(recv, impl)
			if t, ok := rv.(*Term); ok {
				x.typed(st, rv, impl)
				if _, isP := under(impl).(*types.Pointer); isP {
					st.nn[t] = true
					if !(recv.op == "app" && strings.HasPrefix(recv.name, "mkI.")) {
						x.assume(st, x.B.Not(x.B.Eq(t, x.B.Int(0))))
					}
				}
			}
			return x.static(st, fn, nil, append([]V{rv}, args...), in, pos, discard)
		}
		// contract on the interface the method was declared in
		if n, ok := cc.Method.Type().(*types.Signature); ok && n.Recv() != nil {
			key2 := methodKey(n.Recv().Type(), mname)
			if c := x.S.C[key2]; c != nil && c.Iface {
				return x.applyContract(st, c, nil, cc.Signature(), append([]V{recv}, args...), append([]types.Type{it}, sigParams(cc.Signature())...), in, pos, discard)
			}
		}
		if mname == "Error" && cc.Signature().Params().Len() == 0 {
			return x.complete(st, in, x.B.App("gh.errmsg", SStr, recv), discard)
		}
		if res, ok := x.ifaceModel(st, key, recv, args, cc.Signature(), pos); ok {
			return x.complete(st, in, res, discard)
		}
		unsup("interface call without contract: %s", key)
	}
	if c := x.S.C[typeKey(cc.Value.Type())+".Call"]; c != nil && c.Iface {
		if f, ok := fnv.(*Term); ok {
			if !x.guard(st, x.B.Not(x.B.Eq(f, x.B.Int(0))), "nil function call", pos) {
				return false
			}
			return x.applyContract(st, c, nil, cc.Signature(), append([]V{f}, args...), append([]types.Type{cc.Value.Type()}, sigParams(cc.Signature())...), in, pos, discard)
		}
	}
	switch f := fnv.(type) {
	case *ClosureV:
		return x.static(st, f.Fn, f.Binds, args, in, pos, discard)
	case *Term:
		if f.isInt() {
			x.panicPath(st, "nil function call", pos)
			return false
		}
		if c, ok := x.closures[f]; ok {
			return x.static(st, c.Fn, c.Binds, args, in, pos, discard)
		}
		unsup("call of unknown function value %s at %s", f, x.pos(pos))
	}
	unsup("call of %T", fnv)
	return false
}

func sigParams(s *types.Signature) []types.Type {
	var r []types.Type
	for i := 0; i < s.Params().Len(); i++ {
		r = append(r, s.Params().At(i).Type())
	}
	return r
}

func (x *Exec) static(st *State, fn *ssa.Function, binds []V, args []V, in ssa.Value, pos token.Pos, discard bool) bool {
	name := canonFunc(fn)
	c := x.S.C[name]
	if c != nil && !c.Inline && !(x.task != nil && x.task.InlineCalls[name]) {
		var pts []types.Type
		for _, p := range fn.Params {
			pts = append(pts, p.Type())
		}
		if len(pts) == 0 {
			if r := fn.Signature.Recv(); r != nil {
				pts = append(pts, r.Type())
			}
			pts = append(pts, sigParams(fn.Signature)...)
		}
		return x.applyContract(st, c, fn, fn.Signature, args, pts, in, pos, discard)
	}
	if res, ok, alive := x.model(st, fn, name, args, pos); ok {
		if !alive {
			return false
		}
		return x.complete(st, in, res, discard)
	}
	if len(fn.Blocks) == 0 {
		unsup("external function without model: %s (at %s)", name, x.pos(pos))
	}
	if len(st.frames) > 48 {
		unsup("inline depth at %s", name)
	}
	for _, f := range st.frames {
		if f.fn == fn {
			unsup("recursive call of %s without contract", name)
		}
	}
	x.inlined[name] = true
	f := x.pushFrame(st, fn, args, binds, in)
	f.discard = discard
	if x.merging() && !discard && len(fn.Blocks) > 1 {
		x.forkMerge(&join{uid: f.uid}, func() { x.work = append(x.work, st) })
		return false
	}
	return true
}

func (x *Exec) noopResult(st *State, sig *types.Signature, name string) V {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return x.freshV(st, "r."+name, sig.Results().At(0).Type())
	}
	return x.freshV(st, "r."+name, sig.Results())
}

// bumpAlloc lets the callee allocate.
func (x *Exec) bumpAlloc(st *State) {
	n := x.B.Fresh("alloc", SInt)
	n.addFact(x.B.Le(st.alloc, n))
	st.alloc = n
}

func (x *Exec) contractEnv(st, old *State, c *Contract, fn *ssa.Function, args []V, pts []types.Type) *specEnv {
	e := &specEnv{x: x, st: st, old: old, vars: map[string]specVal{}}
	for i, p := range c.Params {
		if i >= len(args) {
			serr("%s:%d: too many parameters for %s", c.File, c.Line, c.Func)
		}
		e.vars[p] = specVal{args[i], pts[i]}
	}
	if len(c.Params) == 0 && fn != nil {
		for i, p := range fn.Params {
			e.vars[p.Name()] = specVal{args[i], pts[i]}
		}
	} else if len(c.Params) != len(args) && len(c.Params) != 0 {
		serr("%s:%d: %s has %d parameters, contract names %d", c.File, c.Line, c.Func, len(args), len(c.Params))
	}
	e.pkg = strings.SplitN(c.Func, ".", 2)[0]
	return e
}

func (x *Exec) snapshot(st *State) *State {
	n := &State{heap: make(map[string]*Term, len(st.heap)), alloc: st.alloc, nn: map[*Term]bool{}, pcset: st.pcset}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.havocs = append([]havoc{}, st.havocs...)
	return n
}

func (x *Exec) applyContract(st *State, c *Contract, fn *ssa.Function, sig *types.Signature, args []V, pts []types.Type, in ssa.Value, pos token.Pos, discard bool) bool {
	x.calledC[c.Func] = true
	if c.Trusted {
		x.trust["assumed contract: "+c.Func] = true
	}
	for i, a := range args {
		if _, ok := a.(*AddrV); ok {
			// interior pointers as arguments
			args[i] = a
		}
	}
	e := x.contractEnv(st, nil, c, fn, args, pts)
	for _, l := range c.Lets {
		e = e.with(l.Name, e.eval(l.E))
	}
	caller := x.task.Func
	for i, r := range c.Requires {
		g := e.bool(r.E)
		lbl := r.Label
		if lbl == "" {
			lbl = fmt.Sprintf("%d", i+1)
		}
		if x.trial == 0 {
			x.checkGoal(st, caller+"/pre:"+c.Func+"["+lbl+"]", g, r.Text+" at "+x.pos(pos))
		}
		if !x.assume(st, g) {
			return false
		}
	}
	if x.noPanic && c.MayPanic {
		x.check(st, caller+"/nopanic", x.B.False, "call of possibly panicking "+c.Func+" at "+x.pos(pos))
	}
	if x.noPanic && !c.Trusted && !c.NoPanic {
		x.check(st, caller+"/nopanic", x.B.False, "call of "+c.Func+" whose contract does not promise nopanic at "+x.pos(pos))
	}
	// old-state reads in modifies targets
	ms := x.modTargets(e, c)
	old := x.snapshot(st)
	mc := x.B.nconst + 1
	if !c.Pure {
		x.bumpAlloc(st)
	}
	x.havocMods(st, ms, c.ModAll, c.Keeps)
	x.refreshShared(st, old)
	var res V
	name := "r." + c.Func
	switch sig.Results().Len() {
	case 0:
	case 1:
		res = x.freshV(st, name, sig.Results().At(0).Type())
	default:
		res = x.freshV(st, name, sig.Results())
	}
	post := &specEnv{x: x, st: st, old: old, vars: e.vars, pkg: e.pkg}
	if len(c.Returns) > 0 {
		for i := 0; i < sig.Results().Len(); i++ {
			cl := c.Returns[i]
			if cl == nil {
				continue
			}
			rt := sig.Results().At(i).Type()
			v := post.eval(cl.E)
			nv := v.v
			if isIface(rt) && !isIface(v.t) {
				if b, ok := v.t.(*types.Basic); !ok || b.Kind() != types.UntypedNil && b.Kind() != types.UntypedInt {
					nv = x.mkIface(v.v, v.t)
				}
			}
			if t, ok := nv.(*Term); ok && t.isInt() && t.val.Sign() == 0 {
				nv = x.zero(rt)
			}
			if sig.Results().Len() == 1 {
				res = nv
			} else {
				res.(*TupleV).F[i] = nv
			}
		}
	}
	post = bindResults(post, res, sig)
	for _, en := range c.Ensures {
		t := post.bool(en.E)
		if !c.Pure {
			x.noteFresh(t, old.alloc, mc)
		}
		if !x.assume(st, t) {
			return false
		}
	}
	if x.trial == 0 && os.Getenv("GOVC_FEAS") != "" {
		fmt.Fprintln(os.Stderr, "feasible after", c.Func, x.feasible(st), x.pos(pos))
	}
	return x.complete(st, in, res, discard)
}

// noteFresh records what a contract says is newly allocated: nothing older is equal to it.
func (x *Exec) noteFresh(t, alloc *Term, mc int) {
	if t.op == "and" {
		for _, a := range t.args {
			x.noteFresh(a, alloc, mc)
		}
		return
	}
	if t.op != "<=" || t.args[0] != alloc || t.args[1].op != "app" || t.args[1].name != "age" {
		return
	}
	if o := t.args[1].args[0]; !o.bound && o.maxc >= mc && x.B.freshAfter[o] == 0 {
		x.B.freshAfter[o] = mc
	}
}

func (x *Exec) refreshShared(st, old *State) {
	// heaps lazily created in either state must agree when not havoced:
	// H() derives the name from the havoc log, so nothing to do here.
}

func bindResults(e *specEnv, res V, sig *types.Signature) *specEnv {
	switch sig.Results().Len() {
	case 0:
	case 1:
		e = e.with("result", specVal{res, sig.Results().At(0).Type()})
		e = e.with("result0", specVal{res, sig.Results().At(0).Type()})
	default:
		for i := 0; i < sig.Results().Len(); i++ {
			e = e.with(fmt.Sprintf("result%d", i), specVal{res.(*TupleV).F[i], sig.Results().At(i).Type()})
		}
	}
	return e
}

// ---------- builtins ----------

func (x *Exec) builtin(st *State, b *ssa.Builtin, cc *ssa.CallCommon, args []V, in ssa.Value, pos token.Pos, discard bool) bool {
	B := x.B
	switch b.Name() {
	case "len", "cap":
		var r *Term
		switch v := args[0].(type) {
		case *SliceV:
			r = v.L
			if b.Name() == "cap" {
				r = v.C
			}
		case *Term:
			if v.sort == SStr {
				r = x.slen(v)
			} else if mt, ok := under(cc.Args[0].Type()).(*types.Map); ok {
				r = x.mapLen(st, v, mt)
			}
		case *ArrV:
			r = B.Int(under(cc.Args[0].Type()).(*types.Array).Len())
		}
		if r == nil {
			unsup("len of %T", args[0])
		}
		return x.complete(st, in, r, discard)
	case "append":
		if len(args) == 1 {
			return x.complete(st, in, args[0], discard)
		}
		et := under(cc.Args[0].Type()).(*types.Slice).Elem()
		return x.complete(st, in, x.appendOp(st, args[0].(*SliceV), args[1], et), discard)
	case "copy":
		return x.complete(st, in, x.copyOp(st, args[0].(*SliceV), args[1], under(cc.Args[0].Type()).(*types.Slice).Elem()), discard)
	case "delete":
		m := args[0].(*Term)
		mt := under(cc.Args[0].Type()).(*types.Map)
		if m.isInt() {
			return x.complete(st, in, nil, discard)
		}
		if !st.nn[m] && !B.freshLoc[m] {
			// deleting from a nil map is a no-op
			x.mapDelete(st, m, mt, args[1])
		} else {
			x.mapDelete(st, m, mt, args[1])
		}
		return x.complete(st, in, nil, discard)
	case "panic":
		x.panicPath(st, "panic", pos)
		return false
	case "recover":
		return x.complete(st, in, B.Int(0), discard)
	case "print", "println":
		return x.complete(st, in, nil, discard)
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if b.Name() == "min" {
				r = B.Ite(B.Le(r, t), r, t)
			} else {
				r = B.Ite(B.Le(t, r), r, t)
			}
		}
		return x.complete(st, in, r, discard)
	case "ssa:wrapnilchk":
		return x.complete(st, in, args[0], discard)
	case "close":
		return x.complete(st, in, nil, discard)
	}
	unsup("builtin %s", b.Name())
	return false
}

// srcArr yields per-leaf source arrays, offset and length for append/copy sources.
func (x *Exec) srcArr(st *State, src V, et types.Type) (arrs []*Term, off, n *Term) {
	switch s := src.(type) {
	case *SliceV:
		for _, l := range leavesOf(et) {
			h := x.H(st, "E:"+typeKey(et)+l.suf, ArrSort(SInt, ArrSort(SInt, l.sort)))
			arrs = append(arrs, x.B.Select(h, s.B))
		}
		return arrs, s.O, s.L
	case *Term: // string
		return []*Term{x.arrOf(s)}, x.B.Int(0), x.slen(s)
	}
	unsup("append source %T", src)
	return
}

func (x *Exec) splice(a, p, src, q, n *Term) *Term {
	B := x.B
	if n.isInt() && n.val.Sign() == 0 {
		return a
	}
	if n.isInt() && n.val.Cmp(big.NewInt(8)) <= 0 && n.val.Sign() > 0 {
		r := a
		for k := int64(0); k < n.val.Int64(); k++ {
			r = B.Store(r, B.Add(p, B.Int(k)), B.Select(src, B.Add(q, B.Int(k))))
		}
		return r
	}
	_, vs := splitArr(a.sort)
	if vs != SInt {
		// other element sorts: dedicated symbol
		return x.spliceG(a, p, src, q, n, vs)
	}
	return B.App("splice", a.sort, a, p, src, q, n)
}

func (x *Exec) spliceG(a, p, src, q, n *Term, vs Sort) *Term {
	B := x.B
	t := B.App("splice."+string(vs), a.sort, a, p, src, q, n)
	if t.facts == nil && !t.bound {
		x.tagCtr++
		v := B.Var(fmt.Sprintf("sp?%d", x.tagCtr), SInt)
		s := B.mk(&Term{op: "select", args: []*Term{t, v}, sort: vs})
		in := B.And(B.Le(p, v), B.Lt(v, B.Add(p, n)))
		t.addFact(B.Forall([]*Term{v}, B.Eq(s, B.Ite(in, B.Select(src, B.Add(q, B.Sub(v, p))), B.Select(a, v))), [][]*Term{{s}}))
	}
	return t
}

func (x *Exec) appendOp(st *State, s *SliceV, src V, et types.Type) V {
	B := x.B
	if isAgg(et) {
		return x.appendAgg(st, s, src.(*SliceV), et)
	}
	arrs, q, n := x.srcArr(st, src, et)
	if n.isInt() && n.val.Sign() == 0 {
		return s
	}
	newLen := B.Add(s.L, n)
	inplace := B.Le(newLen, s.C)
	if s.B.isInt() {
		inplace = B.Le(n, B.Int(0)) // nil slice
	}
	if s.C.isInt() && s.C.val.Sign() == 0 && !s.B.isInt() {
		inplace = B.False
	}
	if x.knownNonNeg(B.Sub(B.Sub(newLen, s.C), B.Int(1))) {
		inplace = B.False
	}
	if st.pcset[B.Not(inplace)] {
		inplace = B.False
	}
	var base *Term
	nl := x.newLoc(st, "arr")
	if inplace == B.False {
		base = nl
	} else if inplace == B.True {
		base = s.B
	} else {
		base = B.Fresh("ab", SInt)
		base.addFact(B.Eq(base, B.Ite(inplace, s.B, nl)))
	}
	for i, l := range leavesOf(et) {
		hn := "E:" + typeKey(et) + l.suf
		h := x.H(st, hn, ArrSort(SInt, ArrSort(SInt, l.sort)))
		var old *Term
		if s.B.isInt() {
			old = B.KArr(ArrSort(SInt, l.sort), x.zeroTerm(l.sort))
		} else {
			old = B.Select(h, s.B)
		}
		sp := x.splice(old, B.Add(s.O, s.L), arrs[i], q, n)
		if inplace != B.False && !s.B.isInt() && inplace != B.True {
			h = B.Store(h, s.B, B.Ite(inplace, sp, old))
		}
		x.setH(st, hn, B.Store(h, base, sp))
	}
	c := B.Fresh("cap", SInt)
	c.addFact(B.And(B.Le(newLen, c), B.Le(B.Add(c, s.O), B.BigInt(new(big.Int).Lsh(big.NewInt(1), maxLenBits)))))
	if inplace != B.False {
		c.addFact(B.Imp(inplace, B.Eq(c, s.C)))
	}
	return &SliceV{base, s.O, newLen, c}
}

// appendAgg appends struct elements: the result is either the same backing array grown in
// place or a fresh array holding copies of the old elements followed by the new ones.
func (x *Exec) appendAgg(st *State, s, src *SliceV, et types.Type) V {
	B := x.B
	if _, ok := under(et).(*types.Struct); !ok {
		unsup("append of %s", typeKey(et))
	}
	n := src.L
	if n.isInt() && n.val.Sign() == 0 {
		return s
	}
	newLen := B.Add(s.L, n)
	inplace := B.Le(newLen, s.C)
	if s.B.isInt() {
		inplace = B.Le(n, B.Int(0))
	}
	if s.C.isInt() && s.C.val.Sign() == 0 && !s.B.isInt() {
		inplace = B.Le(n, B.Int(0))
	}
	if n.isInt() && n.val.Sign() > 0 && (s.B.isInt() || s.C.isInt() && s.C.val.Sign() == 0) {
		inplace = B.False
	}
	nl := x.newLoc(st, "arr")
	base := nl
	if inplace != B.False {
		base = B.Fresh("ab", SInt)
		base.addFact(B.Eq(base, B.Ite(inplace, s.B, nl)))
	}
	small := n.isInt() && n.val.Cmp(big.NewInt(8)) <= 0
	var elems []V
	if small {
		for k := int64(0); k < n.val.Int64(); k++ {
			elems = append(elems, x.loadAt(st, x.el(src.B, B.Add(src.O, B.Int(k))), et))
		}
	}
	start := B.Add(s.O, s.L)
	if !small || !(s.L.isInt() && s.L.val.Sign() == 0) {
		var carry func(loc func(*Term) *Term, inside func(*Term) *Term, t types.Type)
		carry = func(loc func(*Term) *Term, inside func(*Term) *Term, t types.Type) {
			u, ok := under(t).(*types.Struct)
			if !ok {
				unsup("append of nested %s", typeKey(t))
			}
			for i := 0; i < u.NumFields(); i++ {
				ft := u.Field(i).Type()
				if isAgg(ft) {
					key := structKey(t) + "." + u.Field(i).Name()
					prev, pin := loc, inside
					id := x.typeID("fa." + key)
					carry(func(b *Term) *Term { return x.fa(key, prev(b)) }, func(v *Term) *Term {
						return B.And(B.Eq(B.App("lk", SInt, v), B.Int(int64(id))), pin(B.App("fainv."+key, SInt, v)))
					}, ft)
					continue
				}
				for _, l := range leavesOf(ft) {
					hn := "F:" + structKey(t) + "." + u.Field(i).Name() + l.suf
					x.regLeaf(hn, l)
					h := x.H(st, hn, ArrSort(SInt, l.sort))
					nh := B.Fresh(hn, h.sort)
					x.regRoot(nh, hn, st.alloc, false)
					x.regParent(nh, h)
					x.tagCtr++
					v := B.Var(fmt.Sprintf("ap?%d", x.tagCtr), SInt)
					// frame: locations not inside the target array are unchanged
					sel := B.Select(nh, v)
					x.assume(st, B.Forall([]*Term{v}, B.Or(inside(v), B.Eq(sel, B.Select(h, v))), [][]*Term{{sel}}))
					w := B.Var(fmt.Sprintf("aq?%d", x.tagCtr), SInt)
					tl := loc(x.el(base, w))
					en := B.Select(nh, tl)
					eo := B.Select(h, loc(x.el(s.B, w)))
					x.assume(st, B.Forall([]*Term{w}, B.Imp(B.And(B.Le(s.O, w), B.Lt(w, start)), B.Eq(en, eo)), [][]*Term{{tl}}))
					// in place: elements outside the appended range are unchanged
					if inplace != B.False {
						x.assume(st, B.Imp(inplace, B.Forall([]*Term{w}, B.Imp(B.Or(B.Lt(w, s.O), B.Le(B.Add(start, n), w)), B.Eq(en, B.Select(h, tl))), [][]*Term{{tl}})))
					}
					if !small {
						ea := B.Select(h, loc(x.el(src.B, B.Add(src.O, B.Sub(w, start)))))
						x.assume(st, B.Forall([]*Term{w}, B.Imp(B.And(B.Le(start, w), B.Lt(w, B.Add(start, n))), B.Eq(en, ea)), [][]*Term{{tl}}))
					}
					x.setH(st, hn, nh)
				}
			}
		}
		carry(func(b *Term) *Term { return b }, func(v *Term) *Term {
			return B.And(B.Eq(B.App("lk", SInt, v), B.Int(-1)), B.Eq(B.App("elb", SInt, v), base), B.Eq(x.age(v), x.age(base)))
		}, et)
	}
	for k, ev := range elems {
		x.storeAt(st, x.el(base, B.Add(start, B.Int(int64(k)))), et, ev)
	}
	c := B.Fresh("cap", SInt)
	c.addFact(B.And(B.Le(newLen, c), B.Le(B.Add(c, s.O), B.BigInt(new(big.Int).Lsh(big.NewInt(1), maxLenBits)))))
	if inplace != B.False {
		c.addFact(B.Imp(inplace, B.Eq(c, s.C)))
	}
	return &SliceV{base, s.O, newLen, c}
}

func (x *Exec) copyOp(st *State, d *SliceV, src V, et types.Type) *Term {
	B := x.B
	if isAgg(et) {
		return x.copyAgg(st, d, src.(*SliceV), et)
	}
	arrs, q, sl := x.srcArr(st, src, et)
	n := B.Ite(B.Le(d.L, sl), d.L, sl)
	if d.L == sl {
		n = sl
	} else if x.knownNonNeg(B.Sub(d.L, sl)) {
		n = sl
	} else if x.knownNonNeg(B.Sub(sl, d.L)) {
		n = d.L
	} else if st.pcset[B.Le(sl, d.L)] {
		n = sl
	} else if st.pcset[B.Le(d.L, sl)] {
		n = d.L
	}
	if d.B.isInt() || n.isInt() && n.val.Sign() == 0 {
		return n
	}
	for i, l := range leavesOf(et) {
		hn := "E:" + typeKey(et) + l.suf
		h := x.H(st, hn, ArrSort(SInt, ArrSort(SInt, l.sort)))
		x.setH(st, hn, B.Store(h, d.B, x.splice(B.Select(h, d.B), d.O, arrs[i], q, n)))
	}
	return n
}

// copyAgg copies struct elements between arrays.
func (x *Exec) copyAgg(st *State, d, src *SliceV, et types.Type) *Term {
	B := x.B
	if _, ok := under(et).(*types.Struct); !ok {
		unsup("copy of %s", typeKey(et))
	}
	n := B.Ite(B.Le(d.L, src.L), d.L, src.L)
	if d.L == src.L {
		n = d.L
	}
	if d.B.isInt() || n.isInt() && n.val.Sign() == 0 {
		return n
	}
	var carry func(loc func(*Term) *Term, inside func(*Term) *Term, t types.Type)
	carry = func(loc func(*Term) *Term, inside func(*Term) *Term, t types.Type) {
		u, ok := under(t).(*types.Struct)
		if !ok {
			unsup("copy of nested %s", typeKey(t))
		}
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if isAgg(ft) {
				key := structKey(t) + "." + u.Field(i).Name()
				prev, pin := loc, inside
				id := x.typeID("fa." + key)
				carry(func(b *Term) *Term { return x.fa(key, prev(b)) }, func(v *Term) *Term {
					return B.And(B.Eq(B.App("lk", SInt, v), B.Int(int64(id))), pin(B.App("fainv."+key, SInt, v)))
				}, ft)
				continue
			}
			for _, l := range leavesOf(ft) {
				hn := "F:" + structKey(t) + "." + u.Field(i).Name() + l.suf
				x.regLeaf(hn, l)
				h := x.H(st, hn, ArrSort(SInt, l.sort))
				nh := B.Fresh(hn, h.sort)
				x.regRoot(nh, hn, st.alloc, false)
				x.regParent(nh, h)
				x.tagCtr++
				v := B.Var(fmt.Sprintf("ap?%d", x.tagCtr), SInt)
				sel := B.Select(nh, v)
				x.assume(st, B.Forall([]*Term{v}, B.Or(inside(v), B.Eq(sel, B.Select(h, v))), [][]*Term{{sel}}))
				w := B.Var(fmt.Sprintf("aq?%d", x.tagCtr), SInt)
				tl := loc(x.el(d.B, w))
				en := B.Select(nh, tl)
				end := B.Add(d.O, n)
				from := B.Select(h, loc(x.el(src.B, B.Add(src.O, B.Sub(w, d.O)))))
				x.assume(st, B.Forall([]*Term{w}, B.Imp(B.And(B.Le(d.O, w), B.Lt(w, end)), B.Eq(en, from)), [][]*Term{{tl}}))
				x.assume(st, B.Forall([]*Term{w}, B.Imp(B.Or(B.Lt(w, d.O), B.Le(end, w)), B.Eq(en, B.Select(h, tl))), [][]*Term{{tl}}))
				x.setH(st, hn, nh)
			}
		}
	}
	carry(func(b *Term) *Term { return b }, func(v *Term) *Term {
		return B.And(B.Eq(B.App("lk", SInt, v), B.Int(-1)), B.Eq(B.App("elb", SInt, v), d.B), B.Eq(x.age(v), x.age(d.B)))
	}, et)
	return n
}

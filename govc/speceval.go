package main

// Evaluation of contract expressions over symbolic states.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type specVal struct {
	v V
	t types.Type
}

type specEnv struct {
	x        *Exec
	st       *State
	old      *State
	pre      *State // loop entry
	vars     map[string]specVal
	pkg      string
	defDepth int
	qdepth   int
	iter     *Term
	visited  *Term
	mapIter  *MapIterV
}

var mathInt = types.Typ[types.UntypedInt]
var mathStr = types.Typ[types.String]
var mathBool = types.Typ[types.Bool]

type specErr struct{ msg string }

func serr(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

func (e *specEnv) with(name string, v specVal) *specEnv {
	n := *e
	n.vars = make(map[string]specVal, len(e.vars)+1)
	for k, w := range e.vars {
		n.vars[k] = w
	}
	n.vars[name] = v
	return &n
}

func (e *specEnv) bool(ex *Expr) *Term {
	v := e.eval(ex)
	t, ok := v.v.(*Term)
	if !ok || t.sort != SBool {
		serr("%s: not a boolean: %s", ex.Pos, ex)
	}
	return t
}

func (e *specEnv) int(ex *Expr) *Term {
	v := e.eval(ex)
	t, ok := v.v.(*Term)
	if !ok || t.sort != SInt {
		serr("%s: not an integer: %s", ex.Pos, ex)
	}
	return t
}

// strT converts a string or []byte value to its content.
func (e *specEnv) strT(v specVal) *Term {
	switch w := v.v.(type) {
	case *Term:
		if w.sort == SStr {
			return w
		}
		if w.isInt() && w.val.Sign() == 0 {
			return e.x.B.StrLit("")
		}
	case *SliceV:
		return e.x.strOf(e.st, w, byteT)
	case *ArrV:
		n := under(v.t).(*types.Array).Len()
		return e.x.bts(w.Leaf[0], e.x.B.Int(0), e.x.B.Int(n))
	}
	serr("not a byte string: %T", v.v)
	return nil
}

func (e *specEnv) inOld(f func(*specEnv) specVal) specVal {
	if e.old == nil {
		serr("old() not available here")
	}
	n := *e
	n.st = e.old
	return f(&n)
}

func (e *specEnv) eval(ex *Expr) specVal {
	x := e.x
	B := x.B
	switch ex.Op {
	case "int":
		return specVal{B.BigInt(ex.Val), mathInt}
	case "str":
		return specVal{B.StrLit(ex.Name), mathStr}
	case "true":
		return specVal{B.True, mathBool}
	case "false":
		return specVal{B.False, mathBool}
	case "nil":
		return specVal{B.Int(0), types.Typ[types.UntypedNil]}
	case "ident":
		return e.ident(ex)
	case "un":
		if ex.Name == "!" {
			return specVal{B.Not(e.bool(ex.A[0])), mathBool}
		}
		return specVal{B.Neg(e.int(ex.A[0])), mathInt}
	case "bin":
		return e.bin(ex)
	case "tern":
		c := e.bool(ex.A[0])
		a, b := e.eval(ex.A[1]), e.eval(ex.A[2])
		if c == B.True {
			return a
		}
		if c == B.False {
			return b
		}
		return specVal{x.iteV(c, a.v, b.v, a.t), a.t}
	case "forall", "exists":
		n := e
		var vars []*Term
		guard := B.True
		for _, v := range ex.Vars {
			t := x.lookupType(v[1])
			if t == nil {
				serr("%s: unknown type %s", ex.Pos, v[1])
			}
			n2 := *n
			n2.qdepth++
			n = &n2
			bv := B.Var(fmt.Sprintf("q?%d.%s", n.qdepth, leavesOf(t)[0].sort), leavesOf(t)[0].sort)
			vars = append(vars, bv)
			if lo, hi, ok := intRange(t); ok && v[1] != "Int" && v[1] != "integer" {
				guard = B.And(guard, B.Le(B.BigInt(lo), bv), B.Le(bv, B.BigInt(hi)))
			}
			n = n.with(v[0], specVal{bv, t})
		}
		body := n.bool(ex.A[0])
		if ex.Op == "forall" {
			return specVal{B.quant("forall", vars, B.Imp(guard, body), nil), mathBool}
		}
		return specVal{B.quant("exists", vars, B.And(guard, body), nil), mathBool}
	case "assertT":
		v := e.eval(ex.A[0])
		t := x.lookupType(ex.Name)
		if t == nil {
			serr("%s: unknown type %s", ex.Pos, ex.Name)
		}
		if !isIface(v.t) {
			// pointer reinterpretation / conversion of opaque ints
			return specVal{v.v, t}
		}
		if isIface(t) {
			return specVal{v.v, t}
		}
		p := x.ifaceVal(v.v.(*Term), t)
		x.typed(e.st, p, t)
		return specVal{p, t}
	case "field":
		return e.field(ex)
	case "index":
		return e.index(ex)
	case "slice":
		v := e.eval(ex.A[0])
		var lo, hi *Term
		if ex.A[1] != nil {
			lo = e.int(ex.A[1])
		} else {
			lo = B.Int(0)
		}
		s := e.strT(v)
		if ex.A[2] != nil {
			hi = e.int(ex.A[2])
		} else {
			hi = x.slen(s)
		}
		return specVal{x.ssub(s, lo, hi), mathStr}
	case "call":
		return e.call(ex)
	}
	serr("%s: cannot evaluate %s", ex.Pos, ex)
	return specVal{}
}

func (e *specEnv) ident(ex *Expr) specVal {
	x := e.x
	if v, ok := e.vars[ex.Name]; ok {
		return v
	}
	if strings.HasPrefix(ex.Name, "$") {
		srt, ok := x.S.GhostVars[ex.Name]
		if !ok {
			serr("%s: unknown ghost variable %s", ex.Pos, ex.Name)
		}
		s := ghostSort(srt)
		return specVal{x.H(e.st, ex.Name, s), ghostType(s)}
	}
	if ex.Name == "iter" && e.iter != nil {
		return specVal{e.iter, mathInt}
	}
	if d, ok := x.S.Defs[ex.Name]; ok && len(d.Params) == 0 {
		return e.callDef(d, nil, ex)
	}
	if v, ok := e.pkgMember(e.pkg, ex.Name); ok {
		return v
	}
	serr("%s: unknown identifier %s", ex.Pos, ex.Name)
	return specVal{}
}

func ghostSort(s string) Sort {
	switch s {
	case "Int", "int":
		return SInt
	case "Bool", "bool":
		return SBool
	case "Str", "str":
		return SStr
	}
	return Sort(s)
}

type ghostT struct {
	types.Type
	s Sort
}

func ghostType(s Sort) types.Type {
	switch s {
	case SInt:
		return mathInt
	case SBool:
		return mathBool
	case SStr:
		return mathStr
	}
	return &ghostT{mathInt, s}
}

func (e *specEnv) pkgMember(pkg, name string) (specVal, bool) {
	x := e.x
	p := x.P.pkgs[pkg]
	if p == nil {
		// imported, non-loaded package: constants only
		for _, sp := range x.P.prog.AllPackages() {
			if sp.Pkg.Name() == pkg {
				if c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const); ok {
					return e.constObj(c), true
				}
				if v, ok := sp.Pkg.Scope().Lookup(name).(*types.Var); ok && typeKey(v.Type()) == "error" {
					if g, ok := sp.Members[name].(*ssa.Global); ok {
						return specVal{x.loadGlobal(e.st, g), v.Type()}, true
					}
				}
			}
		}
		return specVal{}, false
	}
	switch m := p.Members[name].(type) {
	case *ssa.NamedConst:
		return specVal{x.constV(m.Value), m.Type()}, true
	case *ssa.Global:
		t := m.Type().(*types.Pointer).Elem()
		if isAgg(t) {
			return specVal{x.globalAddr(m), m.Type()}, true
		}
		return specVal{x.loadGlobal(e.st, m), t}, true
	}
	return specVal{}, false
}

func (e *specEnv) constObj(c *types.Const) specVal {
	x := e.x
	v := c.Val()
	switch v.Kind() {
	case constant.Bool:
		return specVal{x.B.Bool(constant.BoolVal(v)), c.Type()}
	case constant.String:
		return specVal{x.B.StrLit(constant.StringVal(v)), c.Type()}
	default:
		bi, _ := new(big.Int).SetString(constant.ToInt(v).ExactString(), 10)
		return specVal{x.B.BigInt(bi), c.Type()}
	}
}

func (e *specEnv) field(ex *Expr) specVal {
	if ex.A[0].Op == "ident" {
		n := ex.A[0].Name
		if _, ok := e.vars[n]; !ok {
			if v, ok := e.pkgMember(n, ex.Name); ok {
				return v
			}
		}
	}
	v := e.eval(ex.A[0])
	return e.fieldOf(v, ex.Name, ex)
}

func (e *specEnv) fieldOf(v specVal, name string, ex *Expr) specVal {
	x := e.x
	t := v.t
	if isIface(t) {
		impl := x.implFor(t)
		if impl == nil {
			serr("%s: field %s of interface %s without impl", ex.Pos, name, typeKey(t))
		}
		v = specVal{x.ifaceVal(v.v.(*Term), impl), impl}
		x.typed(e.st, v.v, impl)
		t = impl
	}
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
		s, ok := under(t).(*types.Struct)
		if !ok {
			serr("%s: field %s of %s", ex.Pos, name, typeKey(v.t))
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if f.Name() == name {
				loc, ok := v.v.(*Term)
				if !ok {
					serr("%s: field of non-location", ex.Pos)
				}
				p := x.fieldPtr(loc, t, i)
				return specVal{x.loadPtr(e.st, p, f.Type()), f.Type()}
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if f.Embedded() {
				loc := v.v.(*Term)
				p := x.fieldPtr(loc, t, i)
				var in specVal
				if pt, ok := p.(*Term); ok {
					in = specVal{pt, types.NewPointer(f.Type())}
				} else {
					in = specVal{x.loadPtr(e.st, p, f.Type()), f.Type()}
				}
				if hasField(in.t, name) {
					return e.fieldOf(in, name, ex)
				}
			}
		}
		serr("%s: no field %s in %s", ex.Pos, name, typeKey(t))
	}
	if s, ok := under(t).(*types.Struct); ok {
		sv := v.v.(*StructV)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return specVal{sv.F[i], s.Field(i).Type()}
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Embedded() && hasField(s.Field(i).Type(), name) {
				return e.fieldOf(specVal{sv.F[i], s.Field(i).Type()}, name, ex)
			}
		}
	}
	serr("%s: no field %s in %s", ex.Pos, name, typeKey(v.t))
	return specVal{}
}

func hasField(t types.Type, name string) bool {
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := under(t).(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name || s.Field(i).Embedded() && hasField(s.Field(i).Type(), name) {
			return true
		}
	}
	return false
}

func (e *specEnv) index(ex *Expr) specVal {
	x := e.x
	v := e.eval(ex.A[0])
	if g, ok := v.t.(*ghostT); ok {
		_, vs := splitArr(g.s)
		k := e.eval(ex.A[1])
		ks, _ := splitArr(g.s)
		var kt *Term
		if ks == SStr {
			kt = e.strT(k)
		} else {
			kt = x.flat(k.v, k.t)[0]
		}
		return specVal{x.B.Select(v.v.(*Term), kt), ghostType(vs)}
	}
	switch u := under(v.t).(type) {
	case *types.Slice:
		i := e.int(ex.A[1])
		s := v.v.(*SliceV)
		p := x.elemAddr(s.B, x.B.Add(s.O, i), u.Elem())
		return specVal{x.loadPtr(e.st, p, u.Elem()), u.Elem()}
	case *types.Map:
		k := e.eval(ex.A[1])
		kv := e.keyVal(k, u)
		_, r := x.mapGet(e.st, v.v.(*Term), u, kv)
		return specVal{r, u.Elem()}
	case *types.Array:
		i := e.int(ex.A[1])
		var ts []*Term
		for _, l := range v.v.(*ArrV).Leaf {
			ts = append(ts, x.B.Select(l, i))
		}
		r := x.unflat(ts, u.Elem())
		x.typed(e.st, r, u.Elem())
		return specVal{r, u.Elem()}
	case *types.Basic:
		i := e.int(ex.A[1])
		return specVal{x.satAt(e.strT(v), i), byteT}
	}
	serr("%s: cannot index %s", ex.Pos, typeKey(v.t))
	return specVal{}
}

// keyVal adapts a spec value for use as a map key (byte strings become strings).
func (e *specEnv) keyVal(k specVal, mt *types.Map) V {
	if isString(mt.Key()) {
		return e.strT(k)
	}
	return k.v
}

func (e *specEnv) eq(a, b specVal, ex *Expr) *Term {
	x := e.x
	B := x.B
	isNil := func(v specVal) bool { bt, ok := v.t.(*types.Basic); return ok && bt.Kind() == types.UntypedNil }
	if isNil(a) {
		a, b = b, a
	}
	if isNil(b) {
		switch w := a.v.(type) {
		case *SliceV:
			return B.Eq(w.B, B.Int(0))
		case *Term:
			return B.Eq(w, B.Int(0))
		default:
			return B.False
		}
	}
	ta, oka := a.v.(*Term)
	tb, okb := b.v.(*Term)
	// byte string comparisons when one side is a Str
	if oka && ta.sort == SStr || okb && tb.sort == SStr {
		return x.strEq(e.strT(a), e.strT(b))
	}
	if oka && okb {
		if isIface(a.t) != isIface(b.t) && ta.sort == SInt {
			if isIface(a.t) {
				if _, isP := under(b.t).(*types.Pointer); isP {
					return B.Eq(ta, x.mkIface(b.v, b.t))
				}
			} else if _, isP := under(a.t).(*types.Pointer); isP {
				return B.Eq(x.mkIface(a.v, a.t), tb)
			}
		}
		if ta.sort != tb.sort {
			serr("%s: comparing %s and %s in %s", ex.Pos, ta.sort, tb.sort, ex)
		}
		return B.Eq(ta, tb)
	}
	return x.eqV(a.v, b.v, a.t)
}

func (e *specEnv) bin(ex *Expr) specVal {
	x := e.x
	B := x.B
	bo := func(t *Term) specVal { return specVal{t, mathBool} }
	switch ex.Name {
	case "==>":
		a := e.bool(ex.A[0])
		if a == B.False {
			return bo(B.True)
		}
		return bo(B.Imp(a, e.bool(ex.A[1])))
	case "<==>":
		return bo(B.Eq(e.bool(ex.A[0]), e.bool(ex.A[1])))
	case "&&":
		a := e.bool(ex.A[0])
		if a == B.False {
			return bo(a)
		}
		return bo(B.And(a, e.bool(ex.A[1])))
	case "||":
		a := e.bool(ex.A[0])
		if a == B.True {
			return bo(a)
		}
		return bo(B.Or(a, e.bool(ex.A[1])))
	case "==":
		return bo(e.eq(e.eval(ex.A[0]), e.eval(ex.A[1]), ex))
	case "!=":
		return bo(B.Not(e.eq(e.eval(ex.A[0]), e.eval(ex.A[1]), ex)))
	}
	a, b := e.eval(ex.A[0]), e.eval(ex.A[1])
	ta, oka := a.v.(*Term)
	tb, okb := b.v.(*Term)
	if ex.Name == "+" {
		_, sa := a.v.(*SliceV)
		_, sb := b.v.(*SliceV)
		if sa || sb || oka && ta.sort == SStr || okb && tb.sort == SStr {
			return specVal{x.scat(e.strT(a), e.strT(b)), mathStr}
		}
	}
	if !oka || !okb || ta.sort != SInt || tb.sort != SInt {
		serr("%s: operator %s needs integers: %s", ex.Pos, ex.Name, ex)
	}
	in := func(t *Term) specVal { return specVal{t, mathInt} }
	switch ex.Name {
	case "+":
		return in(B.Add(ta, tb))
	case "-":
		return in(B.Sub(ta, tb))
	case "*":
		return in(x.mulT(ta, tb))
	case "/":
		return in(x.divFacts(ta, tb))
	case "%":
		if tb.isInt() {
			return in(B.Mod(ta, tb))
		}
		return in(B.Sub(ta, x.mulT(x.divFacts(ta, tb), tb)))
	case "<":
		return bo(B.Lt(ta, tb))
	case "<=":
		return bo(B.Le(ta, tb))
	case ">":
		return bo(B.Gt(ta, tb))
	case ">=":
		return bo(B.Ge(ta, tb))
	case "<<":
		return in(x.mulT(ta, x.pow2(tb)))
	case ">>":
		return in(x.divFacts(ta, x.pow2(tb)))
	}
	serr("%s: operator %s", ex.Pos, ex.Name)
	return specVal{}
}

func (e *specEnv) callDef(d *Def, args []*Expr, ex *Expr) specVal {
	if len(args) != len(d.Params) {
		serr("%s: %s expects %d arguments", ex.Pos, d.Name, len(d.Params))
	}
	if e.defDepth > 40 {
		serr("%s: definition recursion", ex.Pos)
	}
	n := *e
	n.vars = map[string]specVal{}
	// macros see only their parameters (and bound results for convenience)
	for k, v := range e.vars {
		if strings.HasPrefix(k, "result") {
			n.vars[k] = v
		}
	}
	for i, p := range d.Params {
		n.vars[p] = e.eval(args[i])
	}
	n.defDepth++
	return n.eval(d.Body)
}

func (e *specEnv) call(ex *Expr) specVal {
	x := e.x
	B := x.B
	bo := func(t *Term) specVal { return specVal{t, mathBool} }
	in := func(t *Term) specVal { return specVal{t, mathInt} }
	sv := func(t *Term) specVal { return specVal{t, mathStr} }
	arg := func(i int) specVal {
		if i >= len(ex.A) {
			serr("%s: missing argument of %s", ex.Pos, ex.Name)
		}
		return e.eval(ex.A[i])
	}
	switch ex.Name {
	case "old":
		return e.inOld(func(n *specEnv) specVal { return n.eval(ex.A[0]) })
	case "pre":
		if e.pre == nil {
			serr("%s: pre() outside loop invariant", ex.Pos)
		}
		n := *e
		n.st = e.pre
		return n.eval(ex.A[0])
	case "same":
		var cs []*Term
		for _, a := range ex.A {
			now := e.eval(a)
			was := e.inOld(func(n *specEnv) specVal { return n.eval(a) })
			cs = append(cs, x.eqV(now.v, was.v, now.t))
		}
		return bo(B.And(cs...))
	case "len":
		v := arg(0)
		switch w := v.v.(type) {
		case *SliceV:
			return in(w.L)
		case *ArrV:
			return in(B.Int(under(v.t).(*types.Array).Len()))
		case *Term:
			if w.sort == SStr {
				return in(x.slen(w))
			}
			if mt, ok := under(v.t).(*types.Map); ok {
				return in(x.mapLen(e.st, w, mt))
			}
			if w.isInt() {
				return in(B.Int(0))
			}
		}
		serr("%s: len of %s", ex.Pos, typeKey(v.t))
	case "cap":
		return in(arg(0).v.(*SliceV).C)
	case "str":
		return sv(e.strT(arg(0)))
	case "big":
		v := arg(0)
		switch w := v.v.(type) {
		case *Term:
			return in(x.bigVal(e.st, w))
		case *StructV:
			return in(w.F[0].(*Term))
		}
	case "has":
		m := arg(0)
		mt, ok := under(m.t).(*types.Map)
		if !ok {
			serr("%s: has() of non-map", ex.Pos)
		}
		k := arg(1)
		return bo(x.mapHas(e.st, m.v.(*Term), mt, x.flat(e.keyVal(k, mt), mt.Key())[0]))
	case "fresh":
		v := arg(0)
		var t *Term
		switch w := v.v.(type) {
		case *SliceV:
			t = w.B
		case *Term:
			t = w
		}
		if e.old == nil {
			serr("%s: fresh() needs a pre-state", ex.Pos)
		}
		return bo(B.And(B.Not(B.Eq(t, B.Int(0))), B.Le(e.old.alloc, x.age(t)), B.Lt(x.age(t), e.st.alloc)))
	case "freshOrNil":
		v := arg(0)
		var t *Term
		switch w := v.v.(type) {
		case *SliceV:
			t = w.B
		case *Term:
			t = w
		}
		return bo(B.Or(B.Eq(t, B.Int(0)), B.And(B.Le(e.old.alloc, x.age(t)), B.Lt(x.age(t), e.st.alloc))))
	case "is":
		v := arg(0)
		t := x.lookupType(ex.A[1].Name)
		if t == nil {
			serr("%s: unknown type %s", ex.Pos, ex.A[1].Name)
		}
		return bo(x.ifaceIs(v.v.(*Term), t))
	case "iface":
		// iface(ptr): interface value holding it
		v := arg(0)
		return specVal{x.mkIface(v.v, v.t), types.Universe.Lookup("error").Type()}
	case "addr":
		// addr(p.f): location of an embedded aggregate
		if ex.A[0].Op != "field" {
			serr("%s: addr() needs a field", ex.Pos)
		}
		b := e.eval(ex.A[0].A[0])
		if isIface(b.t) {
			impl := x.implFor(b.t)
			b = specVal{x.ifaceVal(b.v.(*Term), impl), impl}
		}
		t := under(b.t).(*types.Pointer).Elem()
		s := under(t).(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == ex.A[0].Name {
				p := x.fieldPtr(b.v.(*Term), t, i)
				return specVal{p, types.NewPointer(s.Field(i).Type())}
			}
		}
	case "deref":
		v := arg(0)
		pt := under(v.t).(*types.Pointer)
		return specVal{x.loadPtr(e.st, v.v, pt.Elem()), pt.Elem()}
	case "beval":
		return in(x.beval(e.strT(arg(0))))
	case "bebytes":
		return sv(x.bebytes(e.int(ex.A[0])))
	case "twosval":
		return in(x.twosval(e.strT(arg(0))))
	case "twosbytes":
		return sv(x.twosbytes(e.int(ex.A[0])))
	case "hasPrefix":
		return bo(x.hasPrefix(e.strT(arg(0)), e.strT(arg(1))))
	case "hasSuffix":
		return bo(x.hasSuffix(e.strT(arg(0)), e.strT(arg(1))))
	case "contains":
		return bo(x.containsStr(e.strT(arg(0)), e.strT(arg(1))))
	case "zeros":
		return sv(x.szero(e.int(ex.A[0])))
	case "chr":
		return sv(x.schr(e.int(ex.A[0])))
	case "abs":
		return in(x.absT(e.int(ex.A[0])))
	case "min":
		a, b := e.int(ex.A[0]), e.int(ex.A[1])
		return in(B.Ite(B.Le(a, b), a, b))
	case "max":
		a, b := e.int(ex.A[0]), e.int(ex.A[1])
		return in(B.Ite(B.Le(a, b), b, a))
	case "pow2":
		return in(x.pow2(e.int(ex.A[0])))
	case "tdiv":
		return in(x.tdiv(e.int(ex.A[0]), e.int(ex.A[1]), nil))
	case "trem":
		return in(x.trem(e.int(ex.A[0]), e.int(ex.A[1]), nil))
	case "bvand":
		return in(x.bigAnd(e.int(ex.A[0]), e.int(ex.A[1])))
	case "wrapI64":
		return in(x.wrap(e.int(ex.A[0]), types.Typ[types.Int64]))
	case "wrapU64":
		return in(x.wrap(e.int(ex.A[0]), types.Typ[types.Uint64]))
	case "wrapI32":
		return in(x.wrap(e.int(ex.A[0]), types.Typ[types.Int32]))
	case "wrapU32":
		return in(x.wrap(e.int(ex.A[0]), types.Typ[types.Uint32]))
	case "inI64":
		return bo(inRange(B, e.int(ex.A[0]), types.Typ[types.Int64]))
	case "inU64":
		return bo(inRange(B, e.int(ex.A[0]), types.Typ[types.Uint64]))
	case "inI32":
		return bo(inRange(B, e.int(ex.A[0]), types.Typ[types.Int32]))
	case "base":
		return in(arg(0).v.(*SliceV).B)
	case "off":
		return in(arg(0).v.(*SliceV).O)
	case "arr":
		// arr(s): the backing array (first leaf) of a slice as a ghost array
		v := arg(0)
		s := v.v.(*SliceV)
		et := under(v.t).(*types.Slice).Elem()
		l := leavesOf(et)[0]
		srt := ArrSort(SInt, l.sort)
		return specVal{B.Select(x.H(e.st, "E:"+typeKey(et)+l.suf, ArrSort(SInt, srt)), s.B), ghostType(srt)}
	case "sumTo":
		// sumTo(s, n): s[0] + ... + s[n-1]
		v := arg(0)
		sl := v.v.(*SliceV)
		et := under(v.t).(*types.Slice).Elem()
		l := leavesOf(et)[0]
		srt := ArrSort(SInt, l.sort)
		arr := x.B.Select(x.H(e.st, "E:"+typeKey(et)+l.suf, ArrSort(SInt, srt)), sl.B)
		return in(x.psum(arr, sl.O, e.int(ex.A[1])))
	case "sumN":
		// sumN(n, i, expr): the sum of expr over 0 <= i < n
		kv := B.Var("lamk!Int", SInt)
		body := e.with(ex.A[1].Name, specVal{kv, mathInt}).int(ex.A[2])
		return in(x.nsum(x.lambda(kv, body), e.int(ex.A[0])))
	case "sumMap", "sumVisited":
		// sumMap(m, k, expr): the sum of expr over the keys k of m
		// sumVisited(k, expr): the same over the keys a map loop has visited
		ks, kty := SStr, types.Type(types.Typ[types.String])
		var set *Term
		a := ex.A
		if ex.Name == "sumMap" {
			v := arg(0)
			mt := under(v.t).(*types.Map)
			kty = mt.Key()
			ks = x.keySort(mt)
			set = B.Select(x.H(e.st, mapKey(mt)+".has", ArrSort(SInt, ArrSort(ks, SBool))), v.v.(*Term))
			a = a[1:]
		} else {
			if e.visited == nil {
				serr("%s: sumVisited() outside a map loop", ex.Pos)
			}
			set = e.visited
			ks, _ = splitArr(set.sort)
		}
		kv := B.Var("lamk!"+string(ks), ks)
		body := e.with(a[0].Name, specVal{kv, kty}).int(a[1])
		return in(x.fsum(set, x.lambda(kv, body)))
	case "bytesAt":
		// bytesAt(base, off, len): byte slice header
		return specVal{&SliceV{e.int(ex.A[0]), e.int(ex.A[1]), e.int(ex.A[2]), e.int(ex.A[2])}, types.NewSlice(byteT)}
	case "ref":
		// ref(p): the identity of a pointer/interface/map as an integer
		v := arg(0)
		return in(x.flat(v.v, v.t)[0])
	case "errIs":
		return bo(x.errIs(arg(0).v.(*Term), arg(1).v.(*Term)))
	case "visited":
		if e.visited == nil {
			serr("%s: visited() outside a map loop", ex.Pos)
		}
		k := arg(0)
		var kt *Term
		ks, _ := splitArr(e.visited.sort)
		if ks == SStr {
			kt = e.strT(k)
		} else {
			kt = x.flat(k.v, k.t)[0]
		}
		return bo(B.Select(e.visited, kt))
	case "pos":
		// pos(k): the number of the turn at which the map loop visits k
		if e.mapIter == nil {
			serr("%s: pos() outside a map loop", ex.Pos)
		}
		k := arg(0)
		if ks, _ := splitArr(e.visited.sort); ks == SStr {
			return in(x.mapPos(e.mapIter, e.strT(k)))
		}
		return in(x.mapPos(e.mapIter, x.flat(k.v, k.t)[0]))
	case "isnil":
		return bo(e.eq(arg(0), specVal{B.Int(0), types.Typ[types.UntypedNil]}, ex))
	case "hex":
		return sv(x.hexEnc(e.strT(arg(0))))
	case "isHex":
		return bo(B.App("isHex", SBool, e.strT(arg(0))))
	case "unhex":
		return sv(x.hexDec(e.strT(arg(0))))
	case "typed":
		// typed(e, "T"): reinterpret an integer term as a value of type T
		v := arg(0)
		t := x.lookupType(ex.A[1].Name)
		return specVal{v.v, t}
	case "store":
		// ghost array update
		a := arg(0)
		g := a.t.(*ghostT)
		ks, vs := splitArr(g.s)
		cv := func(v specVal, s Sort) *Term {
			if s == SStr {
				return e.strT(v)
			}
			return x.flat(v.v, v.t)[0]
		}
		return specVal{B.Store(a.v.(*Term), cv(arg(1), ks), cv(arg(2), vs)), a.t}
	}
	if d, ok := x.S.Defs[ex.Name]; ok {
		return e.callDef(d, ex.A, ex)
	}
	if g, ok := x.S.Ghosts[ex.Name]; ok {
		var ts []*Term
		if len(g.Args) != len(ex.A) {
			serr("%s: ghost %s arity", ex.Pos, ex.Name)
		}
		for i := range ex.A {
			v := arg(i)
			s := ghostSort(g.Args[i])
			if s == SStr {
				ts = append(ts, e.strT(v))
			} else {
				f := x.flat(v.v, v.t)
				if len(f) != 1 || f[0].sort != s {
					serr("%s: ghost %s argument %d", ex.Pos, ex.Name, i)
				}
				ts = append(ts, f[0])
			}
		}
		rs := ghostSort(g.Ret)
		t := B.App("gh."+g.Name, rs, ts...)
		return specVal{t, ghostType(rs)}
	}
	serr("%s: unknown function %s", ex.Pos, ex.Name)
	return specVal{}
}

func inRange(B *Bank, t *Term, ty types.Type) *Term {
	lo, hi, _ := intRange(ty)
	return B.And(B.Le(B.BigInt(lo), t), B.Le(t, B.BigInt(hi)))
}

// evalAxioms evaluates the global axioms (about ghost functions) once per task.
func (x *Exec) evalAxioms(st *State) {
	if x.axDone {
		return
	}
	x.axDone = true
	for _, a := range x.S.Axioms {
		e := &specEnv{x: x, st: st, vars: map[string]specVal{}, pkg: ""}
		x.axioms = append(x.axioms, e.bool(a.E))
	}
}

// ---------- modifies ----------

type modLoc struct {
	heap string // exact heap name (or pattern when loc == nil)
	loc  *Term
	sort Sort
	pat  bool
	exc  bool
	in   func(v *Term) *Term // a set of locations (elements of a slice of structs)
	root *Term               // base of that slice
}

// modTargets evaluates modifies clauses in st.
func (x *Exec) modTargets(e *specEnv, c *Contract) []modLoc {
	var out []modLoc
	for _, m := range c.Mods {
		if m.Heap != "" {
			out = append(out, modLoc{heap: m.Heap, pat: true})
			continue
		}
		out = append(out, x.modExpr(e, m.E)...)
	}
	return out
}

func (x *Exec) modExpr(e *specEnv, ex *Expr) []modLoc {
	var out []modLoc
	st := e.st
	if ex.Op == "ident" && strings.HasPrefix(ex.Name, "$") {
		s := ghostSort(x.S.GhostVars[ex.Name])
		return []modLoc{{heap: ex.Name, sort: s}}
	}
	if ex.Op == "call" {
		switch ex.Name {
		case "elems":
			v := e.eval(ex.A[0])
			s := v.v.(*SliceV)
			et := under(v.t).(*types.Slice).Elem()
			if isAgg(et) {
				return x.modElems(s.B, et, func(v *Term) *Term {
					return x.B.And(x.B.Eq(x.B.App("lk", SInt, v), x.B.Int(-1)), x.B.Eq(x.B.App("elb", SInt, v), s.B), x.B.Eq(x.age(v), x.age(s.B)))
				}, ex.Pos)
			}
			for _, l := range leavesOf(et) {
				out = append(out, modLoc{heap: "E:" + typeKey(et) + l.suf, loc: s.B, sort: ArrSort(SInt, ArrSort(SInt, l.sort))})
			}
			return out
		case "elem":
			v := e.eval(ex.A[0])
			s := v.v.(*SliceV)
			i := e.eval(ex.A[1]).v.(*Term)
			return x.modObj(st, x.el(s.B, x.B.Add(s.O, i)), under(v.t).(*types.Slice).Elem())
		case "map":
			v := e.eval(ex.A[0])
			mt := under(v.t).(*types.Map)
			m := v.v.(*Term)
			ks := x.keySort(mt)
			out = append(out, modLoc{heap: mapKey(mt) + ".has", loc: m, sort: ArrSort(SInt, ArrSort(ks, SBool))})
			out = append(out, modLoc{heap: mapKey(mt) + ".len", loc: m, sort: ArrSort(SInt, SInt)})
			for _, l := range leavesOf(mt.Elem()) {
				out = append(out, modLoc{heap: mapKey(mt) + ".v" + l.suf, loc: m, sort: ArrSort(SInt, ArrSort(ks, l.sort))})
			}
			return out
		case "big":
			v := e.eval(ex.A[0])
			return []modLoc{{heap: "big", loc: v.v.(*Term), sort: ArrSort(SInt, SInt)}}
		case "obj":
			v := e.eval(ex.A[0])
			if isIface(v.t) {
				impl := x.implFor(v.t)
				v = specVal{x.ifaceVal(v.v.(*Term), impl), impl}
			}
			t := under(v.t).(*types.Pointer).Elem()
			return x.modObj(st, v.v.(*Term), t)
		}
	}
	if ex.Op == "field" {
		b := e.eval(ex.A[0])
		if isIface(b.t) {
			impl := x.implFor(b.t)
			b = specVal{x.ifaceVal(b.v.(*Term), impl), impl}
		}
		p, ok := under(b.t).(*types.Pointer)
		if !ok {
			serr("%s: modifies target %s", ex.Pos, ex)
		}
		t := p.Elem()
		s := under(t).(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if f.Name() != ex.Name {
				continue
			}
			if isAgg(f.Type()) {
				return x.modObj(st, x.fieldPtr(b.v.(*Term), t, i).(*Term), f.Type())
			}
			for _, l := range leavesOf(f.Type()) {
				out = append(out, modLoc{heap: "F:" + structKey(t) + "." + f.Name() + l.suf, loc: b.v.(*Term), sort: ArrSort(SInt, l.sort)})
			}
			return out
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if f.Embedded() && hasField(f.Type(), ex.Name) {
				if isAgg(f.Type()) {
					loc := x.fieldPtr(b.v.(*Term), t, i).(*Term)
					return x.modExpr(e.with("__emb", specVal{loc, types.NewPointer(f.Type())}), &Expr{Op: "field", Name: ex.Name, A: []*Expr{{Op: "ident", Name: "__emb"}}, Pos: ex.Pos})
				}
			}
		}
	}
	if ex.Op == "field" || ex.Op == "ident" {
		// package variable
		var pkg, name string
		if ex.Op == "ident" {
			pkg, name = e.pkg, ex.Name
		}
		if g, ok := x.P.pkgs[pkg]; ok {
			if gl, ok := g.Members[name].(*ssa.Global); ok {
				t := gl.Type().(*types.Pointer).Elem()
				for _, l := range leavesOf(t) {
					out = append(out, modLoc{heap: "G:" + globKey(gl) + l.suf, sort: l.sort})
				}
				return out
			}
		}
	}
	serr("%s: bad modifies target %s", ex.Pos, ex)
	return nil
}

func (x *Exec) modObj(st *State, loc *Term, t types.Type) []modLoc {
	var out []modLoc
	if typeKey(t) == "big.Int" {
		return []modLoc{{heap: "big", loc: loc, sort: ArrSort(SInt, SInt)}}
	}
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if isOpaqueStruct(f.Type()) {
				continue
			}
			if isAgg(f.Type()) {
				out = append(out, x.modObj(st, x.fieldPtr(loc, t, i).(*Term), f.Type())...)
				continue
			}
			for _, l := range leavesOf(f.Type()) {
				out = append(out, modLoc{heap: "F:" + structKey(t) + "." + f.Name() + l.suf, loc: loc, sort: ArrSort(SInt, l.sort)})
			}
		}
	case *types.Array:
		for _, l := range leavesOf(u.Elem()) {
			out = append(out, modLoc{heap: "E:" + typeKey(u.Elem()) + l.suf, loc: loc, sort: ArrSort(SInt, ArrSort(SInt, l.sort))})
		}
	default:
		for _, l := range leavesOf(t) {
			out = append(out, modLoc{heap: "C:" + typeKey(t) + l.suf, loc: loc, sort: ArrSort(SInt, l.sort)})
		}
	}
	return out
}

// modElems lists the leaf locations of every element (of type t) with base root;
// in tells whether a location is such an element.
func (x *Exec) modElems(root *Term, t types.Type, in func(v *Term) *Term, pos string) []modLoc {
	B := x.B
	u, ok := under(t).(*types.Struct)
	if !ok {
		serr("%s: elems of nested %s", pos, typeKey(t))
	}
	var out []modLoc
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		if isAgg(ft) {
			key := structKey(t) + "." + u.Field(i).Name()
			id := x.typeID("fa." + key)
			out = append(out, x.modElems(root, ft, func(v *Term) *Term {
				return B.And(B.Eq(B.App("lk", SInt, v), B.Int(int64(id))), in(B.App("fainv."+key, SInt, v)))
			}, pos)...)
			continue
		}
		for _, l := range leavesOf(ft) {
			hn := "F:" + structKey(t) + "." + u.Field(i).Name() + l.suf
			x.regLeaf(hn, l)
			out = append(out, modLoc{heap: hn, sort: ArrSort(SInt, l.sort), in: in, root: root})
		}
	}
	return out
}

// havocMods applies a modifies set to st.
// allPat is the pattern of everything but the kept heaps.
func allPat(keeps []string) string {
	if len(keeps) == 0 {
		return "*"
	}
	return "*!" + strings.Join(keeps, "|")
}

func (x *Exec) havocMods(st *State, ms []modLoc, all bool, keeps []string) {
	B := x.B
	if all {
		ms = append(ms, modLoc{heap: allPat(keeps), pat: true})
	}
	for _, m := range ms {
		if m.pat {
			back := x.privateCells(st, m.heap)
			x.havocPattern(st, m.heap)
			back()
			continue
		}
		if m.in != nil {
			h := x.H(st, m.heap, m.sort)
			nh := B.Fresh(m.heap, m.sort)
			x.regRoot(nh, m.heap, st.alloc, false)
			x.regParent(nh, h)
			x.tagCtr++
			v := B.Var(fmt.Sprintf("me?%d", x.tagCtr), SInt)
			sel := B.Select(nh, v)
			x.assume(st, B.Forall([]*Term{v}, B.Or(m.in(v), B.Eq(sel, B.Select(h, v))), [][]*Term{{sel}}))
			x.setH(st, m.heap, nh)
			continue
		}
		if m.loc == nil {
			nh := B.Fresh(m.heap, m.sort)
			x.regRoot(nh, m.heap, st.alloc, false)
			x.setH(st, m.heap, nh)
			continue
		}
		_, vs := splitArr(m.sort)
		h := x.H(st, m.heap, m.sort)
		hv := B.Fresh("hv."+m.heap, vs)
		x.regHavoc(hv, m.heap, st.alloc)
		x.setH(st, m.heap, B.Store(h, m.loc, hv))
	}
}

func (x *Exec) havocPattern(st *State, pat string) {
	x.tagCtr++
	tag := x.tagCtr
	x.tagAlloc[tag] = st.alloc
	x.tagMaxc[tag] = x.B.nconst
	st.havocs = append(st.havocs, havoc{pat, tag})
	for name := range st.heap {
		if strings.HasPrefix(name, "G:") && pat == "*" {
			continue
		}
		if strings.HasPrefix(name, "$") && pat == "*" {
			continue
		}
		if patMatch(pat, name) {
			nh := x.B.Const(fmt.Sprintf("%s@%d", name, tag), x.heapSort[name])
			x.regRoot(nh, name, st.alloc, false)
			st.heap[name] = nh
		}
	}
}

// privateCells remembers the variables of the running functions that no callee can reach:
// those captured at most by closures which are only called or deferred on the spot. The
// function it returns puts their values back.
func (x *Exec) privateCells(st *State, pat string) func() {
	if !strings.HasPrefix(pat, "*") {
		return func() {}
	}
	type cell struct {
		loc *Term
		t   types.Type
		v   V
	}
	var cs []cell
	for _, f := range st.frames {
		for _, b := range f.fn.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				loc, ok := f.env[al].(*Term)
				t := al.Type().(*types.Pointer).Elem()
				if !ok || isOpaqueStruct(t) || !private(al, 0) {
					continue
				}
				cs = append(cs, cell{loc, t, x.loadPtr(st, loc, t)})
			}
		}
	}
	return func() {
		for _, c := range cs {
			x.storePtr(st, c.loc, c.t, c.v)
		}
	}
}

// private tells whether the variable at v is only ever read, written, or captured by
// closures that do not leave the function.
func private(v ssa.Value, depth int) bool {
	refs := v.Referrers()
	if refs == nil || depth > 4 {
		return false
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if r.Val == v {
				return false
			}
		case *ssa.DebugRef:
		case *ssa.MakeClosure:
			for _, cr := range *r.Referrers() {
				var cc *ssa.CallCommon
				switch cr := cr.(type) {
				case *ssa.Defer:
					cc = &cr.Call
				case *ssa.Call:
					cc = &cr.Call
				case *ssa.DebugRef:
					continue
				default:
					return false
				}
				if cc.Value != r {
					return false
				}
				for _, a := range cc.Args {
					if a == r {
						return false
					}
				}
			}
			fn := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == v && !private(fn.FreeVars[i], depth+1) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

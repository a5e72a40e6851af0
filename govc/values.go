package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// ---------- symbolic values ----------

type V interface{}

type SliceV struct{ B, O, L, C *Term }
type StructV struct {
	T types.Type
	F []V
}
type TupleV struct{ F []V }
type ArrV struct{ Leaf []*Term }
type AddrV struct {
	Kind     byte // 'F' field, 'C' cell, 'E' elem, 'G' global
	Heap     string
	Loc, Idx *Term
	T        types.Type
}
type MapIterV struct {
	M       *Term
	MT      *types.Map
	Visited *Term // Array K Bool
	Count   *Term
	Str     *Term // string iteration unsupported when nil map
	id      int
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

type leaf struct {
	suf  string
	sort Sort
	t    types.Type
}

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func isStruct(t types.Type) bool { _, ok := under(t).(*types.Struct); return ok }
func isArray(t types.Type) bool  { _, ok := under(t).(*types.Array); return ok }
func isAgg(t types.Type) bool    { return isStruct(t) || isArray(t) }
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isInteger(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isIface(t types.Type) bool { _, ok := under(t).(*types.Interface); return ok }

var leafCache = map[string][]leaf{}

// sortOf gives the scalar sort of single-leaf types.
func leavesOf(t types.Type) []leaf {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []leaf{{"", SBool, t}}
		case u.Info()&types.IsString != 0:
			return []leaf{{"", SStr, t}}
		default:
			return []leaf{{"", SInt, t}}
		}
	case *types.Slice:
		return []leaf{{".b", SInt, t}, {".o", SInt, t}, {".l", SInt, t}, {".c", SInt, t}}
	case *types.Struct:
		if typeKey(t) == "big.Int" {
			return []leaf{{".big", SInt, t}}
		}
		var r []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leavesOf(u.Field(i).Type()) {
				r = append(r, leaf{"." + u.Field(i).Name() + l.suf, l.sort, l.t})
			}
		}
		return r
	case *types.Array:
		var r []leaf
		for _, l := range leavesOf(u.Elem()) {
			r = append(r, leaf{".a" + l.suf, ArrSort(SInt, l.sort), t})
		}
		return r
	default:
		return []leaf{{"", SInt, t}}
	}
}

// flat converts a value to leaf terms.
func (x *Exec) flat(v V, t types.Type) []*Term {
	switch v := v.(type) {
	case *Term:
		return []*Term{v}
	case *SliceV:
		return []*Term{v.B, v.O, v.L, v.C}
	case *StructV:
		if typeKey(t) == "big.Int" {
			return []*Term{v.F[0].(*Term)}
		}
		u := under(t).(*types.Struct)
		var r []*Term
		for i, f := range v.F {
			r = append(r, x.flat(f, u.Field(i).Type())...)
		}
		return r
	case *ArrV:
		return v.Leaf
	case *ClosureV:
		return []*Term{x.closureTerm(v)}
	case *AddrV:
		if v.Kind == 'C' {
			return []*Term{v.Loc}
		}
		if v.Kind == 'F' {
			// interior pointer to a non-struct field used as a value
			return []*Term{x.B.App("fp."+v.Heap, SInt, v.Loc)}
		}
		unsup("address of %s stored", v.Heap)
	case *MapIterV:
		unsup("iterator stored")
	}
	panic(fmt.Sprintf("flat %T", v))
}

func (x *Exec) unflat(ts []*Term, t types.Type) V {
	v, rest := x.unflat1(ts, t)
	if len(rest) != 0 {
		panic("unflat leftovers for " + typeKey(t))
	}
	return v
}

func (x *Exec) unflat1(ts []*Term, t types.Type) (V, []*Term) {
	switch u := under(t).(type) {
	case *types.Slice:
		return &SliceV{ts[0], ts[1], ts[2], ts[3]}, ts[4:]
	case *types.Struct:
		if typeKey(t) == "big.Int" {
			return &StructV{T: t, F: []V{ts[0]}}, ts[1:]
		}
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			var f V
			f, ts = x.unflat1(ts, u.Field(i).Type())
			s.F = append(s.F, f)
		}
		return s, ts
	case *types.Array:
		n := len(leavesOf(t))
		return &ArrV{Leaf: ts[:n]}, ts[n:]
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			var f V
			f, ts = x.unflat1(ts, u.At(i).Type())
			tv.F = append(tv.F, f)
		}
		return tv, ts
	default:
		return ts[0], ts[1:]
	}
}

func (x *Exec) zeroTerm(s Sort) *Term {
	switch s {
	case SBool:
		return x.B.False
	case SInt:
		return x.B.Int(0)
	case SStr:
		return x.B.StrLit("")
	}
	_, v := splitArr(s)
	return x.B.KArr(s, x.zeroTerm(v))
}

func (x *Exec) zero(t types.Type) V {
	var ts []*Term
	for _, l := range leavesOf(t) {
		ts = append(ts, x.zeroTerm(l.sort))
	}
	return x.unflat(ts, t)
}

func (x *Exec) freshV(st *State, name string, t types.Type) V {
	if tup, ok := t.(*types.Tuple); ok {
		tv := &TupleV{}
		for i := 0; i < tup.Len(); i++ {
			tv.F = append(tv.F, x.freshV(st, fmt.Sprintf("%s.%d", name, i), tup.At(i).Type()))
		}
		return tv
	}
	var ts []*Term
	for _, l := range leavesOf(t) {
		ts = append(ts, x.B.Fresh(name+l.suf, l.sort))
	}
	v := x.unflat(ts, t)
	x.typed(st, v, t)
	return v
}

// iteV merges two values of the same type.
func (x *Exec) iteV(c *Term, a, b V, t types.Type) V {
	if a == b {
		return a
	}
	fa, fb := x.flat(a, t), x.flat(b, t)
	var r []*Term
	for i := range fa {
		r = append(r, x.B.Ite(c, fa[i], fb[i]))
	}
	return x.unflat(r, t)
}

func (x *Exec) eqV(a, b V, t types.Type) *Term {
	fa, fb := x.flat(a, t), x.flat(b, t)
	var r []*Term
	for i := range fa {
		r = append(r, x.B.Eq(fa[i], fb[i]))
	}
	return x.B.And(r...)
}

// ---------- integer ranges ----------

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits, signed := intBits(b)
	one := big.NewInt(1)
	if signed {
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits-1)), one)
		lo = new(big.Int).Neg(new(big.Int).Lsh(one, uint(bits-1)))
	} else {
		lo = big.NewInt(0)
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
	}
	return lo, hi, true
}

func intBits(b *types.Basic) (int, bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	}
	return 64, true
}

const maxLenBits = 47 // address space: no object is longer than 2^47 elements

// typed attaches type facts to the leaves of v.
func (x *Exec) typed(st *State, v V, t types.Type) {
	switch u := under(t).(type) {
	case *types.Basic:
		tm, ok := v.(*Term)
		if !ok || tm.isLit() || tm.bound {
			return
		}
		if lo, hi, ok := intRange(t); ok {
			x.rangeFact(tm, lo, hi)
		} else if tm.sort == SStr {
			x.slen(tm)
		} else if u.Kind() == types.UnsafePointer {
			x.ageFact(st, tm)
		}
	case *types.Slice:
		s, ok := v.(*SliceV)
		if !ok {
			return
		}
		if s.L.isInt() && s.C.isInt() {
			return
		}
		B := x.B
		if s.B.bound || s.L.bound {
			return
		}
		key := fmt.Sprintf("sl%d.%d.%d.%d", s.B.id, s.O.id, s.L.id, s.C.id)
		if !x.factDone[key] {
			x.factDone[key] = true
			f := B.And(B.Le(B.Int(0), s.O), B.Le(B.Int(0), s.L), B.Le(s.L, s.C), B.Le(B.Add(s.O, s.C), B.BigInt(new(big.Int).Lsh(big.NewInt(1), maxLenBits))), B.Imp(B.Eq(s.B, B.Int(0)), B.Eq(s.C, B.Int(0))))
			for _, tm := range []*Term{s.B, s.L, s.C, s.O} {
				if !tm.isLit() {
					tm.addFact(f)
				}
			}
		}
		x.ageFact(st, s.B)
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		if tm, ok := v.(*Term); ok {
			x.ageFact(st, tm)
			if p, isP := u.(*types.Pointer); isP {
				x.kindFact(tm, p.Elem())
			}
		}
	case *types.Interface:
		tm, ok := v.(*Term)
		if !ok || tm.isLit() || tm.bound {
			return
		}
		x.ageFact(st, tm)
		if impl := x.implFor(t); impl != nil {
			key := fmt.Sprintf("if%d.%s", tm.id, typeKey(t))
			if !x.factDone[key] {
				x.factDone[key] = true
				B := x.B
				k := typeKey(impl)
				pay := x.ifaceVal(tm, impl)
				mk := x.mkIface(pay, impl)
				if mk != tm {
					tm.addFact(B.Imp(B.Not(B.Eq(tm, B.Int(0))), B.And(B.Eq(B.App("tag", SInt, tm), B.Int(int64(x.typeID(k)))), B.Eq(mk, tm))))
					if pt, isP := pay.(*Term); isP {
						x.ageFact(st, pt)
						if !pt.isLit() {
							pt.addFact(B.Imp(B.Not(B.Eq(tm, B.Int(0))), B.Not(B.Eq(pt, B.Int(0)))))
						}
					}
				}
			}
		}
	case *types.Struct:
		s, ok := v.(*StructV)
		if !ok || typeKey(t) == "big.Int" {
			return
		}
		for i, f := range s.F {
			x.typed(st, f, u.Field(i).Type())
		}
	case *types.Tuple:
		for i, f := range v.(*TupleV).F {
			x.typed(st, f, u.At(i).Type())
		}
	}
}

func (x *Exec) rangeFact(tm *Term, lo, hi *big.Int) {
	key := fmt.Sprintf("rg%d.%s.%s", tm.id, lo, hi)
	if x.factDone[key] || tm.isLit() || tm.bound {
		return
	}
	x.factDone[key] = true
	B := x.B
	tm.addFact(B.And(B.Le(B.BigInt(lo), tm), B.Le(tm, B.BigInt(hi))))
}

func (x *Exec) age(t *Term) *Term {
	if t.isInt() {
		return x.B.Int(0)
	}
	return x.B.App("age", SInt, t)
}

func (x *Exec) ageFact(st *State, tm *Term) {
	if tm.isLit() || tm.bound || x.B.freshLoc[tm] {
		return
	}
	key := fmt.Sprintf("ag%d.%d", tm.id, st.alloc.id)
	if x.factDone[key] {
		return
	}
	x.factDone[key] = true
	f := x.B.Le(x.B.Add(x.age(tm), x.B.Int(1)), st.alloc)
	if o := x.ownerOf(tm); o != nil && !x.B.freshLoc[o] {
		// read from an object that may not be allocated yet in this state
		f = x.B.Imp(x.B.Le(x.B.Add(x.age(o), x.B.Int(1)), st.alloc), f)
	}
	tm.addFact(f)
}

// ownerOf is the object a value was read from, nil if that is not known.
func (x *Exec) ownerOf(tm *Term) *Term {
	if tm.op != "select" {
		return nil
	}
	h, o := tm.args[0], tm.args[1]
	for {
		switch h.op {
		case "store":
			h = h.args[0]
			continue
		case "ite":
			h = h.args[1]
			continue
		case "select":
			o = h.args[1]
		case "const":
			if ri, ok := x.rootReg[h]; !ok || ri.sub || twoLevel(ri.heap) {
				return nil
			}
		default:
			return nil
		}
		break
	}
	if o.sort != SInt {
		return nil
	}
	return o
}

// ep bounds the ages of what an object holds when the call that allocated it returns; a is
// the age of the object.
func (x *Exec) ep(a *Term) *Term {
	return x.B.App("ep", SInt, a)
}

// kindFact: pointers to different struct types never alias the same root object.
func (x *Exec) kindFact(tm *Term, elem types.Type) {}

// ---------- strings ----------

func (x *Exec) slen(s *Term) *Term {
	B := x.B
	switch s.op {
	case "strlit":
		return B.Int(int64(len(s.name)))
	case "ite":
		return B.Ite(s.args[0], x.slen(s.args[1]), x.slen(s.args[2]))
	case "app":
		switch s.name {
		case "bts":
			return s.args[2]
		case "scat":
			return B.Add(x.slen(s.args[0]), x.slen(s.args[1]))
		case "ssub":
			return B.Sub(s.args[2], s.args[1])
		case "schr":
			return B.Int(1)
		case "szero":
			return s.args[0]
		case "bebytes":
		}
	}
	t := B.App("slen", SInt, s)
	if t.facts == nil && !t.bound {
		t.addFact(B.Le(B.Int(0), t))
		t.addFact(B.Le(t, B.BigInt(new(big.Int).Lsh(big.NewInt(1), maxLenBits))))
		t.addFact(B.Imp(B.Eq(t, B.Int(0)), B.mk(&Term{op: "=", args: []*Term{s, B.StrLit("")}, sort: SBool})))
	}
	return t
}

func (x *Exec) scat(a, b *Term) *Term {
	B := x.B
	if a.op == "strlit" && a.name == "" {
		return b
	}
	if b.op == "strlit" && b.name == "" {
		return a
	}
	if a.op == "strlit" && b.op == "strlit" {
		return B.StrLit(a.name + b.name)
	}
	if a.op == "app" && a.name == "scat" {
		return x.scat(a.args[0], x.scat(a.args[1], b))
	}
	if a.op == "strlit" && b.op == "app" && b.name == "scat" && b.args[0].op == "strlit" {
		return x.scat(B.StrLit(a.name+b.args[0].name), b.args[1])
	}
	if b.op == "app" && b.name == "scat" && joinable(B, a, b.args[0]) {
		return x.scat(x.join(a, b.args[0]), b.args[1])
	}
	if joinable(B, a, b) {
		return x.join(a, b)
	}
	t := B.App("scat", SStr, a, b)
	if t.facts == nil && !t.bound {
		// length fact through slen symbol (needed when equalities merge terms)
		sl := B.App("slen", SInt, t)
		t.addFact(B.Eq(sl, B.Add(x.slen(a), x.slen(b))))
	}
	return t
}

// joinable: adjacent pieces of the same array
func joinable(B *Bank, a, b *Term) bool {
	if a.op == "app" && b.op == "app" && a.name == "bts" && b.name == "bts" && a.args[0] == b.args[0] {
		d := B.diffConst(B.Add(a.args[1], a.args[2]), b.args[1])
		return d != nil && d.Sign() == 0
	}
	if a.op == "app" && b.op == "app" && a.name == "ssub" && b.name == "ssub" && a.args[0] == b.args[0] && a.args[2] == b.args[1] {
		return true
	}
	return false
}
func (x *Exec) join(a, b *Term) *Term {
	if a.name == "bts" {
		return x.bts(a.args[0], a.args[1], x.B.Add(a.args[2], b.args[2]))
	}
	return x.ssub(a.args[0], a.args[1], b.args[2])
}

func (x *Exec) schr(c *Term) *Term {
	if c.isInt() && c.val.IsInt64() && c.val.Int64() >= 0 && c.val.Int64() < 256 {
		return x.B.StrLit(string([]byte{byte(c.val.Int64())}))
	}
	t := x.B.App("schr", SStr, c)
	if t.facts == nil && !t.bound {
		t.addFact(x.B.Eq(x.B.App("slen", SInt, t), x.B.Int(1)))
		t.addFact(x.B.Eq(x.B.App("sat", SInt, t, x.B.Int(0)), c))
	}
	return t
}

// bts: the byte string held in arr[o..o+l)
func (x *Exec) bts(arr, o, l *Term) *Term {
	B := x.B
	zero := B.Int(0)
	if l.isInt() && l.val.Sign() <= 0 {
		return B.StrLit("")
	}
	if l.op == "ite" && (l.args[1].isInt() || l.args[2].isInt()) {
		return B.Ite(l.args[0], x.bts(arr, o, l.args[1]), x.bts(arr, o, l.args[2]))
	}
	switch arr.op {
	case "ite":
		return B.Ite(arr.args[0], x.bts(arr.args[1], o, l), x.bts(arr.args[2], o, l))
	case "select":
		h := arr.args[0]
		if h.op == "store" {
			return B.Ite(B.Eq(h.args[1], arr.args[1]), x.bts(h.args[2], o, l), x.bts(B.Select(h.args[0], arr.args[1]), o, l))
		}
	case "store":
		i, v := arr.args[1], arr.args[2]
		if d := B.diffConst(i, B.Add(o, l)); d != nil {
			if d.Sign() >= 0 {
				return x.bts(arr.args[0], o, l)
			}
			if d.Cmp(big.NewInt(-1)) == 0 && x.knownNonNeg(B.Sub(l, B.Int(1))) {
				return x.scat(x.bts(arr.args[0], o, B.Sub(l, B.Int(1))), x.schr(v))
			}
		}
		if d := B.diffConst(i, o); d != nil {
			if d.Sign() < 0 {
				return x.bts(arr.args[0], o, l)
			}
			if d.Sign() == 0 && x.knownNonNeg(B.Sub(l, B.Int(1))) {
				return x.scat(x.schr(v), x.bts(arr, B.Add(o, B.Int(1)), B.Sub(l, B.Int(1))))
			}
			if l.isInt() && d.IsInt64() {
				// split around the constant position
				return x.scat(x.bts(arr.args[0], o, B.BigInt(d)), x.scat(x.schr(v), x.bts(arr, B.Add(i, B.Int(1)), B.Sub(B.Sub(B.Add(o, l), i), B.Int(1)))))
			}
		}
	case "karr":
		if l.isInt() && l.val.IsInt64() && l.val.Int64() <= 64 && arr.args[0].isInt() && arr.args[0].val.Sign() == 0 {
			return B.StrLit(string(make([]byte, l.val.Int64())))
		}
		if arr.args[0].isInt() && arr.args[0].val.Sign() == 0 {
			return x.szero(l)
		}
	case "app":
		if arr.name == "arrOf" {
			s := arr.args[0]
			if o == zero && l == x.slen(s) {
				return s
			}
			return x.ssub(s, o, B.Add(o, l))
		}
		if arr.name == "splice" {
			a, p, src, q, n := arr.args[0], arr.args[1], arr.args[2], arr.args[3], arr.args[4]
			end := B.Add(o, l)
			if end == p || isNonPos(B, B.Sub(end, p)) {
				return x.bts(a, o, l)
			}
			if B.Add(p, n) == end && (p == o || x.knownNonNeg(B.Sub(p, o))) {
				return x.scat(x.bts(a, o, B.Sub(p, o)), x.bts(src, q, n))
			}
			if B.Add(p, n) == o {
				return x.bts(a, o, l)
			}
			if p == o && x.knownNonNeg(B.Sub(l, n)) {
				return x.scat(x.bts(src, q, n), x.bts(a, B.Add(o, n), B.Sub(l, n)))
			}
			if p == o {
				// l >= n decides; build conditional form
				return B.Ite(B.Le(n, l), x.scat(x.bts(src, q, n), x.bts(a, B.Add(o, n), B.Sub(l, n))), x.bts(src, q, l))
			}
			if x.knownNonNeg(B.Sub(p, o)) {
				inside := B.Le(B.Add(p, n), end)
				return B.Ite(inside, x.scat(x.bts(a, o, B.Sub(p, o)), x.scat(x.bts(src, q, n), x.bts(a, B.Add(p, n), B.Sub(end, B.Add(p, n))))), B.App("bts", SStr, arr, o, l))
			}
		}
	}
	t := B.App("bts", SStr, arr, o, l)
	if t.facts == nil && !t.bound {
		t.addFact(B.Imp(B.Le(zero, l), B.Eq(B.App("slen", SInt, t), l)))
		t.addFact(B.Imp(B.Le(l, zero), B.mk(&Term{op: "=", args: []*Term{t, B.StrLit("")}, sort: SBool})))
	}
	return t
}

func isNonPos(B *Bank, t *Term) bool { return t.isInt() && t.val.Sign() <= 0 }

// knownNonNeg: syntactic non-negativity (sums of lengths and non-negative constants)
func (x *Exec) knownNonNeg(t *Term) bool {
	l := x.B.linOf(t)
	if l.c.Sign() < 0 {
		return false
	}
	for i, k := range l.ks {
		if k.Sign() < 0 {
			return false
		}
		if !x.nonNegAtom(l.ts[i]) {
			return false
		}
	}
	return true
}

func (x *Exec) nonNegAtom(t *Term) bool {
	if t.op == "app" && (t.name == "slen" || t.name == "age" || t.name == "hexlen") {
		return true
	}
	if t.op == "const" || t.op == "select" {
		n := t
		for n.op == "select" {
			n = n.args[0]
		}
		if strings.Contains(n.name, ".l") || strings.Contains(n.name, ".o") || strings.Contains(n.name, ".c") {
			for _, f := range t.facts {
				if factSaysNonNeg(f, t) {
					return true
				}
			}
		}
	}
	for _, f := range t.facts {
		if factSaysNonNeg(f, t) {
			return true
		}
	}
	return false
}

func factSaysNonNeg(f, t *Term) bool {
	if f.op == "<=" && f.args[0].isInt() && f.args[0].val.Sign() >= 0 && f.args[1] == t {
		return true
	}
	if f.op == "and" {
		for _, a := range f.args {
			if factSaysNonNeg(a, t) {
				return true
			}
		}
	}
	return false
}

func (x *Exec) szero(n *Term) *Term {
	B := x.B
	if n.isInt() && n.val.IsInt64() && n.val.Int64() <= 64 {
		if n.val.Sign() <= 0 {
			return B.StrLit("")
		}
		return B.StrLit(string(make([]byte, n.val.Int64())))
	}
	t := B.App("szero", SStr, n)
	if t.facts == nil && !t.bound {
		t.addFact(B.Imp(B.Le(B.Int(0), n), B.Eq(B.App("slen", SInt, t), n)))
		t.addFact(B.Imp(B.Le(n, B.Int(0)), B.mk(&Term{op: "=", args: []*Term{t, B.StrLit("")}, sort: SBool})))
	}
	return t
}

func (x *Exec) arrOf(s *Term) *Term {
	if s.op == "app" && s.name == "bts" && s.args[1].isInt() && s.args[1].val.Sign() == 0 {
		// may carry extra content beyond the length; content within range is what matters
	}
	return x.B.App("arrOf", ArrSort(SInt, SInt), s)
}

func (x *Exec) ssub(s, lo, hi *Term) *Term {
	B := x.B
	if lo.isInt() && lo.val.Sign() == 0 && hi == x.slen(s) {
		return s
	}
	if lo == hi {
		return B.StrLit("")
	}
	switch s.op {
	case "strlit":
		if lo.isInt() && hi.isInt() && lo.val.Sign() >= 0 && hi.val.Cmp(lo.val) >= 0 && hi.val.Cmp(big.NewInt(int64(len(s.name)))) <= 0 {
			return B.StrLit(s.name[lo.val.Int64():hi.val.Int64()])
		}
	case "ite":
		return B.Ite(s.args[0], x.ssub(s.args[1], lo, hi), x.ssub(s.args[2], lo, hi))
	case "app":
		switch s.name {
		case "bts":
			return x.bts(s.args[0], B.Add(s.args[1], lo), B.Sub(hi, lo))
		case "ssub":
			return x.ssub(s.args[0], B.Add(s.args[1], lo), B.Add(s.args[1], hi))
		case "scat":
			n := x.slen(s.args[0])
			if d := B.diffConst(hi, n); (d != nil && d.Sign() <= 0) || x.knownNonNeg(B.Sub(n, hi)) {
				return x.ssub(s.args[0], lo, hi)
			}
			if d := B.diffConst(lo, n); (d != nil && d.Sign() >= 0) || x.knownNonNeg(B.Sub(lo, n)) {
				return x.ssub(s.args[1], B.Sub(lo, n), B.Sub(hi, n))
			}
			if x.knownNonNeg(B.Sub(hi, n)) && x.knownNonNeg(B.Sub(n, lo)) {
				return x.scat(x.ssub(s.args[0], lo, n), x.ssub(s.args[1], B.Int(0), B.Sub(hi, n)))
			}
		}
	}
	t := B.App("ssub", SStr, s, lo, hi)
	if t.facts == nil && !t.bound {
		t.addFact(B.Imp(B.Le(lo, hi), B.Eq(B.App("slen", SInt, t), B.Sub(hi, lo))))
		t.addFact(B.Imp(B.And(B.Eq(lo, B.Int(0)), B.Eq(hi, x.slen(s))), B.mk(&Term{op: "=", args: []*Term{t, s}, sort: SBool})))
	}
	return t
}

func (x *Exec) satAt(s, i *Term) *Term {
	B := x.B
	switch s.op {
	case "strlit":
		if i.isInt() && i.val.Sign() >= 0 && i.val.Cmp(big.NewInt(int64(len(s.name)))) < 0 {
			return B.Int(int64(s.name[i.val.Int64()]))
		}
	case "ite":
		return B.Ite(s.args[0], x.satAt(s.args[1], i), x.satAt(s.args[2], i))
	case "app":
		switch s.name {
		case "bts":
			return B.Select(s.args[0], B.Add(s.args[1], i))
		case "schr":
			return s.args[0]
		case "szero":
			return B.Int(0)
		case "scat":
			n := x.slen(s.args[0])
			return B.Ite(B.Lt(i, n), x.satAt(s.args[0], i), x.satAt(s.args[1], B.Sub(i, n)))
		case "ssub":
			return x.satAt(s.args[0], B.Add(s.args[1], i))
		}
	}
	t := B.App("sat", SInt, s, i)
	x.rangeFact(t, big.NewInt(0), big.NewInt(255))
	return t
}

// seq equality
func (x *Exec) strEq(a, b *Term) *Term {
	B := x.B
	if a == b {
		return B.True
	}
	if a.op == "ite" {
		return B.Ite(a.args[0], x.strEq(a.args[1], b), x.strEq(a.args[2], b))
	}
	if b.op == "ite" {
		return B.Ite(b.args[0], x.strEq(a, b.args[1]), x.strEq(a, b.args[2]))
	}
	if a.op == "strlit" && b.op == "strlit" {
		return B.Bool(a.name == b.name)
	}
	if a.op == "strlit" && a.name == "" {
		return B.Eq(x.slen(b), B.Int(0))
	}
	if b.op == "strlit" && b.name == "" {
		return B.Eq(x.slen(a), B.Int(0))
	}
	if d := B.diffConst(x.slen(a), x.slen(b)); d != nil && d.Sign() != 0 {
		return B.False
	}
	as, bs := strParts(a), strParts(b)
	if len(as) > 1 || len(bs) > 1 {
		// cancel common prefix / suffix
		for len(as) > 0 && len(bs) > 0 && as[0] == bs[0] {
			as, bs = as[1:], bs[1:]
		}
		for len(as) > 0 && len(bs) > 0 && as[len(as)-1] == bs[len(bs)-1] {
			as, bs = as[:len(as)-1], bs[:len(bs)-1]
		}
		if len(as) == 0 && len(bs) == 0 {
			return B.True
		}
		ra, rb := x.catAll(as), x.catAll(bs)
		if ra != a || rb != b {
			return x.strEq(ra, rb)
		}
		// same-length heads split
		if len(as) > 1 && len(bs) > 1 {
			if d := B.diffConst(x.slen(as[0]), x.slen(bs[0])); d != nil && d.Sign() == 0 {
				return B.And(x.strEq(as[0], bs[0]), x.strEq(x.catAll(as[1:]), x.catAll(bs[1:])))
			}
			if d := B.diffConst(x.slen(as[len(as)-1]), x.slen(bs[len(bs)-1])); d != nil && d.Sign() == 0 {
				return B.And(x.strEq(as[len(as)-1], bs[len(bs)-1]), x.strEq(x.catAll(as[:len(as)-1]), x.catAll(bs[:len(bs)-1])))
			}
		}
		// literal heads with mismatching characters
		if as[0].op == "strlit" && bs[0].op == "strlit" {
			n := len(as[0].name)
			if len(bs[0].name) < n {
				n = len(bs[0].name)
			}
			if as[0].name[:n] != bs[0].name[:n] {
				return B.False
			}
		}
	}
	if a.op == "app" && b.op == "app" && a.name == "schr" && b.name == "schr" {
		return B.Eq(a.args[0], b.args[0])
	}
	return B.Eq(a, b)
}

func strParts(s *Term) []*Term {
	if s.op == "app" && s.name == "scat" {
		return append(strParts(s.args[0]), strParts(s.args[1])...)
	}
	return []*Term{s}
}
func (x *Exec) catAll(ps []*Term) *Term {
	r := x.B.StrLit("")
	for i := len(ps) - 1; i >= 0; i-- {
		r = x.scat(ps[i], r)
	}
	return r
}

func (x *Exec) hasPrefix(s, p *Term) *Term {
	B := x.B
	if p.op == "strlit" && p.name == "" {
		return B.True
	}
	if s.op == "ite" {
		return B.Ite(s.args[0], x.hasPrefix(s.args[1], p), x.hasPrefix(s.args[2], p))
	}
	if s.op == "strlit" && p.op == "strlit" {
		return B.Bool(strings.HasPrefix(s.name, p.name))
	}
	ps, ss := strParts(p), strParts(s)
	for len(ps) > 0 && len(ss) > 0 && ps[0] == ss[0] {
		ps, ss = ps[1:], ss[1:]
	}
	if len(ps) == 0 {
		return B.True
	}
	if len(ps) == 1 && len(ss) > 0 && ps[0].op == "strlit" && ss[0].op == "strlit" {
		if len(ss[0].name) >= len(ps[0].name) {
			return B.Bool(strings.HasPrefix(ss[0].name, ps[0].name))
		}
		if !strings.HasPrefix(ps[0].name, ss[0].name) {
			return B.False
		}
	}
	t := B.App("hasPrefix", SBool, s, p)
	if t.facts == nil && !t.bound {
		n := x.slen(p)
		t.addFact(B.Imp(t, B.Le(n, x.slen(s))))
		sub := B.App("ssub", SStr, s, B.Int(0), n)
		_ = sub
		pre := x.ssub(s, B.Int(0), n)
		t.addFact(B.Imp(t, x.strEq(pre, p)))
		t.addFact(B.Imp(B.And(B.Le(n, x.slen(s)), x.strEq(pre, p)), t))
		t.addFact(B.Imp(x.strEq(s, p), t))
	}
	return t
}

// beval: big-endian natural value of a byte string
func (x *Exec) beval(s *Term) *Term {
	B := x.B
	if s.op == "strlit" {
		return B.BigInt(new(big.Int).SetBytes([]byte(s.name)))
	}
	if s.op == "ite" {
		return B.Ite(s.args[0], x.beval(s.args[1]), x.beval(s.args[2]))
	}
	if s.op == "app" && s.name == "bebytes" {
		n := s.args[0]
		return x.absT(n)
	}
	if s.op == "app" && s.name == "szero" {
		return B.Int(0)
	}
	if s.op == "app" && s.name == "scat" {
		if a := s.args[0]; a.op == "app" && a.name == "szero" || a.op == "strlit" && strings.Trim(a.name, "\x00") == "" {
			return x.beval(s.args[1])
		}
	}
	t := B.App("beval", SInt, s)
	if t.facts == nil && !t.bound {
		t.addFact(B.Le(B.Int(0), t))
		t.addFact(B.Imp(B.Eq(x.slen(s), B.Int(0)), B.Eq(t, B.Int(0))))
		for _, k := range []int{1, 2, 4, 8, 32} {
			t.addFact(B.Imp(B.Le(x.slen(s), B.Int(int64(k))), B.Lt(t, B.BigInt(new(big.Int).Lsh(big.NewInt(1), uint(8*k))))))
		}
	}
	return t
}

func (x *Exec) absT(n *Term) *Term {
	if x.knownNonNeg(n) {
		return n
	}
	return x.B.Ite(x.B.Le(x.B.Int(0), n), n, x.B.Neg(n))
}

// bebytes: minimal big-endian encoding of |n|
func (x *Exec) bebytes(n *Term) *Term {
	B := x.B
	if n.isInt() {
		return B.StrLit(string(n.val.Bytes()))
	}
	t := B.App("bebytes", SStr, n)
	if t.facts == nil && !t.bound {
		l := x.slen(t)
		t.addFact(B.Eq(B.App("beval", SInt, t), x.absT(n)))
		t.addFact(B.Eq(B.Eq(l, B.Int(0)), B.Eq(n, B.Int(0))))
		for _, k := range []int{1, 2, 4, 8, 32} {
			lim := new(big.Int).Lsh(big.NewInt(1), uint(8*k))
			t.addFact(B.Eq(B.Le(l, B.Int(int64(k))), B.And(B.Lt(n, B.BigInt(lim)), B.Lt(B.BigInt(new(big.Int).Neg(lim)), n))))
		}
	}
	return t
}

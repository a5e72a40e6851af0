package main

// Models of functions outside the verified packages (standard library and vendored
// dependencies). Every model used by a task is recorded in its trusted base.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) freshErr(st *State) *Term {
	l := x.newLoc(st, "err")
	return l
}

// maybeErr: nil or a fresh error
func (x *Exec) maybeErr(st *State, okCond *Term) *Term {
	return x.B.Ite(okCond, x.B.Int(0), x.freshErr(st))
}

func (x *Exec) errIs(e, target *Term) *Term {
	B := x.B
	if e == target {
		return B.True
	}
	if e.op == "ite" {
		return B.Ite(e.args[0], x.errIs(e.args[1], target), x.errIs(e.args[2], target))
	}
	if e.isInt() && e.val.Sign() == 0 {
		return B.Eq(target, B.Int(0))
	}
	if e.op == "app" && e.name == "mkI.err" && target.op == "app" && target.name == "mkI.err" {
		// both are package-level errors: follow the wrap chain
		k := x.errKeyOf(e)
		for k != "" {
			k = x.P.errWraps[k]
			if k != "" && x.errConst(k) == target {
				return B.True
			}
		}
		return B.False
	}
	t := B.App("errIs", SBool, e, target)
	if t.facts == nil && !t.bound {
		t.addFact(B.Imp(B.Eq(e, target), t))
		t.addFact(B.Imp(B.Eq(e, B.Int(0)), B.Eq(t, B.Eq(target, B.Int(0)))))
	}
	return t
}

func (x *Exec) errKeyOf(e *Term) string {
	for k, id := range x.P.errID {
		if e.args[0].isInt() && e.args[0].val.Int64() == int64(id) {
			return k
		}
	}
	return ""
}

func (x *Exec) hexEnc(s *Term) *Term {
	B := x.B
	if s.op == "strlit" {
		return B.StrLit(fmt.Sprintf("%x", s.name))
	}
	t := B.App("hexenc", SStr, s)
	if t.facts == nil && !t.bound {
		t.addFact(B.Eq(B.App("slen", SInt, t), B.Mul(B.Int(2), x.slen(s))))
		t.addFact(B.Eq(B.App("hexdec", SStr, t), s))
		t.addFact(B.App("isHex", SBool, t))
	}
	return t
}

func (x *Exec) hexDec(s *Term) *Term {
	B := x.B
	if s.op == "app" && s.name == "hexenc" {
		return s.args[0]
	}
	t := B.App("hexdec", SStr, s)
	if t.facts == nil && !t.bound {
		t.addFact(B.Imp(B.App("isHex", SBool, s), B.Eq(B.Mul(B.Int(2), B.App("slen", SInt, t)), x.slen(s))))
	}
	return t
}

func (x *Exec) hasSuffix(s, p *Term) *Term {
	if s.op == "strlit" && p.op == "strlit" {
		return x.B.Bool(strings.HasSuffix(s.name, p.name))
	}
	t := x.B.App("hasSuffix", SBool, s, p)
	if t.facts == nil && !t.bound {
		t.addFact(x.B.Imp(t, x.B.Le(x.slen(p), x.slen(s))))
		t.addFact(x.B.Imp(x.strEq(s, p), t))
	}
	return t
}

func (x *Exec) containsStr(s, p *Term) *Term {
	if s.op == "strlit" && p.op == "strlit" {
		return x.B.Bool(strings.Contains(s.name, p.name))
	}
	return x.B.App("contains", SBool, s, p)
}

// two's complement value of a byte string (big endian)
func (x *Exec) twosval(s *Term) *Term {
	B := x.B
	if s.op == "strlit" {
		v := new(big.Int).SetBytes([]byte(s.name))
		if len(s.name) > 0 && s.name[0] >= 128 {
			v.Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(8*len(s.name))))
		}
		return B.BigInt(v)
	}
	if s.op == "ite" {
		return B.Ite(s.args[0], x.twosval(s.args[1]), x.twosval(s.args[2]))
	}
	if s.op == "app" && s.name == "twosbytes" {
		return s.args[0]
	}
	t := B.App("twosval", SInt, s)
	if t.facts == nil && !t.bound {
		t.addFact(B.Imp(B.Eq(x.slen(s), B.Int(0)), B.Eq(t, B.Int(0))))
	}
	return t
}

func (x *Exec) twosbytes(n *Term) *Term {
	B := x.B
	if n.isInt() && n.val.Sign() == 0 {
		return B.StrLit("")
	}
	t := B.App("twosbytes", SStr, n)
	if t.facts == nil && !t.bound {
		l := x.slen(t)
		t.addFact(B.Eq(B.App("twosval", SInt, t), n))
		t.addFact(B.Eq(B.Eq(l, B.Int(0)), B.Eq(n, B.Int(0))))
		for _, k := range []int{1, 4, 8, 32} {
			lim := new(big.Int).Lsh(big.NewInt(1), uint(8*k-1))
			t.addFact(B.Eq(B.Le(l, B.Int(int64(k))), B.And(B.Lt(n, B.BigInt(lim)), B.Le(B.BigInt(new(big.Int).Neg(lim)), n))))
		}
	}
	return t
}

// bitwise and on unbounded integers
func (x *Exec) bigAnd(p, q *Term) *Term {
	B := x.B
	if p.id > q.id {
		p, q = q, p
	}
	t := B.App("bvand", SInt, p, q)
	if t.facts == nil && !t.bound {
		t.addFact(B.Imp(B.And(B.Le(B.Int(0), p), B.Le(B.Int(0), q)), B.And(B.Le(B.Int(0), t), B.Le(t, p), B.Le(t, q))))
	}
	return t
}

func (x *Exec) cmpT(a, b *Term) *Term {
	B := x.B
	return B.Ite(B.Lt(a, b), B.Int(-1), B.Ite(B.Eq(a, b), B.Int(0), B.Int(1)))
}

func (x *Exec) strCmp(a, b *Term) *Term {
	B := x.B
	return B.Ite(x.strEq(a, b), B.Int(0), B.Ite(x.strLess(a, b), B.Int(-1), B.Int(1)))
}

// indexByte-like results
func (x *Exec) indexStr(s, p *Term) *Term {
	B := x.B
	t := B.App("strindex", SInt, s, p)
	if t.facts == nil && !t.bound {
		t.addFact(B.And(B.Le(B.Int(-1), t), B.Imp(B.Le(B.Int(0), t), B.Le(B.Add(t, x.slen(p)), x.slen(s)))))
		t.addFact(B.Eq(B.Le(B.Int(0), t), x.containsStr(s, p)))
	}
	return t
}

// model handles calls to functions with built-in semantics.
// ok: handled; alive: path continues.
func (x *Exec) model(st *State, fn *ssa.Function, name string, args []V, pos token.Pos) (res V, ok, alive bool) {
	B := x.B
	T := func(i int) *Term { return args[i].(*Term) }
	ret := func(v V) (V, bool, bool) { x.trust["model: "+name] = true; return v, true, true }
	dead := func() (V, bool, bool) { return nil, true, false }
	if strings.HasPrefix(name, "big.(*Int).") {
		return x.bigModel(st, name[len("big.(*Int)."):], args, pos)
	}
	if strings.HasPrefix(name, "sync.") || strings.HasPrefix(name, "atomic.") || strings.HasPrefix(name, "logger.") || strings.HasPrefix(name, "debug.") {
		if strings.HasPrefix(name, "logger.") {
			if name == "logger.GetOrCreate" {
				return ret(x.freshV(st, "logger", fn.Signature.Results().At(0).Type()))
			}
			return ret(x.noopResult(st, fn.Signature, name))
		}
		if strings.HasPrefix(name, "sync.(*Mutex)") || strings.HasPrefix(name, "sync.(*RWMutex)") {
			return ret(x.noopResult(st, fn.Signature, name))
		}
		if strings.HasPrefix(name, "debug.") {
			return ret(x.noopResult(st, fn.Signature, name))
		}
		return nil, false, false
	}
	switch name {
	case "big.NewInt":
		return ret(x.newBig(st, T(0)))
	case "errors.New":
		e := x.freshErr(st)
		e.addFact(B.Eq(B.App("gh.errmsg", SStr, e), T(0)))
		return ret(e)
	case "fmt.Errorf":
		e := x.freshErr(st)
		if f := T(0); f.op == "strlit" && f.name == "%s" {
			if s, isS := args[1].(*SliceV); isS && s.L.isInt() && s.L.val.Int64() == 1 {
				// a text printed alone is the message
				a := x.loadPtr(st, x.elemAddr(s.B, s.O, types.NewInterfaceType(nil, nil)), types.NewInterfaceType(nil, nil)).(*Term)
				if a.op == "app" && a.name == "mkI."+typeKey(types.Typ[types.String]) {
					e.addFact(B.Eq(B.App("gh.errmsg", SStr, e), a.args[0]))
				}
			}
		} else if f.op == "strlit" && !strings.Contains(f.name, "%") {
			if s, isS := args[1].(*SliceV); isS && s.L.isInt() && s.L.val.Sign() == 0 {
				e.addFact(B.Eq(B.App("gh.errmsg", SStr, e), f))
			}
		}
		if f := T(0); f.op == "strlit" && strings.Contains(f.name, "%w") {
			if s, isS := args[1].(*SliceV); isS && s.L.isInt() {
				// the wrapped error is the argument matching the %w verb
				idx := 0
				fm := f.name
				for i := 0; i+1 < len(fm); i++ {
					if fm[i] == '%' {
						if fm[i+1] == '%' {
							i++
							continue
						}
						if fm[i+1] == 'w' {
							break
						}
						idx++
					}
				}
				if int64(idx) < s.L.val.Int64() {
					w := x.loadPtr(st, x.elemAddr(s.B, B.Add(s.O, B.Int(int64(idx))), types.NewInterfaceType(nil, nil)), types.NewInterfaceType(nil, nil)).(*Term)
					e.addFact(B.App("errIs", SBool, e, w))
				}
			}
		}
		return ret(e)
	case "errors.Is":
		return ret(x.errIs(T(0), T(1)))
	case "errors.As":
		return nil, false, false
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		return ret(B.Fresh("sprintf", SStr))
	case "fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf":
		return ret(x.noopResult(st, fn.Signature, name))
	case "bytes.Equal":
		return ret(x.strEq(x.strBytes(st, args[0]), x.strBytes(st, args[1])))
	case "bytes.Compare":
		return ret(x.strCmp(x.strBytes(st, args[0]), x.strBytes(st, args[1])))
	case "bytes.HasPrefix":
		return ret(x.hasPrefix(x.strBytes(st, args[0]), x.strBytes(st, args[1])))
	case "strings.HasPrefix":
		return ret(x.hasPrefix(T(0), T(1)))
	case "strings.HasSuffix":
		return ret(x.hasSuffix(T(0), T(1)))
	case "strings.Contains":
		return ret(x.containsStr(T(0), T(1)))
	case "bytes.Contains":
		return ret(x.containsStr(x.strBytes(st, args[0]), x.strBytes(st, args[1])))
	case "strings.Index":
		return ret(x.indexStr(T(0), T(1)))
	case "strings.ContainsAny":
		return ret(B.App("containsAny", SBool, T(0), T(1)))
	case "strings.TrimRight", "strings.TrimLeft", "strings.Trim", "strings.TrimPrefix", "strings.TrimSuffix", "strings.ReplaceAll", "strings.ToUpper", "strings.ToLower", "strings.TrimSpace", "strings.Repeat":
		var ts []*Term
		for i := range args {
			ts = append(ts, T(i))
		}
		t := B.App(name, SStr, ts...)
		if strings.HasPrefix(name, "strings.Trim") && t.facts == nil && !t.bound {
			t.addFact(B.Le(x.slen(t), x.slen(ts[0])))
			if name == "strings.TrimPrefix" {
				hp := x.hasPrefix(ts[0], ts[1])
				t.addFact(B.Imp(hp, x.strEq(t, x.ssub(ts[0], x.slen(ts[1]), x.slen(ts[0])))))
				t.addFact(B.Imp(B.Not(hp), x.strEq(t, ts[0])))
			}
		}
		if name == "strings.ReplaceAll" && t.facts == nil && !t.bound {
			// replacing by the empty string never lengthens
			t.addFact(B.Imp(B.Eq(x.slen(ts[2]), B.Int(0)), B.Le(x.slen(t), x.slen(ts[0]))))
		}
		return ret(t)
	case "strings.Split", "strings.Join", "strings.Fields", "bytes.Split", "bytes.Join":
		x.bumpAlloc(st)
		return ret(x.freshV(st, "r."+name, fn.Signature.Results().At(0).Type()))
	case "hex.EncodeToString":
		return ret(x.hexEnc(x.strBytes(st, args[0])))
	case "hex.DecodeString":
		s := T(0)
		ok := B.App("isHex", SBool, s)
		if s.op == "app" && s.name == "hexenc" {
			ok = B.True
		}
		r := x.newBytes(st, x.hexDec(s))
		part := x.freshV(st, "hexpart", fn.Signature.Results().At(0).Type())
		return ret(&TupleV{F: []V{x.iteV(ok, r, part, fn.Signature.Results().At(0).Type()), x.maybeErr(st, ok)}})
	case "binary.littleEndian.PutUint32", "binary.littleEndian.PutUint64", "binary.bigEndian.PutUint32", "binary.bigEndian.PutUint64",
		"binary.littleEndian.PutUint16", "binary.bigEndian.PutUint16":
		s := args[1].(*SliceV)
		n := int64(4)
		if strings.HasSuffix(name, "64") {
			n = 8
		} else if strings.HasSuffix(name, "16") {
			n = 2
		}
		if !x.guard(st, B.Le(B.Int(n), s.L), "PutUint bounds", pos) {
			return dead()
		}
		hn := "E:" + typeKey(byteT)
		h := x.H(st, hn, ArrSort(SInt, ArrSort(SInt, SInt)))
		a := B.Select(h, s.B)
		v := T(2)
		for k := int64(0); k < n; k++ {
			sh := k
			if strings.Contains(name, "bigEndian") {
				sh = n - 1 - k
			}
			a = B.Store(a, B.Add(s.O, B.Int(k)), B.Mod(B.Div(v, B.BigInt(new(big.Int).Lsh(big.NewInt(1), uint(8*sh)))), B.Int(256)))
		}
		x.setH(st, hn, B.Store(h, s.B, a))
		return ret(nil)
	case "binary.littleEndian.Uint32", "binary.littleEndian.Uint64", "binary.bigEndian.Uint32", "binary.bigEndian.Uint64", "binary.littleEndian.Uint16", "binary.bigEndian.Uint16":
		s := args[1].(*SliceV)
		n := int64(4)
		if strings.HasSuffix(name, "64") {
			n = 8
		} else if strings.HasSuffix(name, "16") {
			n = 2
		}
		if !x.guard(st, B.Le(B.Int(n), s.L), "Uint bounds", pos) {
			return dead()
		}
		r := B.Int(0)
		for k := int64(0); k < n; k++ {
			sh := k
			if strings.Contains(name, "bigEndian") {
				sh = n - 1 - k
			}
			b := x.loadPtr(st, x.elemAddr(s.B, B.Add(s.O, B.Int(k)), byteT), byteT).(*Term)
			r = B.Add(r, B.Mul(b, B.BigInt(new(big.Int).Lsh(big.NewInt(1), uint(8*sh)))))
		}
		return ret(r)
	case "binary.BigEndian", "binary.LittleEndian":
	case "check.IfNil":
		// nil interface, or an implementation reporting IsInterfaceNil
		r := B.Eq(T(0), B.Int(0))
		if _, ok := x.S.Ghosts["nilAcc"]; ok {
			r = B.Or(r, B.App("gh.nilAcc", SBool, T(0)))
		}
		return ret(r)
	case "check.IfNilReflect":
		return ret(B.Eq(T(0), B.Int(0)))
	case "time.Now", "time.Since", "time.Duration.Milliseconds", "time.Time.Sub":
		return ret(x.noopResult(st, fn.Signature, name))
	case "runtime.KeepAlive", "runtime.LockOSThread", "runtime.UnlockOSThread", "runtime.GC":
		return ret(nil)
	case "twoscomplement.ToBytes":
		if !x.nonNil(st, args[0], "nil big.Int", pos) {
			return dead()
		}
		return ret(x.newBytes(st, x.twosbytes(x.bigVal(st, args[0]))))
	case "twoscomplement.SetBytes":
		if !x.nonNil(st, args[0], "nil big.Int", pos) {
			return dead()
		}
		x.setBig(st, args[0], x.twosval(x.strBytes(st, args[1])))
		return ret(args[0])
	case "twoscomplement.FromBytes":
		return ret(x.newBig(st, x.twosval(x.strBytes(st, args[0]))))
	case "twoscomplement.CopyAlignRight":
		s := x.strBytes(st, args[0])
		n := T(1)
		l := x.slen(s)
		return ret(x.newBytes(st, B.Ite(B.Le(l, n), x.scat(x.szero(B.Sub(n, l)), s), x.ssub(s, B.Sub(l, n), l))))
	case "twoscomplement.ToBytesOfLength":
		v := x.bigVal(st, args[0])
		n := T(1)
		t := B.App("twosbytesn", SStr, v, n)
		ok := B.App("twosfits", SBool, v, n)
		if t.facts == nil {
			t.addFact(B.Imp(B.And(ok, B.Le(B.Int(0), n)), B.And(B.Eq(B.App("slen", SInt, t), n), B.Eq(B.App("twosval", SInt, t), v))))
			t.addFact(B.Imp(B.And(B.Eq(v, B.Int(0)), B.Le(B.Int(0), n)), B.And(ok, x.strEq(t, x.szero(n)))))
		}
		return ret(&TupleV{F: []V{x.newBytes(st, B.Ite(ok, t, B.StrLit(""))), x.maybeErr(st, ok)}})
	case "strconv.Itoa":
		return ret(B.App("itoa", SStr, T(0)))
	case "strconv.Quote":
		return ret(B.App("quote", SStr, T(0)))
	case "sort.Strings", "sort.Slice", "sort.SliceStable":
		if name == "sort.Strings" {
			s := args[0].(*SliceV)
			h := x.H(st, "E:string", ArrSort(SInt, ArrSort(SInt, SStr)))
			if !s.B.isInt() {
				x.setH(st, "E:string", B.Store(h, s.B, B.Fresh("sorted", ArrSort(SInt, SStr))))
			}
			return ret(nil)
		}
		// reorders elements: contents of the underlying array become unknown
		i := T(0)
		if i.op == "app" && strings.HasPrefix(i.name, "mkI.[]") {
			t := x.typeByMk(i.name)
			et := under(t).(*types.Slice).Elem()
			if !isAgg(et) {
				for _, l := range leavesOf(et) {
					hn := "E:" + typeKey(et) + l.suf
					h := x.H(st, hn, ArrSort(SInt, ArrSort(SInt, l.sort)))
					x.setH(st, hn, B.Store(h, i.args[0], B.Fresh("sorted", ArrSort(SInt, l.sort))))
				}
				return ret(nil)
			}
		}
		return nil, false, false
	case "bits.LeadingZeros64", "bits.TrailingZeros64", "bits.Len64", "bits.LeadingZeros32", "bits.TrailingZeros32":
		t := B.App(name, SInt, T(0))
		x.rangeFact(t, big.NewInt(0), big.NewInt(64))
		return ret(t)
	case "bits.Add64", "bits.Sub64", "bits.Mul64":
		m := new(big.Int).Lsh(big.NewInt(1), 64)
		M := B.BigInt(m)
		switch name {
		case "bits.Add64":
			s := B.Add(B.Add(T(0), T(1)), T(2))
			return ret(&TupleV{F: []V{B.Ite(B.Le(M, s), B.Sub(s, M), s), B.Ite(B.Le(M, s), B.Int(1), B.Int(0))}})
		case "bits.Sub64":
			s := B.Sub(B.Sub(T(0), T(1)), T(2))
			return ret(&TupleV{F: []V{B.Ite(B.Lt(s, B.Int(0)), B.Add(s, M), s), B.Ite(B.Lt(s, B.Int(0)), B.Int(1), B.Int(0))}})
		default:
			s := x.mulT(T(0), T(1))
			return ret(&TupleV{F: []V{B.Div(s, M), B.Mod(s, M)}})
		}
	case "json.Marshal":
		ok := B.Fresh("jsonok", SBool)
		x.bumpAlloc(st)
		r := x.freshV(st, "json", fn.Signature.Results().At(0).Type())
		return ret(&TupleV{F: []V{r, x.maybeErr(st, ok)}})
	case "os.Getenv":
		return ret(B.App("getenv", SStr, T(0)))
	case "utf8.ValidString":
		return ret(B.App("utf8valid", SBool, T(0)))
	case "utf8.Valid":
		return ret(B.App("utf8valid", SBool, x.strBytes(st, args[0])))
	case "sha256.Sum256":
		s := x.strBytes(st, args[0])
		t := B.App("sha256", SStr, s)
		if t.facts == nil {
			t.addFact(B.Eq(B.App("slen", SInt, t), B.Int(32)))
		}
		return ret(&ArrV{Leaf: []*Term{x.arrOf(t)}})
	case "sort.SearchInts":
	}
	return nil, false, false
}

func (x *Exec) ifaceModel(st *State, key string, recv *Term, args []V, sig *types.Signature, pos token.Pos) (V, bool) {
	return nil, false
}

// bigModel: math/big.Int over mathematical integers.
func (x *Exec) bigModel(st *State, m string, args []V, pos token.Pos) (V, bool, bool) {
	B := x.B
	name := "big.(*Int)." + m
	x.trust["model: "+name] = true
	val := func(i int) *Term { return x.bigVal(st, args[i]) }
	set := func(v *Term) (V, bool, bool) {
		x.setBig(st, args[0], v)
		return args[0], true, true
	}
	for _, i := range bigPtrArgs(m) {
		if i < len(args) {
			if m == "String" {
				continue
			}
			if !x.nonNil(st, args[i], "nil big.Int in "+m, pos) {
				return nil, true, false
			}
		}
	}
	T := func(i int) *Term { return args[i].(*Term) }
	nz := func(i int) bool { return x.guard(st, B.Not(B.Eq(val(i), B.Int(0))), "big.Int division by zero", pos) }
	ok := func(v V) (V, bool, bool) { return v, true, true }
	switch m {
	case "Set", "SetUint64", "SetInt64":
		if m == "Set" {
			return set(val(1))
		}
		return set(T(1))
	case "Add":
		return set(B.Add(val(1), val(2)))
	case "Sub":
		return set(B.Sub(val(1), val(2)))
	case "Mul":
		return set(x.mulT(val(1), val(2)))
	case "Neg":
		return set(B.Neg(val(1)))
	case "Abs":
		return set(x.absT(val(1)))
	case "Quo":
		if !nz(2) {
			return nil, true, false
		}
		return set(x.tdiv(val(1), val(2), nil))
	case "Rem":
		if !nz(2) {
			return nil, true, false
		}
		return set(x.trem(val(1), val(2), nil))
	case "Div":
		if !nz(2) {
			return nil, true, false
		}
		return set(x.ediv(val(1), val(2)))
	case "Mod":
		if !nz(2) {
			return nil, true, false
		}
		a, b := val(1), val(2)
		return set(B.Sub(a, x.mulT(x.ediv(a, b), b)))
	case "Sqrt":
		if !x.guard(st, B.Le(B.Int(0), val(1)), "big.Int square root of negative number", pos) {
			return nil, true, false
		}
		a := val(1)
		t := B.App("isqrt", SInt, a)
		if t.facts == nil {
			t1 := B.Add(t, B.Int(1))
			t.addFact(B.Imp(B.Le(B.Int(0), a), B.And(B.Le(B.Int(0), t), B.Le(x.mulT(t, t), a), B.Lt(a, x.mulT(t1, t1)))))
		}
		return set(t)
	case "Exp":
		// y**x mod |m|; m nil or 0 means no modulus
		mm := B.Int(0)
		if !T(3).isInt() {
			mm = x.bigVal(st, args[3])
		}
		t := B.App("bigexp", SInt, val(1), val(2), mm)
		return set(t)
	case "And":
		return set(x.bigAnd(val(1), val(2)))
	case "Or":
		a, b := val(1), val(2)
		return set(B.Sub(B.Add(a, b), x.bigAnd(a, b)))
	case "Xor":
		a, b := val(1), val(2)
		return set(B.Sub(B.Add(a, b), B.Mul(B.Int(2), x.bigAnd(a, b))))
	case "Not":
		return set(B.Sub(B.Int(-1), val(1)))
	case "Lsh":
		return set(x.mulT(val(1), x.pow2(T(2))))
	case "Rsh":
		return set(x.divFacts(val(1), x.pow2(T(2))))
	case "SetBytes":
		return set(x.beval(x.strBytes(st, args[1])))
	case "Bytes":
		return ok(x.newBytes(st, x.bebytes(val(0))))
	case "Cmp":
		return ok(x.cmpT(val(0), val(1)))
	case "CmpAbs":
		return ok(x.cmpT(x.absT(val(0)), x.absT(val(1))))
	case "Sign":
		return ok(x.cmpT(val(0), B.Int(0)))
	case "Int64":
		v := val(0)
		return ok(x.bigLow(v, types.Typ[types.Int64]))
	case "Uint64":
		v := val(0)
		return ok(x.bigLow(x.absT(v), types.Typ[types.Uint64]))
	case "IsInt64":
		return ok(inRange(B, val(0), types.Typ[types.Int64]))
	case "IsUint64":
		return ok(inRange(B, val(0), types.Typ[types.Uint64]))
	case "BitLen":
		v := x.absT(val(0))
		t := B.App("bitlen", SInt, v)
		if t.facts == nil {
			t.addFact(B.And(B.Le(B.Int(0), t), B.Eq(B.Eq(t, B.Int(0)), B.Eq(v, B.Int(0)))))
			t.addFact(B.Le(t, B.BigInt(new(big.Int).Lsh(big.NewInt(1), maxLenBits))))
		}
		return ok(t)
	case "Bit":
		return ok(B.App("bigbit", SInt, val(0), T(1)))
	case "String", "Text":
		if T(0).isInt() {
			return ok(B.StrLit("<nil>"))
		}
		return ok(B.App("decimal", SStr, val(0)))
	case "SetString":
		s := T(1)
		base := T(2)
		okc := B.App("isNumeral", SBool, s, base)
		v := B.App("numeral", SInt, s, base)
		if s.op == "app" && s.name == "decimal" {
			okc = B.True
			v = s.args[0]
		}
		x.setBig(st, args[0], B.Ite(okc, v, B.Fresh("undefbig", SInt)))
		return ok(&TupleV{F: []V{B.Ite(okc, T(0), B.Int(0)), okc}})
	case "FillBytes":
		s := args[1].(*SliceV)
		v := val(0)
		bb := x.bebytes(v)
		l := x.slen(bb)
		if !x.guard(st, B.Le(l, s.L), "FillBytes overflow", pos) {
			return nil, true, false
		}
		hn := "E:" + typeKey(byteT)
		h := x.H(st, hn, ArrSort(SInt, ArrSort(SInt, SInt)))
		full := x.scat(x.szero(B.Sub(s.L, l)), bb)
		x.setH(st, hn, B.Store(h, s.B, x.splice(B.Select(h, s.B), s.O, x.arrOf(full), B.Int(0), s.L)))
		return ok(args[1])
	case "ModInverse", "GCD", "Binomial", "ProbablyPrime", "ModSqrt":
		return nil, false, false
	case "UnmarshalText":
		s := x.strBytes(st, args[1])
		okc := B.App("isNumeral", SBool, s, B.Int(0))
		x.setBig(st, args[0], B.Ite(okc, B.App("numeral", SInt, s, B.Int(0)), B.Fresh("undefbig", SInt)))
		return ok(x.maybeErr(st, okc))
	case "MarshalText":
		return ok(&TupleV{F: []V{x.newBytes(st, B.App("decimal", SStr, val(0))), B.Int(0)}})
	}
	return nil, false, false
}

func bigPtrArgs(m string) []int {
	switch m {
	case "Set", "Neg", "Abs", "Not", "Lsh", "Rsh", "Sqrt", "Cmp", "CmpAbs":
		return []int{0, 1}
	case "Add", "Sub", "Mul", "Quo", "Rem", "Div", "Mod", "And", "Or", "Xor":
		return []int{0, 1, 2}
	case "Exp":
		return []int{0, 1, 2}
	}
	return []int{0}
}

// bigLow: the low 64 bits of a big integer as returned by Int64/Uint64.
func (x *Exec) bigLow(v *Term, ty types.Type) *Term {
	return x.wrap(v, ty)
}

// Euclidean division
func (x *Exec) ediv(a, b *Term) *Term {
	B := x.B
	d := B.Div(a, b)
	if d.op == "div" && !b.isInt() && d.facts == nil && !d.bound {
		m := x.mulT(d, b)
		d.addFact(B.Imp(B.Not(B.Eq(b, B.Int(0))), B.And(B.Le(m, a), B.Lt(B.Sub(a, m), x.absT(b)))))
	}
	return d
}

// psum(a, o, n) is the sum of a[o .. o+n-1]; its definition is unfolded once per mention.
func (x *Exec) psum(a, o, n *Term) *Term {
	B := x.B
	if n.isInt() && n.val.Sign() <= 0 {
		return B.Int(0)
	}
	t := B.App("psum", SInt, a, o, n)
	if t.facts == nil && !t.bound && t.op == "app" {
		prev := B.App("psum", SInt, a, o, B.Sub(n, B.Int(1)))
		t.addFact(B.Imp(B.Le(n, B.Int(0)), B.Eq(t, B.Int(0))))
		t.addFact(B.Imp(B.Lt(B.Int(0), n), B.Eq(t, B.Add(prev, B.Select(a, B.Sub(B.Add(o, n), B.Int(1)))))))
		if prev.facts == nil && !prev.bound && prev.op == "app" {
			prev.addFact(B.Imp(B.Le(n, B.Int(1)), B.Eq(prev, B.Int(0))))
		}
	}
	return t
}

type lamDef struct {
	v, body *Term
	ps      []*Term
}

// lambda names the function v -> body as an array-valued application: the maximal
// subterms of body without v are its parameters.
func (x *Exec) lambda(v, body *Term) *Term {
	B := x.B
	if x.lams == nil {
		x.lams = map[string]*lamDef{}
		x.lamOf = map[*Term]string{}
	}
	has := map[*Term]bool{}
	seen := map[*Term]bool{}
	var in func(t *Term) bool
	in = func(t *Term) bool {
		if seen[t] {
			return has[t]
		}
		seen[t] = true
		r := t == v
		for _, a := range t.args {
			if in(a) {
				r = true
			}
		}
		has[t] = r
		return r
	}
	in(body)
	var args, ps []*Term
	sub := map[*Term]*Term{}
	memo := map[*Term]bool{}
	var col func(t *Term)
	col = func(t *Term) {
		if memo[t] {
			return
		}
		memo[t] = true
		if !has[t] {
			if t.isLit() {
				return
			}
			p := B.Var(fmt.Sprintf("lp!%d!%s", len(ps), t.sort), t.sort)
			sub[t] = p
			ps = append(ps, p)
			args = append(args, t)
			return
		}
		for _, a := range t.args {
			col(a)
		}
	}
	col(body)
	tmpl := B.Subst(body, sub)
	id, ok := x.lamOf[tmpl]
	if !ok {
		id = fmt.Sprintf("lam!%d", len(x.lams))
		x.lamOf[tmpl] = id
		x.lams[id] = &lamDef{v, tmpl, ps}
	}
	return B.App(id, ArrSort(v.sort, SInt), args...)
}

func (x *Exec) lamAt(lam, k *Term) *Term {
	d := x.lams[lam.name]
	m := map[*Term]*Term{d.v: k}
	for i, p := range d.ps {
		m[p] = lam.args[i]
	}
	return x.B.Subst(d.body, m)
}

// fsum(S, V) is the sum of V over the finite set S; unfolded along insertions.
func (x *Exec) fsum(set, lam *Term) *Term {
	B := x.B
	switch set.op {
	case "karr":
		return B.Int(0)
	}
	t := B.App("fsum", SInt, set, lam)
	if t.facts == nil && !t.bound && t.op == "app" && set.op == "store" && set.args[2] == B.True {
		s0, k := set.args[0], set.args[1]
		prev := x.fsum(s0, lam)
		at := x.lamAt(lam, k)
		t.addFact(B.Eq(t, B.Ite(B.Select(s0, k), prev, B.Add(prev, at))))
	}
	return t
}

// nsum(V, n) = V[0] + ... + V[n-1], unfolded once per mention.
func (x *Exec) nsum(lam, n *Term) *Term {
	B := x.B
	if n.isInt() && n.val.Sign() <= 0 {
		return B.Int(0)
	}
	t := B.App("nsum", SInt, lam, n)
	if t.facts == nil && !t.bound && t.op == "app" {
		m := B.Sub(n, B.Int(1))
		prev := B.App("nsum", SInt, lam, m)
		t.addFact(B.Imp(B.Le(n, B.Int(0)), B.Eq(t, B.Int(0))))
		t.addFact(B.Imp(B.Lt(B.Int(0), n), B.Eq(t, B.Add(prev, x.lamAt(lam, m)))))
		if prev.op == "app" && prev.facts == nil && !prev.bound {
			prev.addFact(B.Imp(B.Le(n, B.Int(1)), B.Eq(prev, B.Int(0))))
		}
	}
	return t
}

package main

// Hash-consed SMT terms with light simplification. One Bank per verification task.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort string

const (
	SBool Sort = "Bool"
	SInt  Sort = "Int"
	SStr  Sort = "Str"
)

func ArrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// splitArr returns key and value sorts of an array sort.
func splitArr(s Sort) (Sort, Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	in := str[7 : len(str)-1]
	depth := 0
	for i, c := range in {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(in[:i]), Sort(in[i+1:])
			}
		}
	}
	panic("bad array sort " + str)
}

type Term struct {
	id    int
	op    string
	name  string // const / app name / strlit content
	val   *big.Int
	args  []*Term
	sort  Sort
	bound bool    // contains bound variable
	maxc  int     // max creation index of constants inside
	facts []*Term // side facts valid for this term
	lin   *linForm
}

type Bank struct {
	tab         map[string]*Term
	nterm       int
	nconst      int
	fresh       map[string]int
	funs        map[string]string // uninterpreted function name -> declaration
	freshLoc    map[*Term]bool
	freshAfter  map[*Term]int  // allocated by a call made when there were that many constants
	born        map[*Term]int  // heap versions: number of constants when the version came about
	inner       map[*Term]bool // constants that stand for one array or map, not for a heap
	agrees      map[*Term]agreement
	litFacts    bool
	ex          *Exec
	groundOnly  bool
	heapFacts   func(*Term) *Term
	selFacts    func(*Term) []*Term
	True, False *Term
}

// agreement: a heap version known to agree with an earlier one on every location that
// existed before constant number mc was created.
type agreement struct {
	with *Term
	mc   int
}

func NewBank() *Bank {
	b := &Bank{tab: map[string]*Term{}, fresh: map[string]int{}, funs: map[string]string{}, freshLoc: map[*Term]bool{}, inner: map[*Term]bool{}, freshAfter: map[*Term]int{}, born: map[*Term]int{}, agrees: map[*Term]agreement{}}
	b.True = b.mk(&Term{op: "true", sort: SBool})
	b.False = b.mk(&Term{op: "false", sort: SBool})
	return b
}

func (b *Bank) mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.name)
	sb.WriteByte('|')
	sb.WriteString(string(t.sort))
	if t.val != nil {
		sb.WriteByte('|')
		sb.WriteString(t.val.String())
	}
	for _, a := range t.args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	if o, ok := b.tab[k]; ok {
		return o
	}
	b.nterm++
	t.id = b.nterm
	for _, a := range t.args {
		if a.bound {
			t.bound = true
		}
		if a.maxc > t.maxc {
			t.maxc = a.maxc
		}
	}
	b.tab[k] = t
	return t
}

func (b *Bank) Const(name string, s Sort) *Term {
	k := "const|" + name + "|" + string(s)
	if o, ok := b.tab[k]; ok {
		return o
	}
	t := b.mk(&Term{op: "const", name: name, sort: s})
	b.nconst++
	t.maxc = b.nconst
	return t
}

func (b *Bank) Fresh(prefix string, s Sort) *Term {
	b.fresh[prefix]++
	return b.Const(fmt.Sprintf("%s!%d", prefix, b.fresh[prefix]), s)
}

func (b *Bank) Var(name string, s Sort) *Term {
	t := b.mk(&Term{op: "var", name: name, sort: s})
	t.bound = true
	return t
}

func (b *Bank) Int(v int64) *Term { return b.BigInt(big.NewInt(v)) }
func (b *Bank) BigInt(v *big.Int) *Term {
	return b.mk(&Term{op: "int", val: new(big.Int).Set(v), sort: SInt})
}
func (b *Bank) Bool(v bool) *Term {
	if v {
		return b.True
	}
	return b.False
}
func (b *Bank) StrLit(s string) *Term {
	t := b.mk(&Term{op: "strlit", name: s, sort: SStr})
	return t
}

func (t *Term) isInt() bool { return t.op == "int" }
func (t *Term) isLit() bool {
	return t.op == "int" || t.op == "strlit" || t.op == "true" || t.op == "false"
}

// ---- boolean ----

func (b *Bank) Not(x *Term) *Term {
	switch x.op {
	case "true":
		return b.False
	case "false":
		return b.True
	case "not":
		return x.args[0]
	case "<=":
		// not (a <= c)  ==>  c+1 <= a
		return b.Le(b.Add(x.args[1], b.Int(1)), x.args[0])
	}
	return b.mk(&Term{op: "not", args: []*Term{x}, sort: SBool})
}

func (b *Bank) nary(op string, xs []*Term) *Term {
	unit, zero := b.True, b.False
	if op == "or" {
		unit, zero = b.False, b.True
	}
	seen := map[*Term]bool{}
	var out []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, a := range x.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[x] {
			return true
		}
		if seen[b.Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return b.mk(&Term{op: op, args: out, sort: SBool})
}
func (b *Bank) And(xs ...*Term) *Term { return b.nary("and", xs) }
func (b *Bank) Or(xs ...*Term) *Term  { return b.nary("or", xs) }
func (b *Bank) Imp(x, y *Term) *Term {
	if x == b.True {
		return y
	}
	if x == b.False || y == b.True {
		return b.True
	}
	if y == b.False {
		return b.Not(x)
	}
	if x == y {
		return b.True
	}
	return b.mk(&Term{op: "=>", args: []*Term{x, y}, sort: SBool})
}

func (b *Bank) Ite(c, x, y *Term) *Term {
	if c == b.True || x == y {
		return x
	}
	if c == b.False {
		return y
	}
	if x.sort == SBool {
		if x == b.True && y == b.False {
			return c
		}
		if x == b.False && y == b.True {
			return b.Not(c)
		}
		if x == b.True {
			return b.Or(c, y)
		}
		if y == b.False {
			return b.And(c, x)
		}
		if x == b.False {
			return b.And(b.Not(c), y)
		}
		if y == b.True {
			return b.Or(b.Not(c), x)
		}
	}
	if c.op == "not" {
		return b.Ite(c.args[0], y, x)
	}
	// nested same-condition
	if x.op == "ite" && x.args[0] == c {
		x = x.args[1]
	}
	if y.op == "ite" && y.args[0] == c {
		y = y.args[2]
	}
	if x == y {
		return x
	}
	if x.sort != y.sort {
		panic(fmt.Sprintf("ite sorts %s %s: %s / %s", x.sort, y.sort, x, y))
	}
	return b.mk(&Term{op: "ite", args: []*Term{c, x, y}, sort: x.sort})
}

// ---- linear arithmetic ----

type linForm struct {
	c  *big.Int
	ts []*Term
	ks []*big.Int
}

func (b *Bank) linOf(t *Term) *linForm {
	if t.lin != nil {
		return t.lin
	}
	var l *linForm
	if t.op == "int" {
		l = &linForm{c: t.val}
	} else {
		l = &linForm{c: big.NewInt(0), ts: []*Term{t}, ks: []*big.Int{big.NewInt(1)}}
	}
	t.lin = l
	return l
}

func addLin(x, y *linForm, k *big.Int) *linForm {
	r := &linForm{c: new(big.Int).Add(x.c, new(big.Int).Mul(y.c, k))}
	i, j := 0, 0
	for i < len(x.ts) || j < len(y.ts) {
		if j >= len(y.ts) || (i < len(x.ts) && x.ts[i].id < y.ts[j].id) {
			r.ts = append(r.ts, x.ts[i])
			r.ks = append(r.ks, x.ks[i])
			i++
		} else if i >= len(x.ts) || y.ts[j].id < x.ts[i].id {
			r.ts = append(r.ts, y.ts[j])
			r.ks = append(r.ks, new(big.Int).Mul(y.ks[j], k))
			j++
		} else {
			s := new(big.Int).Add(x.ks[i], new(big.Int).Mul(y.ks[j], k))
			if s.Sign() != 0 {
				r.ts = append(r.ts, x.ts[i])
				r.ks = append(r.ks, s)
			}
			i++
			j++
		}
	}
	return r
}

func (b *Bank) fromLin(l *linForm) *Term {
	if len(l.ts) == 0 {
		return b.BigInt(l.c)
	}
	if len(l.ts) == 1 && l.c.Sign() == 0 && l.ks[0].Cmp(big.NewInt(1)) == 0 {
		return l.ts[0]
	}
	var args []*Term
	for i, t := range l.ts {
		if l.ks[i].Cmp(big.NewInt(1)) == 0 {
			args = append(args, t)
		} else {
			args = append(args, b.mk(&Term{op: "*", args: []*Term{b.BigInt(l.ks[i]), t}, sort: SInt}))
		}
	}
	if l.c.Sign() != 0 {
		args = append(args, b.BigInt(l.c))
	}
	var r *Term
	if len(args) == 1 {
		r = args[0]
	} else {
		r = b.mk(&Term{op: "+", args: args, sort: SInt})
	}
	if r.lin == nil {
		r.lin = l
	}
	return r
}

func (b *Bank) Add(x, y *Term) *Term { return b.fromLin(addLin(b.linOf(x), b.linOf(y), big.NewInt(1))) }
func (b *Bank) Sub(x, y *Term) *Term {
	return b.fromLin(addLin(b.linOf(x), b.linOf(y), big.NewInt(-1)))
}
func (b *Bank) Neg(x *Term) *Term { return b.Sub(b.Int(0), x) }
func (b *Bank) Mul(x, y *Term) *Term {
	if x.isInt() {
		return b.fromLin(addLin(&linForm{c: big.NewInt(0)}, b.linOf(y), x.val))
	}
	if y.isInt() {
		return b.Mul(y, x)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(&Term{op: "*", args: []*Term{x, y}, sort: SInt})
}

// Div / Mod: SMT-LIB (Euclidean for positive divisor).
func (b *Bank) Div(x, y *Term) *Term {
	if x.isInt() && y.isInt() && y.val.Sign() > 0 {
		return b.BigInt(new(big.Int).Div(x.val, y.val))
	}
	if y.isInt() && y.val.Cmp(big.NewInt(1)) == 0 {
		return x
	}
	return b.mk(&Term{op: "div", args: []*Term{x, y}, sort: SInt})
}
func (b *Bank) Mod(x, y *Term) *Term {
	if x.isInt() && y.isInt() && y.val.Sign() > 0 {
		return b.BigInt(new(big.Int).Mod(x.val, y.val))
	}
	return b.mk(&Term{op: "mod", args: []*Term{x, y}, sort: SInt})
}

// diffConst returns x-y if constant.
func (b *Bank) diffConst(x, y *Term) *big.Int {
	d := addLin(b.linOf(x), b.linOf(y), big.NewInt(-1))
	if len(d.ts) == 0 {
		return d.c
	}
	return nil
}

func (b *Bank) Le(x, y *Term) *Term {
	if d := b.diffConst(x, y); d != nil {
		return b.Bool(d.Sign() <= 0)
	}
	// normalise: move positive to canonical form  (x - y) <= 0 ; keep as sides but canonical
	d := addLin(b.linOf(x), b.linOf(y), big.NewInt(-1))
	l := &linForm{c: big.NewInt(0)}
	r := &linForm{c: big.NewInt(0)}
	for i, t := range d.ts {
		if d.ks[i].Sign() > 0 {
			l.ts = append(l.ts, t)
			l.ks = append(l.ks, d.ks[i])
		} else {
			r.ts = append(r.ts, t)
			r.ks = append(r.ks, new(big.Int).Neg(d.ks[i]))
		}
	}
	if d.c.Sign() > 0 {
		l.c = d.c
	} else {
		r.c = new(big.Int).Neg(d.c)
	}
	return b.mk(&Term{op: "<=", args: []*Term{b.fromLin(l), b.fromLin(r)}, sort: SBool})
}
func (b *Bank) Lt(x, y *Term) *Term { return b.Le(b.Add(x, b.Int(1)), y) }
func (b *Bank) Ge(x, y *Term) *Term { return b.Le(y, x) }
func (b *Bank) Gt(x, y *Term) *Term { return b.Lt(y, x) }

// ---- equality ----

func (b *Bank) distinctSyn(x, y *Term) bool {
	if x == y {
		return false
	}
	if x.sort == SInt {
		if d := b.diffConst(x, y); d != nil {
			return d.Sign() != 0
		}
		if b.freshLoc[x] && (b.freshLoc[y] || b.older(y, x.maxc, 0)) {
			return true
		}
		if b.freshLoc[y] && b.older(x, y.maxc, 0) {
			return true
		}
		if mc := b.freshAfter[x]; mc > 0 && b.older(y, mc, 0) {
			return true
		}
		if mc := b.freshAfter[y]; mc > 0 && b.older(x, mc, 0) {
			return true
		}
		kx, ky := locKind(x), locKind(y)
		if kx != "" && ky != "" {
			if kx != ky {
				return true
			}
			// same injective function
			for i := range x.args {
				if b.distinctSyn(x.args[i], y.args[i]) {
					return true
				}
			}
		}
		if kx != "" && (b.freshLoc[y] || y.isInt()) {
			return true
		}
		if ky != "" && (b.freshLoc[x] || x.isInt()) {
			return true
		}
	}
	if x.op == "strlit" && y.op == "strlit" {
		return true
	}
	if x.sort == SBool {
		return x == b.Not(y)
	}
	return false
}

// older: t denotes a value that existed before the constant number mc was created.
func (b *Bank) older(t *Term, mc int, _ int) bool {
	o := &olderQ{b: b, mc: mc, left: 400}
	return o.val(t)
}

// an object read from a heap must itself be older: later objects may hold anything
type olderQ struct {
	b    *Bank
	mc   int
	left int
}

func (o *olderQ) spend() bool {
	o.left--
	return o.left >= 0
}

func (o *olderQ) val(t *Term) bool {
	if t.isInt() {
		return true
	}
	if !o.spend() {
		return false
	}
	if !t.bound && t.maxc < o.mc {
		return true
	}
	switch t.op {
	case "ite":
		return o.val(t.args[1]) && o.val(t.args[2])
	case "select":
		return o.read(t.args[0], t.args[1])
	case "app":
		if strings.HasPrefix(t.name, "ifv.") && len(t.args) == 1 {
			return o.val(t.args[0])
		}
	}
	return false
}

func (o *olderQ) heap(h *Term) bool {
	if n, ok := o.b.born[h]; ok && n < o.mc {
		return true
	}
	return h.maxc < o.mc
}

// read: the value of h at i
func (o *olderQ) read(h, i *Term) bool {
	if !o.spend() {
		return false
	}
	switch h.op {
	case "const":
		return o.heap(h) && (o.b.inner[h] || i.sort != SInt || o.val(i))
	case "karr":
		return true
	case "store":
		return o.val(h.args[2]) && o.read(h.args[0], i)
	case "ite":
		return o.read(h.args[1], i) && o.read(h.args[2], i)
	case "select":
		return o.read2(h.args[0], h.args[1], i)
	}
	return false
}

// read2: the value at i of the array or map m of h
func (o *olderQ) read2(h, m, i *Term) bool {
	if !o.spend() {
		return false
	}
	switch h.op {
	case "const":
		return o.heap(h) && o.val(m)
	case "karr":
		return true
	case "store":
		return o.read(h.args[2], i) && o.read2(h.args[0], m, i)
	case "ite":
		return o.read2(h.args[1], m, i) && o.read2(h.args[2], m, i)
	}
	return false
}

func locKind(t *Term) string {
	if t.op == "app" && (strings.HasPrefix(t.name, "fa.") || strings.HasPrefix(t.name, "el.") || strings.HasPrefix(t.name, "mkI.")) {
		return t.name
	}
	return ""
}

func (b *Bank) Eq(x, y *Term) *Term {
	if x == y {
		return b.True
	}
	if x.sort != y.sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s / %s", x.sort, y.sort, x, y))
	}
	if b.distinctSyn(x, y) {
		return b.False
	}
	if x.sort == SBool {
		if x == b.True {
			return y
		}
		if y == b.True {
			return x
		}
		if x == b.False {
			return b.Not(y)
		}
		if y == b.False {
			return b.Not(x)
		}
	}
	if x.sort == SInt {
		kx, ky := locKind(x), locKind(y)
		if kx != "" && kx == ky {
			var cs []*Term
			for i := range x.args {
				cs = append(cs, b.Eq(x.args[i], y.args[i]))
			}
			return b.And(cs...)
		}
	}
	// push equality with literal through ite of literals
	if y.op == "ite" && x.op != "ite" {
		x, y = y, x
	}
	if x.op == "ite" && y.isLit() && (x.args[1].isLit() || x.args[2].isLit()) {
		return b.Ite(x.args[0], b.Eq(x.args[1], y), b.Eq(x.args[2], y))
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(&Term{op: "=", args: []*Term{x, y}, sort: SBool})
}

// ---- arrays ----

func (b *Bank) Select(a, i *Term) *Term {
	_, v := splitArr(a.sort)
	for {
		if a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			if b.distinctSyn(a.args[1], i) {
				a = a.args[0]
				continue
			}
		}
		if a.op == "karr" {
			return a.args[0]
		}
		if a.op == "const" {
			if g, ok := b.agrees[a]; ok && b.older(i, g.mc, 0) {
				a = g.with
				continue
			}
		}
		if a.op == "ite" && (a.args[1].op != "const" || a.args[2].op != "const") {
			x, y := b.Select(a.args[1], i), b.Select(a.args[2], i)
			return b.Ite(a.args[0], x, y)
		}
		break
	}
	if a.op == "app" && a.name == "splice" {
		// handled by axiom facts
		t := b.mk(&Term{op: "select", args: []*Term{a, i}, sort: v})
		if t.facts == nil {
			p, src, q, n := a.args[1], a.args[2], a.args[3], a.args[4]
			in := b.And(b.Le(p, i), b.Lt(i, b.Add(p, n)))
			t.facts = []*Term{b.Eq(t, b.Ite(in, b.Select(src, b.Add(q, b.Sub(i, p))), b.Select(a.args[0], i)))}
		}
		return t
	}
	return b.mk(&Term{op: "select", args: []*Term{a, i}, sort: v})
}

func (b *Bank) Store(a, i, v *Term) *Term {
	_, vs := splitArr(a.sort)
	if vs != v.sort {
		panic(fmt.Sprintf("store sort %s into %s", v.sort, a.sort))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return b.mk(&Term{op: "store", args: []*Term{a, i, v}, sort: a.sort})
}

func (b *Bank) KArr(s Sort, v *Term) *Term {
	return b.mk(&Term{op: "karr", args: []*Term{v}, sort: s})
}

// ---- uninterpreted functions ----

func (b *Bank) App(name string, ret Sort, args ...*Term) *Term {
	if _, ok := b.funs[name]; !ok {
		var ss []string
		for _, a := range args {
			ss = append(ss, string(a.sort))
		}
		b.funs[name] = fmt.Sprintf("(declare-fun %s (%s) %s)", smtName(name), strings.Join(ss, " "), ret)
	}
	t := b.mk(&Term{op: "app", name: name, args: args, sort: ret})
	if len(args) == 0 && t.maxc == 0 {
		b.nconst++
		t.maxc = b.nconst
	}
	return t
}

func (t *Term) addFact(f *Term) { t.facts = append(t.facts, f) }

// ---- quantifiers ----

func (b *Bank) Forall(vars []*Term, body *Term, pats [][]*Term) *Term {
	return b.quant("forall", vars, body, pats)
}
func (b *Bank) quant(q string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if body == b.True || body == b.False {
		return body
	}
	// encode: args = [body, vars..., pattern terms...]; name = layout
	args := []*Term{body}
	args = append(args, vars...)
	name := fmt.Sprintf("%d", len(vars))
	for _, p := range pats {
		name += fmt.Sprintf(":%d", len(p))
		args = append(args, p...)
	}
	t := b.mk(&Term{op: q, name: name, args: args, sort: SBool})
	// bound flag: only if free bound vars other than these remain
	t.bound = b.hasFreeVars(t)
	return t
}

func (b *Bank) freeVars(t *Term, acc map[*Term]bool, seen map[*Term]bool) {
	if !t.bound || seen[t] {
		return
	}
	seen[t] = true
	if t.op == "var" {
		acc[t] = true
		return
	}
	if t.op == "forall" || t.op == "exists" {
		in := map[*Term]bool{}
		var n int
		fmt.Sscanf(t.name, "%d", &n)
		for _, a := range t.args {
			b.freeVars(a, in, map[*Term]bool{})
		}
		for _, v := range t.args[1 : 1+n] {
			delete(in, v)
		}
		for v := range in {
			acc[v] = true
		}
		return
	}
	for _, a := range t.args {
		b.freeVars(a, acc, seen)
	}
}

func (b *Bank) hasFreeVars(t *Term) bool {
	acc := map[*Term]bool{}
	t.bound = true
	b.freeVars(t, acc, map[*Term]bool{})
	return len(acc) > 0
}

// Subst replaces variables/terms by others, rebuilding with simplification.
func (b *Bank) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		na := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			na[i] = rec(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = b.rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

var rebuildApp func(b *Bank, name string, ret Sort, args []*Term) *Term

func (b *Bank) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "not":
		return b.Not(a[0])
	case "and":
		return b.And(a...)
	case "or":
		return b.Or(a...)
	case "=>":
		return b.Imp(a[0], a[1])
	case "=":
		return b.Eq(a[0], a[1])
	case "ite":
		return b.Ite(a[0], a[1], a[2])
	case "+":
		r := a[0]
		for _, x := range a[1:] {
			r = b.Add(r, x)
		}
		return r
	case "*":
		return b.Mul(a[0], a[1])
	case "div":
		return b.Div(a[0], a[1])
	case "mod":
		return b.Mod(a[0], a[1])
	case "<=":
		return b.Le(a[0], a[1])
	case "select":
		return b.Select(a[0], a[1])
	case "store":
		return b.Store(a[0], a[1], a[2])
	case "karr":
		return b.KArr(t.sort, a[0])
	case "app":
		return rebuildApp(b, t.name, t.sort, a)
	case "forall", "exists":
		var n int
		fmt.Sscanf(t.name, "%d", &n)
		nt := b.mk(&Term{op: t.op, name: t.name, args: a, sort: SBool})
		nt.bound = b.hasFreeVars(nt)
		return nt
	}
	panic("rebuild " + t.op)
}

// ---- printing ----

func smtName(s string) string {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_.!-+$@", c)) {
			return "|" + strings.ReplaceAll(strings.ReplaceAll(s, "|", "!"), "\\", "!") + "|"
		}
	}
	return s
}

func smtInt(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func (t *Term) String() string {
	return t.render(nil, 0)
}

func (t *Term) render(names map[*Term]string, depth int) string {
	if names != nil {
		if n, ok := names[t]; ok {
			return n
		}
	} else if depth > 14 {
		return "..."
	}
	switch t.op {
	case "true", "false":
		return t.op
	case "int":
		return smtInt(t.val)
	case "strlit":
		return strLitName(t.name)
	case "const", "var":
		return smtName(t.name)
	case "karr":
		return fmt.Sprintf("((as const %s) %s)", t.sort, t.args[0].render(names, depth+1))
	case "forall", "exists":
		parts := strings.Split(t.name, ":")
		var n int
		fmt.Sscanf(parts[0], "%d", &n)
		var vs []string
		for _, v := range t.args[1 : 1+n] {
			vs = append(vs, fmt.Sprintf("(%s %s)", smtName(v.name), v.sort))
		}
		body := t.args[0].render(names, depth+1)
		pos := 1 + n
		pat := ""
		for _, p := range parts[1:] {
			var k int
			fmt.Sscanf(p, "%d", &k)
			var ps []string
			for _, x := range t.args[pos : pos+k] {
				ps = append(ps, x.render(names, depth+1))
			}
			pos += k
			pat += " :pattern (" + strings.Join(ps, " ") + ")"
		}
		if pat != "" {
			body = "(! " + body + pat + ")"
		}
		return fmt.Sprintf("(%s (%s) %s)", t.op, strings.Join(vs, " "), body)
	}
	op := t.op
	if op == "app" {
		op = smtName(t.name)
		if len(t.args) == 0 {
			return op
		}
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(op)
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(a.render(names, depth+1))
	}
	sb.WriteByte(')')
	return sb.String()
}

var strLitNames = map[string]string{}

func strLitName(s string) string {
	var sb strings.Builder
	sb.WriteString("|lit:")
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '-' || c == ' ' || c == '.' {
			sb.WriteByte(c)
		} else {
			fmt.Fprintf(&sb, "%%%02x", c)
		}
	}
	sb.WriteString("|")
	return sb.String()
}

// epochFacts relates ep to the allocation counters: an object older than the counter was
// allocated by a call that had returned by then.
func (b *Bank) epochFacts(order []*Term) []*Term {
	var eps, allocs []*Term
	bound := false
	for _, t := range order {
		if t.op == "app" && t.name == "ep" {
			if t.bound {
				bound = true
			} else {
				eps = append(eps, t)
			}
		}
		if t.op == "const" && (t.name == "alloc0" || strings.HasPrefix(t.name, "alloc!")) {
			allocs = append(allocs, t)
		}
	}
	var out []*Term
	for _, a := range allocs {
		if bound && !b.groundOnly {
			v := b.Var("ep?v", SInt)
			s := b.App("ep", SInt, v)
			out = append(out, b.Forall([]*Term{v}, b.Imp(b.Le(b.Add(v, b.Int(1)), a), b.Le(s, a)), [][]*Term{{s}}))
			continue
		}
		for _, e := range eps {
			out = append(out, b.Imp(b.Le(b.Add(e.args[0], b.Int(1)), a), b.Le(e, a)))
		}
	}
	return out
}

// Query renders a complete SMT-LIB script asserting all the given formulas.
func (b *Bank) Query(asserts []*Term, extra string) string {
	// closure over facts
	seen := map[*Term]bool{}
	refs := map[*Term]int{}
	var order []*Term
	var facts []*Term
	factSeen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		refs[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			visit(a)
		}
		order = append(order, t)
		if !t.bound {
			for _, f := range t.facts {
				if !factSeen[f] {
					factSeen[f] = true
					if b.groundOnly && hasQuant(f) {
						continue
					}
					facts = append(facts, f)
				}
			}
			if b.selFacts != nil && t.op == "select" {
				for _, f := range b.selFacts(t) {
					if !factSeen[f] {
						factSeen[f] = true
						facts = append(facts, f)
					}
				}
			}
		}
	}
	for _, a := range asserts {
		visit(a)
	}
	if b.heapFacts != nil && !b.groundOnly {
		for _, t := range order {
			if t.bound && t.op == "select" && t.sort == SInt && (t.args[0].op == "const" || t.args[0].op == "select" && t.args[0].args[0].op == "const") {
				h := t.args[0]
				if h.bound {
					h = h.args[0]
				}
				if f := b.heapFacts(h); f != nil && !factSeen[f] {
					factSeen[f] = true
					facts = append(facts, f)
				}
			}
		}
	}
	for i := 0; i < len(facts); i++ {
		visit(facts[i])
	}
	k := len(facts)
	facts = append(facts, b.epochFacts(order)...)
	for ; k < len(facts); k++ {
		visit(facts[k])
	}
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n(declare-sort Str 0)\n(declare-fun slen (Str) Int)\n(declare-fun sat (Str Int) Int)\n")
	decl := map[string]bool{"slen": true, "sat": true}
	var lits []string
	for _, t := range order {
		switch t.op {
		case "const":
			n := smtName(t.name)
			if !decl[n] {
				decl[n] = true
				fmt.Fprintf(&sb, "(declare-const %s %s)\n", n, t.sort)
			}
		case "strlit":
			n := strLitName(t.name)
			if !decl[n] {
				decl[n] = true
				fmt.Fprintf(&sb, "(declare-const %s Str)\n(assert (= (slen %s) %d))\n", n, n, len(t.name))
				lits = append(lits, n)
				if len(t.name) <= 16 {
					for i := 0; i < len(t.name); i++ {
						fmt.Fprintf(&sb, "(assert (= (sat %s %d) %d))\n", n, i, t.name[i])
					}
				}
			}
		case "app":
			if !decl[t.name] {
				decl[t.name] = true
				sb.WriteString(b.funs[t.name] + "\n")
			}
		}
	}
	if len(lits) > 1 {
		sb.WriteString("(assert (distinct " + strings.Join(lits, " ") + "))\n")
	}
	names := map[*Term]string{}
	for _, t := range order {
		if t.bound || len(t.args) == 0 || refs[t] < 2 {
			continue
		}
		body := t.render(names, 0)
		n := fmt.Sprintf("t%d", t.id)
		names[t] = n
		fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, t.sort, body)
	}
	for _, f := range facts {
		fmt.Fprintf(&sb, "(assert %s)\n", f.render(names, 0))
	}
	for _, a := range asserts {
		fmt.Fprintf(&sb, "(assert %s)\n", a.render(names, 0))
	}
	sb.WriteString("(check-sat)\n")
	sb.WriteString(extra)
	return sb.String()
}

// constsIn collects declared constants appearing in the given terms.
func constsIn(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "const" {
			out = append(out, t)
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, t := range ts {
		visit(t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

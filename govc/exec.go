package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---------- state ----------

type havoc struct {
	pat string
	tag int
}

type State struct {
	heap      map[string]*Term
	havocs    []havoc
	alloc     *Term
	pc        *pcNode
	npc       int
	frames    []*Frame
	nn        map[*Term]bool // known non-nil
	trace     []string
	depthLoop int
	pcset     map[*Term]bool
}

type pcNode struct {
	t    *Term
	prev *pcNode
}

type deferred struct {
	call *ssa.CallCommon
	args []V
	fnv  V
	pos  token.Pos
}

type Frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]V
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	pc      int
	ret     ssa.Value // instruction in the caller receiving the result
	defers  []deferred
	loops   map[*ssa.BasicBlock]*loopCut
	unroll  map[*ssa.BasicBlock]int
	iters   map[*ssa.BasicBlock]*Term // ghost iteration counters for cut loops
	uid     int
	onRet   func(st *State, v V) V
	discard bool
	inDefer bool
}

type loopCut struct {
	header *ssa.BasicBlock
}

func (s *State) clone() *State {
	n := *s
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.havocs = append([]havoc{}, s.havocs...)
	n.nn = make(map[*Term]bool, len(s.nn))
	for k := range s.nn {
		n.nn[k] = true
	}
	n.pcset = make(map[*Term]bool, len(s.pcset))
	for k := range s.pcset {
		n.pcset[k] = true
	}
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]V, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]deferred{}, f.defers...)
		g.loops = make(map[*ssa.BasicBlock]*loopCut, len(f.loops))
		for k, v := range f.loops {
			g.loops[k] = v
		}
		g.unroll = make(map[*ssa.BasicBlock]int, len(f.unroll))
		for k, v := range f.unroll {
			g.unroll[k] = v
		}
		g.iters = make(map[*ssa.BasicBlock]*Term, len(f.iters))
		for k, v := range f.iters {
			g.iters[k] = v
		}
		n.frames[i] = &g
	}
	n.trace = append([]string{}, s.trace...)
	return &n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) conds() []*Term {
	var r []*Term
	for n := s.pc; n != nil; n = n.prev {
		r = append(r, n.t)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// ---------- exec ----------

type VC struct {
	Name   string // obligation name: func/clause
	Status string // proved, refuted, unknown
	Solver string
	Ms     int64
	Model  map[string]string
	Path   []string
	Detail string
	Query  string
}

type Exec struct {
	P            *Program
	S            *Specs
	B            *Bank
	solver       *Solver
	heapSort     map[string]Sort
	factDone     map[string]bool
	typeIDs      map[string]int
	closures     map[*Term]*ClosureV
	lams         map[string]*lamDef
	lamOf        map[*Term]string
	vcs          []*VC
	trial        int
	work         []*State
	task         *Contract
	taskFn       *ssa.Function
	entry        *State // entry snapshot
	params       map[string]specVal
	tagCtr       int
	uidCtr       int
	paths        int
	steps        int
	retPaths     int
	noPanic      bool
	trust        map[string]bool // trusted contracts / models used
	calledC      map[string]bool // contracts used at call sites
	inlined      map[string]bool
	loopInfo     map[*ssa.Function]*loopForest
	hooks        []*hook
	houdini      int
	loopNotes    map[string]bool
	onlyLabel    map[string]bool
	maxPaths     int
	hints        map[string]bool
	axDone       bool
	axioms       []*Term
	entryLets    map[string]specVal
	coverHit     map[int]bool
	failFast     bool
	mu           sync.Mutex
	wg           sync.WaitGroup
	cacheVC      map[string]*VC
	poolMs       int64
	leafReg      map[string]leaf
	rootReg      map[*Term]rootInfo
	heapFactMemo map[*Term]*Term
	rootMemo     map[*Term][]*Term
	tagAlloc     map[int]*Term
	tagMaxc      map[int]int
	failed       map[string]int
	deadlineHit  bool
	entryMC      int
	joins        []*join
	joinMemo     map[*ssa.BasicBlock]*ssa.BasicBlock
	startNs      int64
	budgetNs     int64
}

type hook struct {
	uid    int // frame uid
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	back   []*State // states at back edges (frame.prev set)
	exits  int
}

func (x *Exec) assume(st *State, t *Term) bool {
	if t == x.B.True {
		return true
	}
	if t == x.B.False {
		st.pc = &pcNode{t, st.pc}
		return false
	}
	if t.op == "and" {
		ok := true
		for _, a := range t.args {
			if !x.assume(st, a) {
				ok = false
			}
		}
		return ok
	}
	if st.pcset[t] {
		return true
	}
	if st.pcset[x.B.Not(t)] {
		st.pc = &pcNode{x.B.False, st.pc}
		return false
	}
	st.pcset[t] = true
	st.pc = &pcNode{t, st.pc}
	st.npc++
	return true
}

// ---------- heap ----------

func patMatch(pat, name string) bool {
	if pat == "*" {
		return true
	}
	if strings.HasPrefix(pat, "*!") {
		for _, q := range strings.Split(pat[2:], "|") {
			if patMatch(q, name) {
				return false
			}
		}
		return !strings.HasPrefix(name, "G:") && !strings.HasPrefix(name, "$")
	}
	if strings.HasSuffix(pat, "*") {
		return strings.HasPrefix(name, pat[:len(pat)-1])
	}
	return pat == name || strings.HasPrefix(name, pat+".")
}

func (x *Exec) H(st *State, name string, s Sort) *Term {
	if t, ok := st.heap[name]; ok {
		return t
	}
	x.heapSort[name] = s
	tag := 0
	for i := len(st.havocs) - 1; i >= 0; i-- {
		if patMatch(st.havocs[i].pat, name) && !(st.havocs[i].pat == "*" && (strings.HasPrefix(name, "G:") || strings.HasPrefix(name, "$"))) {
			tag = st.havocs[i].tag
			break
		}
	}
	t := x.B.Const(fmt.Sprintf("%s@%d", name, tag), s)
	if _, known := x.rootReg[t]; !known {
		t.maxc = x.tagMaxc[tag]
	}
	x.regRoot(t, name, x.tagAlloc[tag], false)
	st.heap[name] = t
	return t
}

func (x *Exec) setH(st *State, name string, t *Term) {
	x.heapSort[name] = t.sort
	st.heap[name] = t
}

func structKey(t types.Type) string { return typeKey(types.Unalias(t)) }

// loadCell reads a non-aggregate cell.
func (x *Exec) loadCell(st *State, a *AddrV) V {
	var ts []*Term
	if a.Kind == 'G' {
		for _, l := range leavesOf(a.T) {
			ts = append(ts, x.H(st, a.Heap+l.suf, l.sort))
		}
	} else {
		for _, l := range leavesOf(a.T) {
			x.regLeaf(a.Heap+l.suf, l)
			if a.Kind == 'E' {
				h := x.H(st, a.Heap+l.suf, ArrSort(SInt, ArrSort(SInt, l.sort)))
				ts = append(ts, x.B.Select(x.B.Select(h, a.Loc), a.Idx))
			} else {
				h := x.H(st, a.Heap+l.suf, ArrSort(SInt, l.sort))
				ts = append(ts, x.B.Select(h, a.Loc))
			}
		}
	}
	v := x.unflat(ts, a.T)
	x.typed(st, v, a.T)
	return v
}

func (x *Exec) storeCell(st *State, a *AddrV, v V) {
	ts := x.flat(v, a.T)
	for i, l := range leavesOf(a.T) {
		x.regLeaf(a.Heap+l.suf, l)
		switch a.Kind {
		case 'G':
			x.setH(st, a.Heap+l.suf, ts[i])
		case 'E':
			n := a.Heap + l.suf
			h := x.H(st, n, ArrSort(SInt, ArrSort(SInt, l.sort)))
			x.setH(st, n, x.B.Store(h, a.Loc, x.B.Store(x.B.Select(h, a.Loc), a.Idx, ts[i])))
		default:
			n := a.Heap + l.suf
			h := x.H(st, n, ArrSort(SInt, l.sort))
			x.setH(st, n, x.B.Store(h, a.Loc, ts[i]))
		}
	}
}

// fieldPtr returns the address of field i of struct type t at loc.
func (x *Exec) fieldPtr(loc *Term, t types.Type, i int) V {
	s := under(t).(*types.Struct)
	f := s.Field(i)
	if isAgg(f.Type()) {
		return x.fa(structKey(t)+"."+f.Name(), loc)
	}
	return &AddrV{Kind: 'F', Heap: "F:" + structKey(t) + "." + f.Name(), Loc: loc, T: f.Type()}
}

func (x *Exec) fa(key string, loc *Term) *Term {
	B := x.B
	t := B.App("fa."+key, SInt, loc)
	if t.facts == nil && !t.bound {
		t.addFact(B.Eq(B.App("fainv."+key, SInt, t), loc))
		t.addFact(B.mk(&Term{op: "=", args: []*Term{B.App("lk", SInt, t), B.Int(int64(x.typeID("fa." + key)))}, sort: SBool}))
		t.addFact(B.mk(&Term{op: "=", args: []*Term{x.age(t), x.age(loc)}, sort: SBool}))
		t.addFact(B.mk(&Term{op: "not", args: []*Term{B.mk(&Term{op: "=", args: []*Term{t, B.Int(0)}, sort: SBool})}, sort: SBool}))
	}
	return t
}

func (x *Exec) el(base, idx *Term) *Term {
	B := x.B
	t := B.App("el.", SInt, base, idx)
	if t.facts == nil && !t.bound {
		t.addFact(B.Eq(B.App("elb", SInt, t), base))
		t.addFact(B.Eq(B.App("eli", SInt, t), idx))
		t.addFact(B.mk(&Term{op: "=", args: []*Term{B.App("lk", SInt, t), B.Int(-1)}, sort: SBool}))
		t.addFact(B.mk(&Term{op: "=", args: []*Term{x.age(t), x.age(base)}, sort: SBool}))
		t.addFact(B.mk(&Term{op: "not", args: []*Term{B.mk(&Term{op: "=", args: []*Term{t, B.Int(0)}, sort: SBool})}, sort: SBool}))
	}
	return t
}

func (x *Exec) newLoc(st *State, hint string) *Term {
	B := x.B
	t := B.Fresh("new."+hint, SInt)
	B.freshLoc[t] = true
	t.addFact(B.Eq(B.App("age", SInt, t), st.alloc))
	t.addFact(B.Eq(B.App("lk", SInt, t), B.Int(0)))
	t.addFact(B.mk(&Term{op: "not", args: []*Term{B.mk(&Term{op: "=", args: []*Term{t, B.Int(0)}, sort: SBool})}, sort: SBool}))
	st.alloc = B.Add(st.alloc, B.Int(1))
	st.nn[t] = true
	return t
}

// loadObj reads a whole object of type t located at loc.
func (x *Exec) loadAt(st *State, loc *Term, t types.Type) V {
	if typeKey(t) == "big.Int" {
		return &StructV{T: t, F: []V{x.B.Select(x.H(st, "big", ArrSort(SInt, SInt)), loc)}}
	}
	switch u := under(t).(type) {
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			p := x.fieldPtr(loc, t, i)
			s.F = append(s.F, x.loadPtr(st, p, u.Field(i).Type()))
		}
		return s
	case *types.Array:
		var ts []*Term
		for _, l := range leavesOf(u.Elem()) {
			h := x.H(st, "E:"+typeKey(u.Elem())+l.suf, ArrSort(SInt, ArrSort(SInt, l.sort)))
			ts = append(ts, x.B.Select(h, loc))
		}
		if isAgg(u.Elem()) {
			unsup("load of array of aggregates")
		}
		return &ArrV{Leaf: ts}
	}
	return x.loadCell(st, &AddrV{Kind: 'C', Heap: "C:" + typeKey(t), Loc: loc, T: t})
}

func (x *Exec) storeAt(st *State, loc *Term, t types.Type, v V) {
	if typeKey(t) == "big.Int" {
		h := x.H(st, "big", ArrSort(SInt, SInt))
		x.setH(st, "big", x.B.Store(h, loc, v.(*StructV).F[0].(*Term)))
		return
	}
	switch u := under(t).(type) {
	case *types.Struct:
		s := v.(*StructV)
		for i := 0; i < u.NumFields(); i++ {
			p := x.fieldPtr(loc, t, i)
			x.storePtr(st, p, u.Field(i).Type(), s.F[i])
		}
		return
	case *types.Array:
		if isAgg(u.Elem()) {
			unsup("store of array of aggregates")
		}
		a := v.(*ArrV)
		for i, l := range leavesOf(u.Elem()) {
			n := "E:" + typeKey(u.Elem()) + l.suf
			h := x.H(st, n, ArrSort(SInt, ArrSort(SInt, l.sort)))
			x.setH(st, n, x.B.Store(h, loc, a.Leaf[i]))
		}
		return
	}
	x.storeCell(st, &AddrV{Kind: 'C', Heap: "C:" + typeKey(t), Loc: loc, T: t}, v)
}

func (x *Exec) loadPtr(st *State, p V, t types.Type) V {
	switch a := p.(type) {
	case *AddrV:
		return x.loadCell(st, a)
	case *Term:
		return x.loadAt(st, a, t)
	}
	unsup("load through %T", p)
	return nil
}

func (x *Exec) storePtr(st *State, p V, t types.Type, v V) {
	switch a := p.(type) {
	case *AddrV:
		x.storeCell(st, a, v)
		return
	case *Term:
		x.storeAt(st, a, t, v)
		return
	}
	unsup("store through %T", p)
}

// zeroAt initialises a fresh object
func (x *Exec) zeroAt(st *State, loc *Term, t types.Type) {
	if typeKey(t) == "big.Int" {
		h := x.H(st, "big", ArrSort(SInt, SInt))
		x.setH(st, "big", x.B.Store(h, loc, x.B.Int(0)))
		return
	}
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if isOpaqueStruct(ft) {
				continue
			}
			p := x.fieldPtr(loc, t, i)
			if l, ok := p.(*Term); ok {
				x.zeroAt(st, l, ft)
			} else {
				x.storeCell(st, p.(*AddrV), x.zero(ft))
			}
		}
	case *types.Array:
		if isAgg(u.Elem()) {
			n := u.Len()
			if n > 64 {
				unsup("large array of aggregates")
			}
			for i := int64(0); i < n; i++ {
				x.zeroAt(st, x.el(loc, x.B.Int(i)), u.Elem())
			}
			return
		}
		for _, l := range leavesOf(u.Elem()) {
			n := "E:" + typeKey(u.Elem()) + l.suf
			h := x.H(st, n, ArrSort(SInt, ArrSort(SInt, l.sort)))
			x.setH(st, n, x.B.Store(h, loc, x.B.KArr(ArrSort(SInt, l.sort), x.zeroTerm(l.sort))))
		}
	default:
		x.storeCell(st, &AddrV{Kind: 'C', Heap: "C:" + typeKey(t), Loc: loc, T: t}, x.zero(t))
	}
}

func isOpaqueStruct(t types.Type) bool {
	k := typeKey(t)
	return strings.HasPrefix(k, "sync.") || strings.HasPrefix(k, "atomic.") && false
}

func (x *Exec) elemAddr(base, idx *Term, et types.Type) V {
	if isAgg(et) {
		return x.el(base, idx)
	}
	return &AddrV{Kind: 'E', Heap: "E:" + typeKey(et), Loc: base, Idx: idx, T: et}
}

// strOf: byte string content of a []byte slice in st
func (x *Exec) strOf(st *State, s *SliceV, et types.Type) *Term {
	if s.B.isInt() {
		return x.B.StrLit("")
	}
	h := x.H(st, "E:"+typeKey(et), ArrSort(SInt, ArrSort(SInt, SInt)))
	return x.bts(x.B.Select(h, s.B), s.O, s.L)
}

var byteT = types.Typ[types.Uint8]

func (x *Exec) strBytes(st *State, v V) *Term {
	return x.strOf(st, v.(*SliceV), byteT)
}

func (x *Exec) newBytes(st *State, s *Term) *SliceV {
	base := x.newLoc(st, "bytes")
	n := "E:uint8"
	n = "E:" + typeKey(byteT)
	h := x.H(st, n, ArrSort(SInt, ArrSort(SInt, SInt)))
	x.setH(st, n, x.B.Store(h, base, x.arrOf(s)))
	l := x.slen(s)
	c := l
	if !l.isInt() {
		c = x.B.Fresh("cap", SInt)
		c.addFact(x.B.Le(l, c))
		c.addFact(x.B.Le(c, x.B.BigInt(new(big.Int).Lsh(big.NewInt(1), maxLenBits))))
	}
	return &SliceV{base, x.B.Int(0), l, c}
}

func (x *Exec) bigVal(st *State, p V) *Term {
	return x.B.Select(x.H(st, "big", ArrSort(SInt, SInt)), p.(*Term))
}
func (x *Exec) setBig(st *State, p V, v *Term) {
	h := x.H(st, "big", ArrSort(SInt, SInt))
	x.setH(st, "big", x.B.Store(h, p.(*Term), v))
}
func (x *Exec) newBig(st *State, v *Term) *Term {
	l := x.newLoc(st, "big")
	x.setBig(st, l, v)
	return l
}

// ---------- interfaces ----------

func (x *Exec) typeID(k string) int {
	if id, ok := x.typeIDs[k]; ok {
		return id
	}
	id := len(x.typeIDs) + 1
	x.typeIDs[k] = id
	return id
}

func (x *Exec) implFor(iface types.Type) types.Type {
	k := typeKey(iface)
	if n, ok := x.S.Impl[k]; ok {
		return x.lookupType(n)
	}
	return nil
}

func (x *Exec) lookupType(n string) types.Type {
	if strings.HasPrefix(n, "*") {
		t := x.lookupType(n[1:])
		if t == nil {
			return nil
		}
		return types.NewPointer(t)
	}
	if strings.HasPrefix(n, "[]") {
		t := x.lookupType(n[2:])
		if t == nil {
			return nil
		}
		return types.NewSlice(t)
	}
	if strings.HasPrefix(n, "map[") {
		d := 0
		for i := 3; i < len(n); i++ {
			if n[i] == '[' {
				d++
			} else if n[i] == ']' {
				d--
				if d == 0 {
					k, v := x.lookupType(n[4:i]), x.lookupType(n[i+1:])
					if k == nil || v == nil {
						return nil
					}
					return types.NewMap(k, v)
				}
			}
		}
	}
	switch n {
	case "struct{}":
		return types.NewStruct(nil, nil)
	case "int":
		return types.Typ[types.Int]
	case "Int", "integer":
		return types.Typ[types.UntypedInt]
	case "int32":
		return types.Typ[types.Int32]
	case "int64":
		return types.Typ[types.Int64]
	case "uint64":
		return types.Typ[types.Uint64]
	case "uint32":
		return types.Typ[types.Uint32]
	case "uint16":
		return types.Typ[types.Uint16]
	case "byte", "uint8":
		return byteT
	case "bool":
		return types.Typ[types.Bool]
	case "string":
		return types.Typ[types.String]
	case "error":
		return types.Universe.Lookup("error").Type()
	}
	return x.P.types[n]
}

func (x *Exec) mkIface(v V, t types.Type) *Term {
	B := x.B
	if isIface(t) {
		return v.(*Term)
	}
	k := typeKey(t)
	ts := x.flat(v, t)
	// mkI(ifv(i)) folding
	if len(ts) == 1 && ts[0].op == "app" && ts[0].name == "ifv."+k+".0" {
		// valid only when tag matches; keep unfolded otherwise
	}
	r := B.App("mkI."+k, SInt, ts...)
	if r.facts == nil && !r.bound {
		r.addFact(B.Eq(B.App("tag", SInt, r), B.Int(int64(x.typeID(k)))))
		for i, a := range ts {
			r.addFact(B.mk(&Term{op: "=", args: []*Term{B.App(fmt.Sprintf("ifv.%s.%d", k, i), a.sort, r), a}, sort: SBool}))
		}
		r.addFact(B.mk(&Term{op: "not", args: []*Term{B.mk(&Term{op: "=", args: []*Term{r, B.Int(0)}, sort: SBool})}, sort: SBool}))
		if _, isP := under(t).(*types.Pointer); isP && len(ts) == 1 && ts[0].sort == SInt {
			r.addFact(B.mk(&Term{op: "=", args: []*Term{x.age(r), x.age(ts[0])}, sort: SBool}))
		} else {
			r.addFact(B.mk(&Term{op: "=", args: []*Term{x.age(r), B.Int(0)}, sort: SBool}))
		}
		x.B.freshLoc[r] = false
	}
	return r
}

func (x *Exec) ifaceVal(i *Term, t types.Type) V {
	k := typeKey(t)
	ls := leavesOf(t)
	if i.op == "app" && i.name == "mkI."+k {
		return x.unflat(i.args, t)
	}
	var ts []*Term
	for n, l := range ls {
		ts = append(ts, x.B.App(fmt.Sprintf("ifv.%s.%d", k, n), l.sort, i))
	}
	return x.unflat(ts, t)
}

func (x *Exec) ifaceIs(i *Term, t types.Type) *Term {
	k := typeKey(t)
	if i.isInt() {
		return x.B.False
	}
	if i.op == "app" && strings.HasPrefix(i.name, "mkI.") {
		return x.B.Bool(i.name == "mkI."+k)
	}
	if i.op == "ite" {
		return x.B.Ite(i.args[0], x.ifaceIs(i.args[1], t), x.ifaceIs(i.args[2], t))
	}
	return x.B.And(x.B.Not(x.B.Eq(i, x.B.Int(0))), x.B.Eq(x.B.App("tag", SInt, i), x.B.Int(int64(x.typeID(k)))))
}

func (x *Exec) closureTerm(c *ClosureV) *Term {
	name := "fn." + canonFunc(c.Fn)
	if len(c.Binds) == 0 {
		t := x.B.App("mkI."+name, SInt, x.B.Int(1))
		x.closures[t] = c
		return t
	}
	t := x.B.Fresh("clo."+canonFunc(c.Fn), SInt)
	t.addFact(x.B.Not(x.B.Eq(t, x.B.Int(0))))
	x.closures[t] = c
	return t
}

type ClosureV struct {
	Fn    *ssa.Function
	Binds []V
}

// ---------- constants & globals ----------

func (x *Exec) constV(c *ssa.Const) V {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return x.B.Bool(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			return x.B.StrLit(constant.StringVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			bi, ok := new(big.Int).SetString(v.ExactString(), 10)
			if !ok {
				unsup("const %s", c.Value)
			}
			return x.B.BigInt(bi)
		default:
			return x.B.App("flt."+c.Value.ExactString(), SInt)
		}
	}
	unsup("const of type %s", t)
	return nil
}

func (x *Exec) globalAddr(g *ssa.Global) V {
	t := g.Type().(*types.Pointer).Elem()
	if isAgg(t) {
		return x.fa("glob", x.B.Int(int64(x.typeID("G:"+globKey(g)))))
	}
	return &AddrV{Kind: 'G', Heap: "G:" + globKey(g), T: t}
}

func (x *Exec) errConst(key string) *Term {
	id := x.P.errID[key]
	t := x.B.App("mkI.err", SInt, x.B.Int(int64(id)))
	if t.facts == nil {
		t.addFact(x.B.mk(&Term{op: "not", args: []*Term{x.B.mk(&Term{op: "=", args: []*Term{t, x.B.Int(0)}, sort: SBool})}, sort: SBool}))
		t.addFact(x.B.Eq(x.B.App("erridx", SInt, t), x.B.Int(int64(id))))
		t.addFact(x.B.Eq(x.B.App("tag", SInt, t), x.B.Int(int64(x.typeID("errconst")))))
		t.addFact(x.B.mk(&Term{op: "=", args: []*Term{x.age(t), x.B.Int(0)}, sort: SBool}))
	}
	return t
}

func (x *Exec) loadGlobal(st *State, g *ssa.Global) V {
	k := globKey(g)
	t := g.Type().(*types.Pointer).Elem()
	if _, ok := x.P.errID[k]; ok {
		return x.errConst(k)
	}
	gi := x.P.gconst[g]
	if gi == nil && typeKey(t) == "error" {
		// external error variable: opaque immutable constant
		id, ok := x.P.errID["ext:"+k]
		_ = id
		if !ok {
			c := x.B.App("mkI.exterr", SInt, x.B.Int(int64(x.typeID("exterr."+k))))
			if c.facts == nil {
				c.addFact(x.B.mk(&Term{op: "not", args: []*Term{x.B.mk(&Term{op: "=", args: []*Term{c, x.B.Int(0)}, sort: SBool})}, sort: SBool}))
				c.addFact(x.B.Eq(x.B.App("tag", SInt, c), x.B.Int(int64(x.typeID("exterr")))))
			}
			return c
		}
	}
	p := x.globalAddr(g)
	if gi != nil && gi.immutable && len(gi.stores) == 1 {
		if v := x.initValue(st, g, gi.stores[0], t); v != nil {
			return v
		}
	}
	v := x.loadPtr(st, p, t)
	if gi != nil && gi.immutable && len(gi.stores) == 1 {
		if n, ok := madeLen(gi.stores[0].Val); ok {
			if s, ok := v.(*SliceV); ok {
				x.assume(st, x.B.Eq(s.L, x.B.Int(n)))
			}
		}
	}
	return v
}

// madeLen: the value is a slice made with a constant length.
func madeLen(v ssa.Value) (int64, bool) {
	switch m := v.(type) {
	case *ssa.ChangeType:
		return madeLen(m.X)
	case *ssa.MakeSlice:
		if c, ok := m.Len.(*ssa.Const); ok {
			return c.Int64(), true
		}
	case *ssa.Slice:
		a, ok := m.X.(*ssa.Alloc)
		if !ok || m.Low != nil {
			return 0, false
		}
		if m.High != nil {
			if c, ok := m.High.(*ssa.Const); ok {
				return c.Int64(), true
			}
			return 0, false
		}
		if t, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
			return t.Len(), true
		}
	}
	return 0, false
}

// initValue evaluates simple package-level initialisers of immutable globals.
func (x *Exec) initValue(st *State, g *ssa.Global, s *ssa.Store, t types.Type) V {
	k := globKey(g)
	switch iv := s.Val.(type) {
	case *ssa.Const:
		return x.constV(iv)
	case *ssa.Convert:
		if c, ok := iv.X.(*ssa.Const); ok {
			if _, isS := under(t).(*types.Slice); isS && isString(c.Type()) {
				lit := x.B.StrLit(constant.StringVal(c.Value))
				base := x.fa("globbytes", x.B.Int(int64(x.typeID("GB:"+k))))
				n := "E:" + typeKey(byteT)
				h0 := x.B.Const(n+"@0", ArrSort(SInt, ArrSort(SInt, SInt)))
				x.heapSort[n] = h0.sort
				key := "gb:" + k
				if !x.factDone[key] {
					x.factDone[key] = true
					base.addFact(x.B.mk(&Term{op: "=", args: []*Term{x.bts(x.B.Select(h0, base), x.B.Int(0), x.slen(lit)), lit}, sort: SBool}))
				}
				return &SliceV{base, x.B.Int(0), x.slen(lit), x.slen(lit)}
			}
		}
	case *ssa.Call:
		if sc := iv.Common().StaticCallee(); sc != nil {
			switch canonFunc(sc) {
			case "big.NewInt":
				if c, ok := iv.Common().Args[0].(*ssa.Const); ok {
					base := x.fa("globbig", x.B.Int(int64(x.typeID("GI:"+k))))
					h0 := x.B.Const("big@0", ArrSort(SInt, SInt))
					x.heapSort["big"] = h0.sort
					key := "gi:" + k
					if !x.factDone[key] {
						x.factDone[key] = true
						base.addFact(x.B.mk(&Term{op: "=", args: []*Term{x.B.Select(h0, base), x.constV(c).(*Term)}, sort: SBool}))
					}
					return base
				}
			}
		}
	case *ssa.Slice:
		// composite slice literal: leave opaque
	}
	return nil
}

// ---------- obligations ----------

// check hands the obligation to the solver pool; its verdict is collected when
// the whole function has been explored.
func (x *Exec) check(st *State, name string, goal *Term, detail string) {
	if x.trial > 0 {
		return
	}
	if goal == x.B.True {
		x.vcs = append(x.vcs, &VC{Name: name, Status: "proved", Solver: "simplifier"})
		return
	}
	x.mu.Lock()
	n := x.failed[name]
	x.mu.Unlock()
	if x.failFast && n >= 3 {
		return
	}
	x.evalAxioms(st)
	hyps := append(append([]*Term{}, x.axioms...), st.conds()...)
	for _, h := range hyps {
		if h == x.B.False {
			x.vcs = append(x.vcs, &VC{Name: name, Status: "proved", Solver: "simplifier"})
			return
		}
	}
	vc := &VC{Name: name, Detail: detail, Path: append([]string{}, st.trace...)}
	x.vcs = append(x.vcs, vc)
	j := &job{x: x, vc: vc}
	asserts := append(append([]*Term{}, hyps...), x.B.Not(goal))
	if hasStrEq(goal) {
		// first without, then with extensional reasoning
		j.first = x.B.Query(asserts, "")
		g2 := x.extGoal(goal)
		inst := x.strInstances(strHyps(hyps), g2)
		asserts = append(append(append([]*Term{}, hyps...), inst...), x.B.Not(g2))
	}
	j.q = x.B.Query(asserts, "")
	x.B.heapFacts = x.heapFact
	if a := x.B.Query(asserts, ""); a != j.q {
		j.alt = a
	}
	x.B.heapFacts = nil
	for _, sl := range slims(hyps, goal) {
		j.slim = append(j.slim, x.B.Query(append(sl, asserts[len(hyps):]...), ""))
	}
	// values of interest for counterexamples
	for _, c := range constsIn(asserts) {
		if c.sort == SInt || c.sort == SBool {
			j.gv = append(j.gv, smtName(c.name))
		}
	}
	if len(j.gv) > 120 {
		j.gv = j.gv[:120]
	}
	startPool(8)
	x.wg.Add(1)
	poolCh <- j
}

// feasible reports whether the path condition may be satisfiable.
func (x *Exec) feasible(st *State) bool {
	if st.pc != nil && st.pc.t == x.B.False {
		return false
	}
	// quantifier-free part first: a model of it ends the question for all practical purposes
	var ground []*Term
	for _, t := range st.conds() {
		if !hasQuant(t) {
			ground = append(ground, t)
		}
	}
	if len(ground) < st.npc {
		x.B.groundOnly = true
		r := x.solver.quickT(x, ground, 700)
		x.B.groundOnly = false
		if r == "unsat" {
			return false
		}
		asserts := append(append([]*Term{}, x.axioms...), st.conds()...)
		return x.solver.quickT(x, asserts, 250) != "unsat"
	}
	asserts := append(append([]*Term{}, x.axioms...), st.conds()...)
	return x.solver.quick(x, asserts) != "unsat"
}

func hasQuant(t *Term) bool {
	if t.op == "forall" || t.op == "exists" {
		return true
	}
	for _, a := range t.args {
		if hasQuant(a) {
			return true
		}
	}
	return false
}

// valid: quick validity used by Houdini.
func (x *Exec) valid(st *State, goal *Term) bool { return x.validT(st, goal, 3000) }

func (x *Exec) validT(st *State, goal *Term, ms int) bool {
	if goal == x.B.True {
		return true
	}
	x.evalAxioms(st)
	asserts := append(append(append([]*Term{}, x.axioms...), st.conds()...), x.B.Not(goal))
	return x.solver.quickT(x, asserts, ms) == "unsat"
}

func (x *Exec) pos(p token.Pos) string {
	ps := x.P.prog.Fset.Position(p)
	if ps.Filename == "" {
		return "?"
	}
	return fmt.Sprintf("%s:%d", relPos(x.P.repo, ps.Filename), ps.Line)
}

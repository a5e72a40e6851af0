package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// Heaps only hold well-typed values: references point to objects allocated before the
// heap version was created, integers are within their type's range.  These facts are
// added to a query for every ground read from an unknown heap version.

type rootInfo struct {
	heap   string
	alloc  *Term
	parent *Term // earlier version of the heap this one agrees with on some locations
	sub    bool  // the constant stands for one inner array of a two-level heap
}

func (x *Exec) regLeaf(name string, l leaf) {
	if _, ok := x.leafReg[name]; !ok {
		x.leafReg[name] = l
	}
}

func (x *Exec) regParent(t, parent *Term) {
	if ri, ok := x.rootReg[t]; ok && t != parent {
		ri.parent = parent
		x.rootReg[t] = ri
	}
}

func (x *Exec) regRoot(t *Term, heap string, alloc *Term, sub bool) {
	if t.op == "const" {
		if _, ok := x.rootReg[t]; !ok {
			x.rootReg[t] = rootInfo{heap: heap, alloc: alloc, sub: sub}
			x.B.inner[t] = sub
			if alloc != nil {
				x.B.born[t] = alloc.maxc
			}
		}
	}
}

// rootFacts returns the typing facts for the ground select t.
func (x *Exec) rootFacts(t *Term) []*Term {
	if fs, ok := x.rootMemo[t]; ok {
		return fs
	}
	x.rootMemo[t] = nil
	var out []*Term
	n := 0
	var walk func(h, i *Term)
	leafFact := func(root, s, owner *Term) {
		ri, ok := x.rootReg[root]
		if !ok || s.isLit() || s.bound {
			return
		}
		l, ok := x.leafReg[ri.heap]
		if !ok {
			return
		}
		if f := x.leafFactOf(l, s, ri.alloc); f != nil {
			if isAgeFact(f) && owner != nil && !ri.sub {
				f = x.guardAge(owner, s, ri.alloc)
			}
			out = append(out, f)
		}
	}
	var walk2 func(arr, j *Term) // arr: an inner array term; j: index into it
	walk = func(h, i *Term) {
		n++
		if n > 200 {
			return
		}
		switch h.op {
		case "const":
			if ri, ok := x.rootReg[h]; ok {
				s := x.B.Select(h, i)
				if s.op != "select" || s.sort != SInt {
					return
				}
				if twoLevel(ri.heap) && !ri.sub {
					return
				}
				leafFact(h, s, i)
				if ri.parent != nil {
					walk(ri.parent, i)
				}
			}
		case "store":
			walk(h.args[0], i)
			// stored values carry their own facts
		case "ite":
			walk(h.args[1], i)
			walk(h.args[2], i)
		case "select":
			walk2(h, i)
		}
	}
	walk2 = func(arr, j *Term) {
		// arr = select(H, m)
		h, m := arr.args[0], arr.args[1]
		for {
			n++
			if n > 200 {
				return
			}
			switch h.op {
			case "const":
				ri, ok := x.rootReg[h]
				if ok {
					inner := x.B.Select(h, m)
					s := x.B.Select(inner, j)
					if s.op == "select" && s.sort == SInt {
						leafFact(h, s, m)
					}
				}
				if ok && ri.parent != nil {
					h = ri.parent
					continue
				}
				return
			case "store":
				walk(h.args[2], j)
				h = h.args[0]
			case "ite":
				a := x.B.Select(h.args[1], m)
				b := x.B.Select(h.args[2], m)
				for _, q := range []*Term{a, b} {
					if q.op == "select" {
						walk2(q, j)
					} else {
						walk(q, j)
					}
				}
				return
			default:
				return
			}
		}
	}
	if t.sort == SInt && t.op == "select" && !t.bound {
		walk(t.args[0], t.args[1])
	}
	x.rootMemo[t] = out
	return out
}

func twoLevel(heap string) bool {
	return strings.HasPrefix(heap, "E:") || strings.HasPrefix(heap, "M:")
}

func (x *Exec) leafFactOf(l leaf, s, alloc *Term) *Term {
	B := x.B
	base := l.suf
	if k := strings.LastIndexByte(base, '.'); k >= 0 {
		base = base[k:]
	}
	if _, sl := under(l.t).(*types.Slice); sl {
		switch base {
		case ".b":
			return B.Le(B.Add(x.age(s), B.Int(1)), alloc)
		default:
			return B.And(B.Le(B.Int(0), s), B.Le(s, B.BigInt(new(big.Int).Lsh(big.NewInt(1), maxLenBits))))
		}
	}
	if lo, hi, ok := intRange(l.t); ok {
		return B.And(B.Le(B.BigInt(lo), s), B.Le(s, B.BigInt(hi)))
	}
	switch under(l.t).(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return B.Le(B.Add(x.age(s), B.Int(1)), alloc)
	}
	return nil
}

// guardAge: what an object of the heap version created at alloc holds was allocated before
// that, what a later object holds before the call that allocated it returned.
func (x *Exec) guardAge(owner, s, alloc *Term) *Term {
	B := x.B
	older := B.Le(B.Add(x.age(owner), B.Int(1)), alloc)
	return B.And(
		B.Imp(older, B.Le(B.Add(x.age(s), B.Int(1)), alloc)),
		B.Imp(B.Not(older), B.Le(B.Add(x.age(s), B.Int(1)), x.ep(x.age(owner)))))
}

func isAgeFact(f *Term) bool {
	found := false
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == "app" && t.name == "age" {
			found = true
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(f)
	return found
}

// regHavoc registers the new content of a single havoced location.
func (x *Exec) regHavoc(hv *Term, heap string, alloc *Term) {
	if hv.sort != SInt && hv.sort != SBool && hv.sort != SStr {
		x.regRoot(hv, heap, alloc, true)
		return
	}
	if l, ok := x.leafReg[heap]; ok && hv.sort == SInt {
		if f := x.leafFactOf(l, hv, alloc); f != nil {
			hv.addFact(f)
		}
	}
}

// heapFact is the typing fact of a whole heap version, for reads under quantifiers: the
// references it holds point to objects allocated before it was created.
func (x *Exec) heapFact(h *Term) *Term {
	if f, ok := x.heapFactMemo[h]; ok {
		return f
	}
	if x.heapFactMemo == nil {
		x.heapFactMemo = map[*Term]*Term{}
	}
	x.heapFactMemo[h] = nil
	root := h
	if h.op == "select" {
		root = h.args[0]
	}
	ri, ok := x.rootReg[root]
	if !ok || ri.sub || !twoLevel(ri.heap) && root != h {
		return nil
	}
	l, ok := x.leafReg[ri.heap]
	if !ok {
		return nil
	}
	switch under(l.t).(type) {
	case *types.Pointer, *types.Map:
	case *types.Slice:
		if !strings.HasSuffix(l.suf, ".b") || twoLevel(ri.heap) {
			return nil
		}
	default:
		return nil
	}
	x.tagCtr++
	owner := x.B.Var(fmt.Sprintf("hf?%d", x.tagCtr), SInt)
	vars := []*Term{owner}
	s := x.B.Select(root, owner)
	if twoLevel(ri.heap) {
		k := x.B.Var(fmt.Sprintf("hk?%d", x.tagCtr), keySort(elemSort(root.sort)))
		if root != h {
			owner, vars, s = h.args[1], nil, h
		}
		vars = append(vars, k)
		s = x.B.Select(s, k)
	}
	if s.op != "select" {
		return nil
	}
	f := x.B.Forall(vars, x.guardAge(owner, s, ri.alloc), [][]*Term{{s}})
	x.heapFactMemo[h] = f
	return f
}

func keySort(arr Sort) Sort {
	if strings.HasPrefix(string(arr), "(Array Str ") {
		return SStr
	}
	return SInt
}

func elemSort(arr Sort) Sort {
	return Sort(strings.TrimPrefix(string(arr), "(Array Int "))
}

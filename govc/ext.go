package main

// Extensional reasoning about byte strings: a goal "a = b" between strings is replaced by
// equal lengths and equality at an arbitrary position; known string equalities are
// instantiated at the positions the goal mentions.

func isStrEq(t *Term) bool { return t.op == "=" && len(t.args) == 2 && t.args[0].sort == SStr }

func hasStrEq(t *Term) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if isStrEq(t) {
			return true
		}
		switch t.op {
		case "and", "or", "=>", "not", "ite", "=":
			for _, a := range t.args {
				if w(a) {
					return true
				}
			}
		}
		return false
	}
	return w(t)
}

func (x *Exec) extGoal(t *Term) *Term {
	B := x.B
	switch {
	case isStrEq(t):
		i := B.Fresh("pos", SInt)
		a, b := t.args[0], t.args[1]
		n := x.slen(a)
		return B.Or(t, B.And(B.Eq(n, x.slen(b)), B.Imp(B.And(B.Le(B.Int(0), i), B.Lt(i, n)), B.Eq(x.satAt(a, i), x.satAt(b, i)))))
	case t.op == "and":
		var as []*Term
		for _, a := range t.args {
			as = append(as, x.extGoal(a))
		}
		return B.And(as...)
	case t.op == "or":
		var as []*Term
		for _, a := range t.args {
			as = append(as, x.extGoal(a))
		}
		return B.Or(as...)
	case t.op == "=>":
		return B.Imp(t.args[0], x.extGoal(t.args[1]))
	case t.op == "ite" && t.sort == SBool:
		return B.Ite(t.args[0], x.extGoal(t.args[1]), x.extGoal(t.args[2]))
	}
	return t
}

type strHyp struct {
	guard []*Term
	a, b  *Term
}

func strHyps(ts []*Term) (hs []strHyp) {
	seen := map[*Term]bool{}
	var w func(t *Term, g []*Term)
	w = func(t *Term, g []*Term) {
		switch {
		case isStrEq(t):
			hs = append(hs, strHyp{g, t.args[0], t.args[1]})
		case t.op == "and":
			for _, a := range t.args {
				w(a, g)
			}
		case t.op == "=>":
			w(t.args[1], append(append([]*Term{}, g...), t.args[0]))
		}
	}
	for _, t := range ts {
		if !seen[t] {
			seen[t] = true
			w(t, nil)
		}
	}
	return
}

type idxUse struct{ obj, idx *Term }

// idxUses collects select(arr, i) and sat(s, i) occurrences.
func (x *Exec) idxUses(ts []*Term) (us []idxUse) {
	seen := map[*Term]bool{}
	ud := map[idxUse]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] || t.bound {
			return
		}
		seen[t] = true
		if t.op == "select" && t.args[0].sort == ArrSort(SInt, SInt) || t.op == "app" && t.name == "sat" {
			u := idxUse{t.args[0], t.args[1]}
			if !ud[u] {
				ud[u] = true
				us = append(us, u)
			}
			for _, f := range t.facts {
				w(f)
			}
		}
		for _, a := range t.args {
			w(a)
		}
	}
	for _, t := range ts {
		w(t)
	}
	return
}

// piecesAt lists (object, offset) such that position j of s is object[offset + j] there.
func (x *Exec) piecesAt(s *Term) (ps []idxUse) {
	B := x.B
	var w func(s, off *Term)
	w = func(s, off *Term) {
		switch {
		case s.op == "ite":
			w(s.args[1], off)
			w(s.args[2], off)
		case s.op == "app" && s.name == "scat":
			w(s.args[0], off)
			w(s.args[1], B.Sub(off, x.slen(s.args[0])))
		case s.op == "app" && s.name == "bts":
			var arr func(a *Term)
			arr = func(a *Term) {
				ps = append(ps, idxUse{a, B.Add(off, s.args[1])})
			}
			arr(s.args[0])
		case s.op == "app" && s.name == "ssub":
			w(s.args[0], B.Add(off, s.args[1]))
		case s.op == "strlit", s.op == "app" && (s.name == "szero" || s.name == "schr"):
		default:
			ps = append(ps, idxUse{s, off})
		}
	}
	w(s, B.Int(0))
	return
}

// extend returns instances of the string equalities among hyps relevant for the goal.
func (x *Exec) strInstances(hyps []strHyp, goal *Term) []*Term {
	B := x.B
	var out []*Term
	for _, h := range hyps {
		g := B.And(h.guard...)
		out = append(out, B.Imp(g, B.Eq(x.slen(h.a), x.slen(h.b))))
	}
	done := map[*Term]bool{}
	work := []*Term{goal}
	for round := 0; round < 3; round++ {
		us := x.idxUses(work)
		work = nil
		for _, h := range hyps {
			g := B.And(h.guard...)
			for _, side := range []*Term{h.a, h.b} {
				for _, p := range x.piecesAt(side) {
					for _, u := range us {
						if u.obj != p.obj {
							continue
						}
						j := B.Sub(u.idx, p.idx)
						n := x.slen(h.a)
						inst := B.Imp(B.And(g, B.Le(B.Int(0), j), B.Lt(j, n)), B.Eq(x.satAt(h.a, j), x.satAt(h.b, j)))
						if !done[inst] && len(out) < 400 {
							done[inst] = true
							out = append(out, inst)
							work = append(work, inst)
						}
					}
				}
			}
		}
		if len(work) == 0 {
			break
		}
	}
	return out
}

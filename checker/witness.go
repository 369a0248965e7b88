package main

import (
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// A witness stands for one arbitrary element of a sequence: a property about every element
// is shown by following one element whose index is unknown. Where the code indexes a
// matching sequence, the paths on which it is at, before, or after the witness are followed
// separately; "#seen:" records that the witness was visited.
type witness struct {
	name  string // index in P["wit:name"], visited in P["#seen:name"]
	match func(st *State, base *Term, in ssa.Instruction) bool
	other func(a *Analysis, st *State, base, idx *Term) // index known to differ from the witness
	at    func(a *Analysis, st *State, base, idx *Term)
	maybe bool // the index need not be within the sequence
}

func (w *witness) key() string { return "wit:" + w.name }

// setup makes the witness index of a slice of the given length.
func (w *witness) setup(a *Analysis, st *State, length *Term) *Term {
	k := mkSym(types.Typ[types.Int], w.name)
	st.P[w.key()] = k
	st.P["#seen:"+w.name] = mkBool(false)
	st.assume(mkLt(k, mkInt(0)), false)
	if length != nil {
		st.assume(mkLt(k, length), true)
	}
	if a != nil {
		w.attach(a)
	}
	return k
}

func (w *witness) attach(a *Analysis) { a.Wits = append(a.Wits, w.key()) }

func seen(st *State, name string) bool {
	v := st.P["#seen:"+name]
	return v != nil && v.isTrue()
}

// step forks the state at an indexing instruction; false prunes the path.
func (w *witness) step(a *Analysis, st *State, in ssa.Instruction) bool {
	var x, idx ssa.Value
	switch in := in.(type) {
	case *ssa.IndexAddr:
		x, idx = in.X, in.Index
	case *ssa.Index:
		x, idx = in.X, in.Index
	default:
		return true
	}
	base := a.val(st, x)
	if !w.match(st, base, in) {
		return true
	}
	_, lo := sliceParts(base)
	i := mkAdd(lo, a.val(st, idx), types.Typ[types.Int])
	k := st.P[w.key()]
	if k == nil {
		return true
	}
	if !st.eval(mkEq(i, k)).isBoolConst() {
		lt, gt := st.clone(), st.clone()
		if lt.assume(mkLt(i, k), true) && !lt.dead {
			a.push(lt)
		}
		if gt.assume(mkLt(k, i), true) && !gt.dead {
			a.push(gt)
		}
		if !st.assume(mkEq(i, k), true) || st.dead {
			return false
		}
		base = a.val(st, x)
		_, lo = sliceParts(base)
		i = mkAdd(lo, a.val(st, idx), types.Typ[types.Int])
		k = st.P[w.key()]
	}
	if st.isTrue(mkEq(i, k)) {
		st.P["#seen:"+w.name] = mkBool(true)
		if w.at != nil {
			w.at(a, st, base, i)
		}
	} else if w.other != nil {
		w.other(a, st, base, i)
	}
	return !st.dead
}

func steps(ws ...*witness) func(a *Analysis, st *State, in ssa.Instruction) bool {
	return func(a *Analysis, st *State, in ssa.Instruction) bool {
		for _, w := range ws {
			if !w.step(a, st, in) {
				return false
			}
		}
		return true
	}
}

// onBase matches sequences living in the memory of the value held in P.
func onBase(name string) func(st *State, base *Term, in ssa.Instruction) bool {
	return func(st *State, base *Term, in ssa.Instruction) bool {
		p := st.P[name]
		if p == nil {
			return false
		}
		b1, _ := sliceParts(base)
		b2, _ := sliceParts(p)
		return b1 == b2
	}
}

// elemAt reads an element of the slice held in P.
func elemAt(st *State, slice, idx *Term) *Term {
	b, lo := sliceParts(slice)
	return mkSelect(st.content(b), mkAdd(lo, idx, types.Typ[types.Int]), elemType(slice.typ), st)
}

func itoa(n int) string { return strconv.Itoa(n) }

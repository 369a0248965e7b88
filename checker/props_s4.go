package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["S09"] = checkS09
}

// bytesCmp forks on the order of two byte sequences; the outcome is remembered.
func bytesCmp(st *State, x, y *Term) []Out {
	sx, sy := seqOrNil(st, x), seqOrNil(st, y)
	if v, ok := cmpFact(st, sx, sy); ok {
		return []Out{{St: st, Ret: mkInt(int64(v))}}
	}
	var outs []Out
	for _, v := range []int{-1, 0, 1} {
		n := st.clone()
		setCmp(n, sx, sy, v)
		outs = append(outs, Out{St: n, Ret: mkInt(int64(v))})
	}
	return outs
}

func cmpAtom(sx, sy *Term, v int) *Term {
	return mkApp("bytescmp"+itoa(v), types.Typ[types.Bool], sx, sy)
}

func setCmp(st *State, sx, sy *Term, v int) { st.bools[cmpAtom(sx, sy, v)] = true }

// cmpFact is the known order of two byte sequences.
func cmpFact(st *State, sx, sy *Term) (int, bool) {
	if sx == sy {
		return 0, true
	}
	for _, v := range []int{-1, 0, 1} {
		if st.bools[cmpAtom(sx, sy, v)] || st.bools[cmpAtom(sy, sx, -v)] {
			return v, true
		}
	}
	return 0, false
}

// isMakeKey reports whether a sequence is the key made from the table's key columns of a row.
func (s *storageRoles) isMakeKey(st *State, seq, row *Term) bool {
	if seq.op == "seqof" {
		seq = seq.args[0]
	}
	return seq.isApp("MakeKey") && sameSnap(st, seq.args[0], st.P["key"]) && seq.args[1] == seqOrNil(st, row)
}

func checkS09(p *Program, r *Report) {
	r.Rule = "decision table: Rows scans the transaction's tree once, ascending from the lower key of this table's relation; for an arbitrary scanned item the callback stops only past the relation or the upper key, skips only items outside the bounds, with a NULL or rejected predicate column, and collects every other item exactly once, in order, in memory of the cursor's own; for an arbitrary position, Next returns the collected item's columns as requested (shown for one arbitrary column), moves by one, and reports the end exactly past the last; items are ordered by relation and key bytes (all nine operand orders)"
	r.Assume = []string{storageAssume, "google/btree visits items ascending by its comparison function, once each", "keys order rows (E01)"}
	s := findStorage(p, r)
	if s == nil {
		return
	}
	s.checkLess(r)
	itemsF := s.checkRows(r)
	if itemsF < 0 {
		return
	}
	s.checkNext(r, itemsF)
	r.AtLeast("item order", 9)
	r.AtLeast("scan stops only past the range", 2)
	r.AtLeast("scan skips only excluded rows", 3)
	r.AtLeast("scan collects a matching row once", 3)
	r.AtLeast("cursor holds what the scan collected", 1)
	r.AtLeast("end reported past the last row", 1)
	r.AtLeast("row delivered in full", 1)
	r.AtLeast("row delivered with the requested columns", 1)
}

// checkLess verifies the tree's comparison function.
func (s *storageRoles) checkLess(r *Report) {
	var less *ssa.Function
	for _, fn := range s.p.Funcs(s.pkg) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || !strings.HasPrefix(fnName(c.Call.StaticCallee()), "github.com/google/btree.New") {
					continue
				}
				for _, x := range c.Call.Args {
					if ct, ok := x.(*ssa.ChangeType); ok {
						x = ct.X
					}
					if mc, ok := x.(*ssa.MakeClosure); ok {
						x = mc.Fn
					}
					if f, ok := x.(*ssa.Function); ok {
						if less != nil && less != f {
							r.ViolateAt("less:two", c.Pos(), "trees are made with different comparison functions")
						}
						less = f
					}
				}
			}
		}
	}
	if less == nil || len(less.Params) != 2 {
		r.Violate("anchor:less", posZero, nil, "the comparison function of the tree was not found")
		return
	}
	relT := fieldTypeOf(s.itemT, s.itRel)
	for _, ro := range []int{-1, 0, 1} {
		for _, ko := range []int{-1, 0, 1} {
			st := newState()
			args := paramSyms(less)
			st.P["a"], st.P["b"] = args[0], args[1]
			rel := func(i int) *Term { return mkField(args[i], s.itRel) }
			key := func(i int) *Term { return st.seqOfSlice(mkField(args[i], s.itKey)) }
			_ = relT
			switch ro {
			case -1:
				st.assume(mkLt(rel(0), rel(1)), true)
			case 0:
				st.assume(mkEq(rel(0), rel(1)), true)
			case 1:
				st.assume(mkLt(rel(1), rel(0)), true)
			}
			args = []*Term{st.P["a"], st.P["b"]}
			setCmp(st, key(0), key(1), ko)
			want := ro < 0 || ro == 0 && ko < 0
			h := &sHooks{}
			h.Return = func(a *Analysis, st *State, res []*Term) {
				if st.eval(res[0]) != mkBool(want) {
					a.Violate(st, "less:"+itoa(ro)+","+itoa(ko), "the item order answers %s where the relations compare %+d and the keys %+d", st.eval(res[0]), ro, ko)
				} else {
					r.OK("item order")
				}
			}
			h.Panic = func(a *Analysis, st *State, v *Term) { a.Violate(st, "less:panic", "the item order panics") }
			a := NewAnalysis(s.p, r, s.hooks(h), less.Name())
			a.Start(st, less, args)
			a.Run()
		}
	}
}

// predTruth: the known outcome of the predicate on the item's column; null means the column
// is known to be NULL.
func predTruth(st *State, pred, it *Term, itRow int) (null, truth, known bool) {
	row := mkField(it, itRow)
	isVal := func(t *Term) bool {
		// the predicate column of the item's row
		return t.op == "select" && t.args[0] == st.seqOfSlice(row) && contains(t.args[1], pred) && containsAppSuffix(t.args[1], "storage.Predicate.Column")
	}
	for _, k := range sortedBoolKeys(st.bools) {
		v := st.bools[k]
		if k.op == "eq" && v && (isVal(k.args[0]) && k.args[1].isNil() || isVal(k.args[1]) && k.args[0].isNil()) {
			return true, false, true
		}
		if k.op == "app" && strings.HasPrefix(k.aux, modulePath+"/storage.") && len(k.args) == 2 && contains(k.args[0], pred) {
			arg := false
			walkTerm(k.args[1], map[*Term]bool{}, func(x *Term) { arg = arg || isVal(x) })
			if arg {
				truth, known = v, true
			}
		}
	}
	return false, truth, known
}

func containsAppSuffix(t *Term, suffix string) bool {
	found := false
	walkTerm(t, map[*Term]bool{}, func(x *Term) {
		if x.op == "app" && strings.HasSuffix(x.aux, suffix) {
			found = true
		}
	})
	return found
}

func (s *storageRoles) checkRows(r *Report) int {
	fn := s.root(s.tableT, "Rows")
	if fn == nil || len(fn.Params) != 6 {
		r.Violate("anchor:Rows", posZero, nil, "Rows(ctx, cols, min, max, pred) not found")
		return -1
	}
	st, args := s.tableEntry(r, fn)
	if st == nil {
		return -1
	}
	itemsF := -1
	h := &sHooks{}
	a := NewAnalysis(s.p, r, nil, "table.Rows")
	h.tree = func(a *Analysis, st *State, c *Call, e *treeEvent) {
		switch e.op {
		case "AscendGreaterOrEqual":
			if st.P["#scan"] != nil {
				a.Violate(st, "scan:twice", "the tree is scanned more than once")
				return
			}
			st.P["#scan"] = mkBool(true)
			st.P["R"] = e.rel
			st.P["cb"] = c.Args[len(c.Args)-1]
			if !st.isTrue(mkEq(e.tree, st.load(fieldAddr(st.P["tx"], s.txTree), s.treeTypeF()))) {
				a.Violate(st, "scan:tree", "the scan is not over the transaction's tree")
			}
			min := st.P["arg3"]
			isNil := st.eval(mkEq(min, mkNil(min.typ)))
			switch {
			case isNil.isTrue() && (e.key.isNil() || st.isTrue(mkEq(mkLen(e.key), mkInt(0)))):
			case isNil.isFalse() && s.isMakeKey(st, st.seqOfSlice(e.key), min):
			default:
				a.Violate(st, "scan:from", "the scan does not start at the key of the lower row (%s)", e.key)
			}
			if !contains(e.rel, st.P["tid"]) {
				a.Violate(st, "scan:relation", "the scan is not over this table's relation (%s)", e.rel)
			}
		case "Clone", "Get", "Has":
		default:
			a.Violate(st, "scan:op", "Rows uses the tree operation %s", e.op)
		}
	}
	h.item = func(a *Analysis, st *State, it *Term) {
		st.P["it"] = it
		st.P["#app"] = mkInt(0)
		delete(st.P, "#other")
	}
	h.Append = func(a *Analysis, st *State, base, elems, res *Term, in ssa.Instruction) {
		it := st.P["it"]
		if it == nil {
			return
		}
		es := st.seqOfSlice(elems)
		x := st.eval(mkSelect(es, mkInt(0), s.itemT, st))
		whole := st.isTrue(mkEq(mkLen(elems), mkInt(1)))
		for i := range []int{0, 1, 2} {
			whole = whole && st.eval(mkField(x, i)) == st.eval(mkField(it, i)) || whole && st.isTrue(mkEq(mkField(x, i), mkField(it, i)))
		}
		if !whole {
			if contains(es, mkField(it, s.itRow)) || contains(es, mkField(it, s.itKey)) {
				st.P["#other"] = mkBool(true)
			}
			return
		}
		n, _ := st.P["#app"].constInt()
		st.P["#app"] = mkInt(n + 1)
		if acc := st.P["acc"]; acc != nil && acc != base {
			a.Violate(st, "scan:accumulate", "the scan appends to something other than what it has collected so far")
		} else if acc == nil && !st.isTrue(mkEq(mkLen(base), mkInt(0))) {
			a.Violate(st, "scan:accumulate", "the scan's collection does not start empty")
		}
		if acc := st.P["acc"]; acc == nil && !base.isNil() && !isFresh(base) && !(base.op == "sl" && isFresh(base.args[0])) {
			a.Violate(st, "scan:shared", "the scan collects into memory that others may also use (%s)", base)
		}
		st.P["acc"] = res
	}
	h.FnRet = func(a *Analysis, st *State, fn *ssa.Function, res *Term) {
		if st.P["cb"] == nil || st.P["it"] == nil || res == nil {
			return
		}
		if cf, _ := calleeOf(st.P["cb"]); cf != fn {
			return
		}
		// a fork for an undetermined answer
		for _, cont := range []bool{true, false} {
			x := st.clone()
			v := x.eval(res)
			if v.isBoolConst() && v != mkBool(cont) || !v.isBoolConst() && !x.assume(v, cont) {
				continue
			}
			s.judgeItem(a, r, x, cont)
		}
	}
	h.Return = func(a *Analysis, st *State, res []*Term) {
		split(st, res, func(st *State) {
			cur := res[0]
			if cur.op == "iface" {
				cur = cur.args[0]
			}
			if namedOf(derefType(cur.typ)) != s.rowsT || !isFresh(cur) {
				a.Violate(st, "rows:type", "Rows returns something other than a new cursor")
				return
			}
			if st.P["#scan"] == nil {
				a.Violate(st, "rows:noscan", "Rows succeeds without scanning the table")
				return
			}
			su := s.rowsT.Underlying().(*types.Struct)
			found := -1
			for i := 0; i < su.NumFields(); i++ {
				ft := su.Field(i).Type()
				v := st.load(fieldAddr(cur, i), ft)
				sl, ok := ft.Underlying().(*types.Slice)
				switch {
				case ok && namedOf(sl.Elem()) == s.itemT:
					acc := st.P["acc"]
					if acc == nil && st.isTrue(mkEq(mkLen(v), mkInt(0))) || acc != nil && v == acc {
						found = i
					} else {
						a.Violate(st, "rows:items", "the cursor does not hold what the scan collected")
					}
				case ok && types.Identical(ft, args[2].typ):
					if v != st.P["arg2"] && !(st.isTrue(mkEq(st.P["arg2"], mkNil(ft))) && v.isNil()) && !sameContent(st, v, st.P["arg2"]) {
						a.Violate(st, "rows:cols", "the cursor does not hold the requested columns")
					}
				case isInt(ft):
					if !st.isTrue(mkEq(v, mkInt(0))) {
						a.Violate(st, "rows:position", "a new cursor does not start before the first row")
					}
				}
			}
			if found < 0 {
				a.Violate(st, "rows:items", "the cursor does not hold what the scan collected")
				return
			}
			itemsF = found
			r.OK("cursor holds what the scan collected")
		}, nil)
	}
	a.H = s.hooks(h)
	r.entries = append(r.entries, a.Entry)
	a.Start(st, fn, args)
	a.Run()
	if itemsF < 0 {
		r.Violate("rows:success", posZero, nil, "no successful path of Rows was found")
	}
	return itemsF
}

func sameContent(st *State, x, y *Term) bool {
	return !x.isNil() && !y.isNil() && st.seqOfSlice(x) == st.seqOfSlice(y) && st.isTrue(mkEq(mkLen(x), mkLen(y)))
}

// judgeItem checks the callback's decision on one arbitrary item.
func (s *storageRoles) judgeItem(a *Analysis, r *Report, st *State, cont bool) {
	it, R := st.P["it"], st.P["R"]
	inRel := st.eval(mkEq(mkField(it, s.itRel), R))
	max := st.P["arg4"]
	maxNil := st.eval(mkEq(max, mkNil(max.typ)))
	// order of the item's key and the upper key
	// (nothing follows an item that equals the upper key, as keys are unique)
	beyond, within, atMax := false, maxNil.isTrue(), false
	ik := st.seqOfSlice(mkField(it, s.itKey))
	if v, ok := s.knownCmp(st, ik, max); ok {
		beyond, within, atMax = v > 0, v <= 0, v == 0
	}
	pred := st.P["arg5"]
	noPred := st.isTrue(mkEq(pred, mkNil(pred.typ)))
	null, truth, known := false, false, false
	if !noPred {
		null, truth, known = predTruth(st, pred, it, s.itRow)
	}
	n, _ := st.P["#app"].constInt()
	switch {
	case st.P["#other"] != nil:
		a.Violate(st, "scan:partial", "the scan collects something other than the whole item")
	case n > 1:
		a.Violate(st, "scan:duplicate", "the scan collects one item %d times", n)
	case n == 1:
		switch {
		case !inRel.isTrue():
			a.Violate(st, "scan:foreign", "the scan collects an item that may belong to another relation")
		case !within:
			a.Violate(st, "scan:beyond", "the scan collects an item that may lie above the upper row")
		case !noPred && (null || !known || !truth):
			a.Violate(st, "scan:rejected", "the scan collects an item whose column may be NULL or rejected by the predicate")
		case !cont && !atMax:
			a.Violate(st, "scan:stop", "the scan stops after an item within the range")
		default:
			r.OK("scan collects a matching row once")
		}
	case !cont:
		if !inRel.isFalse() && !beyond {
			a.Violate(st, "scan:stop", "the scan may stop at an item of the relation that is not above the upper row")
		} else {
			r.OK("scan stops only past the range")
		}
	default:
		if inRel.isFalse() || beyond || !noPred && (null || known && !truth) {
			r.OK("scan skips only excluded rows")
		} else {
			a.Violate(st, "scan:skip", "the scan may skip a row within the bounds that the predicate accepts")
		}
	}
}

// knownCmp is the known order of an item's key and the key of a bound.
func (s *storageRoles) knownCmp(st *State, ik, bound *Term) (int, bool) {
	for _, t := range sortedBoolKeys(st.bools) {
		if t.op != "app" || !strings.HasPrefix(t.aux, "bytescmp") || !st.bools[t] {
			continue
		}
		f, o := 1, t.args[1]
		if t.args[1] == ik {
			f, o = -1, t.args[0]
		} else if t.args[0] != ik {
			continue
		}
		if s.isMakeKey(st, o, bound) {
			v, _ := strconv.Atoi(strings.TrimPrefix(t.aux, "bytescmp"))
			return v * f, true
		}
	}
	return 0, false
}

// checkNext verifies delivery: for an arbitrary cursor position.
func (s *storageRoles) checkNext(r *Report, itemsF int) {
	fn := s.root(s.rowsT, "Next")
	su := s.rowsT.Underlying().(*types.Struct)
	posF, colsF := -1, -1
	for i := 0; i < su.NumFields(); i++ {
		ft := su.Field(i).Type()
		if isInt(ft) && posF < 0 {
			posF = i
		} else if sl, ok := ft.Underlying().(*types.Slice); ok && i != itemsF && isInt(sl.Elem()) {
			colsF = i
		}
	}
	if fn == nil || posF < 0 || colsF < 0 {
		r.Violate("anchor:Next", posZero, nil, "the cursor's position or columns were not found")
		return
	}
	for _, all := range []bool{true, false} {
		st, args := s.entry(fn)
		cur := args[0]
		load := func(st *State, i int) *Term {
			return st.load(fieldAddr(st.P["arg0"], i), su.Field(i).Type())
		}
		cols := load(st, colsF)
		items := load(st, itemsF)
		pos := load(st, posF)
		st.P["items"], st.P["pos"], st.P["cols"] = items, pos, cols
		st.P["n"] = mkLen(items)
		// an open cursor on a position within what it collected
		st.assume(mkLt(pos, mkInt(0)), false)
		st.assume(mkLt(mkLen(items), pos), false)
		if !st.assume(mkEq(cols, mkNil(cols.typ)), all) {
			continue
		}
		_ = cur
		a := NewAnalysis(s.p, r, nil, "rows.Next")
		row := mkField(elemAt(st, items, st.P["pos"]), s.itRow)
		st.P["src"] = row
		h := &sHooks{}
		w := &witness{name: "w"}
		if all {
			w.match = onBase("src")
			w.setup(a, st, mkLen(row))
		} else {
			w.match = onBase("cols")
			w.setup(a, st, mkLen(st.P["cols"]))
		}
		h.Instr = steps(w)
		h.Return = func(a *Analysis, st *State, res []*Term) {
			now := load(st, posF)
			if load(st, itemsF) != st.P["items"] || st.seqOfSlice(st.P["items"]) != intern("seqof", "", st.P["items"].typ, nil, st.P["items"]) {
				a.Violate(st, "next:items", "Next changes what the cursor collected")
			}
			split(st, res, func(st *State) {
				if !st.isTrue(mkLt(st.P["pos"], st.P["n"])) {
					a.Violate(st, "next:end", "Next succeeds past the last row")
					return
				}
				if !st.isTrue(mkEq(load(st, posF), mkAdd(st.P["pos"], mkInt(1), types.Typ[types.Int]))) {
					a.Violate(st, "next:advance", "Next does not advance by one row (%s)", load(st, posF))
					return
				}
				row := res[0]
				k := st.P[w.key()]
				if all {
					if !st.isTrue(mkEq(mkLen(row), mkLen(st.P["src"]))) || !row.isNil() && elemAt(st, row, k) != elemAt(st, st.P["src"], k) {
						a.Violate(st, "next:row", "Next does not return the collected row as it was stored")
					} else {
						r.OK("row delivered in full")
					}
					return
				}
				c := elemAt(st, st.P["cols"], k)
				if !st.isTrue(mkEq(mkLen(row), mkLen(st.P["cols"]))) || row.isNil() || elemAt(st, row, k) != st.eval(elemAt(st, st.P["src"], c)) {
					a.Violate(st, "next:columns", "Next does not return the requested columns of the collected row in the requested order")
				} else {
					r.OK("row delivered with the requested columns")
				}
			}, func(st *State) {

				if isEOF(res[len(res)-1]) {
					if !st.isTrue(mkEq(st.P["pos"], st.P["n"])) {
						a.Violate(st, "next:early", "Next may report the end before the last row")
					} else {
						r.OK("end reported past the last row")
					}
				} else if st.isTrue(mkLt(st.P["pos"], st.P["n"])) {
					a.Violate(st, "next:error", "Next may fail on a row")
				}
				if !st.isTrue(mkEq(now, st.P["pos"])) {
					a.Violate(st, "next:moves", "Next moves although it returns an error")
				}
			})
		}
		a.H = s.hooks(h)
		r.entries = append(r.entries, a.Entry)
		a.Start(st, fn, s.argsOf(st, fn))
		a.Run()
	}
}

package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["S10"] = checkS10
}

// sameKeySeq: two keys known to hold the same bytes.
func sameKeySeq(st *State, x, y *Term) bool {
	if x == y {
		return true
	}
	sx, sy := seqOrNil(st, x), seqOrNil(st, y)
	if sx == sy {
		return true
	}
	for _, k := range sortedBoolKeys(st.bools) {
		if k.isApp("seqequal") && st.bools[k] && (k.args[0] == sx && k.args[1] == sy || k.args[0] == sy && k.args[1] == sx) {
			return true
		}
	}
	v, ok := cmpFact(st, sx, sy)
	return ok && v == 0
}

// injective: the term as a function of x differs for different x, by the provenance of its bits.
func injective(t, x *Term) bool {
	if t == x {
		return true
	}
	lo, n, ok := bitsOf(t, x)
	_ = lo
	return ok && n >= bitSize(x.typ)
}

func bitSize(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 1 << 20
	}
	switch b.Kind() {
	case types.Uint8, types.Int8:
		return 8
	case types.Uint16, types.Int16:
		return 16
	case types.Uint32, types.Int32:
		return 32
	}
	return 64
}

// bitsOf: t holds n low bits of x, unchanged, from bit lo on; all other bits of t are the same
// for every x.
func bitsOf(t, x *Term) (lo, n int, ok bool) {
	if t == x {
		return 0, bitSize(x.typ), true
	}
	if t.op == "lin" && !contains(t, x) {
		return 0, 0, false
	}
	clip := func(lo, n, size int) (int, int, bool) {
		if lo+n > size {
			n = size - lo
		}
		return lo, n, n > 0
	}
	if t.op != "app" {
		return 0, 0, false
	}
	switch {
	case strings.HasPrefix(t.aux, "widen:") || strings.HasPrefix(t.aux, "conv:") || strings.HasPrefix(t.aux, "trunc:"):
		lo, n, ok := bitsOf(t.args[0], x)
		if !ok {
			return 0, 0, false
		}
		return clip(lo, n, bitSize(t.typ))
	case t.aux == "shl":
		k, isC := t.args[1].constInt()
		lo, n, ok := bitsOf(t.args[0], x)
		if !ok || !isC {
			return 0, 0, false
		}
		return clip(lo+int(k), n, bitSize(t.typ))
	case t.aux == "bor" || t.aux == "bxor":
		for i := range t.args {
			if lo, n, ok := bitsOf(t.args[i], x); ok {
				o := t.args[1-i]
				if c, isC := o.constInt(); isC && c >= 0 && (t.aux == "bxor" || c < 1<<uint(lo)) {
					return lo, n, true
				}
			}
		}
	case t.aux == "mul":
		for i := range t.args {
			if k, isC := t.args[1-i].constInt(); isC && k > 0 && k&(k-1) == 0 {
				s := 0
				for k > 1 {
					k >>= 1
					s++
				}
				if lo, n, ok := bitsOf(t.args[i], x); ok {
					return clip(lo+s, n, bitSize(t.typ))
				}
			}
		}
	}
	return 0, 0, false
}

func checkS10(p *Program, r *Report) {
	r.Rule = "provenance of keys, rows and relations reaching tree operations: the reference Current gives holds the key of the very item Next returned last, and its table; a successful Delete leaves the tree at entry less the item of that key in this table's relation, nothing else; a successful Update leaves the tree at entry with, under this table's relation, a row made from the stored row of that key in which one arbitrary column is the value given for it if named and the stored one if not, and without the old key when the key changes; the relation is an injective function of the table id (bit provenance) and the same one in every operation"
	r.Assume = []string{storageAssume, "a stored row's key is the key made of it (S05)", "ColumnKeyUpdated is exact (checked by S05)", "row conversion keeps values that conform already (V02)", "a caller names each column at most once in an update"}
	s := findStorage(p, r)
	if s == nil {
		return
	}
	s.rels = map[string]*Term{}
	s.checkCurrent(r)
	s.checkDelete(r)
	s.checkUpdate(r, false)
	s.checkUpdate(r, true)
	s.collectRels(r)
	// one relation per table id, the same in all operations
	var want *Term
	for _, op := range []string{"Rows", "Insert", "Update", "Delete"} {
		rel := s.rels[op]
		if rel == nil {
			r.Violate("relation:"+op, posZero, nil, "the relation used by %s was not found", op)
			continue
		}
		if want == nil {
			want = rel
		}
		if rel != want {
			r.Violate("relation:"+op, posZero, nil, "%s works on relation %s where Rows uses %s for the same table", op, rel, want)
		} else if !injective(rel, s.canonTid) {
			r.Violate("relation:shape", posZero, nil, "two tables may share a relation: %s does not keep the whole table id", rel)
		} else {
			r.OK("relation determined by the table id")
		}
	}
	r.AtLeast("reference to the row returned last", 1)
	r.AtLeast("delete removes that row only", 1)
	r.AtLeast("unnamed column keeps its value", 1)
	r.AtLeast("named column takes its value", 1)
}

// noteRel remembers the relation an operation works on, as a function of the table id.
func (s *storageRoles) noteRel(r *Report, op string, st *State, rel *Term, pos string) {
	tid := st.P["tid"]
	if s.canonTid == nil {
		s.canonTid = mkSym(tid.typ, "tableid")
	}
	c := subst(rel, map[*Term]*Term{tid: s.canonTid}, map[*Term]*Term{}, nil)
	if !contains(c, s.canonTid) {
		r.Violate("relation:"+op+":table", posZero, nil, "%s works on a relation that does not depend on the table (%s)", op, rel)
		return
	}
	if o := s.rels[op]; o != nil && o != c {
		r.Violate("relation:"+op+":two", posZero, nil, "%s works on two relations: %s and %s", op, o, c)
	}
	s.rels[op] = c
}

func (s *storageRoles) collectRels(r *Report) {
	for _, m := range []struct {
		T    *types.Named
		name string
	}{{s.tableT, "Rows"}, {s.tableT, "Insert"}} {
		fn := s.root(m.T, m.name)
		if fn == nil {
			continue
		}
		st, args := s.tableEntry(r, fn)
		if st == nil {
			return
		}
		h := &sHooks{}
		h.tree = func(a *Analysis, st *State, c *Call, e *treeEvent) {
			if e.rel != nil {
				s.noteRel(r, m.name, st, e.rel, "")
			}
		}
		a := NewAnalysis(s.p, r, s.hooks(h), m.T.Obj().Name()+"."+m.name)
		r.entries = append(r.entries, a.Entry)
		a.Start(st, fn, args)
		a.Run()
	}
}

// refKey is the key of a row reference.
func (s *storageRoles) refKey(st *State, ref *Term) *Term {
	if ref.op == "iface" {
		ref = ref.args[0]
	}
	T := namedOf(derefType(ref.typ))
	if T != s.refT {
		return nil
	}
	su := T.Underlying().(*types.Struct)
	kt := fieldTypeOf(s.itemT, s.itKey)
	for i := 0; i < su.NumFields(); i++ {
		ft := su.Field(i).Type()
		var v *Term
		if _, ptr := ref.typ.Underlying().(*types.Pointer); ptr {
			v = st.load(fieldAddr(ref, i), ft)
		} else {
			v = mkField(ref, i)
		}
		if types.Identical(ft, kt) {
			return v
		}
		if namedOf(ft) == s.itemT {
			return mkField(v, s.itKey)
		}
	}
	return nil
}

func (s *storageRoles) checkCurrent(r *Report) {
	fn := s.root(s.rowsT, "Current")
	if fn == nil {
		r.Violate("anchor:Current", posZero, nil, "Current not found")
		return
	}
	itemsF, posF, _ := s.cursorFields()
	if itemsF < 0 || posF < 0 {
		r.Violate("anchor:Current:fields", posZero, nil, "the cursor's items or position were not found")
		return
	}
	st, args := s.tableEntry(r, fn)
	if st == nil {
		return
	}
	su := s.rowsT.Underlying().(*types.Struct)
	load := func(st *State, i int) *Term { return st.load(fieldAddr(st.P["arg0"], i), su.Field(i).Type()) }
	st.P["items"], st.P["pos"] = load(st, itemsF), load(st, posF)
	// Next has returned a row: the position is past at least one collected item
	st.assume(mkLt(mkInt(0), st.P["pos"]), true)
	st.assume(mkLt(mkLen(st.P["items"]), st.P["pos"]), false)
	h := &sHooks{}
	h.Return = func(a *Analysis, st *State, res []*Term) {
		split(st, res, func(st *State) {
			k := s.refKey(st, res[0])
			want := mkField(elemAt(st, st.P["items"], mkAdd(st.P["pos"], mkInt(-1), types.Typ[types.Int])), s.itKey)
			if k == nil || !sameKeySeq(st, k, want) {
				a.Violate(st, "current:key", "Current refers to another row than the one Next returned last (%s)", k)
				return
			}
			kb, kl := sliceParts(k)
			wb, wl := sliceParts(want)
			if _, private := st.privateBase(k); !private && (kb != wb || kl != wl) {
				a.Violate(st, "current:shared", "the key of a row reference is in memory that may be written again (%s)", k)
				return
			}
			ref := res[0]
			if ref.op == "iface" {
				ref = ref.args[0]
			}
			if t := s.tableOf(st, ref); t != st.P["tbl"] {
				a.Violate(st, "current:table", "Current refers to another table (%s)", t)
				return
			}
			if load(st, posF) != st.P["pos"] || load(st, itemsF) != st.P["items"] {
				a.Violate(st, "current:moves", "Current moves the cursor")
				return
			}
			r.OK("reference to the row returned last")
		}, func(st *State) { a.Violate(st, "current:error", "Current may fail on a row") })
	}
	h.Panic = func(a *Analysis, st *State, v *Term) {
		a.Violate(st, "current:panic", "Current may panic on a row")
	}
	a := NewAnalysis(s.p, r, s.hooks(h), "rows.Current")
	r.entries = append(r.entries, a.Entry)
	a.Start(st, fn, args)
	a.Run()
}

// cursorFields finds the fields of the cursor: what it collected, where it is, which columns
// were requested.
func (s *storageRoles) cursorFields() (items, pos, cols int) {
	items, pos, cols = -1, -1, -1
	su := s.rowsT.Underlying().(*types.Struct)
	for i := 0; i < su.NumFields(); i++ {
		ft := su.Field(i).Type()
		sl, ok := ft.Underlying().(*types.Slice)
		switch {
		case ok && namedOf(sl.Elem()) == s.itemT:
			items = i
		case ok && isInt(sl.Elem()):
			cols = i
		case isInt(ft) && pos < 0:
			pos = i
		}
	}
	return
}

func (s *storageRoles) checkDelete(r *Report) {
	fn := s.root(s.refT, "Delete")
	if fn == nil {
		r.Violate("anchor:Delete", posZero, nil, "Delete not found")
		return
	}
	st, args := s.tableEntry(r, fn)
	if st == nil {
		return
	}
	h := &sHooks{}
	h.tree = func(a *Analysis, st *State, c *Call, e *treeEvent) {
		if e.rel != nil {
			s.noteRel(r, "Delete", st, e.rel, "")
		}
	}
	h.Return = func(a *Analysis, st *State, res []*Term) {
		split(st, res, func(st *State) {
			v := s.verNow(st)
			if !v.isApp("tdel") || v.args[0] != st.P["ver0"] || !contains(v.args[1], st.P["tid"]) || !sameKeySeq(st, v.args[2], s.refKey(st, st.P["arg0"])) {
				a.Violate(st, "delete", "a successful Delete leaves something other than the table less the row the cursor is on (%s)", v)
			} else {
				r.OK("delete removes that row only")
			}
		}, nil)
	}
	a := NewAnalysis(s.p, r, s.hooks(h), "rowRef.Delete")
	r.entries = append(r.entries, a.Entry)
	a.Start(st, fn, args)
	a.Run()
}

// checkUpdate follows one arbitrary column c through an update: named at one arbitrary
// position of the column list, or not named at all.
func (s *storageRoles) checkUpdate(r *Report, named bool) {
	fn := s.root(s.refT, "Update")
	if fn == nil || len(fn.Params) != 4 {
		r.Violate("anchor:Update", posZero, nil, "Update(ctx, cols, vals) not found")
		return
	}
	st, args := s.tableEntry(r, fn)
	if st == nil {
		return
	}
	cols, vals := args[2], args[3]
	st.P["cols"], st.P["vals"] = cols, vals
	a := NewAnalysis(s.p, r, nil, "rowRef.Update")
	h := &sHooks{}
	colT := elemType(cols.typ)
	c := mkSym(colT, "c")
	st.P["c"] = c
	st.assume(mkLt(c, mkInt(0)), false)
	differs := func(a *Analysis, st *State, base, idx *Term) {
		b, _ := sliceParts(st.P["cols"])
		st.assume(mkEq(mkSelect(st.content(b), idx, colT, st), st.P["c"]), false)
	}
	w := &witness{name: "p", match: onBase("cols"), other: differs}
	if named {
		st.assume(mkEq(mkLen(cols), mkLen(vals)), true)
		w.setup(a, st, mkLen(cols))
		st.assume(mkEq(elemAt(st, cols, st.P[w.key()]), c), true)
		st.P["want"] = elemAt(st, st.P["vals"], st.P[w.key()])
		h.Instr = steps(w)
	} else {
		h.Instr = func(a *Analysis, st *State, in ssa.Instruction) bool {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				return true
			}
			if base := a.val(st, ia.X); onBase("cols")(st, base, in) {
				_, lo := sliceParts(base)
				differs(a, st, base, mkAdd(lo, a.val(st, ia.Index), types.Typ[types.Int]))
			}
			return !st.dead
		}
	}
	// what the code knows of a row it is making, at column c, survives loops
	kept := map[*Term]bool{}
	keep := func(a *Analysis, st *State, slice *Term) {
		b, _ := sliceParts(slice)
		if !isFresh(b) || !isRowLike(s.p, slice.typ) || kept[b] {
			return
		}
		kept[b] = true
		a.Keep = append(a.Keep, func(st *State) *Term {
			if _, ok := st.heap[contentKey(b)]; !ok || st.P["want"] == nil {
				return mkBool(false)
			}
			return mkEq(mkSelect(st.content(b), st.P["c"], elemType(slice.typ), st), st.P["want"])
		})
	}
	h.Append = func(a *Analysis, st *State, base, elems, res *Term, in ssa.Instruction) { keep(a, st, res) }
	h.Store = func(a *Analysis, st *State, addr, val *Term, in ssa.Instruction) {
		if addr.op == "iaddr" {
			keep(a, st, intern("sl", "", types.NewSlice(elemType(st.P["vals"].typ)), nil, addr.args[0], mkInt(0), mkInt(0)))
		}
	}
	stored := func(st *State, rel *Term) *Term {
		return mkApp("storedrow", fieldTypeOf(s.itemT, s.itRow), st.P["ver0"], rel, s.refKey(st, st.P["arg0"]))
	}
	h.tree = func(a *Analysis, st *State, cl *Call, e *treeEvent) {
		if e.rel == nil {
			return
		}
		s.noteRel(r, "Update", st, e.rel, "")
		if !named && st.P["want"] == nil && contains(e.rel, st.P["tid"]) {
			row := stored(st, e.rel)
			st.assume(mkLt(st.P["c"], mkLen(row)), true)
			st.P["want"] = elemAt(st, row, st.P["c"])
		}
	}
	h.Return = func(a *Analysis, st *State, res []*Term) {
		split(st, res, func(st *State) {
			v := s.verNow(st)
			if v == st.P["ver0"] {
				if named && !st.isTrue(mkLt(mkLen(st.P["cols"]), mkInt(1))) {
					a.Violate(st, "update:none", "Update succeeds without storing the new values")
				}
				return
			}
			ref := s.refKey(st, st.P["arg0"])
			if !v.isApp("tins") {
				a.Violate(st, "update:extra", "a successful Update leaves something other than the table with one row replaced (%s)", v)
				return
			}
			base, rel, key, seq := v.args[0], v.args[1], v.args[2], v.args[3]
			ofRow := key.isApp("MakeKey") && sameSnap(st, key.args[0], st.P["key"]) && key.args[1] == seq
			switch {
			case base.isApp("tdel") && base.args[0] == st.P["ver0"] && base.args[1] == rel && sameKeySeq(st, base.args[2], ref) && ofRow:
			case base == st.P["ver0"] && sameKeySeq(st, key, ref):
			case base == st.P["ver0"] && ofRow && s.sameKeyUpdate(st, &treeEvent{key: key}):
			default:
				a.Violate(st, "update:row", "a successful Update leaves something other than the table with the row the cursor is on replaced (%s)", v)
				return
			}
			src := seq
			if seq.isApp("converted") {
				src = seq.args[1]
			}
			got := mkSelect(src, st.P["c"], elemType(st.P["vals"].typ), st)
			if st.P["want"] == nil || st.eval(got) != st.eval(st.P["want"]) && !st.isTrue(mkEq(got, st.P["want"])) {
				if named {
					a.Violate(st, "update:value", "an updated column may not take its new value: %s", st.eval(got))
				} else {
					a.Violate(st, "update:other", "a column that is not updated may change: %s", st.eval(got))
				}
				return
			}
			if named {
				r.OK("named column takes its value")
			} else {
				r.OK("unnamed column keeps its value")
			}
		}, nil)
	}
	a.H = s.hooks(h)
	r.entries = append(r.entries, a.Entry)
	a.Start(st, fn, args)
	a.Run()
}

package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["S05"] = checkS05
	checks["S06"] = checkS06
	checks["S07"] = checkS07
	checks["S08"] = checkS08
}

// tableOf finds the table a receiver belongs to.
func (s *storageRoles) tableOf(st *State, recv *Term) *Term {
	for depth := 0; depth < 4; depth++ {
		T := namedOf(recv.typ)
		if T == nil {
			return nil
		}
		if T == s.tableT {
			return recv
		}
		su, ok := T.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		var next *Term
		for i := 0; i < su.NumFields(); i++ {
			ft := su.Field(i).Type()
			if n := namedOf(ft); n == s.tableT || n == s.rowsT {
				if _, isPtr := recv.typ.Underlying().(*types.Pointer); isPtr {
					next = st.load(fieldAddr(recv, i), ft)
				} else {
					next = mkField(recv, i)
				}
				break
			}
		}
		if next == nil {
			return nil
		}
		recv = next
	}
	return nil
}

// prefetch evaluates a method without parameters on recv and keeps the result in P.
func (s *storageRoles) prefetch(r *Report, st *State, recv *Term, method, name string) *State {
	fn := s.root(namedOf(recv.typ), method)
	if fn == nil {
		r.Violate("anchor:"+method, posZero, nil, "method %s not found", method)
		return nil
	}
	var out []*State
	h := &sHooks{}
	h.Return = func(a *Analysis, x *State, res []*Term) {
		x.P[name] = res[0]
		n := x.clone()
		n.frames = nil
		n.snaps = map[snapKey]*State{}
		n.visits = map[snapKey]int{}
		out = append(out, n)
	}
	a := NewAnalysis(s.p, r, s.hooks(h), method)
	args := []*Term{recv}
	if recv.typ != nil && fn.Signature.Recv() != nil {
		if _, wantPtr := fn.Signature.Recv().Type().(*types.Pointer); wantPtr {
			st.assume(mkEq(recv, mkNil(recv.typ)), false)
		}
	}
	a.Start(st.clone(), fn, args)
	a.Run()
	if len(out) != 1 {
		r.Violate("anchor:"+method, posZero, nil, "%s has %d outcomes, expected one", method, len(out))
		return nil
	}
	return out[0]
}

// tableEntry prepares a state for an operation on a table, cursor or row reference, with the
// table's id, key and column types evaluated.
func (s *storageRoles) tableEntry(r *Report, fn *ssa.Function) (*State, []*Term) {
	st, _ := s.entry(fn)
	tbl := s.tableOf(st, st.P["arg0"])
	if tbl == nil {
		r.Violate("anchor:table:"+fn.Name(), posZero, nil, "cannot find the table of %s", fn)
		return nil, nil
	}
	st.P["tbl"] = tbl
	for _, m := range [][2]string{{"TID", "tid"}, {"Key", "key"}, {"ColumnTypes", "ctypes"}} {
		st = s.prefetch(r, st, st.P["tbl"], m[0], m[1])
		if st == nil {
			return nil, nil
		}
	}
	tx := s.txOf(st, st.P["arg0"])
	if tx == nil {
		r.Violate("anchor:tx:"+fn.Name(), posZero, nil, "cannot find the transaction of %s", fn)
		return nil, nil
	}
	s.pinTx(st, tx)
	return st, s.argsOf(st, fn)
}

func (s *storageRoles) argsOf(st *State, fn *ssa.Function) []*Term {
	var args []*Term
	for i := range fn.Params {
		args = append(args, st.P["arg"+itoa(i)])
	}
	return args
}

func (s *storageRoles) pinTx(st *State, tx *Term) {
	st.P["tx"] = tx
	_, tree, _, _ := s.txCells(st, tx)
	st.P["ver0"] = treeVer(st, tree)
}

// verNow is the version of the transaction's tree.
func (s *storageRoles) verNow(st *State) *Term {
	t := st.load(fieldAddr(st.P["tx"], s.txTree), s.treeTypeF())
	return treeVer(st, t)
}

// sameSeq: a snapshot argument that stands for the same contents as the slice.
func sameSnap(st *State, arg, slice *Term) bool {
	if arg.op == "snap" {
		return arg.args[0] == slice || arg.args[1] == seqOrNil(st, slice)
	}
	return arg == slice
}

func okRes(st *State, res []*Term) *Term {
	return st.eval(mkEq(res[len(res)-1], mkNil(errType)))
}

// onSuccess and onError split a return on its error result.
func split(st *State, res []*Term, ok, bad func(st *State)) {
	e := okRes(st, res)
	if !e.isTrue() {
		x := st.clone()
		if x.assume(e, false) && bad != nil {
			bad(x)
		}
	}
	if !e.isFalse() && st.assume(e, true) && ok != nil {
		ok(st)
	}
}

func checkS05(p *Program, r *Report) {
	r.Rule = "check-before-write: every tree insert of a row in Insert and Update happens where no item has its relation and key (known from a lookup with no change of the tree since), except an update whose columns are known not to touch the key; an insert that found the key taken returns an error; every row given to a successful insert is inserted (shown for one arbitrary row); ColumnKeyUpdated is true whenever an updated column is a key column (shown for an arbitrary pair)"
	r.Assume = []string{storageAssume, "encode.MakeKey is a function of the key columns' values (checked by E01)"}
	s := findStorage(p, r)
	if s == nil {
		return
	}
	for _, m := range []struct {
		T    *types.Named
		name string
	}{{s.tableT, "Insert"}, {s.refT, "Update"}} {
		fn := s.root(m.T, m.name)
		st, args := s.tableEntry(r, fn)
		if st == nil {
			return
		}
		isInsert := m.name == "Insert"
		h := &sHooks{}
		a := NewAnalysis(p, r, nil, m.T.Obj().Name()+"."+m.name)
		if isInsert {
			w := &witness{name: "row", match: onBase("arg" + itoa(len(args)-1))}
			rows := args[len(args)-1]
			w.setup(a, st, mkLen(rows))
			st.P["wrow"] = elemAt(st, rows, st.P["wit:row"])
			st.P["#ins"] = mkBool(false)
			h.Instr = steps(w)
		} else {
			st.P["cols"] = args[2]
		}
		h.tree = func(a *Analysis, st *State, c *Call, e *treeEvent) {
			if e.op != "ReplaceOrInsert" {
				return
			}
			has := st.eval(treeHas(st, e.verBefore, e.rel, e.key))
			switch {
			case has.isFalse():
				r.OK("insert under a key known to be free")
			case !isInsert && s.sameKeyUpdate(st, e):
				r.OK("update keeps the key")
			default:
				st.P["#over"] = mkBool(true)
			}
			if st.P["wrow"] != nil && e.rowSeq != nil && contains(e.rowSeq, st.P["wrow"]) {
				st.P["#ins"] = mkBool(true)
			}
		}
		h.Return = func(a *Analysis, st *State, res []*Term) {
			split(st, res, func(st *State) {
				if st.P["#over"] != nil {
					a.Violate(st, "overwrite:"+a.Entry, "a row is stored under a key that may already identify another row, and the operation succeeds")
				} else {
					r.OK("success without overwriting")
				}
				if isInsert {
					if !st.P["#ins"].isTrue() {
						a.Violate(st, "dropped:"+a.Entry, "Insert succeeds although one of the rows was not inserted")
					} else {
						r.OK("every row inserted on success")
					}
				}
			}, func(st *State) {
				if st.P["#over"] != nil && s.verNow(st) != st.P["ver0"] {
					a.Violate(st, "overwrite-error:"+a.Entry, "a row under an existing key was overwritten and the operation fails without undoing it")
				}
			})
		}
		a.H = s.hooks(h)
		r.entries = append(r.entries, a.Entry)
		a.Start(st, fn, args)
		a.Run()
	}
	lemmaKeyUpdated(p, r)
	r.AtLeast("insert under a key known to be free", 2)
	r.AtLeast("every row inserted on success", 1)
}

// sameKeyUpdate: the row replaces itself, because no key column is updated or the new key is
// known to equal the cursor's key.
func (s *storageRoles) sameKeyUpdate(st *State, e *treeEvent) bool {
	for _, k := range sortedBoolKeys(st.bools) {
		v := st.bools[k]
		if k.isApp("keyupdated") && !v && len(k.args) == 2 && sameSnap(st, k.args[0], st.P["key"]) && sameSnap(st, k.args[1], st.P["cols"]) {
			return true
		}
		if k.isApp("seqequal") && v && e.key != nil {
			ks := st.seqOfSlice(e.key)
			if k.args[0] == ks || k.args[1] == ks {
				o := k.args[0]
				if o == ks {
					o = k.args[1]
				}
				if o.op == "seqof" && s.isRefKey(st, o.args[0]) {
					return true
				}
			}
		}
	}
	return false
}

// isRefKey: the key field of the row reference the operation was called on.
func (s *storageRoles) isRefKey(st *State, t *Term) bool {
	recv := st.P["arg0"]
	return t.op == "field" && t.args[0] == recv || recv.op == "struct" && func() bool {
		for _, f := range recv.args {
			if f == t {
				return true
			}
		}
		return false
	}()
}

// lemmaKeyUpdated: ColumnKeyUpdated(key, cols) is true when some col is a column of key.
func lemmaKeyUpdated(p *Program, r *Report) {
	fn := p.Func("types", "ColumnKeyUpdated")
	if fn == nil || len(fn.Params) != 2 {
		r.Violate("anchor:ColumnKeyUpdated", posZero, nil, "types.ColumnKeyUpdated not found")
		return
	}
	colFn := columnOf(p)
	if colFn == nil {
		r.Violate("anchor:ColumnKey.Column", posZero, nil, "ColumnKey.Column not found")
		return
	}
	column := func(st *State, elem *Term) *Term {
		return mkApp("column", colFn.Signature.Results().At(0).Type(), elem)
	}
	call := func(a *Analysis, st *State, c *Call) ([]Out, bool) {
		if c.Fn == colFn {
			return []Out{{St: st, Ret: column(st, c.Args[0])}}, true
		}
		return nil, false
	}
	ret := func(member bool) func(a *Analysis, st *State, res []*Term) {
		return func(a *Analysis, st *State, res []*Term) {
			if v := st.eval(res[0]); v != mkBool(member) {
				a.Violate(st, "keyupdated:"+map[bool]string{true: "miss", false: "spurious"}[member], "ColumnKeyUpdated returns %s although %s", v, map[bool]string{true: "an updated column is a key column", false: "no updated column is a key column"}[member])
			} else {
				a.R.OK("ColumnKeyUpdated is exact")
			}
		}
	}
	// an updated key column: whichever sequence is looped over outermost, its witness starts
	// the other loop afresh
	r.firstOf(func(r *Report, keyOuter bool) {
		st := newState()
		args := paramSyms(fn)
		st.P["key"], st.P["cols"] = args[0], args[1]
		h := &Hooks{Call: call, Return: ret(true)}
		a := NewAnalysis(p, r, h, "ColumnKeyUpdated")
		wk := &witness{name: "k", match: onBase("key")}
		wc := &witness{name: "c", match: onBase("cols")}
		if keyOuter {
			wk.at = func(a *Analysis, st *State, base, idx *Term) { st.P["#seen:c"] = mkBool(false) }
		} else {
			wc.at = func(a *Analysis, st *State, base, idx *Term) { st.P["#seen:k"] = mkBool(false) }
		}
		wk.setup(a, st, mkLen(args[0]))
		wc.setup(a, st, mkLen(args[1]))
		h.Instr = steps(wk, wc)
		st.P["K"] = mkSym(elemType(args[1].typ), "col")
		h.Call = func(a *Analysis, st *State, c *Call) ([]Out, bool) {
			if c.Fn != colFn {
				return nil, false
			}
			if st.isTrue(mkEq(c.Args[0], elemAt(st, st.P["key"], st.P["wit:k"]))) {
				return []Out{{St: st, Ret: st.P["K"]}}, true
			}
			return []Out{{St: st, Ret: mkSym(elemType(st.P["cols"].typ), "column")}}, true
		}
		same := func(st *State) *Term { return mkEq(st.P["K"], elemAt(st, st.P["cols"], st.P["wit:c"])) }
		st.assume(same(st), true)
		a.Keep = append(a.Keep, same)
		a.Start(st, fn, args)
		a.Run()
	})
	// no element of cols equals the column of any element of key
	st := newState()
	args := paramSyms(fn)
	st.P["key"], st.P["cols"] = args[0], args[1]
	h := &Hooks{Call: call, Return: ret(false)}
	h.Instr = func(a *Analysis, st *State, in ssa.Instruction) bool {
		b, ok := in.(*ssa.BinOp)
		if !ok || !isInt(b.X.Type()) {
			return true
		}
		x, y := a.val(st, b.X), a.val(st, b.Y)
		isCol := func(t *Term) bool { return t.isApp("column") }
		isElem := func(t *Term) bool { return t.op == "select" && contains(t, st.P["cols"]) }
		if isCol(x) && isElem(y) || isCol(y) && isElem(x) {
			return st.assume(mkEq(x, y), false)
		}
		return true
	}
	a := NewAnalysis(p, r, h, "ColumnKeyUpdated")
	a.Start(st, fn, args)
	a.Run()
	r.AtLeast("ColumnKeyUpdated is exact", 2)
}

// columnOf finds the method giving the column of a key column.
func columnOf(p *Program) *ssa.Function {
	t := p.TypeOf("types", "ColumnKey")
	if t == nil {
		return nil
	}
	return p.Method(t, "Column")
}

// lemmaConvertRow: a successful ConvertRow returns a new row with one value per column type
// and changes neither argument.
func lemmaConvertRow(p *Program, r *Report) {
	fn := p.Func("types", "ConvertRow")
	if fn == nil || len(fn.Params) != 2 {
		r.Violate("anchor:ConvertRow", posZero, nil, "types.ConvertRow not found")
		return
	}
	st := newState()
	args := paramSyms(fn)
	st.P["ct"], st.P["row"] = args[0], args[1]
	h := &Hooks{}
	// w is any one column the row has a value for: the value stored for it must be what
	// converting that very value to that very column's type gave
	w := &witness{name: "w", match: func(st *State, base *Term, in ssa.Instruction) bool {
		return onBase("row")(st, base, in) || onBase("ct")(st, base, in)
	}}
	h.Instr = steps(w)
	h.Call = func(a *Analysis, st *State, c *Call) ([]Out, bool) {
		if c.Fn != nil && c.Name() == modulePath+"/types.ConvertValue" && len(c.Args) == 2 {
			no := st.clone()
			cv := mkSym(c.Sig.Results().At(0).Type(), "cv")
			k := st.P[w.key()]
			if st.eval(c.Args[1]) == elemAt(st, st.P["row"], k) && st.eval(c.Args[0]) == elemAt(st, st.P["ct"], k) {
				st.P["converted"] = cv
			}
			return []Out{{St: no, Ret: mkTuple(mkNil(c.Sig.Results().At(0).Type()), mkError("err"))},
				{St: st, Ret: mkTuple(cv, mkNil(errType))}}, true
		}
		return nil, false
	}
	h.Store = func(a *Analysis, st *State, addr, val *Term, in ssa.Instruction) {
		if b := rootOf(addr); !isFresh(b) {
			a.Violate(st, "convert:writes", "ConvertRow writes to memory it did not make (%s)", addr)
		}
	}
	h.Return = func(a *Analysis, st *State, res []*Term) {
		split(st, res, func(st *State) {
			row := res[0]
			b, ok := st.privateBase(row)
			switch {
			case !ok || b == nil && !row.isNil():
				a.Violate(st, "convert:shared", "ConvertRow returns memory that is not its own (%s)", row)
			case !st.isTrue(mkEq(mkLen(row), mkLen(st.P["ct"]))):
				a.Violate(st, "convert:length", "ConvertRow succeeds with a row of %s values for %s column types", mkLen(row), mkLen(st.P["ct"]))
			case st.P["converted"] == nil || !st.isTrue(mkEq(elemAt(st, row, st.P[w.key()]), st.P["converted"])):
				a.Violate(st, "convert:value", "ConvertRow succeeds with a value that is not the given one converted to its column's type")
			default:
				r.OK("ConvertRow returns a new row of the right length")
			}
		}, nil)
	}
	a := NewAnalysis(p, r, h, "ConvertRow")
	w.setup(a, st, mkLen(args[1]))
	a.Start(st, fn, args)
	a.Run()
	r.AtLeast("ConvertRow returns a new row of the right length", 1)
}

func checkS06(p *Program, r *Report) {
	r.Rule = "provenance: every row stored by Insert and Update is the result of converting, against the column types of that very table, a source with a value for every column; ConvertRow gives one value per column type (the per-value conversion is V02)"
	r.Assume = []string{storageAssume, "types.ConvertValue yields a conforming value or an error (V02)"}
	s := findStorage(p, r)
	if s == nil {
		return
	}
	for _, m := range []struct {
		T    *types.Named
		name string
	}{{s.tableT, "Insert"}, {s.refT, "Update"}} {
		fn := s.root(m.T, m.name)
		st, args := s.tableEntry(r, fn)
		if st == nil {
			return
		}
		h := &sHooks{}
		h.tree = func(a *Analysis, st *State, c *Call, e *treeEvent) {
			if e.op != "ReplaceOrInsert" {
				return
			}
			sq := e.rowSeq
			if sq == nil {
				a.Violate(st, "row:"+a.Entry, "an item without a row is stored")
				return
			}
			src, why := s.convertedFrom(st, sq)
			if src == nil {
				a.Violate(st, "row:"+a.Entry, "a row is stored that is not the converted row (%s): %s", why, sq)
				return
			}
			r.OK("stored row was converted to the table's column types")
			n := seqLen(src)
			ct := mkLen(st.P["ctypes"])
			if strings.HasPrefix(a.Entry, s.refT.Obj().Name()) {
				// an update starts from a stored row, which is complete already
				if contains(src, st.P["ctypes"]) || containsApp(src, "storedrow") || n == ct {
					r.OK("every column has a value")
					return
				}
				if st.P["stored"] != nil && st.isTrue(mkEq(n, mkLen(st.P["stored"]))) {
					r.OK("every column has a value")
					return
				}
			}
			if n != ct && !st.isFalse(mkLt(n, ct)) {
				a.Violate(st, "short:"+a.Entry, "the converted row may have fewer values (%s) than the table has columns (%s), so NOT NULL is not checked for the missing ones", n, ct)
				return
			}
			r.OK("every column has a value")
		}
		h.extra = func(a *Analysis, st *State, c *Call) ([]Out, bool) {
			if c.Fn != nil && strings.HasSuffix(c.Name(), "BTreeG.Get") {
				o, ok := s.btreeModel(a, st, c, func(*treeEvent) {}, nil)
				for _, x := range o {
					if x.Ret != nil && x.Ret.op == "tuple" && x.Ret.args[1].isTrue() {
						x.St.P["stored"] = mkField(x.Ret.args[0], s.itRow)
					}
				}
				return o, ok
			}
			return nil, false
		}
		a := NewAnalysis(p, r, s.hooks(h), m.T.Obj().Name()+"."+m.name)
		r.entries = append(r.entries, a.Entry)
		a.Start(st, fn, args)
		a.Run()
	}
	lemmaConvertRow(p, r)
	r.AtLeast("stored row was converted to the table's column types", 3)
	r.AtLeast("every column has a value", 3)
}

func containsApp(t *Term, name string) bool {
	found := false
	walkTerm(t, map[*Term]bool{}, func(x *Term) {
		if x.isApp(name) {
			found = true
		}
	})
	return found
}

// convertedFrom gives the source of a row that was converted to the table's column types.
func (s *storageRoles) convertedFrom(st *State, sq *Term) (*Term, string) {
	if !sq.isApp("converted") {
		return nil, "not the result of a conversion"
	}
	if !sameSnap(st, sq.args[0], st.P["ctypes"]) {
		return nil, "converted against other column types"
	}
	return sq.args[1], ""
}

func checkS07(p *Program, r *Report) {
	r.Rule = "effect analysis: on every path of Insert, Update, Delete, CreateTable and DropTable that returns an error, the contents (version) of the transaction's tree are those at entry"
	r.Assume = []string{storageAssume}
	s := findStorage(p, r)
	if s == nil {
		return
	}
	var roots []root
	for _, m := range []string{"CreateTable", "DropTable", "OpenTable"} {
		roots = append(roots, root{s.txT, m, s.root(s.txT, m)})
	}
	roots = append(roots, root{s.tableT, "Insert", s.root(s.tableT, "Insert")}, root{s.tableT, "Rows", s.root(s.tableT, "Rows")},
		root{s.refT, "Update", s.root(s.refT, "Update")}, root{s.refT, "Delete", s.root(s.refT, "Delete")})
	for _, rt := range roots {
		st, args := s.entry(rt.fn)
		tx := s.txOf(st, args[0])
		if tx == nil {
			r.Violate("anchor:tx:"+rt.name, posZero, nil, "cannot find the transaction of %s", rt.name)
			continue
		}
		s.pinTx(st, tx)
		h := &sHooks{}
		h.tree = func(a *Analysis, st *State, c *Call, e *treeEvent) {
			if isMutator(e.op) {
				st.P["#changed"] = mkBool(true)
			}
		}
		h.Return = func(a *Analysis, st *State, res []*Term) {
			split(st, res, func(st *State) {
				r.OK("success path")
			}, func(st *State) {
				if v := s.verNow(st); v != st.P["ver0"] {
					a.Violate(st, "effect:"+a.Entry, "the operation returns an error but the transaction's contents changed (%s, was %s)", v, st.P["ver0"])
				} else if st.P["#changed"] != nil {
					r.OK("changes undone on error")
				} else {
					r.OK("no change before the error")
				}
			})
		}
		a := NewAnalysis(p, r, s.hooks(h), rt.T.Obj().Name()+"."+rt.name)
		r.entries = append(r.entries, a.Entry)
		a.Start(st, rt.fn, args)
		a.Run()
	}
	r.AtLeast("no change before the error", 3)
}

func checkS08(p *Program, r *Report) {
	r.Rule = "alias and ownership: element writes go only to slices made by the operation and not yet stored or handed out; a stored row is a slice made by the operation that no caller knows, and the row a cursor returns is one too; ConvertRow returns memory of its own"
	r.Assume = []string{storageAssume, "types.Value implementations are immutable values (byte strings are not modified by callers)"}
	s := findStorage(p, r)
	if s == nil {
		return
	}
	s.runRoots(r, s.roots(), func(rt root) *Hooks {
		h := &sHooks{}
		h.Store = func(a *Analysis, st *State, addr, val *Term, in ssa.Instruction) {
			if hasIaddr(addr) {
				s.ownStore(a, r, st, rt, addr, val)
			}
		}
		h.Append = func(a *Analysis, st *State, base, elems, res *Term, in ssa.Instruction) {
			// appending to a slice that others see may write into shared memory
			if base.isNil() || base.typ == nil || !isRowLike(p, base.typ) {
				return
			}
			b, _ := sliceParts(base)
			if n, ok := mkLen(elems).constInt(); ok && n == 0 {
				return
			}
			if !isFresh(b) || st.esc[b] {
				if fullCap(base) {
					return
				}
				a.Violate(st, "append:"+a.Entry, "append may write into the memory of a row it does not own (%s)", base)
			} else {
				r.OK("append to a private slice")
			}
		}
		h.tree = func(a *Analysis, st *State, c *Call, e *treeEvent) {
			if e.op != "ReplaceOrInsert" {
				return
			}
			if e.row == nil || e.row.isNil() {
				return
			}
			if b, ok := st.privateBase(e.row); !ok || b == nil {
				a.Violate(st, "stored:"+a.Entry, "the stored row is not a slice made by this operation, or others can reach it (%s)", e.row)
			} else {
				r.OK("stored row is private")
			}
		}
		if rt.T == s.rowsT && rt.name == "Next" {
			h.Return = func(a *Analysis, st *State, res []*Term) {
				split(st, res, func(st *State) {
					row := res[0]
					if row.isNil() || st.isTrue(mkEq(row, mkNil(row.typ))) {
						return
					}
					if b, ok := st.privateBase(row); !ok || b == nil {
						a.Violate(st, "returned:"+a.Entry, "the returned row is not a fresh copy (%s)", row)
					} else {
						r.OK("returned row is a copy")
					}
				}, nil)
			}
		}
		return s.hooks(h)
	})
	lemmaConvertRow(p, r)
	r.AtLeast("stored row is private", 3)
	r.AtLeast("returned row is a copy", 2)
}

// isRowLike: slices of values.
func isRowLike(p *Program, t types.Type) bool {
	e := elemType(t)
	v := p.TypeOf("types", "Value")
	return e != nil && v != nil && types.Identical(e, v)
}

// fullCap: a slice expression limited in capacity.
func fullCap(t *Term) bool { return false }

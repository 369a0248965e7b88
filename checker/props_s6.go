package main

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["S11"] = checkS11
}

func checkS11(p *Program, r *Report) {
	r.Rule = "must-pass-through: every successful CreateTable found no catalog entry for the table id, has as many column types as names, a primary key, every key column within the columns (one arbitrary key column) and the row id name only as the hidden key (one arbitrary column), and leaves exactly one catalog entry with the definition given; every successful OpenTable found the catalog entry of the table id and knows name, column names, column types and key to equal its own, and the table it returns reports that definition and id; a successful DropTable removed the catalog entry and, by a complete scan and one arbitrary collected item, every row of the table's relation"
	r.Assume = []string{storageAssume, "encoding/gob gives back the exported fields it was given"}
	s := findStorage(p, r)
	if s == nil {
		return
	}
	s.cats = map[string][2]*Term{}
	s.checkCreate(r)
	s.checkOpen(r)
	s.checkDrop(r)
	var want [2]*Term
	for _, op := range []string{"CreateTable", "OpenTable", "DropTable"} {
		c, ok := s.cats[op]
		if !ok {
			continue
		}
		if want[0] == nil {
			want = c
		}
		if c != want {
			r.Violate("catalog:"+op, posZero, nil, "%s looks for the definition of a table at another place (%s %s) than CreateTable (%s %s)", op, c[0], c[1], want[0], want[1])
		} else {
			r.OK("one catalog entry per table id")
		}
	}
	r.AtLeast("one catalog entry per table id", 3)
	r.AtLeast("create checks the definition", 1)
	r.AtLeast("row id name only as the hidden key", 1)
	r.AtLeast("open only under the same definition", 1)
	r.AtLeast("opened table reports its definition", 1)
	r.AtLeast("dropped table is gone", 1)
	r.AtLeast("every row of a dropped table deleted", 1)
	r.AtLeast("drop stops only past the table", 1)
}

// catEntry starts an operation of a transaction on table id tid.
func (s *storageRoles) catEntry(r *Report, fn *ssa.Function) (*State, []*Term) {
	st, args := s.entry(fn)
	tx := s.txOf(st, args[0])
	if tx == nil {
		r.Violate("anchor:tx:"+fn.Name(), posZero, nil, "cannot find the transaction of %s", fn)
		return nil, nil
	}
	s.pinTx(st, tx)
	st.P["tid"] = args[2]
	if s.canonTid == nil {
		s.canonTid = mkSym(args[2].typ, "tableid")
	}
	return st, args
}

func (s *storageRoles) canon(st *State, t *Term) *Term {
	return subst(t, map[*Term]*Term{st.P["tid"]: s.canonTid}, map[*Term]*Term{}, nil)
}

// isCatalogKey: the key is made of the table id.
func (s *storageRoles) noteCat(r *Report, op string, st *State, rel, key *Term) {
	k := s.canonKey(st, key)
	if !contains(k, s.canonTid) {
		r.Violate("catalog:"+op+":key", posZero, nil, "%s looks for a definition under a key that is not the table's id (%s)", op, key)
		return
	}
	if o, ok := s.cats[op]; ok && (o[0] != rel || o[1] != k) {
		r.Violate("catalog:"+op+":two", posZero, nil, "%s uses two places for the definition of a table: %s %s and %s %s", op, o[0], o[1], rel, k)
	}
	s.cats[op] = [2]*Term{rel, k}
}

// canonKey: a catalog key as a function of the table id.
func (s *storageRoles) canonKey(st *State, key *Term) *Term {
	if key.isApp("MakeKey") {
		def := key.args[0]
		if def.op == "snap" {
			def = def.args[0]
		}
		row := mkSelect(key.args[1], mkInt(0), elemOfSeq(s), st)
		return mkApp("catkey", types.Typ[types.UnsafePointer], def, s.canon(st, row))
	}
	return s.canon(st, key)
}

func elemOfSeq(s *storageRoles) types.Type {
	return elemType(fieldTypeOf(s.itemT, s.itRow))
}

// isCatRel: tree events on the catalog rather than on a table's rows.
func (s *storageRoles) isCatRel(st *State, rel *Term) bool {
	return rel != nil && !contains(rel, st.P["tid"])
}

func (s *storageRoles) checkCreate(r *Report) {
	fn := s.root(s.txT, "CreateTable")
	if fn == nil || len(fn.Params) != 7 {
		r.Violate("anchor:CreateTable", posZero, nil, "CreateTable not found")
		return
	}
	column := columnOf(s.p)
	rowid := s.p.Lookup("types", "ROWID")
	if column == nil || rowid == nil {
		r.Violate("anchor:CreateTable:types", posZero, nil, "ColumnKey.Column or ROWID not found")
		return
	}
	rc, ok := rowid.(*types.Const)
	if !ok {
		r.Violate("anchor:ROWID", posZero, nil, "ROWID is not a constant")
		return
	}
	hidKey, hidType := s.constCall(r, "types", "MakeColumnKey", mkInt(0), mkBool(false)), s.globalVal("types", "Int64ColType")
	if hidKey == nil || hidType == nil {
		r.Violate("anchor:hidden key", posZero, nil, "MakeColumnKey(0, false) or Int64ColType has no known value")
		return
	}
	for _, withRowid := range []bool{false, true} {
		st, args := s.catEntry(r, fn)
		if st == nil {
			return
		}
		names, ctypes, primary := args[4], args[5], args[6]
		st.P["tn"], st.P["names"], st.P["types"], st.P["primary"] = args[3], names, ctypes, primary
		a := NewAnalysis(s.p, r, nil, "transaction.CreateTable")
		h := &sHooks{}
		var w *witness
		if withRowid {
			w = &witness{name: "n", match: onBase("names")}
			w.setup(a, st, mkLen(names))
			st.assume(mkEq(elemAt(st, names, st.P[w.key()]), mkConst(rc.Val(), rc.Type())), true)
		} else {
			w = &witness{name: "k", match: onBase("primary")}
			w.setup(a, st, mkLen(primary))
		}
		h.Instr = steps(w)
		// K is the column of the arbitrary key column
		st.P["K"] = mkSym(column.Signature.Results().At(0).Type(), "column")
		cond := func(st *State) *Term {
			x := st.P["K"]
			if !types.Identical(x.typ.Underlying(), types.Typ[types.Int]) {
				x = mkApp("widen:"+typeKey(types.Typ[types.Int]), types.Typ[types.Int], x)
			}
			return mkLt(x, mkLen(st.P["names"]))
		}
		within := func(st *State) bool {
			return st.isTrue(cond(st)) || st.isTrue(mkLt(st.P["K"], mkLen(st.P["names"])))
		}
		if withRowid {
			a.Keep = append(a.Keep,
				func(st *State) *Term { return mkEq(elemAt(st, st.P["primary"], mkInt(0)), hidKey) },
				func(st *State) *Term { return mkEq(elemAt(st, st.P["types"], mkInt(0)), hidType) },
				func(st *State) *Term { return mkEq(mkLen(st.P["primary"]), mkInt(1)) })
		} else {
			a.Keep = append(a.Keep, cond)
		}
		h.extra = func(a *Analysis, st *State, c *Call) ([]Out, bool) {
			if c.Fn == column && !withRowid {
				x, k := c.Args[0], st.P[w.key()]
				b, lo := sliceParts(st.P["primary"])
				if x.op == "select" && x.args[0] == st.content(b) && st.isTrue(mkEq(x.args[1], mkAdd(lo, k, types.Typ[types.Int]))) ||
					st.isTrue(mkEq(x, elemAt(st, st.P["primary"], k))) {
					st.P["#K"] = mkBool(true)
					return []Out{{St: st, Ret: st.P["K"]}}, true
				}
				return []Out{{St: st, Ret: mkSym(column.Signature.Results().At(0).Type(), "column")}}, true
			}
			return nil, false
		}
		h.tree = func(a *Analysis, st *State, c *Call, e *treeEvent) {
			if s.isCatRel(st, e.rel) && e.key != nil {
				s.noteCat(r, "CreateTable", st, e.rel, e.key)
			}
		}
		h.Return = func(a *Analysis, st *State, res []*Term) {
			split(st, res, func(st *State) {
				k := st.P[w.key()]
				L := func(n string) *Term { return mkLen(st.P[n]) }
				if withRowid {
					def := st.isTrue(mkEq(k, mkInt(0))) && st.isTrue(mkEq(L("primary"), mkInt(1)))
					if !def {
						a.Violate(st, "create:rowid", "CreateTable accepts the row id name for a column that is not the hidden key")
						return
					}
					key := elemAt(st, st.P["primary"], mkInt(0))
					typ := elemAt(st, st.P["types"], mkInt(0))
					if !st.isTrue(mkEq(key, hidKey)) || !st.isTrue(mkEq(typ, hidType)) {
						a.Violate(st, "create:rowid", "CreateTable accepts the row id name with another key or column type (%s, %s)", st.eval(key), st.eval(typ))
						return
					}
					r.OK("row id name only as the hidden key")
					return
				}
				v := s.verNow(st)
				if !v.isApp("tins") || v.args[0] != st.P["ver0"] || !s.isCatRel(st, v.args[1]) {
					a.Violate(st, "create:effect", "a successful CreateTable leaves something other than the tree with one catalog entry added (%s)", v)
					return
				}
				if !st.isFalse(mkApp("treehas", types.Typ[types.Bool], st.P["ver0"], v.args[1], v.args[2])) {
					a.Violate(st, "create:exists", "CreateTable succeeds without knowing that the table does not exist")
					return
				}
				if !st.isTrue(mkEq(L("names"), L("types"))) {
					a.Violate(st, "create:lengths", "CreateTable succeeds without as many column types as names")
					return
				}
				if !st.isFalse(mkEq(st.P["primary"], mkNil(st.P["primary"].typ))) {
					a.Violate(st, "create:nokey", "CreateTable succeeds without a primary key")
					return
				}
				if !within(st) {
					a.Violate(st, "create:range", "CreateTable succeeds with a key column beyond the columns")
					return
				}
				if why := s.storedDef(st, v.args[3]); why != "" {
					a.Violate(st, "create:definition", "CreateTable stores another definition than it was given: %s", why)
					return
				}
				if !s.apart(r, st, v.args[1]) {
					a.Violate(st, "create:tid", "CreateTable accepts a table id whose rows would mix with the catalog")
					return
				}
				r.OK("create checks the definition")
			}, nil)
		}
		a.H = s.hooks(h)
		r.entries = append(r.entries, a.Entry)
		a.Start(st, fn, args)
		a.Run()
	}
}

// constCall is the value of a function applied to constants.
func (s *storageRoles) constCall(r *Report, pkg, name string, args ...*Term) *Term {
	fn := s.p.Func(pkg, name)
	if fn == nil || len(fn.Params) != len(args) {
		return nil
	}
	var out *Term
	for i := range args {
		args[i] = mkConst(args[i].val.(constant.Value), fn.Params[i].Type())
	}
	a := NewAnalysis(s.p, r, &Hooks{Return: func(a *Analysis, st *State, res []*Term) { out = st.eval(res[0]) }}, name)
	a.Start(newState(), fn, args)
	a.Run()
	return out
}

// globalVal is the value of a package variable that is set only by its declaration.
func (s *storageRoles) globalVal(pkg, name string) *Term {
	o := s.p.Lookup(pkg, name)
	if o == nil {
		return nil
	}
	sp := s.p.SSA[o.Pkg().Path()]
	g, ok := sp.Members[name].(*ssa.Global)
	if !ok {
		return nil
	}
	return newState().load(intern("global", g.Pkg.Pkg.Path()+"."+g.Name(), g.Type(), g), o.Type())
}

// storedDef checks the catalog row of a new table against the definition given.
func (s *storageRoles) storedDef(st *State, seq *Term) string {
	def := mkSelect(seq, mkInt(1), elemOfSeq(s), st)
	if def.op == "iface" {
		def = def.args[0]
	}
	if !def.isApp("gob") || def.args[0].op != "deep" {
		return "the definition is not encoded in the catalog row (" + def.String() + ")"
	}
	d := def.args[0]
	su := d.typ.Underlying().(*types.Struct)
	found := map[string]bool{}
	for i := 0; i < su.NumFields(); i++ {
		v := d.args[i]
		if v.op == "snap" {
			v = v.args[0]
		}
		for _, n := range []string{"tn", "names", "types", "primary"} {
			x := st.P[n]
			if !types.Identical(x.typ, su.Field(i).Type()) {
				continue
			}
			if !su.Field(i).Exported() {
				return su.Field(i).Name() + " is not encoded"
			}
			if v == x || d.args[i].op == "snap" && d.args[i].args[1] == seqOrNil(st, x) || st.isTrue(mkEq(v, x)) {
				found[n] = true
			} else {
				return su.Field(i).Name() + " is " + v.String()
			}
		}
	}
	for _, n := range []string{"tn", "names", "types", "primary"} {
		if !found[n] {
			return "no field keeps " + n
		}
	}
	return ""
}

// apart: the relation of the table's rows is known to differ from the catalog's.
func (s *storageRoles) apart(r *Report, st *State, cat *Term) bool {
	c, ok := cat.constInt()
	if g, isG := cat.val.(*ssa.Global); isG && cat.op == "app" {
		if v := s.globalConst(r, g); v != nil {
			c, ok = v.constInt()
		}
	}
	if s.rels == nil || s.rels["Rows"] == nil {
		s.rels = map[string]*Term{}
		s.collectRels(r)
	}
	rel := s.rels["Rows"]
	if rel == nil || !ok {
		return false
	}
	lo, _, ok := bitsOf(rel, s.canonTid)
	if !ok {
		return false
	}
	// only one table id can have the catalog's relation
	x := mkConst(constant.MakeInt64(c>>uint(lo)), st.P["tid"].typ)
	return st.isFalse(mkEq(st.P["tid"], x))
}

func (s *storageRoles) checkOpen(r *Report) {
	fn := s.root(s.txT, "OpenTable")
	if fn == nil || len(fn.Params) != 7 {
		r.Violate("anchor:OpenTable", posZero, nil, "OpenTable not found")
		return
	}
	st, args := s.catEntry(r, fn)
	if st == nil {
		return
	}
	lists := []string{"names", "types", "primary"}
	st.P["tn"] = args[3]
	for i, n := range lists {
		st.P[n] = args[4+i]
	}
	a := NewAnalysis(s.p, r, nil, "transaction.OpenTable")
	h := &sHooks{}
	var ws []*witness
	for _, n := range lists {
		w := &witness{name: n, match: onBase(n)}
		w.setup(a, st, nil)
		ws = append(ws, w)
	}
	h.Instr = steps(ws...)
	var row *Term
	h.tree = func(a *Analysis, st *State, c *Call, e *treeEvent) {
		if s.isCatRel(st, e.rel) && e.key != nil {
			s.noteCat(r, "OpenTable", st, e.rel, e.key)
			row = mkApp("storedrow", fieldTypeOf(s.itemT, s.itRow), st.P["ver0"], e.rel, e.key)
		}
	}
	h.Return = func(a *Analysis, st *State, res []*Term) {
		split(st, res, func(st *State) {
			if row == nil || s.verNow(st) != st.P["ver0"] {
				a.Violate(st, "open:catalog", "OpenTable succeeds without reading the table's definition, or changes the tree")
				return
			}
			// the decoded definition
			cell := mkSelect(st.seqOfSlice(row), mkInt(1), elemOfSeq(s), st)
			var dec *Term
			tbl := res[0]
			if tbl.op == "iface" {
				tbl = tbl.args[0]
			}
			find := func(t *Term) {
				walkTerm(t, map[*Term]bool{}, func(x *Term) {
					if x.isApp("ungob") && contains(x, cell) {
						dec = x
					}
				})
			}
			for _, k := range sortedKeys(st.heap) {
				find(st.heap[k])
			}
			for _, k := range sortedBoolKeys(st.bools) {
				find(k)
			}
			if dec == nil {
				a.Violate(st, "open:decode", "OpenTable succeeds without decoding the table's definition")
				return
			}
			su := dec.typ.Underlying().(*types.Struct)
			field := func(T types.Type) *Term {
				for i := 0; i < su.NumFields(); i++ {
					if types.Identical(su.Field(i).Type(), T) {
						return mkField(dec, i)
					}
				}
				return nil
			}
			if f := field(st.P["tn"].typ); f == nil || !st.isTrue(mkEq(f, st.P["tn"])) {
				a.Violate(st, "open:name", "OpenTable succeeds under a name that may not be the table's")
				return
			}
			for _, n := range lists {
				f := field(st.P[n].typ)
				if f == nil || !s.equalLists(st, f, st.P[n], st.P["wit:"+n]) {
					a.Violate(st, "open:"+n, "OpenTable succeeds with %s that may not be those of the table", map[string]string{"names": "column names", "types": "column types", "primary": "a primary key"}[n])
					return
				}
			}
			r.OK("open only under the same definition")
			// what the table reports
			for _, acc := range []struct {
				m    string
				want *Term
			}{{"TID", st.P["tid"]}, {"Name", st.P["tn"]}, {"ColumnNames", st.P["names"]}, {"ColumnTypes", st.P["types"]}, {"Key", st.P["primary"]}} {
				af := s.root(namedOf(tbl.typ), acc.m)
				if af == nil {
					a.Violate(st, "open:report:"+acc.m, "%s not found", acc.m)
					continue
				}
				s.phase2(a, st, s.hooks(&sHooks{Hooks: Hooks{Return: func(b *Analysis, x *State, res []*Term) {
					v := res[0]
					ok := v == acc.want || x.isTrue(mkEq(v, acc.want))
					if !ok && elemType(v.typ) != nil {
						ok = s.equalLists(x, v, acc.want, nil)
					}
					if f := field(acc.want.typ); !ok && f != nil {
						ok = v == f && acc.m != "TID"
					}
					if !ok {
						b.Violate(x, "open:report:"+acc.m, "%s of the opened table is not what the table was created with (%s)", acc.m, v)
					} else {
						r.OK("opened table reports its definition")
					}
				}}}), af, "table."+acc.m, []*Term{tbl})
			}
		}, nil)
	}
	a.H = s.hooks(h)
	r.entries = append(r.entries, a.Entry)
	a.Start(st, fn, args)
	a.Run()
}

// equalLists: two slices known to have the same elements: by comparison, or by their lengths
// and one arbitrary element.
func (s *storageRoles) equalLists(st *State, x, y, w *Term) bool {
	sx, sy := seqOrNil(st, x), seqOrNil(st, y)
	if sx == sy {
		return true
	}
	if st.isTrue(mkApp("seqequal", types.Typ[types.Bool], sx, sy)) || st.isTrue(mkApp("seqequal", types.Typ[types.Bool], sy, sx)) {
		return true
	}
	if w == nil || x.isNil() || y.isNil() {
		return false
	}
	ex, ey := elemAt(st, x, w), elemAt(st, y, w)
	return st.isTrue(mkEq(mkLen(x), mkLen(y))) && (st.isTrue(mkEq(ex, ey)) || st.isFalse(mkLt(w, mkLen(x))))
}

func (s *storageRoles) checkDrop(r *Report) {
	fn := s.root(s.txT, "DropTable")
	if fn == nil || len(fn.Params) != 3 {
		r.Violate("anchor:DropTable", posZero, nil, "DropTable not found")
		return
	}
	st, args := s.catEntry(r, fn)
	if st == nil {
		return
	}
	a := NewAnalysis(s.p, r, nil, "transaction.DropTable")
	h := &sHooks{}
	// one arbitrary item the scan collects; acc is what it collected
	w := &witness{name: "i", match: onBase("acc")}
	w.setup(a, st, nil)
	st.P["#gone"] = mkBool(false)
	inner := func(x *Term) *Term { return mkField(x, s.itKey) }
	h.Instr = steps(w)
	h.tree = func(a *Analysis, st *State, c *Call, e *treeEvent) {
		if s.isCatRel(st, e.rel) && e.key != nil && contains(e.key, st.P["tid"]) {
			s.noteCat(r, "DropTable", st, e.rel, e.key)
			if e.op == "Delete" {
				st.P["#cat"] = mkBool(true)
			}
			return
		}
		switch e.op {
		case "AscendGreaterOrEqual":
			if st.P["R"] != nil {
				a.Violate(st, "drop:twice", "DropTable scans the tree more than once")
				return
			}
			st.P["R"] = e.rel
			st.P["cb"] = c.Args[len(c.Args)-1]
			if !(e.key.isNil() || st.isTrue(mkEq(mkLen(e.key), mkInt(0)))) {
				a.Violate(st, "drop:from", "the scan for the dropped rows does not start before the first row")
			}
			if rel := s.canon(st, e.rel); s.rels == nil || s.rels["Rows"] == nil || rel != s.rels["Rows"] {
				a.Violate(st, "drop:relation", "DropTable removes rows of relation %s, which is not the table's", e.rel)
			}
		case "Delete":
			if st.P["acc"] == nil {
				a.Violate(st, "drop:unknown", "DropTable deletes an item it did not find by its scan")
				return
			}
			x := elemAt(st, st.P["acc"], st.P[w.key()])
			hit := e.key == x || x.typ != nil && namedOf(x.typ) == s.itemT && sameKeySeq(st, e.key, inner(x))
			if hit {
				st.P["#gone"] = mkBool(true)
			}
		case "ReplaceOrInsert":
			a.Violate(st, "drop:insert", "DropTable inserts an item")
		}
	}
	h.item = func(a *Analysis, st *State, it *Term) {
		st.P["it"] = it
		st.P["#app"] = mkInt(0)
	}
	h.Append = func(a *Analysis, st *State, base, elems, res *Term, in ssa.Instruction) {
		it := st.P["it"]
		if it == nil {
			return
		}
		et := elemType(elems.typ)
		if et == nil {
			return
		}
		x := st.eval(mkSelect(st.seqOfSlice(elems), mkInt(0), et, st))
		if !st.isTrue(mkEq(mkLen(elems), mkInt(1))) || !(namedOf(et) == s.itemT && st.eval(inner(x)) == st.eval(inner(it)) || x == st.eval(inner(it))) {
			return
		}
		n, _ := st.P["#app"].constInt()
		st.P["#app"] = mkInt(n + 1)
		if acc := st.P["acc"]; acc != nil && acc != base {
			a.Violate(st, "drop:accumulate", "the scan appends to something other than what it has collected so far")
		}
		st.P["acc"] = res
	}
	h.FnRet = func(a *Analysis, st *State, fn *ssa.Function, res *Term) {
		if st.P["cb"] == nil || st.P["it"] == nil || res == nil {
			return
		}
		if cf, _ := calleeOf(st.P["cb"]); cf != fn {
			return
		}
		for _, cont := range []bool{true, false} {
			x := st.clone()
			v := x.eval(res)
			if v.isBoolConst() && v != mkBool(cont) || !v.isBoolConst() && !x.assume(v, cont) {
				continue
			}
			inRel := x.eval(mkEq(mkField(x.P["it"], s.itRel), x.P["R"]))
			n, _ := x.P["#app"].constInt()
			switch {
			case n >= 1 && !inRel.isTrue():
				a.Violate(x, "drop:foreign", "DropTable may delete rows of another table")
			case !cont && !inRel.isFalse():
				a.Violate(x, "drop:stop", "the scan for the dropped rows may stop before the last one")
			case cont && n == 0 && !inRel.isFalse():
				a.Violate(x, "drop:skip", "the scan for the dropped rows may miss one")
			case !cont:
				r.OK("drop stops only past the table")
			}
		}
	}
	h.Return = func(a *Analysis, st *State, res []*Term) {
		split(st, res, func(st *State) {
			if st.P["#cat"] == nil {
				a.Violate(st, "drop:catalog", "a successful DropTable leaves the table's definition")
				return
			}
			if st.P["R"] == nil {
				a.Violate(st, "drop:noscan", "a successful DropTable leaves the table's rows")
				return
			}
			r.OK("dropped table is gone")
			if acc := st.P["acc"]; acc != nil && !st.P["#gone"].isTrue() && !st.isFalse(mkLt(st.P[w.key()], mkLen(acc))) {
				a.Violate(st, "drop:rows", "a successful DropTable may leave a row of the table")
			} else {
				r.OK("every row of a dropped table deleted")
			}
		}, nil)
	}
	a.H = s.hooks(h)
	r.entries = append(r.entries, a.Entry)
	a.Start(st, fn, args)
	a.Run()
}

// globalConst evaluates the declaration of a package variable.
func (s *storageRoles) globalConst(r *Report, g *ssa.Global) *Term {
	init := g.Pkg.Func("init")
	if init == nil {
		return nil
	}
	var out *Term
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			w, ok := in.(*ssa.Store)
			if !ok || w.Addr != ssa.Value(g) {
				continue
			}
			v := w.Val
			if ct, ok := v.(*ssa.ChangeType); ok {
				v = ct.X
			}
			switch v := v.(type) {
			case *ssa.Const:
				out = mkConst(v.Value, v.Type())
			case *ssa.Call:
				f := v.Call.StaticCallee()
				var args []*Term
				for _, x := range v.Call.Args {
					c, ok := x.(*ssa.Const)
					if !ok || c.Value == nil {
						return nil
					}
					args = append(args, mkConst(c.Value, c.Type()))
				}
				if f == nil || !s.p.IsRepo(f) {
					return nil
				}
				a := NewAnalysis(s.p, r, &Hooks{Return: func(a *Analysis, st *State, res []*Term) { out = st.eval(res[0]) }}, f.Name())
				a.Start(newState(), f, args)
				a.Run()
			}
		}
	}
	return out
}

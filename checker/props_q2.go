package main

import (
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["Q02"] = checkQ02
}

// operations are the calls of the engine that change something, and what each statement gives
// them (the fields of the statement, after the context).
var simpleOps = map[string]struct {
	op   string
	args []string
}{
	"CreateSchema":   {"engine.Transaction.CreateSchema", []string{"Schema"}},
	"DropSchema":     {"engine.Transaction.DropSchema", []string{"Schema", "IfExists"}},
	"DropIndex":      {"engine.Transaction.DropIndex", []string{"Table", "Index"}},
	"CreateDatabase": {"engine.Engine.CreateDatabase", []string{"Database", "Options"}},
	"DropDatabase":   {"engine.Engine.DropDatabase", []string{"Database", "IfExists"}},
}

var ownKinds = map[string]bool{"Begin": true, "Commit": true, "Rollback": true, "Set": true, "CreateDatabase": true, "DropDatabase": true}

func isChange(ev string) bool {
	i := strings.LastIndex(ev, ".")
	op := ev[i+1:]
	return strings.HasPrefix(ev, "engine.") && (strings.HasPrefix(op, "Create") || strings.HasPrefix(op, "Drop"))
}

var q02only = os.Getenv("Q_ONLY")

func checkQ02(p *Program, r *Report) {
	r.Rule = "calls and arguments per statement kind: every kind of statement is followed through every entry of the evaluator with every outcome of every call of the engine; the changes asked of the engine are exactly those the statement names, with its own names and options; key columns are followed element by element to the columns of the table; unsupported statements ask for nothing and report an error"
	s := findSession(p, r)
	if s == nil {
		return
	}
	q := &ops{session: s}
	if !q.find() {
		return
	}
	var entries []*ssa.Function
	for _, fn := range p.Funcs("evaluate") {
		if fn.Parent() == nil && fn.Object() != nil && fn.Object().Exported() && stmtParam(s, fn) >= 0 {
			entries = append(entries, fn)
		}
	}
	seen := map[string]bool{}
	for _, fn := range entries {
		ses := fn.Signature.Recv() != nil
		seen[map[bool]string{true: "Session.Evaluate", false: "Evaluate"}[ses]] = true
		for _, k := range s.kinds {
			kn := k.Obj().Name()
			if q02only != "" && (kn != q02only || ses) {
				continue
			}
			opens := []bool{false}
			if ses {
				opens = []bool{true, false}
			}
			for _, open := range opens {
				if ses && open && ownKinds[kn] {
					continue // Q01
				}
				switch kn {
				case "CreateTable":
					q.follow(fn, k, open, "primary")
					q.follow(fn, k, open, "none")
				case "CreateIndex":
					q.follow(fn, k, open, "new")
					q.follow(fn, k, open, "exists")
				default:
					q.follow(fn, k, open, "")
				}
			}
		}
	}
	for _, e := range []string{"Session.Evaluate", "Evaluate"} {
		if !seen[e] {
			r.Violate("anchor:"+e, posZero, nil, "no exported %s takes a statement", e)
		}
	}
	for k := range simpleOps {
		n := 2
		if ownKinds[k] {
			n = 1
		}
		r.AtLeast("operation of "+k, n)
	}
	for _, k := range []string{"CreateTable", "CreateIndex", "DropTable"} {
		r.AtLeast("operation of "+k, 2)
	}
	r.AtLeast("key column follows the statement", 2)
	r.AtLeast("unknown column refused", 2)
	r.AtLeast("existing object: no-op or refused", 4)
	r.AtLeast("unsupported statement reports an error", 8)
}

type ops struct {
	*session
	keyT, keySlice types.Type
	primary        *Term // sql.PrimaryConstraint
	ttT, itT, ikT  *types.Named
	conT           *types.Named
}

func (q *ops) find() bool {
	q.keyT = q.p.TypeOf("types", "ColumnKey")
	q.ttT, _ = q.p.TypeOf("engine", "TableType").(*types.Named)
	q.itT, _ = q.p.TypeOf("engine", "IndexType").(*types.Named)
	q.ikT, _ = q.p.TypeOf("parser/sql", "IndexKey").(*types.Named)
	q.conT, _ = q.p.TypeOf("parser/sql", "Constraint").(*types.Named)
	sp := q.p.SSA[modulePath+"/parser/sql"]
	if c, ok := sp.Pkg.Scope().Lookup("PrimaryConstraint").(*types.Const); ok {
		q.primary = mkConst(c.Val(), c.Type())
	}
	for n, ok := range map[string]bool{"types.ColumnKey": q.keyT != nil, "engine.TableType": q.ttT != nil, "engine.IndexType": q.itT != nil,
		"sql.IndexKey": q.ikT != nil, "sql.Constraint": q.conT != nil, "sql.PrimaryConstraint": q.primary != nil} {
		if !ok {
			q.r.Violate("anchor:"+n, posZero, nil, "%s not found", n)
			return false
		}
	}
	return true
}

// fieldNo finds a field of a named structure type.
func fieldNo(n *types.Named, name string) int {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// part reads a field of a structure value.
func part(n *types.Named, x *Term, name string) *Term {
	i := fieldNo(n, name)
	if i < 0 {
		return nil
	}
	return mkField(x, i)
}

func (q *ops) follow(fn *ssa.Function, kind *types.Named, open bool, mode string) {
	s, r := q.session, q.r
	kn := kind.Obj().Name()
	where := shortFn(fn) + ":" + kn
	ses := fn.Signature.Recv() != nil
	simple, isSimple := simpleOps[kn]
	supported := isSimple || kn == "CreateTable" || kn == "CreateIndex" || kn == "DropTable"
	if !ses && ownKinds[kn] || kn == "Begin" || kn == "Commit" || kn == "Rollback" || kn == "Set" {
		supported = false
	}
	F := func(st *State, name string) *Term { return st.P["f:"+name] }
	ctor := func(a *Analysis, st *State, c *Call) ([]Out, bool) {
		if c.Fn != nil && len(c.Args) == 2 && c.Sig.Results().Len() == 1 && types.Identical(c.Sig.Results().At(0).Type(), q.keyT) && isBoolType(c.Args[1].typ) {
			// V03: a key gives back the column and the direction it was made of
			return []Out{{St: st, Ret: mkApp("key", q.keyT, c.Args...)}}, true
		}
		return nil, false
	}
	h := &upHooks{}
	h.extra = func(a *Analysis, st *State, c *Call) ([]Out, bool) {
		if s.isResolve(c) {
			return []Out{{St: st}}, true
		}
		if c.Fn == nil && eventOf(s, c) == "engine.Table.Type" {
			return []Out{{St: st, Ret: st.P["tt"]}}, true
		}
		if o, ok := ctor(a, st, c); ok {
			return o, true
		}
		return s.valueCall(st, c)
	}
	// the list of key columns given with a change
	keyGiven := func(a *Analysis, st *State, x *Term) {
		if mode == "none" {
			if !st.isTrue(mkEq(mkLen(x), mkInt(0))) {
				a.Violate(st, "key:"+where, "a table without a primary key gets one")
			}
			return
		}
		cnt, l := st.P["cnt"], st.P["list"]
		n := mkLen(F(st, "kcols"))
		switch {
		case !st.isTrue(mkEq(cnt, n)):
			a.Violate(st, "key:"+where, "not every column of the key is given")
		case l == nil && !st.isTrue(mkEq(mkLen(x), mkInt(0))), l != nil && baseOf(x) != baseOf(l), !st.isTrue(mkEq(mkLen(x), n)):
			a.Violate(st, "key:"+where, "the key given is not the columns collected")
		default:
			r.OK("whole key given")
		}
	}
	h.before = func(a *Analysis, st *State, ev string, c *Call) {
		if !isChange(ev) {
			if ev == "engine.Transaction.OpenTable" && F(st, "Table") != nil && st.eval(c.Args[2]) == F(st, "Table") {
				st.P["opening"] = mkBool(true)
			} else {
				delete(st.P, "opening")
			}
			return
		}
		if !supported {
			a.Violate(st, "change:"+where, "%s is called for %s", ev, kn)
			return
		}
		given := func(i int, name string) {
			f := F(st, name)
			if f == nil {
				a.Violate(st, "anchor:"+where, "the statement has no field %s", name)
				return
			}
			if x := st.eval(c.Args[i]); x != f && bareOf(x) != bareOf(f) {
				a.Violate(st, "argument:"+where+":"+name, "%s is called with something else than the statement's %s: %s", ev, name, x)
			}
		}
		if kn == "DropTable" {
			if ev != "engine.Transaction.DropTable" {
				a.Violate(st, "change:"+where, "%s is called for %s", ev, kn)
				return
			}
			if gstr(st, "#op") == "err" {
				a.Violate(st, "order:"+where, "tables are dropped after one could not be")
			}
			if x := st.eval(c.Args[2]); x != st.eval(elemAt(st, F(st, "Tables"), st.P["cnt"])) {
				a.Violate(st, "argument:"+where, "the table dropped is not the next one of the statement: %s", x)
			}
			return
		}
		if gstr(st, "#op") != "" {
			a.Violate(st, "twice:"+where, "%s is called for %s after the change was made", ev, kn)
			return
		}
		want := "engine.Transaction." + kn
		if isSimple {
			want = simple.op
		}
		if ev != want {
			a.Violate(st, "change:"+where, "%s is called for %s", ev, kn)
			return
		}
		switch kn {
		case "CreateTable":
			if gstr(st, "#open") != "err" {
				a.Violate(st, "exists:"+where, "a table is created that was not found missing")
			}
			given(2, "Table")
			given(3, "Columns")
			given(4, "ColumnTypes")
			keyGiven(a, st, st.eval(c.Args[5]))
		case "CreateIndex":
			if gstr(st, "#open") != "ok" || mode == "exists" {
				a.Violate(st, "exists:"+where, "an index is created although it exists")
			}
			given(2, "Table")
			given(3, "Index")
			keyGiven(a, st, st.eval(c.Args[4]))
		default:
			first := 2
			if strings.HasPrefix(ev, "engine.Engine") {
				first = 1
			}
			for i, name := range simple.args {
				given(first+i, name)
			}
		}
	}
	h.event = func(a *Analysis, st *State, ev string, c *Call, o *outcome) {
		switch {
		case isChange(ev):
			setG(st, "#op", o.kind)
			if kn == "DropTable" && o.kind == "ok" {
				st.P["cnt"] = mkAddConst(st.P["cnt"], 1)
			}
		case st.P["opening"] != nil:
			setG(st, "#open", o.kind)
			delete(st.P, "opening")
		case ev == "engine.Transaction.Commit" && o.kind == "err":
			setG(st, "#nocommit", "yes")
		}
	}
	// key columns
	names := func(st *State) *Term {
		if kn == "CreateTable" {
			return F(st, "Columns")
		}
		return F(st, "names")
	}
	cw := &witness{name: "cw", match: func(st *State, base *Term, in ssa.Instruction) bool {
		n := names(st)
		return n != nil && baseOf(base) == baseOf(n)
	}}
	element := func(a *Analysis, st *State, v *Term) {
		cnt := st.P["cnt"]
		good := false
		if v.isApp("key") && mode != "none" {
			num, rev := v.args[0], v.args[1]
			for num.op == "app" && isConv(num) {
				num = num.args[0]
			}
			name := st.eval(elemAt(st, names(st), num))
			col := st.eval(elemAt(st, F(st, "kcols"), cnt))
			good = st.isTrue(mkEq(name, col)) && st.eval(rev) == st.eval(elemAt(st, F(st, "krev"), cnt))
		}
		if !good {
			a.Violate(st, "key-column:"+where, "an element of the key is not the statement's next key column with its direction: %s", v)
			return
		}
		r.OK("key column follows the statement")
		st.P["cnt"] = mkAddConst(cnt, 1)
		st.P["#seen:cw"] = mkBool(false)
		// what was found out about this column is of no more use
		cols := st.content(baseOf(F(st, "kcols")))
		for b := range st.bools {
			if contains(b, cols) {
				delete(st.bools, b)
			}
		}
	}
	forget := func(st *State, l *Term) {
		k := contentKey(baseOf(l))
		st.heap[k] = mkSym(baseOf(l).typ, "content")
	}
	h.Append = func(a *Analysis, st *State, base, elems, res *Term, in ssa.Instruction) {
		if !types.Identical(elemType(res.typ), q.keyT) {
			return
		}
		if l := st.P["list"]; l != nil && l != base || l == nil && !st.isTrue(mkEq(mkLen(base), mkInt(0))) {
			a.Violate(st, "key:"+where, "columns of the key are lost")
			return
		}
		if n, ok := mkLen(elems).constInt(); !ok || n != 1 {
			a.Violate(st, "key:"+where, "more than one column is added to the key at once")
			return
		}
		element(a, st, st.eval(mkSelect(st.seqOfSlice(elems), mkInt(0), q.keyT, st)))
		st.P["list"] = res
		forget(st, res)
	}
	h.Store = func(a *Analysis, st *State, addr, val *Term, in ssa.Instruction) {
		sto, ok := in.(*ssa.Store)
		if !ok || !types.Identical(derefType(sto.Addr.Type()), q.keyT) {
			return
		}
		ia, ok := sto.Addr.(*ssa.IndexAddr)
		if !ok {
			return
		}
		if _, ok := ia.X.Type().Underlying().(*types.Slice); !ok {
			return
		}
		base := a.val(st, ia.X)
		_, lo := sliceParts(base)
		idx := mkAdd(lo, a.val(st, ia.Index), types.Typ[types.Int])
		if l := st.P["list"]; l != nil && baseOf(l) != baseOf(base) || !st.isTrue(mkEq(idx, st.P["cnt"])) {
			a.Violate(st, "key:"+where, "columns of the key are not stored in order")
			return
		}
		element(a, st, st.eval(val))
		st.P["list"] = base
	}
	// names are never 0
	kc := &witness{name: "kc", match: func(st *State, base *Term, in ssa.Instruction) bool {
		n := F(st, "kcols")
		return n != nil && baseOf(base) == baseOf(n)
	}, other: func(a *Analysis, st *State, base, idx *Term) {
		st.assume(mkEq(elemAt(st, F(st, "kcols"), idx), mkInt(0)), false)
	}}
	// constraints and indexes
	var others []*witness
	others = append(others, cw)
	if kn == "CreateTable" {
		others = append(others, &witness{name: "con", match: onBase("f:Constraints"), other: func(a *Analysis, st *State, base, idx *Term) {
			// a statement has at most one primary key
			t := part(q.conT, elemAt(st, F(st, "Constraints"), idx), "Type")
			if !st.assume(mkEq(t, q.primary), false) {
				st.dead = true
			}
		}})
	}
	if kn == "CreateIndex" {
		others = append(others, &witness{name: "idx", match: onBase("f:indexes"), other: func(a *Analysis, st *State, base, idx *Term) {
			n := part(q.itT, elemAt(st, F(st, "indexes"), idx), "Name")
			if !st.assume(mkEq(n, F(st, "Index")), false) {
				st.dead = true
			}
		}})
	}
	others = append(others, kc)
	stp := steps(others...)
	h.Instr = func(a *Analysis, st *State, in ssa.Instruction) bool { return stp(a, st, in) }
	h.Return = func(a *Analysis, st *State, res []*Term) {
		e := resultError(fn, res)
		if e == nil {
			a.Violate(st, "result:"+where, "no error is returned")
			return
		}
		n := st.eval(mkEq(e, mkNil(errType)))
		fails, succeeds := n.isFalse(), n.isTrue()
		op, opened := gstr(st, "#op"), gstr(st, "#open")
		bad := ""
		switch {
		case !fails && !succeeds:
			bad = "what is returned is not the outcome of what was done"
		case !supported:
			if ownKinds[kn] {
				break
			}
			if !fails {
				bad = "an unsupported statement does not report an error"
			} else {
				r.OK("unsupported statement reports an error")
			}
		case op == "err" && !fails:
			bad = "a failure of the engine is not reported"
		case op == "ok" && gstr(st, "#nocommit") == "" && !succeeds && kn != "DropTable":
			bad = "an error is returned although everything succeeded"
		case kn == "DropTable":
			full := st.isTrue(mkEq(st.P["cnt"], mkLen(F(st, "Tables"))))
			if op != "err" && succeeds && !full {
				bad = "not every table of the statement is dropped"
			} else if op != "err" && fails && gstr(st, "#nocommit") == "" {
				bad = "an error is returned although every table was dropped"
			} else {
				r.OK("operation of " + kn)
			}
		case op != "":
			r.OK("operation of " + kn)
		case isSimple:
			bad = "the statement's operation is not carried out"
		case opened == "":
			bad = "the statement's table is not looked up"
		case kn == "CreateIndex" && opened == "err":
			if !fails {
				bad = "a missing table is not reported"
			}
		case kn == "CreateTable" && opened == "ok" || kn == "CreateIndex" && mode == "exists":
			ine := st.eval(F(st, "IfNotExists"))
			switch {
			case gstr(st, "#nocommit") != "":
			case !ine.isBoolConst() || ine.isTrue() != succeeds:
				bad = "IF NOT EXISTS does not decide between success and refusal"
			default:
				r.OK("existing object: no-op or refused")
			}
		default:
			// no change: a key column must be unknown
			if mode == "none" || !fails {
				bad = "the statement's operation is not carried out"
				break
			}
			cnt := st.P["cnt"]
			name, col := st.eval(elemAt(st, names(st), st.P["wit:cw"])), st.eval(elemAt(st, F(st, "kcols"), cnt))
			if !st.isFalse(mkEq(name, col)) || !st.isTrue(mkLt(cnt, mkLen(F(st, "kcols")))) {
				bad = "the statement is refused although its key columns are known"
			} else {
				r.OK("unknown column refused")
			}
		}
		if bad != "" {
			a.Violate(st, "outcome:"+where, "%s", bad)
		}
	}
	h.Panic = func(a *Analysis, st *State, v *Term) {
		if ses || !ownKinds[kn] {
			a.Violate(st, "panic:"+where, "%s panics", kn)
		}
	}
	hooks := s.hooks(&*h)
	in := hooks.Inline
	hooks.Inline = func(f *ssa.Function) bool {
		g := f
		for g.Parent() != nil {
			g = g.Parent()
		}
		return in(f) || g.Pkg != nil && g.Pkg == s.p.SSA[modulePath+"/evaluate"]
	}
	s.run(r, fn, hooks, func(a *Analysis, st *State, args []*Term) {
		if ses {
			tx := mkNil(s.txT)
			if open {
				tx = handle(s.txT, "open")
			}
			st.store(fieldAddr(args[0], s.fTx), tx, s.txT)
		}
		x, o := s.stmt(st, kind)
		args[stmtParam(s, fn)] = x
		sty := kind.Underlying().(*types.Struct)
		for i := 0; i < sty.NumFields(); i++ {
			st.P["f:"+sty.Field(i).Name()] = st.load(fieldAddr(o, i), sty.Field(i).Type())
		}
		st.P["cnt"] = mkInt(0)
		st.P["wit:kc"], st.P["#seen:kc"] = mkInt(-1), mkBool(false)
		atMost := func(x *Term) {
			st.assume(mkLt(mkLen(x), mkInt(0)), false)
		}
		switch kn {
		case "CreateTable":
			cw.setup(a, st, mkLen(F(st, "Columns")))
			atMost(F(st, "Constraints"))
			if mode == "primary" {
				k := others[1].setup(a, st, mkLen(F(st, "Constraints")))
				con := withElem(st, q.conT, F(st, "Constraints"), k, map[string]*Term{"Type": q.primary})
				ik := part(q.conT, con, "Key")
				st.P["f:kcols"], st.P["f:krev"] = part(q.ikT, ik, "Columns"), part(q.ikT, ik, "Reverse")
			} else {
				st.P["wit:con"] = mkInt(-1)
				st.P["#seen:con"] = mkBool(false)
			}
		case "CreateIndex":
			ptt := types.NewPointer(q.ttT)
			tt := mkSym(ptt, "tt")
			st.assume(mkEq(tt, mkNil(ptt)), false)
			st.P["tt"] = tt
			for _, fn := range [][2]string{{"ColumnNames", "names"}, {"Indexes", "indexes"}} {
				i := fieldNo(q.ttT, fn[0])
				st.P["f:"+fn[1]] = st.load(fieldAddr(tt, i), fieldTypeOf(q.ttT, i))
			}
			ik := F(st, "Key")
			st.P["f:kcols"], st.P["f:krev"] = part(q.ikT, ik, "Columns"), part(q.ikT, ik, "Reverse")
			cw.setup(a, st, mkLen(F(st, "names")))
			if mode == "exists" {
				k := others[1].setup(a, st, mkLen(F(st, "indexes")))
				withElem(st, q.itT, F(st, "indexes"), k, map[string]*Term{"Name": F(st, "Index")})
			} else {
				st.P["wit:idx"] = mkInt(-1)
				st.P["#seen:idx"] = mkBool(false)
			}
		}
		if c := F(st, "kcols"); c != nil {
			keep := func(x func(st *State) *Term) {
				a.Keep = append(a.Keep, func(st *State) *Term {
					return mkNot(mkEq(x(st), elemAt(st, F(st, "kcols"), st.P["cnt"])))
				})
			}
			keep(func(st *State) *Term { return mkInt(0) })
			keep(func(st *State) *Term { return elemAt(st, names(st), st.P["wit:cw"]) })
			// the parser gives every key column a direction
			st.assume(mkEq(mkLen(c), mkLen(F(st, "krev"))), true)
		}
	})
}

// withElem gives a slice an element with the given fields at an index.
func withElem(st *State, n *types.Named, slice, k *Term, fields map[string]*Term) *Term {
	x := mkSym(n, n.Obj().Name())
	sty := n.Underlying().(*types.Struct)
	var fs []*Term
	for i := 0; i < sty.NumFields(); i++ {
		if f := fields[sty.Field(i).Name()]; f != nil {
			fs = append(fs, f)
		} else {
			fs = append(fs, mkField(x, i))
		}
	}
	v := mkStruct(n, fs...)
	b, lo := sliceParts(slice)
	c := st.content(b)
	st.setContent(b, intern("store", "", c.typ, nil, c, mkAdd(lo, k, types.Typ[types.Int]), v))
	return v
}

func eventOf(s *session, c *Call) string { return s.event(c.Method) }

func baseOf(x *Term) *Term { b, _ := sliceParts(x); return b }

// bareOf strips conversions between types of one structure.
func bareOf(x *Term) *Term {
	for x.op == "app" && isConv(x) {
		x = x.args[0]
	}
	return x
}

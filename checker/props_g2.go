package main

import (
	"go/constant"

	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["G03"] = checkG03
	checks["G04"] = checkG04
	checks["G05"] = checkG05
}

// nameParts reads the parts of a types.SchemaName or types.TableName argument as the strings
// the catalog keeps.
func (c *catalog) nameParts(x *Term) []*Term {
	if types.Identical(x.typ, c.idT) {
		return []*Term{c.idstr(x)}
	}
	s, ok := x.typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []*Term
	for i := 0; i < s.NumFields(); i++ {
		out = append(out, c.idstr(mkField(x, i)))
	}
	return out
}

func (c *catalog) idstr(x *Term) *Term { return mkApp("idstr", types.Typ[types.String], x) }

// names is the key of an entry in the catalog table of a role.
func (ro *role) hasKey(s *Term, parts []*Term) bool {
	if len(ro.prim) != len(parts) {
		return false
	}
	for i, f := range ro.prim {
		if mkField(s, f) != parts[i] {
			return false
		}
	}
	return true
}

// only finds the only field of the row structure with the given property.
func (ro *role) only(is func(t types.Type) bool) int {
	k := -1
	for i := 0; i < ro.rowS.NumFields(); i++ {
		if is(ro.rowS.Field(i).Type()) {
			if k >= 0 {
				return -1
			}
			k = i
		}
	}
	return k
}

func (c *catalog) need(names ...string) bool {
	for _, n := range names {
		if c.roles[n] == nil {
			c.r.Violate("anchor:"+n, posZero, nil, "no typed table description for the %s table found", n)
			return false
		}
	}
	return true
}

// catOp is what is expected of one catalog operation.
type catOp struct {
	iface, name string
	target      string // table written or listed
	parent      string // table that must hold the parent entry
	kind        string // create, drop, list, open
	np          int    // parts of the name that identify the parent
}

func (c *catalog) checkOp(op catOp) {
	r := c.r
	fn := c.method(op.iface, op.name)
	if fn == nil {
		return
	}
	target := c.roles[op.target]
	var parts []*Term       // of the name given
	var given *Term         // the name given
	var ifExists *Term      // drop
	var colArgs []*Term     // table creation
	key := func() []*Term { // key of the entry itself
		return parts
	}
	entry := op.name
	isKey := func(st *State, f string, want []*Term) bool {
		k := st.P[f]
		if k == nil || len(k.args) != len(want) {
			return false
		}
		for i := range want {
			if st.eval(mkEq(k.args[i], want[i])).isFalse() || !st.eval(mkEq(k.args[i], want[i])).isTrue() {
				return false
			}
		}
		return true
	}
	// matching reports whether a row is known to be one of the listed database's.
	matching := func(st *State, row *Term, want bool) bool {
		f := mkApp("rowfield:"+itoa(target.prim[0]), types.Typ[types.String], row)
		eqs := []*Term{mkEq(f, parts[0]), mkEq(mkApp("id", c.idT, f, mkBool(true)), given)}
		for _, e := range eqs {
			if want && st.eval(e).isTrue() || !want && st.eval(e).isFalse() {
				return true
			}
		}
		return false
	}
	listed := func(a *Analysis, st *State, cur *Term) {
		// the last row delivered has been dealt with
		row := gget(st, "last", cur)
		if row == nil || gget(st, "role", cur) != mkStr(op.target) {
			return
		}
		if gstr(st, "#appended") == "" && (op.parent == "" || !matching(st, row, false)) {
			a.Violate(st, "not-listed:"+entry, "an entry is read but not listed")
		} else {
			r.OK("row read and dealt with")
		}
	}
	h := &catHooks{}
	h.upHooks.before = func(a *Analysis, st *State, ev string, k *Call) {
		if op.kind == "list" && ev == "storage.Rows.Next" {
			listed(a, st, k.Args[0])
		}
	}
	h.ev = func(a *Analysis, st *State, e *catEvent) {
		if e.o.kind == "err" {
			setG(st, "#failed", "yes")
		}
		switch e.op {
		case "next":
			if e.row != nil {
				setG(st, "#appended", "")
			}
		case "create", "drop":
			a.Violate(st, "other-change:"+entry+":"+e.op, "%s creates or drops a storage table", op.name)
		case "rows":
			if op.kind == "list" && e.o.kind == "ok" && e.role == target {
				good := e.max == nil
				if e.min != nil {
					good = good && e.min.typ != nil && namedOf(e.min.typ) == target.rowT
					if good {
						for i, f := range target.prim {
							v := mkField(e.min, f)
							if !(v == mkStr("") || op.parent != "" && i == 0 && v == parts[0]) {
								good = false
							}
							if op.parent == "" && v != mkStr("") {
								good = false
							}
						}
					}
				}
				if !good {
					a.Violate(st, "bounds:"+entry, "the scan does not cover all the entries to be listed")
				} else {
					r.OK("scan covers the entries to be listed")
				}
			}
		case "insert":
			if op.kind != "create" || e.role != target {
				n := "another table"
				if e.role != nil {
					n = e.role.name
				}
				a.Violate(st, "other-change:"+entry+":insert", "%s inserts into %s", op.name, n)
				return
			}
			if op.parent != "" && !isKey(st, "found:"+op.parent, key()[:op.np]) {
				a.Violate(st, "no-parent:"+entry, "an entry is created without the entry it belongs to having been found")
				return
			}
			if len(e.rows) != 1 || gstr(st, "#done") != "" {
				a.Violate(st, "not-one:"+entry, "not exactly one entry is created")
				return
			}
			row := e.rows[0]
			if namedOf(row.typ) != target.rowT || !target.hasKey(row, key()) {
				a.Violate(st, "name:"+entry, "an entry is created under another name: %s", row)
				return
			}
			if len(colArgs) > 0 && !c.definition(a, st, target, row, colArgs, entry) {
				return
			}
			if e.o.kind == "ok" {
				setG(st, "#done", "yes")
			}
			r.OK("entry created under the name given")
		case "update":
			if op.target == "TABLES" && e.role == c.roles["SEQUENCES"] && op.kind == "create" {
				return // G04
			}
			a.Violate(st, "other-change:"+entry+":update", "%s updates an entry", op.name)
		case "delete":
			row := gget(st, "last", e.cur)
			if op.kind != "drop" || e.role != target || e.exact == nil || !target.hasKey(e.exact, key()) || row == nil {
				a.Violate(st, "delete:"+entry, "an entry is deleted that is not the one named")
				return
			}
			if e.o.kind == "ok" {
				setG(st, "#done", "yes")
			}
			r.OK("entry named is deleted")
		}
	}
	h.Append = func(a *Analysis, st *State, base, elems, res *Term, in ssa.Instruction) {
		if op.kind != "list" || !types.Identical(res.typ, types.NewSlice(c.idT)) {
			return
		}
		seq := st.seqOfSlice(elems)
		row := st.P["lastrow"]
		bad := ""
		switch {
		case row == nil || gstr(st, "#appended") != "":
			bad = "a name is listed that no row was read for"
		case seq.op != "unit" || seq.args[0] != mkApp("id", c.idT, mkApp("rowfield:"+itoa(target.prim[len(target.prim)-1]), types.Typ[types.String], row), mkBool(true)):
			bad = "what is listed is not the name in the row: " + seq.String()
		case op.parent != "" && !matching(st, row, true):
			bad = "an entry of another database is listed"
		case st.P["list"] == nil && !st.eval(mkEq(mkLen(base), mkInt(0))).isTrue():
			bad = "the list does not start out empty"
		case st.P["list"] != nil && st.P["list"] != base:
			bad = "the names listed before are lost"
		}
		if bad != "" {
			a.Violate(st, "list:"+entry, "%s", bad)
		} else {
			r.OK("name listed")
		}
		st.P["list"] = res
		setG(st, "#appended", "yes")
	}
	prev := h.ev
	h.ev = func(a *Analysis, st *State, e *catEvent) {
		prev(a, st, e)
		if e.op == "next" && e.row != nil && e.role == target {
			st.P["lastrow"] = e.row
		}
		if e.op == "close" && op.kind == "list" && e.role == target {
			listed(a, st, e.cur)
			if gget(st, "ended", e.cur) == nil && gstr(st, "#failed") == "" {
				row := gget(st, "last", e.cur)
				if op.parent == "" || row == nil || !matching(st, row, false) {
					setG(st, "#short", "yes")
				}
			}
			setG(st, "#scanned", "yes")
		}
	}
	h.Return = func(a *Analysis, st *State, res []*Term) {
		if gstr(st, "#second") != "" {
			c.checkOpened(a, st, op, target, given, gstr(st, "#second"), res)
			return
		}
		e := resultError(fn, res)
		if e == nil {
			a.Violate(st, "no-error:"+entry, "%s returns no error", op.name)
			return
		}
		isNil := st.eval(mkEq(e, mkNil(errType)))
		failed := gstr(st, "#failed") != ""
		if failed {
			return // G07
		}
		absent := false
		switch op.kind {
		case "create", "list":
			if op.parent != "" && isKey(st, "absent:"+op.parent, key()[:op.np]) {
				absent = true
				if !isNil.isFalse() {
					a.Violate(st, "absent-ok:"+entry, "no error although the entry it belongs to does not exist")
					return
				}
				r.OK("absence reported")
				return
			}
		case "open", "drop":
			absent = isKey(st, "absent:"+op.target, key())
		}
		if !isNil.isBoolConst() {
			if isNil = mkBool(false); true {
				a.Violate(st, "unknown-error:"+entry, "the error returned cannot be told from nil")
				return
			}
		}
		switch {
		case isNil.isFalse():
			switch {
			case op.kind == "open" && absent:
				r.OK("absence reported")
			case op.kind == "drop" && absent && st.eval(ifExists).isFalse():
				r.OK("absence reported")
			case op.kind == "drop" && absent:
				a.Violate(st, "absent-error:"+entry, "an error although absence was allowed")
			case gstr(st, "#refusable") != "":
			case op.kind == "create" && st.P["absent:SEQUENCES"] != nil: // G04
			default:
				a.Violate(st, "refused:"+entry, "an error although nothing failed and everything needed exists")
			}
			return
		case op.kind == "drop" && absent:
			if !st.eval(ifExists).isTrue() {
				a.Violate(st, "absent-ok:"+entry, "no error although nothing of that name exists and absence was not allowed")
				return
			}
			r.OK("absence allowed")
			return
		case op.kind == "create" || op.kind == "drop":
			if gstr(st, "#done") == "" {
				a.Violate(st, "not-done:"+entry, "success although nothing was done")
				return
			}
			r.OK("success after the change was made")
			return
		case op.kind == "list":
			switch {
			case gstr(st, "#scanned") == "":
				a.Violate(st, "not-scanned:"+entry, "a list is returned without the entries having been read")
			case gstr(st, "#short") != "":
				a.Violate(st, "short:"+entry, "the scan stops before the last entry to be listed")
			case op.parent != "" && !isKey(st, "found:"+op.parent, key()[:op.np]):
				a.Violate(st, "no-parent:"+entry, "a list is returned although the database was not found")
			case st.P["list"] != nil && res[0] != st.P["list"] || st.P["list"] == nil && !st.eval(mkEq(mkLen(res[0]), mkInt(0))).isTrue():
				a.Violate(st, "result:"+entry, "what is returned is not the list")
			default:
				r.OK("list returned after a complete scan")
			}
			return
		case op.kind == "open":
			if !isKey(st, "found:"+op.target, key()) {
				a.Violate(st, "absent-ok:"+entry, "a table is opened that was not found")
				return
			}
			for _, m := range []string{"Name", "Type", "TableId"} {
				f := c.method("Table", m)
				if f == nil {
					return
				}
				n := st.clone()
				if res[0].op != "iface" {
					a.Violate(st, "opened:"+entry, "what is returned is not known")
					return
				}
				n.frames = nil
				n.nframes += 1000
				setG(n, "#second", m)
				args := paramSyms(f)
				args[0] = res[0].args[0]
				a.Start(n, f, args)
			}
			r.OK("table opened after it was found")
		}
	}
	a, st, args := c.start(fn, c.hooks(h), shortFn(fn))
	for i, x := range args {
		t := x.typ
		n := namedOf(t)
		switch {
		case types.Identical(t, c.idT), n != nil && (n.Obj().Name() == "SchemaName" || n.Obj().Name() == "TableName"):
			given = x
			parts = c.nameParts(x)
		case types.Identical(t.Underlying(), types.Typ[types.Bool]):
			ifExists = x
		case isSliceT(t):
			colArgs = append(colArgs, x)
		case isMapT(t):
			// options are refused
			setG(st, "#refusable", "yes")
		}
		_ = i
	}
	if parts == nil && (op.kind != "list" || op.parent != "") {
		r.Violate("anchor:"+entry, posZero, nil, "the name %s takes is not known", op.name)
		return
	}
	a.Start(st, fn, args)
	a.Run()
	r.OK("catalog operation analysed to completion")
}

func isSliceT(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }
func isMapT(t types.Type) bool   { _, ok := t.Underlying().(*types.Map); return ok }

// definition checks the stored definition of a new table.
func (c *catalog) definition(a *Analysis, st *State, ro *role, row *Term, colArgs []*Term, entry string) bool {
	k := ro.only(isByteSlice)
	if k < 0 {
		a.Violate(st, "definition:"+entry, "the table catalog holds no single definition")
		return false
	}
	v := mkField(row, k)
	if !v.isApp("encoded") {
		a.Violate(st, "definition:"+entry, "the definition stored is not an encoded table type")
		return false
	}
	s := v.args[0]
	ss, ok := s.typ.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	n := 0
	for i := 0; i < ss.NumFields(); i++ {
		for _, x := range colArgs {
			if types.Identical(x.typ, ss.Field(i).Type()) {
				if mkField(s, i) != x {
					a.Violate(st, "definition:"+entry+":"+ss.Field(i).Name(), "the stored definition's %s are not those given", ss.Field(i).Name())
					return false
				}
				n++
			}
		}
	}
	if n != len(colArgs) {
		a.Violate(st, "definition:"+entry, "the stored definition leaves out columns, types or key")
		return false
	}
	c.r.OK("definition stored as given")
	return true
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem().Underlying(), types.Typ[types.Uint8])
}

func isInt64(t types.Type) bool { return types.Identical(t.Underlying(), types.Typ[types.Int64]) }

// checkOpened checks what an opened table says about itself.
func (c *catalog) checkOpened(a *Analysis, st *State, op catOp, ro *role, given *Term, m string, res []*Term) {
	x := st.eval(res[0])
	row := st.P["lastrow"]
	good := false
	switch m {
	case "Name":
		good = x == given
	case "TableId":
		good = row != nil && x.op != "" && containsRowField(x, ro.only(isInt64), row)
	case "Type":
		d := gget(st, "decoded", x)
		good = d != nil && row != nil && containsRowField(d, ro.only(isByteSlice), row)
	}
	if !good {
		a.Violate(st, "opened:"+m, "%s of an opened table is not what the catalog says: %s", m, x)
		return
	}
	c.r.OK("opened table says what the catalog says")
}

// containsRowField reports whether x is the row's field, converted at most.
func containsRowField(x *Term, i int, row *Term) bool {
	for {
		if x.isApp("rowfield:"+itoa(i)) && x.args[0] == row {
			return true
		}
		if x.op == "app" && isConv(x) && len(x.args) == 1 && idWide(x.typ) {
			x = x.args[0]
			continue
		}
		return false
	}
}

var catOps = []catOp{
	{"Engine", "CreateDatabase", "DATABASES", "", "create", 0},
	{"Engine", "DropDatabase", "DATABASES", "", "drop", 0},
	{"Engine", "ListDatabases", "DATABASES", "", "list", 0},
	{"Transaction", "CreateSchema", "SCHEMAS", "DATABASES", "create", 1},
	{"Transaction", "DropSchema", "SCHEMAS", "", "drop", 0},
	{"Transaction", "ListSchemas", "SCHEMAS", "DATABASES", "list", 1},
	{"Transaction", "CreateTable", "TABLES", "SCHEMAS", "create", 2},
	{"Transaction", "OpenTable", "TABLES", "", "open", 0},
}

func checkG03(p *Program, r *Report) {
	r.Rule = "each catalog operation is followed from the state after package initialisation down to the storage calls, with every outcome of each: an entry is inserted only after an exact look-up of the entry it belongs to delivered a row, exactly one, under the name given (and, for a table, with the definition given); a delete happens only on the row an exact cursor on the name delivered; success and error are returned exactly according to what was found and done; a listing takes one name from each row of a scan that covers the database's entries, and stops only at a row of another database"
	c := findCatalog(p, r)
	if c == nil || !c.need("DATABASES", "SCHEMAS", "TABLES", "SEQUENCES") {
		return
	}
	for _, op := range catOps {
		if only := debugOnly(); only != "" && only != op.name {
			continue
		}
		c.checkOp(op)
	}
	r.AtLeast("catalog operation analysed to completion", 8)
}

// idWide reports whether every table id keeps its value in the type.
func idWide(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Uint32, types.Uint64, types.Int64, types.Int, types.Uint, types.Uintptr:
		return true
	}
	return false
}

// plain removes the conversions between integer types.
func plain(x *Term) (base *Term, k int64) {
	for {
		b, c, _ := x.lin()
		k += c
		x = b
		if x == nil {
			return nil, k
		}
		if x.op == "app" && isConv(x) && len(x.args) == 1 && idWide(x.typ) {
			x = x.args[0]
			continue
		}
		return x, k
	}
}

// namedField is the field of a structure with the name of a field of the role's structure.
func (ro *role) namedField(s *Term, i int) *Term {
	if s == nil || s.typ == nil {
		return nil
	}
	ss, ok := s.typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for j := 0; j < ss.NumFields(); j++ {
		if ss.Field(j).Name() == ro.rowS.Field(i).Name() {
			return mkField(s, j)
		}
	}
	return nil
}

// initRows follows Init and collects what it inserts, creates and reports.
type initRun struct {
	rows    map[string][]*Term
	created map[*Term]bool
}

func checkG04(p *Program, r *Report) {
	r.Rule = "table creation is followed from the state after package initialisation down to the storage calls, with every outcome of each: success is returned only when the one sequence row, found by its exact name, was updated to the value read from it plus a positive constant, and the new table's id is that value at a fixed distance from the one read; the first id given out, computed from the rows inserted at initialisation, lies above every constant table id of the engine and of the storage"
	c := findCatalog(p, r)
	if c == nil || !c.need("TABLES", "SEQUENCES") {
		return
	}
	seq, tab := c.roles["SEQUENCES"], c.roles["TABLES"]
	cur, tid := seq.only(isInt64), tab.only(isInt64)
	fn := c.method("Transaction", "CreateTable")
	if fn == nil {
		return
	}
	if cur < 0 || tid < 0 || len(seq.prim) != 1 {
		r.Violate("anchor:sequence", posZero, nil, "the sequence or the table catalog is not as expected")
		return
	}
	var name *Term
	var step, dist int64
	h := &catHooks{}
	h.ev = func(a *Analysis, st *State, e *catEvent) {
		switch {
		case e.op == "update" && e.role == seq:
			row := gget(st, "last", e.cur)
			if e.exact == nil || row == nil || e.upd == nil {
				a.Violate(st, "sequence-update", "the sequence is updated through a cursor not bound to its name")
				return
			}
			v := seq.namedField(e.upd, cur)
			if v == nil {
				a.Violate(st, "sequence-value", "the update leaves the sequence where it was")
				return
			}
			if k := seq.namedField(e.upd, seq.prim[0]); k != nil && k != seq.key(e.exact).args[0] {
				a.Violate(st, "sequence-name", "the update changes the name of the sequence")
				return
			}
			b, k := plain(v)
			if b != mkApp("rowfield:"+itoa(cur), seq.rowS.Field(cur).Type(), row) || k <= 0 {
				a.Violate(st, "sequence-value", "the sequence is not advanced from the value read: %s", v)
				return
			}
			if gstr(st, "#advanced") != "" {
				a.Violate(st, "sequence-twice", "the sequence is advanced twice")
				return
			}
			if step != 0 && step != k || name != nil && name != seq.key(e.exact).args[0] {
				a.Violate(st, "sequence-uneven", "the sequence is not always the same or not always advanced alike")
				return
			}
			step, name = k, seq.key(e.exact).args[0]
			st.P["read"] = b
			if e.o.kind == "ok" {
				setG(st, "#advanced", "yes")
				r.OK("sequence advanced from the value read")
			}
		case (e.op == "delete" || e.op == "insert") && e.role == seq:
			a.Violate(st, "sequence-"+e.op, "table creation does an %s on the sequences", e.op)
		case e.op == "insert" && e.role == tab:
			if len(e.rows) != 1 {
				a.Violate(st, "entries", "not exactly one entry is recorded")
				return
			}
			st.P["id"] = mkField(e.rows[0], tid)
			if e.o.kind == "ok" {
				setG(st, "#recorded", "yes")
			}
		}
	}
	h.Return = func(a *Analysis, st *State, res []*Term) {
		e := resultError(fn, res)
		if e != nil && st.eval(mkEq(e, mkNil(errType))).isFalse() {
			r.OK("creation refused")
			return
		}
		switch {
		case gstr(st, "#recorded") == "":
			a.Violate(st, "not-recorded", "success although no id was recorded")
		case gstr(st, "#advanced") == "":
			a.Violate(st, "not-advanced", "success although the sequence was not advanced")
		default:
			b, k := plain(st.P["id"])
			if b == nil || b != st.P["read"] {
				a.Violate(st, "id", "the id recorded does not come from the value the sequence was advanced from: %s", st.P["id"])
				return
			}
			if n := r.oblig["id recorded from the sequence"]; n > 0 && k != dist {
				a.Violate(st, "id-uneven", "ids are not always at the same distance from the sequence")
				return
			}
			dist = k
			r.OK("id recorded from the sequence")
		}
	}
	a, st, args := c.start(fn, c.hooks(h), shortFn(fn))
	a.Start(st, fn, args)
	a.Run()
	r.AtLeast("sequence advanced from the value read", 1)
	r.AtLeast("id recorded from the sequence", 1)
	r.AtLeast("creation refused", 4)
	if len(r.violations) > 0 {
		return
	}
	// where the sequence starts
	run := c.runInitStore()
	if run == nil {
		return
	}
	n := 0
	for _, s := range run.rows["SEQUENCES"] {
		if seq.key(s).args[0] != name {
			continue
		}
		n++
		v, ok := mkField(s, cur).constInt()
		if !ok {
			r.Violate("start", posZero, nil, "the first value of the sequence is not a constant: %s", mkField(s, cur))
			return
		}
		first := v + dist
		tidT := p.TypeOf("storage", "TableId")
		for _, pkg := range []string{"engine", "storage"} {
			sc := p.SSA[modulePath+"/"+pkg].Pkg.Scope()
			for _, nm := range sc.Names() {
				k, ok := sc.Lookup(nm).(*types.Const)
				if !ok || !types.Identical(k.Type(), tidT) {
					continue
				}
				if x, ok := constant.Int64Val(k.Val()); ok && x >= first {
					r.ViolateAt("reserved:"+nm, k.Pos(), "the first table id given out, %d, is not above the reserved id %s (%d)", first, nm, x)
				} else {
					r.OK("first id above a reserved id")
				}
			}
		}
		for _, nm := range sortedRoles(c.roles) {
			if x, ok := c.roles[nm].tid.constInt(); !ok || x >= first {
				r.Violate("system:"+nm, posZero, nil, "the first table id given out, %d, is not above the id of %s (%s)", first, nm, c.roles[nm].tid)
			} else {
				r.OK("first id above a system table's")
			}
		}
	}
	if n != 1 {
		r.Violate("start", posZero, nil, "initialisation makes %d rows for the sequence %s", n, name)
	}
	r.AtLeast("first id above a reserved id", 5)
	r.AtLeast("first id above a system table's", 4)
}

// runInitStore follows Init on the state after package initialisation.
func (c *catalog) runInitStore() *initRun {
	r := c.r
	fn := c.p.Func("engine", "Init")
	if fn == nil {
		r.Violate("anchor:Init", posZero, nil, "engine.Init not found")
		return nil
	}
	var run *initRun
	h := &catHooks{}
	h.ev = func(a *Analysis, st *State, e *catEvent) {
		if e.o.kind == "err" {
			setG(st, "#failed", "yes")
			return
		}
		switch e.op {
		case "create":
			c.initCreate(a, st, e)
		case "insert":
			if e.role == nil || e.rows == nil {
				a.Violate(st, "init-insert", "initialisation inserts rows that are not understood")
				return
			}
			if gstr(st, "#created:"+e.role.name) == "" {
				a.Violate(st, "init-order:"+e.role.name, "rows are inserted into %s before it is created", e.role.name)
				return
			}
			k := "rows:" + e.role.name
			rows := e.rows
			if st.P[k] != nil {
				rows = append(append([]*Term{}, st.P[k].args...), rows...)
			}
			st.P[k] = mkTuple(rows...)
		case "update", "delete", "drop":
			a.Violate(st, "init-other:"+e.op, "initialisation does an unexpected %s", e.op)
		case "commit":
			setG(st, "#committed", "yes")
		}
	}
	h.Return = func(a *Analysis, st *State, res []*Term) {
		e := resultError(fn, res)
		if e == nil || !st.eval(mkEq(e, mkNil(errType))).isBoolConst() {
			a.Violate(st, "init-error", "the outcome of the initialisation is not reported")
			return
		}
		if st.eval(mkEq(e, mkNil(errType))).isFalse() {
			if gstr(st, "#failed") == "" {
				a.Violate(st, "init-refused", "initialisation fails although nothing it called failed")
				return
			}
			r.OK("failed initialisation reported")
			return
		}
		if gstr(st, "#failed") != "" || gstr(st, "#committed") == "" {
			a.Violate(st, "init-hidden", "initialisation succeeds although a step failed or nothing was committed")
			return
		}
		n := &initRun{rows: map[string][]*Term{}, created: map[*Term]bool{}}
		for _, k := range sortedRoles(c.roles) {
			if gstr(st, "#created:"+k) != "" {
				n.created[c.roles[k].ti] = true
			}
			if t := st.P["rows:"+k]; t != nil {
				n.rows[k] = t.args
			}
		}
		if run != nil && !sameRun(run, n) {
			a.Violate(st, "init-varies", "what a successful initialisation inserts depends on more than its code")
		}
		run = n
		r.OK("initialisation followed to success")
	}
	a, st, args := c.start(fn, c.hooks(h), shortFn(fn))
	a.Start(st, fn, args)
	a.Run()
	if run == nil {
		r.Violate("init", posZero, nil, "initialisation never succeeds")
	}
	return run
}

func sameRun(x, y *initRun) bool {
	if len(x.created) != len(y.created) || len(x.rows) != len(y.rows) {
		return false
	}
	for k, r := range x.rows {
		if mkTuple(r...) != mkTuple(y.rows[k]...) {
			return false
		}
	}
	return true
}

// initCreate checks the creation of a system table.
func (c *catalog) initCreate(a *Analysis, st *State, e *catEvent) {
	for _, n := range sortedRoles(c.roles) {
		ro := c.roles[n]
		if st.eval(e.args[2]) != ro.tid {
			continue
		}
		if gstr(st, "#created:"+n) != "" {
			a.Violate(st, "init-twice:"+n, "%s is created twice", n)
			return
		}
		for i, x := range e.args[3:] {
			x = st.eval(x)
			if types.Identical(x.typ, ro.tn.typ) {
				if x != ro.tn {
					a.Violate(st, "init-create:"+n, "%s is created under another name", n)
					return
				}
				continue
			}
			f := c.tiField(x.typ)
			if f < 0 || x != c.tiPart(ro, f) {
				a.Violate(st, "init-create:"+n, "%s is not created as described (argument %d)", n, i+4)
				return
			}
		}
		setG(st, "#created:"+n, "yes")
		c.r.OK("system table created as described")
		return
	}
	a.Violate(st, "init-create", "a table is created that no system table description stands for")
}

// tiField is the only field of a description with the given type.
func (c *catalog) tiField(t types.Type) int {
	s := c.tiT.Underlying().(*types.Struct)
	k := -1
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), t) {
			if k >= 0 {
				return -1
			}
			k = i
		}
	}
	return k
}

func (c *catalog) tiPart(ro *role, i int) *Term {
	return c.base.load(fieldAddr(ro.ti, i), fieldTypeOf(c.tiT, i))
}

func checkG05(p *Program, r *Report) {
	r.Rule = "initialisation is followed from the state after package initialisation, with every outcome of every storage call: success is returned only after every typed table description of the engine was created under its own id, name, columns, types and key, before rows are inserted into it, and the transaction committed; the table catalog holds exactly one row for each, with its name, id and encoded definition; every row of the catalog refers to a schema and a database among the rows inserted; keys are distinct, ids distinct and among those left to the engine, and no description is without a primary key"
	c := findCatalog(p, r)
	if c == nil || !c.need("DATABASES", "SCHEMAS", "TABLES", "SEQUENCES") {
		return
	}
	run := c.runInitStore()
	if run == nil {
		return
	}
	// the descriptions
	ids, names := map[*Term]string{}, map[*Term]string{}
	first, _ := p.Lookup("storage", "EngineTableId").(*types.Const)
	for _, n := range sortedRoles(c.roles) {
		ro := c.roles[n]
		v, ok := ro.tid.constInt()
		switch {
		case !ok:
			r.Violate("id:"+n, posZero, nil, "the id of %s is not a constant", n)
		case ids[ro.tid] != "":
			r.Violate("id:"+n, posZero, nil, "%s has the id of %s", n, ids[ro.tid])
		case names[ro.tn] != "":
			r.Violate("name:"+n, posZero, nil, "%s has the name of %s", n, names[ro.tn])
		case len(ro.prim) == 0:
			r.Violate("primary:"+n, posZero, nil, "%s has no primary key", n)
		default:
			if first != nil {
				if x, ok := constant.Int64Val(first.Val()); ok && v < x {
					r.Violate("id:"+n, posZero, nil, "the id of %s, %d, is one of the storage's own", n, v)
					break
				}
			}
			r.OK("system table description is sound")
		}
		ids[ro.tid], names[ro.tn] = n, n
		if !run.created[ro.ti] {
			r.Violate("created:"+n, posZero, nil, "%s is not created by the initialisation", n)
		}
	}
	// what is inserted
	keys := map[string]map[*Term]bool{}
	for _, n := range sortedRoles(c.roles) {
		keys[n] = map[*Term]bool{}
		for _, s := range run.rows[n] {
			if namedOf(s.typ) != c.roles[n].rowT {
				r.Violate("row:"+n, posZero, nil, "a row of another table is inserted into %s: %s", n, s)
				return
			}
			k := c.roles[n].key(s)
			if keys[n][k] {
				r.Violate("duplicate:"+n+":"+k.String(), posZero, nil, "%s is inserted into %s twice", k, n)
			}
			keys[n][k] = true
			r.OK("initial row has its own key")
		}
	}
	id := func(n string) *Term {
		k, ok := p.Lookup("types", n).(*types.Const)
		if !ok {
			return nil
		}
		return c.idstr(mkConst(k.Val(), c.idT))
	}
	prefix := func(k *Term, n int) *Term { return mkTuple(k.args[:n]...) }
	for k := range keys["SCHEMAS"] {
		if len(k.args) != 2 || !keys["DATABASES"][prefix(k, 1)] {
			r.Violate("schema-database:"+k.String(), posZero, nil, "the database of the initial schema %s is not created", k)
		} else {
			r.OK("initial entry refers to an initial entry")
		}
	}
	tab := c.roles["TABLES"]
	tid, typ := tab.only(isInt64), tab.only(isByteSlice)
	for k := range keys["TABLES"] {
		if len(k.args) != 3 || !keys["SCHEMAS"][prefix(k, 2)] {
			r.Violate("table-schema:"+k.String(), posZero, nil, "the schema of the system table %s is not created", k)
		} else {
			r.OK("initial entry refers to an initial entry")
		}
	}
	for role, want := range map[string][][]string{
		"DATABASES": {{"SYSTEM"}, {"MAHO"}},
		"SCHEMAS":   {{"SYSTEM", "INFO"}, {"MAHO", "PUBLIC"}},
	} {
		for _, w := range want {
			var ks []*Term
			for _, x := range w {
				t := id(x)
				if t == nil {
					r.Violate("anchor:types."+x, posZero, nil, "types.%s not found", x)
					return
				}
				ks = append(ks, t)
			}
			if !keys[role][mkTuple(ks...)] {
				r.Violate("missing:"+role+":"+strings.Join(w, "."), posZero, nil, "%s is not among the initial rows of %s", strings.Join(w, "."), role)
			} else {
				r.OK("initial database or schema present")
			}
		}
	}
	for _, n := range sortedRoles(c.roles) {
		ro := c.roles[n]
		var ks []*Term
		for i := range ro.tn.args {
			ks = append(ks, c.idstr(ro.tn.args[i]))
		}
		found := 0
		for _, s := range run.rows["TABLES"] {
			if tab.key(s) != mkTuple(ks...) {
				continue
			}
			found++
			if b, k := plain(mkField(s, tid)); b != nil || k == 0 {
				r.Violate("catalog-id:"+n, posZero, nil, "%s is recorded under an id that is not its own: %s", n, mkField(s, tid))
				continue
			} else if v, _ := ro.tid.constInt(); v != k {
				r.Violate("catalog-id:"+n, posZero, nil, "%s is recorded under id %d but has id %d", n, k, v)
				continue
			}
			d := mkField(s, typ)
			if !d.isApp("encoded") || !c.describes(ro, d.args[0]) {
				r.Violate("catalog-type:"+n, posZero, nil, "%s is recorded with a definition that is not its own: %s", n, d)
				continue
			}
			r.OK("system table recorded under its name, id and definition")
		}
		if found != 1 {
			r.Violate("catalog:"+n, posZero, nil, "%s has %d rows in the table catalog", n, found)
		}
	}
	if len(run.rows["TABLES"]) != len(c.roles) {
		r.Violate("catalog-extra", posZero, nil, "the table catalog starts with %d rows for %d system tables", len(run.rows["TABLES"]), len(c.roles))
	}
	r.AtLeast("system table created as described", 4)
	r.AtLeast("system table description is sound", 4)
	r.AtLeast("failed initialisation reported", 6)
	r.AtLeast("initial row has its own key", 9)
	r.AtLeast("initial entry refers to an initial entry", 6)
	r.AtLeast("initial database or schema present", 4)
	r.AtLeast("system table recorded under its name, id and definition", 4)
}

// describes reports whether a table type has the description's columns, types and key.
func (c *catalog) describes(ro *role, s *Term) bool {
	ss, ok := s.typ.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	ts := c.tiT.Underlying().(*types.Struct)
	n := 0
	for i := 0; i < ss.NumFields(); i++ {
		for j := 0; j < ts.NumFields(); j++ {
			if _, ok := ts.Field(j).Type().Underlying().(*types.Slice); ok && types.Identical(ss.Field(i).Type(), ts.Field(j).Type()) {
				if mkField(s, i) != c.tiPart(ro, j) {
					return false
				}
				n++
			}
		}
	}
	return n >= 3
}

func debugOnly() string { return os.Getenv("G_ONLY") }

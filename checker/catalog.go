package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The engine's catalog, followed down to the storage interfaces. The conversions between Go
// structures and rows go through reflection and are taken as agreeing with each other (G06);
// everything else is followed.

type role struct {
	name  string // DATABASES ...
	g     *ssa.Global
	rowT  *types.Named
	rowS  *types.Struct
	tid   *Term
	tn    *Term
	ti    *Term
	prim  []int // fields of the primary key
	byFld map[string]int
}

func (ro *role) field(s *Term, name string) *Term {
	i, ok := ro.byFld[name]
	if !ok {
		return nil
	}
	return mkField(s, i)
}

// key is the primary key part of a row structure.
func (ro *role) key(s *Term) *Term {
	var ks []*Term
	for _, i := range ro.prim {
		ks = append(ks, mkField(s, i))
	}
	return mkTuple(ks...)
}

type catalog struct {
	*upper
	r     *Report
	tiT   *types.Named
	fTid  int
	fTn   int
	roles map[string]*role
	base  *State // after package initialisation
	infos []*Term
	conv  map[*ssa.Function]string
	rowT  types.Type
	idT   types.Type
	valT  types.Type
	fUpd  map[string]bool
}

func ghostKey(kind string, x *Term) *Term { return intern("ghost", kind, nil, nil, x) }

func handleObj(x *Term) *Term {
	if x != nil && x.op == "iface" {
		return x.args[0]
	}
	return x
}

func gget(st *State, kind string, x *Term) *Term { return st.heap[ghostKey(kind, handleObj(x))] }
func gset(st *State, kind string, x, v *Term) {
	if v == nil {
		delete(st.heap, ghostKey(kind, handleObj(x)))
		return
	}
	st.heap[ghostKey(kind, handleObj(x))] = v
}

func strOf(t *Term) string {
	if t == nil || !t.isConst() || t.isNil() {
		return ""
	}
	v := t.val.(constant.Value)
	if v.Kind() != constant.String {
		return ""
	}
	return constant.StringVal(v)
}

func findCatalog(p *Program, r *Report) *catalog {
	u := findUpper(p, r)
	if u == nil {
		return nil
	}
	c := &catalog{upper: u, r: r, roles: map[string]*role{}, conv: map[*ssa.Function]string{}, fTid: -1, fTn: -1}
	c.tiT, _ = p.TypeOf("engine", "TypedInfo").(*types.Named)
	mk := p.Func("engine", "MakeTypedInfo")
	c.rowT, c.idT, c.valT = p.TypeOf("types", "Row"), p.TypeOf("types", "Identifier"), p.TypeOf("types", "Value")
	tidT, tnT := p.TypeOf("storage", "TableId"), p.TypeOf("types", "TableName")
	if c.tiT == nil || mk == nil || c.rowT == nil || c.idT == nil || tidT == nil || tnT == nil || c.valT == nil {
		r.Violate("anchor:TypedInfo", posZero, nil, "engine.TypedInfo, engine.MakeTypedInfo or the types they use not found")
		return nil
	}
	tiS := c.tiT.Underlying().(*types.Struct)
	for i := 0; i < tiS.NumFields(); i++ {
		if types.Identical(tiS.Field(i).Type(), tidT) {
			c.fTid = i
		}
		if types.Identical(tiS.Field(i).Type(), tnT) {
			c.fTn = i
		}
	}
	if c.fTid < 0 || c.fTn < 0 {
		r.Violate("anchor:TypedInfo", posZero, nil, "engine.TypedInfo holds no table id or table name")
		return nil
	}
	// the conversions, by what they take and give
	tiP := types.NewPointer(c.tiT)
	empty := types.NewInterfaceType(nil, nil)
	colsT := types.NewSlice(p.TypeOf("types", "ColumnNum"))
	valsT := types.NewSlice(c.valT)
	n := map[string]int{}
	for _, fn := range p.Funcs("engine") {
		if fn.Parent() != nil {
			continue
		}
		hasTi := false
		var in []types.Type
		for _, x := range fn.Params {
			if types.Identical(x.Type(), tiP) {
				hasTi = true
			} else {
				in = append(in, x.Type())
			}
		}
		if !hasTi {
			continue
		}
		res := fn.Signature.Results()
		is := func(t types.Type, w types.Type) bool { return types.Identical(t, w) }
		isAny := func(t types.Type) bool { return types.Identical(t.Underlying(), empty) }
		k := ""
		switch {
		case len(in) == 1 && isAny(in[0]) && res.Len() == 1 && is(res.At(0).Type(), c.rowT):
			k = "toRow"
		case len(in) == 2 && is(in[0], c.rowT) && isAny(in[1]) && res.Len() == 0:
			k = "fromRow"
		case len(in) == 1 && isAny(in[0]) && res.Len() == 2 && is(res.At(0).Type(), colsT) && is(res.At(1).Type(), valsT):
			k = "toCols"
		}
		if k != "" {
			c.conv[fn] = k
			n[k]++
		}
	}
	for _, k := range []string{"toRow", "fromRow", "toCols"} {
		if n[k] == 0 {
			r.Violate("anchor:"+k, posZero, nil, "no conversion between structures and rows (%s) found in engine", k)
			return nil
		}
	}
	if !c.runInit(mk) {
		return nil
	}
	return c
}

// common models the calls every catalog analysis needs.
func (c *catalog) common(a *Analysis, st *State, ev *Call) ([]Out, bool) {
	if ev.Fn == nil {
		return nil, false
	}
	one := func(x *Term) ([]Out, bool) { return []Out{{St: st, Ret: x}}, true }
	switch relPkg(ev.Name()) {
	case "types.Identifier.String":
		return one(mkApp("idstr", types.Typ[types.String], ev.Args[0]))
	case "types.ID":
		return one(mkApp("id", c.idT, ev.Args...))
	case "engine.TableType.Encode":
		p := ev.Args[0]
		s := st.load(p, derefType(p.typ))
		ok, bad := st, st.clone()
		bad.note(ev.Pos(), "Encode fails")
		setG(bad, "#failed", "yes")
		bt := types.NewSlice(types.Typ[types.Uint8])
		return []Out{{St: ok, Ret: mkTuple(mkApp("encoded", bt, s), mkNil(errType))},
			{St: bad, Ret: mkTuple(mkNil(bt), mkError("Encode failed"))}}, true
	case "engine.DecodeTableType":
		ok, bad := st, st.clone()
		bad.note(ev.Pos(), "DecodeTableType fails")
		setG(bad, "#failed", "yes")
		rt := ev.Sig.Results().At(0).Type()
		o := mkObj(rt, "decoded")
		gset(ok, "decoded", o, ev.Args[0])
		return []Out{{St: ok, Ret: mkTuple(o, mkNil(errType))},
			{St: bad, Ret: mkTuple(mkNil(rt), mkError("Decode failed"))}}, true
	}
	return nil, false
}

// runInit follows the package's initialisation, and keeps the state after it.
func (c *catalog) runInit(mk *ssa.Function) bool {
	p, r := c.p, c.r
	sp := p.SSA[modulePath+"/engine"]
	init := sp.Func("init")
	type made struct{ obj, tid, tn, row *Term }
	var best *State
	h := &Hooks{}
	h.Call = func(a *Analysis, st *State, ev *Call) ([]Out, bool) {
		if o, ok := c.common(a, st, ev); ok {
			return o, true
		}
		if ev.Fn == nil {
			return nil, false
		}
		if ev.Fn == mk {
			o := mkObj(types.NewPointer(c.tiT), "ti")
			st.store(fieldAddr(o, c.fTid), ev.Args[0], fieldTypeOf(c.tiT, c.fTid))
			st.store(fieldAddr(o, c.fTn), ev.Args[1], fieldTypeOf(c.tiT, c.fTn))
			ts := c.tiT.Underlying().(*types.Struct)
			for i := 0; i < ts.NumFields(); i++ {
				if i != c.fTid && i != c.fTn {
					ft := ts.Field(i).Type()
					st.store(fieldAddr(o, i), mkApp("described:"+ts.Field(i).Name(), ft, o), ft)
				}
			}
			gset(st, "row", o, ev.Args[2])
			n := 0
			for st.P["ti"+itoa(n)] != nil {
				n++
			}
			st.P["ti"+itoa(n)] = o
			return []Out{{St: st, Ret: o}}, true
		}
		if ev.Fn.Name() == "init" && ev.Fn.Pkg != sp || ev.Fn.Pkg != sp && p.IsRepo(ev.Fn) {
			return []Out{{St: st, Ret: freshResult(ev.Sig, ev.Name())}}, true
		}
		return nil, false
	}
	h.Return = func(a *Analysis, st *State, res []*Term) {
		if st.P["ti0"] != nil {
			best = st.clone()
		}
	}
	a := NewAnalysis(p, r, h, "engine.init")
	st := newState()
	a.Start(st, init, nil)
	a.Run()
	if best == nil {
		r.Violate("anchor:MakeTypedInfo", posZero, nil, "package initialisation makes no typed table descriptions")
		return false
	}
	best.frames = nil
	best.trace = nil
	c.base = best
	names := map[string]string{}
	for _, n := range []string{"DATABASES", "SCHEMAS", "TABLES", "SEQUENCES"} {
		if k, ok := p.Lookup("types", n).(*types.Const); ok {
			names[k.Val().ExactString()] = n
		}
	}
	for i := 0; best.P["ti"+itoa(i)] != nil; i++ {
		o := best.P["ti"+itoa(i)]
		c.infos = append(c.infos, o)
		ro := &role{ti: o, byFld: map[string]int{}}
		ro.tid = best.load(fieldAddr(o, c.fTid), fieldTypeOf(c.tiT, c.fTid))
		ro.tn = best.load(fieldAddr(o, c.fTn), fieldTypeOf(c.tiT, c.fTn))
		row := gget(best, "row", o)
		if row != nil && row.op == "iface" {
			ro.rowT = namedOf(row.dyn())
		}
		if ro.rowT == nil {
			r.Violate("anchor:row-type", posZero, nil, "the row structure of a typed table description is unknown")
			return false
		}
		ro.rowS = ro.rowT.Underlying().(*types.Struct)
		for j := 0; j < ro.rowS.NumFields(); j++ {
			ro.byFld[ro.rowS.Field(j).Name()] = j
			tag := reflect.StructTag(ro.rowS.Tag(j)).Get("maho")
			for _, t := range strings.Split(tag, ",") {
				if t == "primary" {
					ro.prim = append(ro.prim, j)
				}
			}
		}
		// the table part of the name
		if ro.tn.op == "struct" {
			for _, f := range ro.tn.args {
				if f.isConst() && !f.isNil() {
					if n := names[f.val.(constant.Value).ExactString()]; n != "" {
						ro.name = n
					}
				}
			}
		}
		if ro.name == "" {
			ro.name = "#" + itoa(i)
		}
		c.roles[ro.name] = ro
	}
	for n := range best.P {
		if strings.HasPrefix(n, "ti") {
			continue
		}
		delete(best.P, n)
	}
	return true
}

// roleOf finds the description behind a structure type.
func (c *catalog) roleOfType(t types.Type) *role {
	n := namedOf(derefType(t))
	for _, k := range sortedRoles(c.roles) {
		if c.roles[k].rowT == n {
			return c.roles[k]
		}
	}
	return nil
}

func sortedRoles(m map[string]*role) []string {
	x := map[string]bool{}
	for k := range m {
		x[k] = true
	}
	return sortedStrings(x)
}

// content loads the structure an interface argument points to.
func (c *catalog) content(st *State, x *Term) *Term {
	x = st.eval(x)
	if x.op != "iface" {
		return nil
	}
	pt, ok := x.dyn().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var fs []*Term
	for i := 0; i < s.NumFields(); i++ {
		fs = append(fs, st.load(mkFaddr(x.args[0], i, types.NewPointer(s.Field(i).Type())), s.Field(i).Type()))
	}
	return mkStruct(pt.Elem(), fs...)
}

// catEvent is a storage call seen at catalog level.
type catEvent struct {
	op    string // open, rows, next, current, update, delete, insert, ...
	role  *role
	exact *Term // the full row structure both bounds of the cursor are
	min   *Term // lower bound structure (nil: none)
	max   *Term
	rows  []*Term // insert: structures
	upd   *Term   // update: structure
	row   *Term   // next: the row
	cur   *Term   // the cursor
	o     *outcome
	args  []*Term
}

type catHooks struct {
	upHooks
	ev func(a *Analysis, st *State, e *catEvent)
}

func (c *catalog) rowStruct(x *Term) *Term {
	if x.isApp("typedrow") {
		return x.args[0]
	}
	return nil
}

// hooks follows an engine operation with catalog events.
func (c *catalog) hooks(h *catHooks) *Hooks {
	inner := h.upHooks.extra
	h.upHooks.extra = func(a *Analysis, st *State, ev *Call) ([]Out, bool) {
		if inner != nil {
			if o, ok := inner(a, st, ev); ok {
				return o, true
			}
		}
		if ev.Fn != nil {
			switch c.conv[ev.Fn] {
			case "toRow":
				x := ev.Args[len(ev.Args)-1]
				for _, y := range ev.Args {
					if isIface(y.typ) {
						x = y
					}
				}
				if st.eval(x).isNil() {
					return []Out{{St: st, Ret: mkNil(c.rowT)}}, true
				}
				if s := c.content(st, x); s != nil {
					return []Out{{St: st, Ret: mkApp("typedrow", c.rowT, s)}}, true
				}
				n := st.clone()
				var outs []Out
				if n.assume(mkEq(x, mkNil(x.typ)), true) {
					outs = append(outs, Out{St: n, Ret: mkNil(c.rowT)})
				}
				if st.assume(mkEq(x, mkNil(x.typ)), false) {
					outs = append(outs, Out{St: st, Ret: mkApp("typedrow", c.rowT, mkApp("deref", types.Typ[types.Int], x))})
				}
				return outs, true
			case "fromRow":
				c.fromRow(a, st, ev)
				return []Out{{St: st}}, true
			case "toCols":
				x := ev.Args[len(ev.Args)-1]
				s := c.content(st, x)
				if s == nil {
					s = mkApp("deref", types.Typ[types.Int], x)
				}
				res := ev.Sig.Results()
				return []Out{{St: st, Ret: mkTuple(mkApp("typedcols", res.At(0).Type(), s), mkApp("typedvals", res.At(1).Type(), s))}}, true
			}
		}
		return c.common(a, st, ev)
	}
	outer := h.upHooks.event
	h.upHooks.event = func(a *Analysis, st *State, ev string, k *Call, o *outcome) {
		if outer != nil {
			outer(a, st, ev, k, o)
		}
		c.storageEvent(a, st, ev, k, o, h.ev)
	}
	before := h.upHooks.before
	h.upHooks.before = func(a *Analysis, st *State, ev string, k *Call) {
		if before != nil {
			before(a, st, ev, k)
		}
	}
	return c.upper.hooks(&h.upHooks)
}

func (c *catalog) fromRow(a *Analysis, st *State, ev *Call) {
	var row, x *Term
	for _, y := range ev.Args {
		if y.typ != nil && types.Identical(y.typ, c.rowT) {
			row = y
		} else if y.typ != nil && isIface(y.typ) {
			x = y
		}
	}
	if row == nil || x == nil {
		a.Undecided(st, "conversion from a row not understood")
		return
	}
	x = st.eval(x)
	if x.op != "iface" {
		st.havoc([]*Term{x}, false)
		return
	}
	pt, ok := x.dyn().Underlying().(*types.Pointer)
	if !ok {
		st.havoc([]*Term{x}, false)
		return
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		st.havoc([]*Term{x}, false)
		return
	}
	var exact *Term
	var ro *role
	if cur := gget(st, "cursor", row); cur != nil {
		ro = c.roles[strOf(gget(st, "role", cur))]
		exact = gget(st, "exact", cur)
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		v := mkApp("rowfield:"+itoa(i), ft, row)
		if ro != nil && exact != nil && namedOf(pt.Elem()) == ro.rowT {
			for _, k := range ro.prim {
				if k == i {
					v = mkField(exact, i)
				}
			}
		}
		st.store(mkFaddr(x.args[0], i, types.NewPointer(ft)), v, ft)
	}
}

// storageEvent keeps what the storage calls mean for the catalog.
func (c *catalog) storageEvent(a *Analysis, st *State, ev string, k *Call, o *outcome, fn func(a *Analysis, st *State, e *catEvent)) {
	e := &catEvent{o: o, args: k.Args}
	fill := func(cur *Term) {
		e.cur = cur
		e.role = c.roles[strOf(gget(st, "role", cur))]
		e.exact, e.min, e.max = gget(st, "exact", cur), gget(st, "min", cur), gget(st, "max", cur)
	}
	switch ev {
	case "storage.Transaction.OpenTable":
		e.op = "open"
		if o.kind == "ok" {
			tid := st.eval(k.Args[2])
			for _, n := range sortedRoles(c.roles) {
				if c.roles[n].tid == tid {
					e.role = c.roles[n]
				}
			}
			if e.role != nil {
				gset(st, "role", o.vals[0], mkStr(e.role.name))
			}
		}
	case "storage.Table.Rows":
		e.op = "rows"
		if o.kind == "ok" {
			cur := o.vals[0]
			gset(st, "role", cur, gget(st, "role", k.Args[0]))
			min, max := st.eval(k.Args[3]), st.eval(k.Args[4])
			if s := c.rowStruct(min); s != nil {
				gset(st, "min", cur, s)
			} else if !min.isNil() {
				gset(st, "min", cur, mkApp("other", types.Typ[types.Int], min))
			}
			if s := c.rowStruct(max); s != nil {
				gset(st, "max", cur, s)
			} else if !max.isNil() {
				gset(st, "max", cur, mkApp("other", types.Typ[types.Int], max))
			}
			ro := c.roles[strOf(gget(st, "role", cur))]
			if s, t := c.rowStruct(min), c.rowStruct(max); s != nil && t != nil && ro != nil && namedOf(s.typ) == ro.rowT && namedOf(t.typ) == ro.rowT && ro.key(s) == ro.key(t) && st.eval(k.Args[5]).isNil() {
				gset(st, "exact", cur, s)
			}
			fill(cur)
		}
	case "storage.Rows.Next":
		e.op = "next"
		cur := k.Args[0]
		fill(cur)
		if o.kind == "ok" {
			if e.exact != nil && gget(st, "delivered", cur) != nil {
				st.dead = true // a key identifies one row
				return
			}
			if e.role != nil && e.exact != nil && st.P["absent:"+e.role.name] == e.role.key(e.exact) {
				st.dead = true // found absent before, and not inserted since
				return
			}
			gset(st, "delivered", cur, mkBool(true))
			row := o.vals[0]
			st.assume(mkEq(row, mkNil(row.typ)), false)
			gset(st, "cursor", row, cur)
			gset(st, "last", cur, row)
			e.row = row
			if e.role != nil && e.exact != nil {
				st.P["found:"+e.role.name] = e.role.key(e.exact)
				setG(st, "#found:"+e.role.name, "yes")
			}
		} else if o.kind == "eof" {
			gset(st, "ended", cur, mkBool(true))
			if e.role != nil && e.exact != nil && gget(st, "delivered", cur) == nil {
				if st.P["found:"+e.role.name] == e.role.key(e.exact) {
					st.dead = true // found before, and not deleted since
					return
				}
				st.P["absent:"+e.role.name] = e.role.key(e.exact)
				setG(st, "#absent:"+e.role.name, "yes")
			}
		}
	case "storage.Rows.Current":
		e.op = "current"
		fill(k.Args[0])
		if o.kind == "ok" {
			gset(st, "of", o.vals[0], k.Args[0])
		}
	case "storage.Rows.Close":
		e.op = "close"
		fill(k.Args[0])
	case "storage.RowRef.Update":
		e.op = "update"
		if cur := gget(st, "of", k.Args[0]); cur != nil {
			fill(cur)
		}
		if v := k.Args[3]; v.isApp("typedvals") && k.Args[2].isApp("typedcols") && k.Args[2].args[0] == v.args[0] {
			e.upd = v.args[0]
		}
	case "storage.RowRef.Delete":
		e.op = "delete"
		if cur := gget(st, "of", k.Args[0]); cur != nil {
			fill(cur)
		}
		c.forget(st, "found:")
	case "storage.Table.Insert":
		e.op = "insert"
		e.role = c.roles[strOf(gget(st, "role", k.Args[0]))]
		rows := st.seqOfSlice(k.Args[2])
		e.rows = c.units(rows)
		c.forget(st, "absent:")
	case "storage.Transaction.CreateTable":
		e.op = "create"
	case "storage.Transaction.DropTable":
		e.op = "drop"
	case "storage.Transaction.Commit":
		e.op = "commit"
	case "storage.Transaction.Rollback":
		e.op = "rollback"
	default:
		return
	}
	if fn != nil {
		fn(a, st, e)
	}
}

// forget drops what was found by earlier look-ups.
func (c *catalog) forget(st *State, kind string) {
	for n := range c.roles {
		delete(st.P, kind+n)
		setG(st, "#"+kind+n, "")
	}
}

// units lists the row structures of a sequence of rows (nil when it is not known).
func (c *catalog) units(seq *Term) []*Term {
	switch seq.op {
	case "unit":
		if s := c.rowStruct(seq.args[0]); s != nil {
			return []*Term{s}
		}
	case "cat":
		var out []*Term
		for _, x := range seq.args {
			u := c.units(x)
			if u == nil {
				return nil
			}
			out = append(out, u...)
		}
		return out
	}
	return nil
}

// start prepares an analysis of an engine operation after package initialisation.
func (c *catalog) start(fn *ssa.Function, h *Hooks, name string) (*Analysis, *State, []*Term) {
	a := NewAnalysis(c.p, c.r, h, name)
	st := c.base.clone()
	args := paramSyms(fn)
	for i, x := range args {
		st.P["arg"+itoa(i)] = x
	}
	if len(args) > 0 && fn.Signature.Recv() != nil {
		if _, ok := args[0].typ.Underlying().(*types.Pointer); ok {
			st.assume(mkEq(args[0], mkNil(args[0].typ)), false)
		}
	}
	c.r.entries = append(c.r.entries, name)
	return a, st, args
}

// method finds the implementation of an engine interface method.
func (c *catalog) method(iface, name string) *ssa.Function {
	t := c.p.TypeOf("engine", iface)
	for _, T := range c.p.Impls("engine", t) {
		if fn := c.p.Method(namedOf(T), name); fn != nil && len(fn.Blocks) > 0 {
			return fn
		}
	}
	c.r.ViolateAt("anchor:"+iface+"."+name, token.NoPos, "no implementation of engine.%s.%s found", iface, name)
	return nil
}

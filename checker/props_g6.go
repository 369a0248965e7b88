package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["G06"] = checkG06
}

// colKind is one of the kinds of columns typed tables have.
type colKind struct {
	name   string // Bool ...
	typ    *Term  // the constant of types.ValueType
	val    types.Type
	get    string // reflect.Value getter
	set    string
	sized  bool
	direct bool // null is the field itself being nil
}

type typedConv struct {
	*catalog
	kinds              []*colKind
	ctT                *types.Named
	fType, fSize, fNot int
	fCts, fFlds, fTyp  int
}

func (c *catalog) typedConv() *typedConv {
	t := &typedConv{catalog: c, fType: -1, fSize: -1, fNot: -1}
	t.ctT, _ = c.p.TypeOf("types", "ColumnType").(*types.Named)
	vt := c.p.TypeOf("types", "ValueType")
	if t.ctT == nil || vt == nil {
		c.r.Violate("anchor:ColumnType", posZero, nil, "types.ColumnType or types.ValueType not found")
		return nil
	}
	s := t.ctT.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		switch {
		case types.Identical(ft, vt):
			t.fType = i
		case types.Identical(ft, types.Typ[types.Uint32]):
			t.fSize = i
		case s.Field(i).Name() == "NotNull":
			t.fNot = i
		}
	}
	t.fCts = c.tiField(types.NewSlice(t.ctT))
	t.fFlds = c.tiField(types.NewSlice(types.Typ[types.String]))
	ts := c.tiT.Underlying().(*types.Struct)
	t.fTyp = -1
	for i := 0; i < ts.NumFields(); i++ {
		if n := namedOf(ts.Field(i).Type()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Type" {
			t.fTyp = i
		}
	}
	if t.fType < 0 || t.fSize < 0 || t.fNot < 0 || t.fCts < 0 || t.fFlds < 0 || t.fTyp < 0 {
		c.r.Violate("anchor:ColumnType", posZero, nil, "types.ColumnType or engine.TypedInfo is not as expected")
		return nil
	}
	for _, k := range []*colKind{
		{name: "Bool", get: "Bool", set: "SetBool"},
		{name: "String", get: "String", set: "SetString", sized: true},
		{name: "Bytes", get: "Bytes", set: "SetBytes", sized: true, direct: true},
		{name: "Float64", get: "Float", set: "SetFloat"},
		{name: "Int64", get: "Int", set: "SetInt"},
	} {
		cn, ok := c.p.Lookup("types", k.name+"Type").(*types.Const)
		k.val = c.p.TypeOf("types", k.name+"Value")
		if !ok || k.val == nil {
			c.r.Violate("anchor:"+k.name, posZero, nil, "types.%sType or types.%sValue not found", k.name, k.name)
			return nil
		}
		k.typ = mkConst(cn.Val(), cn.Type())
		t.kinds = append(t.kinds, k)
	}
	return t
}

// kindOf is the kind a column is known to have on this path (nil: not known; none: known to be
// no kind at all).
func (t *typedConv) kindOf(st *State, ct *Term) (k *colKind, none bool) {
	none = true
	for _, k := range t.kinds {
		e := st.eval(mkEq(mkField(ct, t.fType), k.typ))
		if e.isTrue() {
			return k, false
		}
		if !e.isFalse() {
			none = false
		}
	}
	return nil, none
}

func rv(name string, typ types.Type, args ...*Term) *Term {
	return mkApp("reflect.Value."+name, typ, args...)
}

// isRv takes a reflect.Value method result apart.
func isRv(x *Term, name string) bool { return x.isApp("reflect.Value." + name) }

// structVal reports whether v is the structure the interface x points to.
func structVal(st *State, v, x *Term) bool {
	if isRv(v, "Elem") || v.isApp("reflect.Indirect") {
		v = v.args[0]
		return v.isApp("reflect.ValueOf") && v.args[0] == st.eval(x)
	}
	return false
}

// isField reports whether v is the given field of the structure x points to.
func isRField(st *State, v, x, i *Term) bool {
	return isRv(v, "Field") && structVal(st, v.args[0], x) && st.isTrue(mkEq(v.args[1], i))
}

// bare removes conversions that keep the value.
func bare(x *Term, t types.Type) *Term {
	for x.op == "app" && isConv(x) && types.Identical(x.typ.Underlying(), t.Underlying()) {
		x = x.args[0]
	}
	return x
}

func isConv(x *Term) bool {
	return strings.HasPrefix(x.aux, "conv:") || strings.HasPrefix(x.aux, "widen:")
}

// isCopy reports whether x is a fresh copy of y.
func isCopy(st *State, x, y *Term) bool {
	if x.isNil() {
		return st.eval(mkEq(y, mkNil(y.typ))).isTrue()
	}
	b, _ := sliceParts(x)
	return rootOf(b).op == "obj" && st.seqOfSlice(x) == st.seqOfSlice(y)
}

// converted reports how a value stored for field f of a structure under column type ct is wrong.
func (t *typedConv) converted(st *State, ct *Term, isF func(v *Term) bool, v *Term) string {
	k, _ := t.kindOf(st, ct)
	not := st.eval(mkField(ct, t.fNot))
	v = st.eval(v)
	if v.isNil() {
		if !not.isFalse() {
			return "null is stored for a column that does not allow it"
		}
		// some field must be known to be nil
		ok := false
		for a, b := range st.bools {
			if b && isRv(a, "IsNil") && isF(a.args[0]) {
				ok = true
			}
		}
		if !ok {
			return "null is stored for a field that is not nil"
		}
		return ""
	}
	if k == nil {
		return "a value is stored for a column whose type is not known"
	}
	if v.op != "iface" || !types.Identical(v.dyn(), k.val) {
		return "a " + k.name + " column gets a value of another type: " + v.String()
	}
	g := v.args[0]
	var src *Term
	if k.direct {
		// the payload is a copy: find what it copies
		for _, f := range t.getters(st, g, k) {
			src = f
		}
		if src == nil {
			return "the bytes stored are not a copy of the field's"
		}
	} else {
		g = bare(g, k.val)
		if !isRv(g, k.get) {
			return "the value stored is not the field's: " + g.String()
		}
		src = g
	}
	fv := src.args[0]
	switch {
	case k.direct || not.isTrue():
		if !isF(fv) {
			return "the value stored is that of another field: " + fv.String()
		}
	case !not.isFalse():
		return "the value is stored without knowing whether the column can be null"
	default:
		if !(isRv(fv, "Elem") && isF(fv.args[0])) {
			return "the value stored is not what the field points to: " + fv.String()
		}
	}
	if !not.isTrue() && k.direct || !k.direct && not.isFalse() {
		f := fv
		if !k.direct {
			f = fv.args[0]
		}
		e := st.eval(rv("IsNil", types.Typ[types.Bool], f))
		if !e.isFalse() && !(k.direct && st.eval(mkEq(src, mkNil(src.typ))).isFalse()) {
			return "a value is stored although the field may be nil"
		}
	}
	if k.sized {
		size := mkField(ct, t.fSize)
		if !st.eval(mkEq(src, mkNil(src.typ))).isTrue() && !t.within(st, src, size) {
			return "a value may be longer than its column"
		}
	}
	return ""
}

// within reports whether the length of x is known not to exceed size.
func (t *typedConv) within(st *State, x, size *Term) bool {
	for _, ln := range []*Term{mkLen(x), rv("Len", types.Typ[types.Int], x.args[0])} {
		if st.isFalse(mkLt(size, ln)) {
			return true
		}
		for _, conv := range []types.Type{types.Typ[types.Int], types.Typ[types.Int64], types.Typ[types.Uint64]} {
			if st.isFalse(mkLt(mkApp("widen:"+typeKey(conv), conv, size), ln)) {
				return true
			}
		}
	}
	return false
}

// getters finds the getter calls a payload is a copy of.
func (t *typedConv) getters(st *State, g *Term, k *colKind) []*Term {
	var out []*Term
	if g.isNil() {
		for a, b := range st.bools {
			if b && a.op == "eq" {
				for _, x := range a.args {
					if isRv(x, k.get) {
						out = append(out, x)
					}
				}
			}
		}
		return out
	}
	b, _ := sliceParts(g)
	if rootOf(b).op != "obj" {
		return nil
	}
	sq := st.seqOfSlice(g)
	walkTerm(sq, map[*Term]bool{}, func(x *Term) {
		if isRv(x, k.get) && st.seqOfSlice(x) == sq {
			out = append(out, x)
		}
	})
	return out
}

// common models what the conversions call.
func (t *typedConv) calls(set func(a *Analysis, st *State, ev *Call, n string)) func(a *Analysis, st *State, ev *Call) ([]Out, bool) {
	return func(a *Analysis, st *State, ev *Call) ([]Out, bool) {
		if ev.Fn == nil {
			return nil, false
		}
		n := fnName(ev.Fn)
		switch {
		case n == "reflect.New":
			o := mkObj(types.NewPointer(types.Typ[types.Int]), "new")
			return []Out{{St: st, Ret: mkApp("reflect.New", ev.Sig.Results().At(0).Type(), ev.Args[0], o)}}, true
		case n == "reflect.Indirect":
			return []Out{{St: st, Ret: rv("Elem", ev.Sig.Results().At(0).Type(), ev.Args[0])}}, true
		case strings.HasPrefix(n, "reflect.Value.Set"):
			if set != nil {
				set(a, st, ev, strings.TrimPrefix(n, "reflect.Value."))
			}
			return []Out{{St: st, Ret: freshResult(ev.Sig, n)}}, true
		case n == "slices.Index":
			x, v := ev.Args[0], ev.Args[1]
			no := st.clone()
			i := mkSym(types.Typ[types.Int], "index")
			st.assume(mkLt(i, mkInt(0)), false)
			st.assume(mkLt(i, mkLen(x)), true)
			st.assume(mkEq(elemAt(st, x, i), v), true)
			return []Out{{St: st, Ret: i}, {St: no, Ret: mkInt(-1)}}, true
		}
		return nil, false
	}
}

func (t *typedConv) inline(fn *ssa.Function) bool { return t.p.IsRepo(fn) }

// args finds the arguments of a conversion by type.
func (t *typedConv) argsOf(args []*Term) (ti, row, x *Term) {
	for _, y := range args {
		switch {
		case types.Identical(y.typ, types.NewPointer(t.tiT)):
			ti = y
		case types.Identical(y.typ, t.rowT):
			row = y
		case isIface(y.typ):
			x = y
		}
	}
	return
}

func (t *typedConv) prep(st *State, ti *Term) {
	st.assume(mkEq(ti, mkNil(ti.typ)), false)
	st.P["cts"] = st.load(fieldAddr(ti, t.fCts), fieldTypeOf(t.tiT, t.fCts))
	st.P["flds"] = st.load(fieldAddr(ti, t.fFlds), fieldTypeOf(t.tiT, t.fFlds))
}

func checkG06(p *Program, r *Report) {
	r.Rule = "the conversions between structures and rows are followed on an unknown structure and one arbitrary column: the value stored for the column is, by its type and nullability, the field of the same index (or what it points to, or null exactly when it is nil), copied if bytes, and only if it is no longer than the column; reading sets exactly the field of the same index from the row's value, through a new object of the field's own type when the column allows null, and to nil when the value is null; a partial structure's fields go to the columns of their names; the description has one column per field, of a type that stands for the field's kind, allowing null exactly when the field is a pointer"
	r.Assume = []string{"package reflect behaves as documented"}
	c := findCatalog(p, r)
	if c == nil {
		return
	}
	t := c.typedConv()
	if t == nil {
		return
	}
	for _, fn := range p.Funcs("engine") {
		if o := debugOnly(); o != "" && c.conv[fn] != o {
			continue
		}
		switch c.conv[fn] {
		case "toRow":
			t.toRow(fn)
		case "fromRow":
			t.fromRowCheck(fn)
		case "toCols":
			t.toCols(fn)
		}
	}
	if o := debugOnly(); o == "" || o == "describe" {
		t.describe(p.Func("engine", "MakeTypedInfo"))
	}
	for _, k := range t.kinds {
		r.AtLeast("stored: "+k.name, 2)
		r.AtLeast("read: "+k.name, 2)
		r.AtLeast("stored by name: "+k.name, 2)
	}
	r.AtLeast("null stored", 5)
	r.AtLeast("null read", 5)
	r.AtLeast("row complete", 1)
	r.AtLeast("structure complete", 1)
	r.AtLeast("every field given goes to its column", 1)
}

func (t *typedConv) okStored(pre string, st *State, ct, v *Term) {
	if st.eval(v).isNil() {
		t.r.OK("null stored")
	} else if k, _ := t.kindOf(st, ct); k != nil {
		t.r.OK(pre + ": " + k.name)
	}
}

// equals gives the terms known to be equal to the integer k, k first.
func equals(st *State, k *Term) []*Term {
	out := []*Term{k}
	have := map[*Term]bool{k: true}
	for _, f := range st.frames {
		if f.fn == nil {
			continue
		}
		for _, v := range f.env {
			if isInt(v.typ) && !have[v] && st.isTrue(mkEq(v, k)) {
				have[v] = true
				out = append(out, v)
			}
		}
	}
	sort.Slice(out[1:], func(i, j int) bool { return out[1+i].id < out[1+j].id })
	return out
}

func (t *typedConv) toRow(fn *ssa.Function) {
	r := t.r
	name := shortFn(fn)
	w := &witness{name: "w", match: onBase("cts")}
	h := &Hooks{Inline: t.inline}
	h.Call = t.calls(nil)
	h.Instr = steps(w)
	stored := func(a *Analysis, st *State, idx, v *Term) {
		k := st.P["wit:w"]
		here := false
		for _, i := range equals(st, idx) {
			if e := st.eval(mkEq(i, k)); e.isFalse() || st.isTrue(mkLt(i, k)) || st.isTrue(mkLt(k, i)) {
				return
			} else if e.isTrue() {
				here = true
			}
		}
		if !here {
			a.Violate(st, "row-index:"+name, "a value is stored in a column that is not known")
			return
		}
		var ct *Term
		x, bad := st.P["x"], ""
		for _, i := range equals(st, k) {
			ct = elemAt(st, st.P["cts"], i)
			if bad = t.converted(st, ct, func(f *Term) bool { return isRField(st, f, x, k) }, v); bad == "" {
				break
			}
		}
		if bad != "" {
			a.Violate(st, "stored:"+name, "%s", bad)
			return
		}
		setG(st, "#stored", "yes")
		t.okStored("stored", st, ct, v)
	}
	h.Store = func(a *Analysis, st *State, addr, v *Term, in ssa.Instruction) {
		if si, ok := in.(*ssa.Store); ok {
			// the array that holds the arguments of append is no row
			if ia, ok := si.Addr.(*ssa.IndexAddr); ok {
				if _, ok := ia.X.Type().Underlying().(*types.Slice); !ok {
					return
				}
			}
		}
		if addr.op == "iaddr" && types.Identical(derefType(addr.typ), t.valT) {
			st.P["row"] = addr.args[0]
			stored(a, st, addr.args[1], v)
		}
	}
	h.Append = func(a *Analysis, st *State, base, elems, res *Term, in ssa.Instruction) {
		if types.Identical(elemType(res.typ), t.valT) {
			sq := st.seqOfSlice(elems)
			if sq.op != "unit" {
				sq = mkUnit(mkSelect(sq, mkInt(0), t.valT, st), nil)
			}
			stored(a, st, mkLen(base), sq.args[0])
			st.P["row"] = res
		}
	}
	h.Panic = func(a *Analysis, st *State, v *Term) {
		if !seen(st, "w") || gstr(st, "#stored") != "" {
			return
		}
		ct := elemAt(st, st.P["cts"], st.P["wit:w"])
		k, none := t.kindOf(st, ct)
		if none {
			return
		}
		if k == nil || !k.sized {
			a.Violate(st, "store-panic:"+name, "a field of an accepted type is refused")
			return
		}
		size := mkField(ct, t.fSize)
		for a := range st.bools {
			_ = a
		}
		if !t.tooLong(st, k, size) {
			a.Violate(st, "store-panic:"+name, "a %s value is refused although it may fit", k.name)
			return
		}
		r.OK("value too long refused")
	}
	h.Return = func(a *Analysis, st *State, res []*Term) {
		if res[0].isNil() && st.eval(mkEq(st.P["x"], mkNil(st.P["x"].typ))).isTrue() {
			return
		}
		k := st.P["wit:w"]
		b, _ := sliceParts(res[0])
		switch {
		case !seen(st, "w") || gstr(st, "#stored") == "":
			a.Violate(st, "not-stored:"+name, "a row is returned without the value of a column %v %v", seen(st, "w"), st.P)
		case st.P["row"] != b && st.P["row"] != res[0]:
			a.Violate(st, "other-row:"+name, "the row returned is not the one the values were stored in")
		case !st.isTrue(mkEq(mkLen(res[0]), mkLen(st.P["cts"]))):
			a.Violate(st, "row-length:"+name, "the row does not have one value per column")
		default:
			_ = k
			r.OK("row complete")
		}
	}
	a := NewAnalysis(t.p, r, h, name)
	st, args := plainEntry(fn)
	ti, _, x := t.argsOf(args)
	t.prep(st, ti)
	st.P["x"] = x
	w.setup(a, st, mkLen(st.P["cts"]))
	r.entries = append(r.entries, name)
	a.Start(st, fn, args)
	a.Run()
}

// tooLong reports whether some value of the field is known to be longer than the column.
func (t *typedConv) tooLong(st *State, k *colKind, size *Term) bool {
	found := false
	check := func(x *Term) {
		ln := x
		if isRv(x, k.get) {
			ln = mkLen(x)
		} else if !isRv(x, "Len") {
			return
		}
		for _, s := range []*Term{size, mkApp("widen:"+typeKey(types.Typ[types.Int]), types.Typ[types.Int], size)} {
			if st.isTrue(mkLt(s, ln)) {
				found = true
			}
		}
	}
	for _, f := range st.frames {
		for _, v := range f.env {
			walkTerm(v, map[*Term]bool{}, check)
		}
	}
	for d := range st.dbm {
		for _, x := range []*Term{d.x, d.y} {
			if x != nil {
				walkTerm(x, map[*Term]bool{}, check)
			}
		}
	}
	return found
}

func (t *typedConv) fromRowCheck(fn *ssa.Function) {
	r := t.r
	name := shortFn(fn)
	w := &witness{name: "w", match: onBase("cts")}
	h := &Hooks{Inline: t.inline}
	h.Instr = steps(w)
	h.Call = t.calls(func(a *Analysis, st *State, ev *Call, n string) {
		k, x := st.P["wit:w"], st.P["x"]
		target := ev.Args[0]
		// whose field is it?
		f := target
		viaNew := false
		for isRv(f, "Elem") && !structVal(st, f, x) {
			f = f.args[0]
			viaNew = true
		}
		if f.isApp("reflect.New") && st.P["newobj"] == f.args[1] {
			// the object the field points to
			f = rv("Field", f.typ, rv("Elem", f.typ, mkApp("reflect.ValueOf", f.typ, x)), st.P["newidx"])
		}
		if f.isApp("reflect.New") {
			// an object that is not yet the field's
			gset(st, "newval", f.args[1], mkTuple(append([]*Term{mkStr(n)}, ev.Args[1:]...)...))
			return
		}
		if !isRv(f, "Field") || !structVal(st, f.args[0], x) {
			a.Violate(st, "target:"+name+":"+n, "%s sets something that is not a field of the structure: %s", n, target)
			return
		}
		idx := f.args[1]
		e := st.eval(mkEq(idx, k))
		if e.isFalse() || st.isTrue(mkLt(idx, k)) || st.isTrue(mkLt(k, idx)) {
			return
		}
		if !e.isTrue() {
			a.Violate(st, "field-index:"+name, "a field that is not known is set")
			return
		}
		ct := elemAt(st, st.P["cts"], k)
		row := elemAt(st, st.P["row"], k)
		row = st.eval(row)
		not := st.eval(mkField(ct, t.fNot))
		kind, _ := t.kindOf(st, ct)
		null := st.eval(mkEq(row, mkNil(t.valT)))
		args := ev.Args[1:]
		if n == "SetZero" || n == "Set" && args[0].isApp("reflect.Zero") {
			if viaNew || !not.isFalse() || !null.isTrue() {
				a.Violate(st, "zeroed:"+name, "a field is cleared although the value is not known to be null")
				return
			}
			setG(st, "#set", "yes")
			for range t.kinds {
				r.OK("null read")
			}
			return
		}
		bytesKind := t.kinds[2]
		known := kind != nil || n == "Set" && st.isFalse(mkEq(mkField(ct, t.fType), bytesKind.typ))
		if !known {
			a.Violate(st, "read-kind:"+name, "a field is set for a column whose type is not known")
			return
		}
		complete := func(n string, v *Term) {
			if n != kind.set {
				a.Violate(st, "setter:"+name+":"+kind.name, "a %s column is read with %s", kind.name, n)
				return
			}
			if kind.direct {
				if !isCopy(st, v, mkPayload(kind.val, row)) {
					a.Violate(st, "shared:"+name, "the bytes read are not a copy of the row's")
					return
				}
			} else if bare(v, v.typ) != mkPayload(kind.val, row) {
				a.Violate(st, "read-value:"+name+":"+kind.name, "the field is not set to the row's value: %s", v)
				return
			}
			setG(st, "#set", "yes")
			r.OK("read: " + kind.name)
		}
		if n == "Set" {
			v, kn := args[0], "?"
			if kind != nil {
				kn = kind.name
			}
			if !v.isApp("reflect.New") || viaNew {
				a.Violate(st, "pointer-type:"+name+":"+kn, "a field is set to an object that need not have its type: %s", v)
				return
			}
			if et := v.args[0]; !(et.isApp("reflect.Type.Elem") && isRv(et.args[0], "Type") && isRField(st, et.args[0].args[0], x, k) ||
				et.isApp("reflect.Type.Elem") && isTypeField(et.args[0], k, st)) || !not.isFalse() || kind != nil && kind.direct {
				a.Violate(st, "pointer-type:"+name+":"+kn, "a field is set to an object that need not have its type")
				return
			}
			setG(st, "#new", "yes")
			st.P["newobj"], st.P["newidx"] = v.args[1], idx
			if nv := gget(st, "newval", v.args[1]); nv != nil {
				if kind == nil {
					a.Violate(st, "read-kind:"+name, "a field is set for a column whose type is not known")
					return
				}
				complete(strOf(nv.args[0]), nv.args[1])
			}
			return
		}
		switch {
		case viaNew && gstr(st, "#new") == "":
			a.Violate(st, "through-nil:"+name, "a value is stored through a pointer that may be nil")
			return
		case !viaNew && !kind.direct && !not.isTrue():
			a.Violate(st, "not-pointer:"+name, "a field that is a pointer is set as if it were not")
			return
		case viaNew && (kind.direct || !not.isFalse()):
			a.Violate(st, "not-pointer:"+name, "a field that is no pointer is set as if it were")
			return
		}
		complete(n, args[0])
	})
	h.Panic = func(a *Analysis, st *State, v *Term) {
		if !seen(st, "w") || gstr(st, "#set") != "" {
			return
		}
		k := st.P["wit:w"]
		ct, row := elemAt(st, st.P["cts"], k), elemAt(st, st.P["row"], k)
		kind, none := t.kindOf(st, ct)
		if none || kind != nil && st.isFalse(mkTypeIs(row, kind.val)) ||
			st.eval(mkEq(row, mkNil(t.valT))).isTrue() && st.eval(mkField(ct, t.fNot)).isTrue() {
			r.OK("value of another type refused")
			return
		}
		a.Violate(st, "read-panic:"+name, "a value of the column's type is refused")
	}
	h.Return = func(a *Analysis, st *State, res []*Term) {
		if !seen(st, "w") || gstr(st, "#set") == "" {
			a.Violate(st, "not-set:"+name, "a field is left as it was")
			return
		}
		r.OK("structure complete")
	}
	a := NewAnalysis(t.p, r, h, name)
	st, args := plainEntry(fn)
	ti, row, x := t.argsOf(args)
	t.prep(st, ti)
	st.P["x"], st.P["row"] = x, row
	st.assume(mkEq(mkLen(row), mkLen(st.P["cts"])), true)
	w.setup(a, st, mkLen(st.P["cts"]))
	r.entries = append(r.entries, name)
	a.Start(st, fn, args)
	a.Run()
}

// isTypeField reports whether x is the type of the k-th field of some structure type.
func isTypeField(x, k *Term, st *State) bool {
	return x.op == "field" && x.args[0].isApp("reflect.Type.Field") && st.isTrue(mkEq(x.args[0].args[1], k))
}

// perField follows code that takes the fields of a structure type in order: lists name the
// slices that must get exactly one element per field.
type perField struct {
	t     *typedConv
	name  string
	fn    *ssa.Function
	lists []types.Type
	elem  func(a *Analysis, st *State, list int, idx, v *Term)
	end   func(a *Analysis, st *State) // of a field
}

func (pf *perField) endField(a *Analysis, st *State) {
	if st.P["fidx"] == nil {
		return
	}
	if len(pf.lists) > 0 && gstr(st, "#n0") == "over" {
		return
	}
	for i, lt := range pf.lists {
		if gstr(st, "#n"+itoa(i)) != "1" {
			a.Violate(st, "per-field:"+pf.name+":"+shortType(lt), "a field does not get exactly one element of %s", shortType(lt))
			return
		}
	}
	if pf.end != nil {
		pf.end(a, st)
	}
}

// atHeader forgets what is known about the fields done: each field is taken on its own.
func (pf *perField) atHeader(a *Analysis, st *State, b *ssa.BasicBlock) {
	f := st.P["fidx"]
	if f == nil || b.Parent() != pf.fn || len(st.frames) != 1 {
		return
	}
	for h, body := range a.liveness(pf.fn).header {
		if h != b && body[b] {
			return
		}
	}
	for i := range pf.lists {
		if n := gstr(st, "#n"+itoa(i)); n != "1" {
			return
		}
	}
	pf.endField(a, st)
	for i := range pf.lists {
		setG(st, "#n"+itoa(i), "over")
	}
	about := func(x *Term) bool {
		found := false
		walkTerm(x, map[*Term]bool{}, func(y *Term) {
			if y.isApp("reflect.Type.Field") || y.isApp("reflect.Value.Field") {
				found = true
			}
		})
		return found
	}
	for k := range st.bools {
		if about(k) {
			delete(st.bools, k)
		}
	}
	for d := range st.dbm {
		if d.x != nil && about(d.x) || d.y != nil && about(d.y) {
			delete(st.dbm, d)
		}
	}
	for k := range st.heap {
		if about(k) {
			delete(st.heap, k)
		}
	}
}

func (pf *perField) hooks(h *Hooks) {
	h.Header = pf.atHeader
	inner := h.Call
	h.Call = func(a *Analysis, st *State, ev *Call) ([]Out, bool) {
		if ev.Fn == nil && ev.Method != nil && relPkg(methName(ev.Method)) == "reflect.Type.NumField" {
			st.P["num"] = mkApp("reflect.Type.NumField", types.Typ[types.Int], ev.Args[0])
		}
		if ev.Fn == nil && ev.Method != nil && relPkg(methName(ev.Method)) == "reflect.Type.Field" {
			idx := ev.Args[1]
			prev := st.P["fidx"]
			switch {
			case prev != nil && st.isTrue(mkEq(prev, idx)):
			case prev == nil && !st.isTrue(mkEq(idx, mkInt(0))), prev != nil && !st.isTrue(mkEq(idx, mkAddConst(prev, 1))):
				a.Violate(st, "order:"+pf.name, "the fields are not taken one after the other")
			default:
				pf.endField(a, st)
				st.P["fidx"] = idx
				for i := range pf.lists {
					setG(st, "#n"+itoa(i), "0")
				}
			}
		}
		return inner(a, st, ev)
	}
	h.Append = func(a *Analysis, st *State, base, elems, res *Term, in ssa.Instruction) {
		for i, lt := range pf.lists {
			if !types.Identical(elemType(res.typ), lt) {
				continue
			}
			k := "list" + itoa(i)
			if st.P["fidx"] == nil || gstr(st, "#n"+itoa(i)) != "0" {
				a.Violate(st, "per-field:"+pf.name+":"+shortType(lt), "a field gets more than one element of %s", shortType(lt))
				return
			}
			if st.P[k] == nil && !st.isTrue(mkEq(mkLen(base), mkInt(0))) || st.P[k] != nil && st.P[k] != base {
				a.Violate(st, "list:"+pf.name+":"+shortType(lt), "elements of %s are lost", shortType(lt))
				return
			}
			sq := st.seqOfSlice(elems)
			if n, ok := mkLen(elems).constInt(); !ok || n != 1 {
				a.Violate(st, "per-field:"+pf.name+":"+shortType(lt), "a field gets more than one element of %s", shortType(lt))
				return
			}
			setG(st, "#n"+itoa(i), "1")
			st.P[k] = res
			pf.elem(a, st, i, st.P["fidx"], mkSelect(sq, mkInt(0), lt, st))
		}
	}
}

// complete reports whether all fields of the type have been taken.
func (pf *perField) complete(a *Analysis, st *State) bool {
	pf.endField(a, st)
	n, num := st.P["fidx"], st.P["num"]
	if num == nil {
		return false
	}
	if n == nil {
		return st.isFalse(mkLt(mkInt(0), num))
	}
	return st.isFalse(mkLt(mkAddConst(n, 1), num))
}

func (t *typedConv) toCols(fn *ssa.Function) {
	r := t.r
	name := shortFn(fn)
	h := &Hooks{Inline: t.inline}
	h.Call = t.calls(nil)
	colT := t.p.TypeOf("types", "ColumnNum")
	strT := types.Typ[types.String]
	pf := &perField{t: t, name: name, fn: fn, lists: []types.Type{colT, t.valT}}
	// column numbers known to be the field's column
	isCol := func(st *State, k, idx *Term) bool {
		nm := elemAt(st, st.P["flds"], k)
		// the name of field idx of the structure's type
		for _, b := range sortedBoolKeys(st.bools) {
			if !st.bools[b] || b.op != "eq" {
				continue
			}
			for i := 0; i < 2; i++ {
				x, y := b.args[i], b.args[1-i]
				if x == nm && isName(y, idx, st) {
					return true
				}
			}
		}
		return isName(st.eval(nm), idx, st)
	}
	_ = strT
	pf.elem = func(a *Analysis, st *State, list int, idx, v *Term) {
		switch list {
		case 0:
			k := v
			for k.op == "app" && isConv(k) {
				k = k.args[0]
			}
			if !isCol(st, k, idx) {
				a.Violate(st, "column:"+name, "a field goes to a column that does not have its name: %s", v)
				return
			}
			st.P["col"] = k
		case 1:
			// the column type used must be that of a column with the field's name
			good := ""
			bad := "the value is not converted for the field's column"
			seenCt := map[*Term]bool{}
			cts := st.P["cts"]
			base, _ := sliceParts(cts)
			_ = base
			try := func(x *Term) {
				if x.op == "select" && types.Identical(x.typ, t.ctT) && !seenCt[x] && good == "" {
					seenCt[x] = true
					if !isCol(st, x.args[1], idx) {
						return
					}
					if b := t.converted(st, x, func(f *Term) bool { return isRField(st, f, st.P["x"], idx) }, v); b == "" {
						good = "yes"
						t.okStored("stored by name", st, x, v)
					} else {
						bad = b
					}
				}
			}
			if k := st.P["col"]; k != nil {
				try(elemAt(st, cts, k))
			}
			// the columns known to have the field's name
			for _, b := range sortedBoolKeys(st.bools) {
				if st.bools[b] && b.op == "eq" {
					for _, x := range b.args {
						if x.op == "select" && isString(x.typ) {
							try(elemAt(st, cts, x.args[1]))
						}
					}
				}
			}
			if good == "" {
				a.Violate(st, "stored:"+name, "%s", bad)
			}
		}
	}
	pf.hooks(h)
	h.Return = func(a *Analysis, st *State, res []*Term) {
		if !pf.complete(a, st) {
			a.Violate(st, "incomplete:"+name, "not every field given goes to a column")
			return
		}
		for i, x := range res {
			if l := st.P["list"+itoa(i)]; l != nil && l != x || l == nil && !st.isTrue(mkEq(mkLen(x), mkInt(0))) {
				a.Violate(st, "result:"+name, "what is returned is not what was collected")
				return
			}
		}
		r.OK("every field given goes to its column")
	}
	a := NewAnalysis(t.p, r, h, name)
	st, args := plainEntry(fn)
	ti, _, x := t.argsOf(args)
	t.prep(st, ti)
	st.P["x"] = x
	r.entries = append(r.entries, name)
	a.Start(st, fn, args)
	a.Run()
}

// isName reports whether x is the name of field idx of a structure type.
func isName(x, idx *Term, st *State) bool {
	return x.op == "field" && x.args[0].isApp("reflect.Type.Field") && isString(x.typ) && st.isTrue(mkEq(x.args[0].args[1], idx))
}

func (t *typedConv) describe(fn *ssa.Function) {
	r := t.r
	if fn == nil {
		r.ViolateAt("anchor:MakeTypedInfo", token.NoPos, "engine.MakeTypedInfo not found")
		return
	}
	name := shortFn(fn)
	kinds := map[string]*Term{}
	var kt types.Type
	for _, pk := range t.p.Prog.AllPackages() {
		if pk.Pkg.Path() != "reflect" {
			continue
		}
		for _, n := range []string{"Bool", "Int", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Slice", "String", "Pointer", "Uint8"} {
			if k, ok := pk.Pkg.Scope().Lookup(n).(*types.Const); ok {
				kinds[n] = mkConst(k.Val(), k.Type())
				kt = k.Type()
			}
		}
	}
	if len(kinds) < 12 {
		r.ViolateAt("anchor:reflect", token.NoPos, "the kinds of package reflect are not known")
		return
	}
	want := map[string]string{"Bool": "Bool", "Int": "Int64", "Int8": "Int64", "Int16": "Int64", "Int32": "Int64", "Int64": "Int64",
		"Float32": "Float64", "Float64": "Float64", "Slice": "Bytes", "String": "String"}
	keyT := t.p.TypeOf("types", "ColumnKey")
	h := &Hooks{}
	h.Inline = func(f *ssa.Function) bool {
		if !t.p.IsRepo(f) || hasLoop(f) {
			return false
		}
		return f.Pkg == fn.Pkg
	}
	common := t.calls(nil)
	h.Call = func(a *Analysis, st *State, ev *Call) ([]Out, bool) {
		if ev.Fn != nil && keyT != nil && len(ev.Args) == 2 && ev.Sig.Results().Len() == 1 && types.Identical(ev.Sig.Results().At(0).Type(), keyT) {
			// V03: a key gives back the column and the direction it was made of
			return []Out{{St: st, Ret: mkApp("key", keyT, ev.Args...)}}, true
		}
		return common(a, st, ev)
	}
	pf := &perField{t: t, name: name, fn: fn, lists: []types.Type{t.idT, t.ctT, types.Typ[types.String]}}
	pf.elem = func(a *Analysis, st *State, list int, idx, v *Term) {
		switch list {
		case 2:
			if !isName(st.eval(v), idx, st) {
				a.Violate(st, "field-name:"+name, "what is kept as the name of a field is not its name: %s", v)
			}
		case 1:
			t.columnType(a, st, name, kinds, kt, want, idx, v)
		}
	}
	pf.end = func(a *Analysis, st *State) {
		tag, has := st.P["tag"], gstr(st, "#primary") != ""
		if tag == nil {
			a.Violate(st, "primary:"+name, "the primary tag of a field is not looked at")
			return
		}
		e := st.eval(tag)
		if !e.isBoolConst() || e.isTrue() != has {
			a.Violate(st, "primary:"+name, "the primary key does not hold exactly the columns tagged so")
			return
		}
		delete(st.P, "tag")
		setG(st, "#primary", "")
		r.OK("primary key as tagged")
	}
	h.LookupMap = func(a *Analysis, st *State, m, k *Term, in *ssa.Lookup) (*Term, *Term, bool) {
		if strOf(k) != "primary" {
			return nil, nil, false
		}
		has := mkApp("tagged", types.Typ[types.Bool], m)
		st.P["tag"] = has
		return mkApp("tag", types.Typ[types.String], m), has, true
	}
	pf.hooks(h)
	app := h.Append
	h.Append = func(a *Analysis, st *State, base, elems, res *Term, in ssa.Instruction) {
		app(a, st, base, elems, res, in)
		if keyT == nil || !types.Identical(elemType(res.typ), keyT) {
			return
		}
		sq := st.seqOfSlice(elems)
		v := mkSelect(sq, mkInt(0), keyT, st)
		idx := st.P["fidx"]
		if n, ok := mkLen(elems).constInt(); !ok || n != 1 || gstr(st, "#primary") != "" || idx == nil || !keyOf(st, v, idx) {
			a.Violate(st, "primary:"+name, "what is added to the primary key is not the column: %s", v)
			return
		}
		if l := st.P["keys"]; l != nil && l != base || l == nil && !st.isTrue(mkEq(mkLen(base), mkInt(0))) {
			a.Violate(st, "primary:"+name, "columns of the primary key are lost")
			return
		}
		st.P["keys"] = res
		setG(st, "#primary", "yes")
	}
	h.Return = func(a *Analysis, st *State, res []*Term) {
		if !pf.complete(a, st) {
			a.Violate(st, "incomplete:"+name, "not every field gets a column")
			return
		}
		o := res[0]
		get := func(f int) *Term { return st.load(fieldAddr(o, f), fieldTypeOf(t.tiT, f)) }
		ts := t.tiT.Underlying().(*types.Struct)
		for i := 0; i < ts.NumFields(); i++ {
			s, ok := ts.Field(i).Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			l, known := st.P["keys"], types.Identical(s.Elem(), keyT)
			for j, lt := range pf.lists {
				if types.Identical(s.Elem(), lt) {
					l, known = st.P["list"+itoa(j)], true
				}
			}
			x := get(i)
			if known && (l != nil && x != l || l == nil && !st.isTrue(mkEq(mkLen(x), mkInt(0)))) {
				a.Violate(st, "result:"+name, "the description does not hold what was collected")
				return
			}
		}
		if get(t.fTid) != st.P["tid"] || get(t.fTn) != st.P["tn"] {
			a.Violate(st, "result-name:"+name, "the description does not hold the id and name given")
			return
		}
		r.OK("description complete")
	}
	a := NewAnalysis(t.p, r, h, name)
	st, args := plainEntry(fn)
	tiS := t.tiT.Underlying().(*types.Struct)
	for _, x := range args {
		switch {
		case types.Identical(x.typ, tiS.Field(t.fTid).Type()):
			st.P["tid"] = x
		case types.Identical(x.typ, tiS.Field(t.fTn).Type()):
			st.P["tn"] = x
		}
	}
	r.entries = append(r.entries, name)
	a.Start(st, fn, args)
	a.Run()
	for k := range want {
		r.AtLeast("described: "+k, 1)
		if k != "Slice" {
			r.AtLeast("described: pointer to "+k, 1)
		}
	}
	r.AtLeast("primary key as tagged", 2)
	r.AtLeast("description complete", 1)
}

func hasLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// keyOf reports whether v is the ascending key of column idx.
func keyOf(st *State, v, idx *Term) bool {
	if !v.isApp("key") {
		return false
	}
	c := v.args[0]
	for c.op == "app" && isConv(c) {
		c = c.args[0]
	}
	return st.isTrue(mkEq(c, idx)) && st.eval(v.args[1]).isFalse()
}

// columnType checks the type made for a column against the field's.
func (t *typedConv) columnType(a *Analysis, st *State, name string, kinds map[string]*Term, kt types.Type, want map[string]string, idx, v *Term) {
	r := t.r
	// the field's type, or what it points to
	var ft *Term
	find := func(x *Term) {
		if x.op == "field" && x.args[0].isApp("reflect.Type.Field") && st.isTrue(mkEq(x.args[0].args[1], idx)) && isIface(x.typ) {
			ft = x
		}
	}
	for _, b := range sortedBoolKeys(st.bools) {
		walkTerm(b, map[*Term]bool{}, find)
	}
	for d := range st.dbm {
		for _, x := range []*Term{d.x, d.y} {
			if x != nil {
				walkTerm(x, map[*Term]bool{}, find)
			}
		}
	}
	if ft == nil {
		a.Violate(st, "kind:"+name, "a column is described without looking at the field's type")
		return
	}
	kindOf := func(x *Term) *Term { return mkApp("reflect.Type.Kind", kt, x) }
	ptr := st.eval(mkEq(kindOf(ft), kinds["Pointer"]))
	if !ptr.isBoolConst() {
		// a switch may have decided the kind directly
		for _, n := range sortedKindNames(want) {
			if st.eval(mkEq(kindOf(ft), kinds[n])).isTrue() {
				ptr = mkBool(false)
			}
		}
	}
	e := ft
	if ptr.isTrue() {
		e = mkApp("reflect.Type.Elem", ft.typ, ft)
	}
	k := ""
	for _, n := range sortedKindNames(want) {
		if st.eval(mkEq(kindOf(e), kinds[n])).isTrue() {
			k = n
		}
	}
	if k == "" || !ptr.isBoolConst() {
		a.Violate(st, "kind:"+name, "a column is described for a field of unknown kind")
		return
	}
	var wt *Term
	for _, c := range t.kinds {
		if c.name == want[k] {
			wt = c.typ
		}
	}
	not := st.eval(mkField(v, t.fNot))
	switch {
	case mkField(v, t.fType) != wt:
		a.Violate(st, "type:"+name+":"+k, "a %s field gets a column of another type: %s", k, mkField(v, t.fType))
	case k == "Slice" && ptr.isTrue():
		a.Violate(st, "slice:"+name, "a pointer to a slice is accepted")
	case k == "Slice" && !st.eval(mkEq(kindOf(mkApp("reflect.Type.Elem", ft.typ, e)), kinds["Uint8"])).isTrue():
		a.Violate(st, "slice:"+name, "a slice of something else than bytes is accepted")
	case want[k] == "Int64" && !sizeOf(st, mkField(v, t.fSize), e):
		a.Violate(st, "size:"+name+":"+k, "the size of a column is not that of its %s field: %s", k, mkField(v, t.fSize))
	case k != "Slice" && not != mkBool(!ptr.isTrue()):
		a.Violate(st, "null:"+name+":"+k, "a column does not allow null exactly when its field is a pointer")
	default:
		if ptr.isTrue() {
			r.OK("described: pointer to " + k)
		} else {
			r.OK("described: " + k)
		}
	}
}

// sizeOf reports whether x is the size of type e.
func sizeOf(st *State, x, e *Term) bool {
	for x.op == "app" && isConv(x) {
		x = x.args[0]
	}
	return x.isApp("reflect.Type.Size") && x.args[0] == e
}

func sortedKindNames(m map[string]string) []string {
	x := map[string]bool{}
	for k := range m {
		x[k] = true
	}
	return sortedStrings(x)
}

var _ = constant.MakeInt64

package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["V01"] = checkV01
	checks["V02"] = checkV02
	checks["V03"] = checkV03
}

// valueKinds are the concrete types implementing types.Value, by basic kind.
type valueKinds struct {
	p                                 *Program
	iface                             types.Type
	all                               []types.Type
	boolT, intT, floatT, strT, bytesT types.Type
}

func findValueKinds(p *Program, r *Report) *valueKinds {
	k := &valueKinds{p: p, iface: p.TypeOf("types", "Value")}
	if k.iface == nil {
		r.Violate("anchor:Value", posZero, nil, "types.Value not found")
		return nil
	}
	k.all = p.Impls("types", k.iface)
	for _, t := range k.all {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Kind() == types.Bool:
				k.boolT = t
			case u.Kind() == types.Int64:
				k.intT = t
			case u.Kind() == types.Float64:
				k.floatT = t
			case u.Kind() == types.String:
				k.strT = t
			}
		case *types.Slice:
			k.bytesT = t
		}
	}
	if k.boolT == nil || k.intT == nil || k.floatT == nil || k.strT == nil || k.bytesT == nil || len(k.all) != 5 {
		r.Violate("anchor:kinds", posZero, nil, "the five kinds of value were not recognised among %d types", len(k.all))
		return nil
	}
	return k
}

// scenario fixes how two payloads compare: a sign, or NaN on one side or both.
type scenario struct {
	a, b       *Term
	sign       int
	nanA, nanB bool
	name       string
}

// peel removes conversions that keep a value (of the same kind, or an integer to a float on
// one side only, which keeps the assumed order as far as the sign goes).
func peel(t *Term) *Term {
	for {
		switch {
		case t.op == "app" && len(t.args) == 1 && len(t.aux) > 5 && (t.aux[:5] == "conv:" || t.aux[:6] == "widen:"):
			t = t.args[0]
		case t.op == "snap":
			t = t.args[0]
		case t.isApp("tostring"):
			t = t.args[0]
		case t.op == "sl":
			if n, ok := t.args[1].constInt(); ok && n == 0 && mkLen(t.args[0]) == t.args[2] {
				t = t.args[0]
				continue
			}
			return t
		default:
			return t
		}
	}
}

// side tells which payload a term is: 1, 2 or 0.
func (s *scenario) side(t *Term) int {
	switch peel(t) {
	case s.a:
		return 1
	case s.b:
		return 2
	}
	return 0
}

func (s *scenario) nan(side int) bool { return side == 1 && s.nanA || side == 2 && s.nanB }

// order gives the sign of x compared with y and whether either is NaN.
func (s *scenario) order(x, y *Term) (sign int, nan, known bool) {
	sx, sy := s.side(x), s.side(y)
	if sx == 0 || sy == 0 {
		return 0, false, false
	}
	nan = s.nan(sx) || s.nan(sy)
	switch {
	case sx == sy:
		return 0, nan, true
	case sx == 1:
		return s.sign, nan, true
	}
	return -s.sign, nan, true
}

func (s *scenario) value(a *Analysis, st *State, in ssa.Value, ops []*Term) []*Term {
	b, ok := in.(*ssa.BinOp)
	if !ok {
		return nil
	}
	if isBoolType(b.X.Type()) {
		return nil
	}
	sign, nan, known := s.order(ops[0], ops[1])
	if !known {
		return nil
	}
	var v bool
	switch b.Op {
	case token.LSS:
		v = !nan && sign < 0
	case token.GTR:
		v = !nan && sign > 0
	case token.LEQ:
		v = !nan && sign <= 0
	case token.GEQ:
		v = !nan && sign >= 0
	case token.EQL:
		v = !nan && sign == 0
	case token.NEQ:
		v = nan || sign != 0
	default:
		return nil
	}
	return []*Term{mkBool(v)}
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (s *scenario) call(a *Analysis, st *State, c *Call) ([]Out, bool) {
	switch c.Name() {
	case "bytes.Compare", "strings.Compare", "cmp.Compare":
		sign, nan, known := s.order(c.Args[0], c.Args[1])
		if !known {
			return nil, false
		}
		if nan { // cmp.Compare: NaN equals itself and is below the rest
			na, nb := s.nan(s.side(c.Args[0])), s.nan(s.side(c.Args[1]))
			switch {
			case na && nb:
				sign = 0
			case na:
				sign = -1
			default:
				sign = 1
			}
		}
		return []Out{{St: st, Ret: mkInt(int64(sign))}}, true
	case "bytes.Equal":
		if sign, _, known := s.order(c.Args[0], c.Args[1]); known {
			return []Out{{St: st, Ret: mkBool(sign == 0)}}, true
		}
	case "math.IsNaN":
		if sd := s.side(c.Args[0]); sd != 0 {
			return []Out{{St: st, Ret: mkBool(s.nan(sd))}}, true
		}
	}
	return nil, false
}

func checkV01(p *Program, r *Report) {
	r.Rule = "Compare is followed for every pair of kinds of values (and NULL) and every relation the two payloads can have (less, equal, greater, NaN on either side): the sign must be the one a total order requires for that relation; kinds must be strictly ranked, checked over the matrix of signs"
	k := findValueKinds(p, r)
	fn := p.Func("types", "Compare")
	if k == nil || fn == nil || len(fn.Params) != 2 {
		r.Violate("anchor:Compare", posZero, nil, "types.Compare not found")
		return
	}
	kinds := append([]types.Type{nil}, k.all...)
	name := func(t types.Type) string {
		if t == nil {
			return "NULL"
		}
		return shortType(t)
	}
	// one run: every outcome of comparing the two under a scenario
	run := func(ta, tb types.Type, sc *scenario, va, vb *Term) (signs map[int]bool) {
		signs = map[int]bool{}
		key := name(ta) + ":" + name(tb) + ":" + sc.name
		h := &Hooks{Value: sc.value, Call: sc.call}
		h.Return = func(a *Analysis, st *State, res []*Term) {
			v := st.eval(res[0])
			n, ok := v.constInt()
			if !ok {
				a.Violate(st, "sign:"+key, "comparing %s with %s (%s) gives %s, whose sign does not follow from the operands", name(ta), name(tb), sc.name, v)
				return
			}
			switch {
			case n < 0:
				signs[-1] = true
			case n > 0:
				signs[1] = true
			default:
				signs[0] = true
			}
		}
		h.Panic = func(a *Analysis, st *State, v *Term) {
			a.Violate(st, "panic:"+name(ta)+":"+name(tb), "comparing %s with %s panics", name(ta), name(tb))
		}
		a := NewAnalysis(p, r, h, "Compare("+name(ta)+","+name(tb)+")")
		st := newState()
		arg := func(t types.Type, v *Term) *Term {
			if t == nil {
				return mkNil(k.iface)
			}
			return mkIface(t, v, k.iface)
		}
		x, y := arg(ta, va), arg(tb, vb)
		st.P["arg0"], st.P["arg1"] = x, y
		a.Start(st, fn, []*Term{x, y})
		a.Run()
		return signs
	}
	expect := func(ta, tb types.Type, sc *scenario, va, vb *Term, want int) {
		signs := run(ta, tb, sc, va, vb)
		if len(signs) == 1 && signs[want] {
			r.OK("sign for a pair of kinds and relation")
			return
		}
		for s := range signs {
			if s != want {
				r.ViolateAt("order:"+name(ta)+":"+name(tb)+":"+sc.name, fn.Pos(), "comparing %s with %s when %s gives sign %d, not %d", name(ta), name(tb), sc.name, s, want)
			}
		}
	}
	sym := func(t types.Type, h string) *Term {
		if t == nil {
			return nil
		}
		return mkSym(t, h)
	}
	numeric := func(t types.Type) bool { return t != nil && (isInt(t) || isFloat(t)) }
	rank := map[string]map[string]int{}
	for _, ta := range kinds {
		for _, tb := range kinds {
			switch {
			case ta == nil || tb == nil:
				want := 0
				if ta == nil && tb != nil {
					want = -1
				} else if ta != nil {
					want = 1
				}
				expect(ta, tb, &scenario{name: "NULL comes first"}, sym(ta, "x"), sym(tb, "y"), want)
			case ta == tb && isBoolType(ta):
				for _, x := range []bool{false, true} {
					for _, y := range []bool{false, true} {
						want := 0
						if x != y {
							want = 1
							if y {
								want = -1
							}
						}
						expect(ta, tb, &scenario{name: mkBool(x).String() + " and " + mkBool(y).String()},
							mkConst(constant.MakeBool(x), ta), mkConst(constant.MakeBool(y), tb), want)
					}
				}
			case ta == tb || numeric(ta) && numeric(tb):
				x, y := sym(ta, "x"), sym(tb, "y")
				for _, w := range []struct {
					n string
					s int
				}{{"the first is less", -1}, {"they are equal", 0}, {"the first is greater", 1}} {
					expect(ta, tb, &scenario{a: x, b: y, sign: w.s, name: w.n}, x, y, w.s)
				}
				if ta == tb {
					expect(ta, tb, &scenario{a: x, b: x, name: "both are one value"}, x, x, 0)
				}
				if isFloat(ta) {
					want := -1
					if isFloat(tb) {
						expect(ta, tb, &scenario{a: x, b: y, nanA: true, nanB: true, name: "both are NaN"}, x, y, 0)
					}
					expect(ta, tb, &scenario{a: x, b: y, nanA: true, name: "the first is NaN"}, x, y, want)
				}
				if isFloat(tb) {
					expect(ta, tb, &scenario{a: x, b: y, nanB: true, name: "the second is NaN"}, x, y, 1)
				}
			default:
				signs := run(ta, tb, &scenario{name: "different kinds"}, sym(ta, "x"), sym(tb, "y"))
				s := 0
				if len(signs) == 1 {
					for n := range signs {
						s = n
					}
				}
				if s == 0 {
					r.ViolateAt("rank:"+name(ta)+":"+name(tb), fn.Pos(), "values of kinds %s and %s are not always ordered the same way", name(ta), name(tb))
				} else {
					r.OK("rank of two kinds")
				}
				if rank[name(ta)] == nil {
					rank[name(ta)] = map[string]int{}
				}
				rank[name(ta)][name(tb)] = s
			}
		}
	}
	for _, ta := range k.all {
		for _, tb := range k.all {
			x, y := name(ta), name(tb)
			if rank[x][y] != -rank[y][x] {
				r.ViolateAt("rank-antisymmetric:"+x+":"+y, fn.Pos(), "kinds %s and %s are ordered differently depending on which comes first", x, y)
			}
			for _, tc := range k.all {
				z := name(tc)
				s := func(a, b types.Type) int {
					if a == b || numeric(a) && numeric(b) {
						return 0
					}
					return rank[name(a)][name(b)]
				}
				if s(ta, tb) < 0 && s(tb, tc) <= 0 && s(ta, tc) >= 0 || s(ta, tb) <= 0 && s(tb, tc) < 0 && s(ta, tc) >= 0 {
					r.ViolateAt("rank-transitive:"+x+":"+y+":"+z, fn.Pos(), "kinds %s, %s and %s are not consistently ranked", x, y, z)
				}
			}
		}
	}
	r.AtLeast("sign for a pair of kinds and relation", 35)
	r.AtLeast("rank of two kinds", 18)
}

// ---- V02

// region is a set of doubles a payload is assumed to lie in: NaN, or a closed interval.
type region struct {
	name   string
	x      *Term
	nan    bool
	lo, hi float64
	text   bool // the double is one read from text
}

func floatConst(t *Term) (float64, bool) {
	if !t.isConst() || t.val == nil {
		return 0, false
	}
	f, _ := constant.Float64Val(constant.ToFloat(t.val.(constant.Value)))
	return f, true
}

func (g *region) is(t *Term) bool {
	t = peel(t)
	for t.isApp("math.Trunc") || t.isApp("math.Floor") || t.isApp("math.Ceil") || t.isApp("math.Round") || t.isApp("math.RoundToEven") {
		t = peel(t.args[0])
	}
	return t == g.x || g.text && t.isApp("strconv.ParseFloat.0")
}

func (g *region) value(a *Analysis, st *State, in ssa.Value, ops []*Term) []*Term {
	b, ok := in.(*ssa.BinOp)
	if !ok || !isFloat(b.X.Type()) {
		return nil
	}
	op := b.Op
	x, y := ops[0], ops[1]
	both := g.is(x) && g.is(y) && x == y
	if both {
		eq := op == token.EQL || op == token.LEQ || op == token.GEQ
		if op == token.NEQ {
			return []*Term{mkBool(g.nan)}
		}
		return []*Term{mkBool(eq && !g.nan)}
	}
	if g.is(y) && !g.is(x) {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	c, isC := floatConst(y)
	if !g.is(x) || !isC {
		return nil
	}
	if g.nan {
		return []*Term{mkBool(op == token.NEQ)}
	}
	var yes, no bool // possible outcomes
	switch op {
	case token.LSS:
		yes, no = g.lo < c, g.hi >= c
	case token.LEQ:
		yes, no = g.lo <= c, g.hi > c
	case token.GTR:
		yes, no = g.hi > c, g.lo <= c
	case token.GEQ:
		yes, no = g.hi >= c, g.lo < c
	case token.EQL:
		yes, no = g.lo <= c && c <= g.hi, g.lo != c || g.hi != c
	case token.NEQ:
		no, yes = g.lo <= c && c <= g.hi, g.lo != c || g.hi != c
	default:
		return nil
	}
	var out []*Term
	if yes {
		out = append(out, mkBool(true))
	}
	if no {
		out = append(out, mkBool(false))
	}
	return out
}

func (g *region) call(a *Analysis, st *State, c *Call) ([]Out, bool) {
	switch c.Name() {
	case "math.IsNaN":
		if g.is(c.Args[0]) {
			return []Out{{St: st, Ret: mkBool(g.nan)}}, true
		}
	case "math.IsInf":
		if g.is(c.Args[0]) && (g.nan || !math.IsInf(g.lo, 0) && !math.IsInf(g.hi, 0)) {
			return []Out{{St: st, Ret: mkBool(false)}}, true
		}
	}
	return nil, false
}

func checkV02(p *Program, r *Report) {
	r.Rule = "postcondition: ConvertValue is followed for every column type (value type, size, nullability) and every kind of value; every return without an error gives NULL only where it is allowed, and otherwise the column's kind within its size or range; a value already of the column's kind and within its limits comes back unchanged and is never refused; a double outside the 64 bit integers, or NaN, never becomes an integer"
	k := findValueKinds(p, r)
	fn := p.Func("types", "ConvertValue")
	ctT, _ := p.TypeOf("types", "ColumnType").(*types.Named)
	if k == nil || fn == nil || len(fn.Params) != 2 || ctT == nil {
		r.Violate("anchor:ConvertValue", posZero, nil, "types.ConvertValue not found")
		return
	}
	ctS := ctT.Underlying().(*types.Struct)
	fieldIdx := func(n string) int {
		for i := 0; i < ctS.NumFields(); i++ {
			if ctS.Field(i).Name() == n {
				return i
			}
		}
		return -1
	}
	fType, fSize, fNull := fieldIdx("Type"), fieldIdx("Size"), fieldIdx("NotNull")
	if fType < 0 || fSize < 0 || fNull < 0 {
		r.Violate("anchor:ColumnType", posZero, nil, "ColumnType has no Type, Size or NotNull field")
		return
	}
	vts := map[string]types.Type{"BoolType": k.boolT, "StringType": k.strT, "BytesType": k.bytesT, "Float64Type": k.floatT, "Int64Type": k.intT}
	for _, vt := range sortedKeysT(vts) {
		kind := vts[vt]
		c, ok := p.Lookup("types", vt).(*types.Const)
		if !ok {
			r.Violate("anchor:"+vt, posZero, nil, "types.%s not found", vt)
			continue
		}
		sizes := []int64{-1}
		if kind == k.intT {
			sizes = []int64{2, 4, 8}
		}
		for _, size := range sizes {
			for _, in := range append([]types.Type{nil}, k.all...) {
				regions := []*region{nil}
				if (in == k.floatT || in == k.strT) && kind == k.intT {
					two63 := math.Ldexp(1, 63)
					regions = []*region{
						{name: "NaN", nan: true},
						{name: "below the 64 bit integers", lo: math.Inf(-1), hi: math.Nextafter(-two63, math.Inf(-1))},
						{name: "above the 64 bit integers", lo: two63, hi: math.Inf(1)},
						{name: "within the 64 bit integers", lo: -two63, hi: math.Nextafter(two63, 0)},
					}
				}
				for _, g := range regions {
					if g != nil {
						g.text = in == k.strT
					}
					convertCase(p, r, k, fn, ctT, ctS, []int{fType, fSize, fNull}, vt, kind, c.Val(), size, in, g)
				}
			}
		}
	}
	r.AtLeast("NULL decided by nullability", 7)
	r.AtLeast("converted value conforms", 12)
	r.AtLeast("conforming value unchanged", 7)
	r.AtLeast("double outside the integers refused", 9)
}

func sortedKeysT(m map[string]types.Type) []string {
	x := map[string]bool{}
	for k := range m {
		x[k] = true
	}
	return sortedStrings(x)
}

func convertCase(p *Program, r *Report, k *valueKinds, fn *ssa.Function, ctT *types.Named, ctS *types.Struct, fx []int, vt string, kind types.Type, vtc constant.Value, size int64, in types.Type, g *region) {
	st := newState()
	var fields []*Term
	for i := 0; i < ctS.NumFields(); i++ {
		f := ctS.Field(i)
		x := mkSym(f.Type(), f.Name())
		switch i {
		case fx[0]:
			x = mkConst(vtc, f.Type())
		case fx[1]:
			if size >= 0 {
				x = mkConst(constant.MakeInt64(size), f.Type())
			} else {
				st.assume(mkLt(x, mkInt(0)), false)
				st.assume(mkLt(mkInt(math.MaxUint32), x), false)
			}
		}
		fields = append(fields, x)
		st.P["f:"+f.Name()] = x
	}
	ct := mkStruct(ctT, fields...)
	sizeT, notNull := fields[fx[1]], fields[fx[2]]
	inName := "NULL"
	v := mkNil(k.iface)
	var payload *Term
	if in != nil {
		inName = shortType(in)
		payload = mkSym(in, "v")
		v = mkIface(in, payload, k.iface)
	}
	st.P["v"] = v
	key := vt + ":" + inName
	what := inName + " to " + vt
	if size >= 0 {
		key += ":" + itoa(int(size))
		what += " of " + itoa(int(size)) + " bytes"
	}
	h := &Hooks{}
	if g != nil {
		g.x = payload
		h.Value, h.Call = g.value, g.call
		key += ":" + g.name
		what += " (" + g.name + ")"
	}
	// fits decides whether a payload of the column's kind is within its limits
	fits := func(st *State, x *Term) (yes, no bool) {
		switch {
		case kind == k.strT || kind == k.bytesT:
			e := st.eval(mkLt(sizeT, mkLen(x)))
			return e.isFalse(), e.isTrue()
		case kind == k.intT && size < 8:
			lim := int64(1) << (8*uint(size) - 1)
			lo, hi := st.eval(mkLt(x, mkInt(-lim))), st.eval(mkLt(mkInt(lim-1), x))
			return lo.isFalse() && hi.isFalse(), lo.isTrue() || hi.isTrue()
		}
		return true, false
	}
	h.Return = func(a *Analysis, st *State, res []*Term) {
		split(st, res, func(st *State) {
			v := st.eval(res[0])
			if v.isNil() {
				if in != nil {
					a.Violate(st, "null:"+key, "converting %s can give NULL", what)
				} else if !st.isFalse(notNull) {
					a.Violate(st, "notnull:"+key, "NULL is accepted for a column that may be NOT NULL")
				} else {
					a.R.OK("NULL decided by nullability")
				}
				return
			}
			if v.op != "iface" || !types.Identical(v.dyn(), kind) {
				a.Violate(st, "kind:"+key, "converting %s gives %s rather than a value of the column's type", what, v)
				return
			}
			if g != nil && g.name != "within the 64 bit integers" && g.is(v.args[0]) {
				a.Violate(st, "range:"+key, "a double %s becomes an integer instead of being refused", g.name)
				return
			}
			x := v.args[0]
			if yes, _ := fits(st, x); !yes {
				a.Violate(st, "size:"+key, "converting %s can give a value beyond the column's size", what)
				return
			}
			a.R.OK("converted value conforms")
			if in != nil && types.Identical(in, kind) {
				if x != payload && !st.isTrue(mkEq(x, payload)) && !sameBytes(st, x, payload) {
					a.Violate(st, "changed:"+key, "a value already of the column's type is changed by the conversion (%s)", x)
				} else {
					a.R.OK("conforming value unchanged")
				}
			}
			if t := peel(x); t.op == "app" && strings.HasPrefix(t.aux, "strconv.Parse") && strings.HasSuffix(t.aux, ".0") {
				e := mkApp(strings.TrimSuffix(t.aux, "0")+"1", errType, t.args...)
				if !st.eval(mkEq(e, mkNil(errType))).isTrue() {
					a.Violate(st, "unparsed:"+key, "converting %s gives a number although the text may not be one of the column's type", what)
				}
			}
			if kind == k.intT && narrowed(x) || peel(x).isApp("strconv.ParseUint.0") && !st.eval(mkLt(x, mkInt(0))).isFalse() {
				a.Violate(st, "number:"+key, "converting %s does not give the number converted (%s)", what, x)
			} else if in == k.intT && kind == k.floatT || in == k.floatT && kind == k.intT {
				if peel(x) != payload && !(g != nil && g.is(x)) || narrowed(x) {
					a.Violate(st, "number:"+key, "converting %s does not give the number converted (%s)", what, x)
				}
			}
		}, func(st *State) {
			switch {
			case in == nil:
				if !st.isTrue(notNull) {
					a.Violate(st, "null-refused:"+key, "NULL is refused for a column that allows it")
				} else {
					a.R.OK("NULL decided by nullability")
				}
			case types.Identical(in, kind):
				if _, no := fits(st, payload); !no {
					a.Violate(st, "refused:"+key, "a value that conforms to the column can be refused (%s)", what)
				}
			case g != nil && g.name != "within the 64 bit integers":
				a.R.OK("double outside the integers refused")
			}
		})
	}
	h.Panic = func(a *Analysis, st *State, v *Term) {
		a.Violate(st, "panic:"+key, "converting %s panics", what)
	}
	a := NewAnalysis(p, r, h, "ConvertValue "+what)
	r.entries = append(r.entries, a.Entry)
	st.P["arg0"] = ct
	a.Start(st, fn, []*Term{ct, v})
	a.Run()
}

// narrowed reports whether a value went through a type of fewer than 64 bits.
func narrowed(x *Term) bool {
	found := false
	walkTerm(x, map[*Term]bool{}, func(t *Term) {
		if b := t.typ; b != nil && t.op == "app" && (strings.HasPrefix(t.aux, "conv:") || strings.HasPrefix(t.aux, "widen:")) {
			if u, ok := b.Underlying().(*types.Basic); ok {
				switch u.Kind() {
				case types.Float64, types.Int64, types.Int:
				default:
					found = true
				}
			}
		}
	})
	return found
}

// sameBytes accepts a copy of a byte slice or string.
func sameBytes(st *State, x, y *Term) bool {
	if _, ok := x.typ.Underlying().(*types.Slice); !ok {
		return false
	}
	return st.seqOfSlice(x) == st.seqOfSlice(y) && mkLen(x) == mkLen(y)
}

// ---- V03

func checkV03(p *Program, r *Report) {
	r.Rule = "for an arbitrary column number and each direction, the composition of MakeColumnKey with Reverse and Column gives back both (so different pairs give different keys); ColumnKeyUpdated is exact: for an arbitrary pair of equal columns it is true, and false when no pair is equal"
	mk, colFn := p.Func("types", "MakeColumnKey"), columnOf(p)
	if mk == nil || len(mk.Params) != 2 || colFn == nil {
		r.Violate("anchor:MakeColumnKey", posZero, nil, "types.MakeColumnKey or ColumnKey.Column not found")
		return
	}
	ckT := mk.Signature.Results().At(0).Type()
	rev := p.Method(ckT, "Reverse")
	if rev == nil {
		r.Violate("anchor:Reverse", posZero, nil, "ColumnKey.Reverse not found")
		return
	}
	for _, dir := range []bool{false, true} {
		name := map[bool]string{false: "ascending", true: "descending"}[dir]
		num := mkSym(mk.Params[0].Type(), "num")
		entry := func() *State {
			st := newState()
			st.P["num"] = num
			st.assume(mkLt(num, mkInt(0)), false)
			st.assume(mkLt(mkInt(math.MaxInt32-1), num), false)
			return st
		}
		h := &Hooks{}
		h.Return = func(a *Analysis, st *State, res []*Term) {
			ck := st.eval(res[0])
			for _, f := range []*ssa.Function{rev, colFn} {
				f := f
				h2 := &Hooks{}
				h2.Return = func(a *Analysis, st *State, res []*Term) {
					v := st.eval(res[0])
					if f == rev {
						if v != mkBool(dir) {
							a.Violate(st, "direction:"+name, "a key column made %s reports direction %s", name, v)
							return
						}
					} else if v != num && !st.isTrue(mkEq(v, num)) {
						a.Violate(st, "column:"+name, "a key column made %s for column num reports column %s", name, v)
						return
					}
					a.R.OK("key column round trip")
				}
				a2 := NewAnalysis(p, r, h2, shortFn(f))
				s2 := entry()
				s2.bools, s2.dbm = st.clone().bools, st.clone().dbm
				s2.P["ck"] = ck
				a2.Start(s2, f, []*Term{ck})
				a2.Run()
			}
		}
		a := NewAnalysis(p, r, h, "types.MakeColumnKey")
		r.entries = append(r.entries, a.Entry+" "+name)
		a.Start(entry(), mk, []*Term{num, mkBool(dir)})
		a.Run()
	}
	lemmaKeyUpdated(p, r)
	r.AtLeast("key column round trip", 4)
}

package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A Term is a hash-consed value number: an immutable description of a run-time value.
type Term struct {
	id   int
	op   string
	aux  string
	args []*Term
	typ  types.Type
	val  any
}

// Term operators.
//
//	const   constant (val constant.Value, nil for the nil/zero constant)
//	sym     unknown value
//	obj     address of a distinct allocation
//	global  address of a package-level variable
//	fn      function value
//	clos    closure: args[0] fn, rest bindings
//	lin     args[0] + aux (integer)
//	faddr   address of field aux of *args[0]
//	iaddr   address of element args[1] of array/slice base args[0]
//	struct  struct value
//	iface   interface holding args[0] of type typ's dynamic type (val types.Type)
//	tuple   multiple results
//	sl      slice value: base, lo, len
//	seq ops: zeros, store(C,i,v), cat(parts...), unit(v), sub(C,lo,len), seqof(b)
//	app     uninterpreted pure application
//	eq      equality (bool); lt: args[0] < args[1] (non-integer or unresolved)
//	diff    bool: args[0] - args[1] < aux (integers)
type internTable struct {
	m map[string]*Term
	n int
}

var tt = &internTable{m: map[string]*Term{}}

func intern(op, aux string, typ types.Type, val any, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte(0)
	sb.WriteString(aux)
	for _, a := range args {
		sb.WriteByte(1)
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := tt.m[k]; ok {
		return t
	}
	tt.n++
	t := &Term{id: tt.n, op: op, aux: aux, args: args, typ: typ, val: val}
	tt.m[k] = t
	return t
}

var typeIDs = map[string]string{}

func typeKey(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, nil)
}

var symCount int

// mkSym makes a brand new unknown of the given type.
func mkSym(typ types.Type, hint string) *Term {
	symCount++
	return intern("sym", strconv.Itoa(symCount), typ, hint)
}

func mkObj(typ types.Type, hint string) *Term {
	symCount++
	return intern("obj", strconv.Itoa(symCount), typ, hint)
}

func (t *Term) hint() string {
	if s, ok := t.val.(string); ok {
		return s
	}
	return ""
}

func mkConst(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return intern("const", "nil:"+nilClass(typ), typ, nil)
	}
	if isInt(typ) {
		v = constant.ToInt(v)
	}
	return intern("const", constClass(typ)+v.ExactString(), typ, v)
}

func nilClass(typ types.Type) string {
	// all nils of non-interface types are distinguishable by type; interface nil is one.
	if typ == nil {
		return "iface"
	}
	switch typ.Underlying().(type) {
	case *types.Interface:
		return "iface"
	case *types.Basic:
		return "untyped"
	}
	return "typed"
}

func constClass(typ types.Type) string {
	if isInt(typ) {
		return "i:"
	}
	if b, ok := typ.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return "b:"
		case b.Info()&types.IsString != 0:
			return "s:"
		case b.Info()&types.IsFloat != 0:
			return "f:"
		}
	}
	return "o:"
}

func mkInt(n int64) *Term         { return mkConst(constant.MakeInt64(n), types.Typ[types.Int]) }
func mkBool(b bool) *Term         { return mkConst(constant.MakeBool(b), types.Typ[types.Bool]) }
func mkStr(s string) *Term        { return mkConst(constant.MakeString(s), types.Typ[types.String]) }
func mkNil(typ types.Type) *Term  { return mkConst(nil, typ) }
func (t *Term) isConst() bool     { return t.op == "const" }
func (t *Term) isNil() bool       { return t.op == "const" && t.val == nil }
func (t *Term) isTrue() bool      { return t == mkBool(true) }
func (t *Term) isFalse() bool     { return t == mkBool(false) }
func (t *Term) isBoolConst() bool { return t.isTrue() || t.isFalse() }

func isInt(typ types.Type) bool {
	if typ == nil {
		return false
	}
	b, ok := typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isUnsigned(typ types.Type) bool {
	if typ == nil {
		return false
	}
	b, ok := typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isFloat(typ types.Type) bool {
	if typ == nil {
		return false
	}
	b, ok := typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(typ types.Type) bool {
	if typ == nil {
		return false
	}
	b, ok := typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isIface(typ types.Type) bool {
	if typ == nil {
		return false
	}
	_, ok := typ.Underlying().(*types.Interface)
	return ok
}

func isPointerLike(typ types.Type) bool {
	if typ == nil {
		return false
	}
	switch typ.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Slice, *types.Signature:
		return true
	}
	return false
}

// constInt reports the integer value of a constant term.
func (t *Term) constInt() (int64, bool) {
	if t.op != "const" || t.val == nil || !isInt(t.typ) {
		return 0, false
	}
	v, ok := t.val.(constant.Value)
	if !ok {
		return 0, false
	}
	n, exact := constant.Int64Val(constant.ToInt(v))
	return n, exact
}

// lin returns t as base + c; base is nil for constants.
// isBig reports an integer constant beyond the signed 64 bit integers, which nothing converted
// to an unsigned 64 bit integer can exceed.
func (t *Term) isBig() bool {
	if _, ok := t.constInt(); ok {
		return false
	}
	return t.isConst() && isInt(t.typ)
}

func (t *Term) lin() (*Term, int64, bool) {
	if n, ok := t.constInt(); ok {
		return nil, n, true
	}
	if t.op == "lin" {
		n, _ := strconv.ParseInt(t.aux, 10, 64)
		return t.args[0], n, true
	}
	if t.op == "const" {
		return nil, 0, false // large constant
	}
	return t, 0, true
}

func mkLin(base *Term, c int64, typ types.Type) *Term {
	if base == nil {
		return mkConst(constant.MakeInt64(c), typ)
	}
	if c == 0 {
		return base
	}
	if base.op == "lin" {
		n, _ := strconv.ParseInt(base.aux, 10, 64)
		return mkLin(base.args[0], n+c, typ)
	}
	return intern("lin", strconv.FormatInt(c, 10), typ, nil, base)
}

func mkAddConst(t *Term, c int64) *Term {
	b, n, ok := t.lin()
	if !ok {
		return mkApp("+", t.typ, t, mkInt(c))
	}
	return mkLin(b, n+c, t.typ)
}

func mkAdd(a, b *Term, typ types.Type) *Term {
	ba, ca, ok1 := a.lin()
	bb, cb, ok2 := b.lin()
	if ok1 && ok2 {
		if ba == nil {
			return mkLin(bb, ca+cb, typ)
		}
		if bb == nil {
			return mkLin(ba, ca+cb, typ)
		}
		if ba.id > bb.id {
			ba, bb = bb, ba
		}
		// (x - y) + y
		if ba.op == "app" && ba.aux == "-" && ba.args[1] == bb {
			return mkLin(ba.args[0], ca+cb, typ)
		}
		if bb.op == "app" && bb.aux == "-" && bb.args[1] == ba {
			return mkLin(bb.args[0], ca+cb, typ)
		}
		return mkLin(mkApp("+", typ, ba, bb), ca+cb, typ)
	}
	return mkApp("+", typ, a, b)
}

func mkSub(a, b *Term, typ types.Type) *Term {
	ba, ca, ok1 := a.lin()
	bb, cb, ok2 := b.lin()
	if ok1 && ok2 {
		if bb == nil {
			return mkLin(ba, ca-cb, typ)
		}
		if ba == bb {
			return mkLin(nil, ca-cb, typ)
		}
		if ba == nil {
			return mkLin(mkApp("neg", typ, bb), ca-cb, typ)
		}
		if ba.op == "app" && ba.aux == "+" {
			if ba.args[0] == bb {
				return mkLin(ba.args[1], ca-cb, typ)
			}
			if ba.args[1] == bb {
				return mkLin(ba.args[0], ca-cb, typ)
			}
		}
		return mkLin(mkApp("-", typ, ba, bb), ca-cb, typ)
	}
	return mkApp("-", typ, a, b)
}

func mkApp(name string, typ types.Type, args ...*Term) *Term {
	return intern("app", name, typ, nil, args...)
}

func (t *Term) isApp(name string) bool { return t.op == "app" && t.aux == name }

func mkStruct(typ types.Type, fields ...*Term) *Term {
	// eta: struct(field(x,0),field(x,1),...) == x
	if len(fields) > 0 {
		f0 := fields[0]
		if f0.op == "field" && f0.aux == "0" && types.Identical(f0.args[0].typ.Underlying(), typ.Underlying()) {
			x := f0.args[0]
			same := true
			for i, f := range fields {
				if f != mkField(x, i) {
					same = false
					break
				}
			}
			if same {
				return x
			}
		}
	}
	return intern("struct", typeKey(typ), typ, nil, fields...)
}

func mkField(x *Term, i int) *Term {
	if x.op == "struct" {
		return x.args[i]
	}
	st, ok := x.typ.Underlying().(*types.Struct)
	if !ok {
		panic(fmt.Sprintf("field of non-struct %s: %s", x, x.typ))
	}
	if x.op == "const" {
		return zeroOf(st.Field(i).Type())
	}
	return intern("field", strconv.Itoa(i), st.Field(i).Type(), nil, x)
}

// mkPayload is the value of dynamic type T inside the interface value x.
func mkPayload(T types.Type, x *Term) *Term {
	if x.op == "iface" {
		return x.args[0]
	}
	return mkApp("payload:"+typeKey(T), T, x)
}

func mkIface(dyn types.Type, v *Term, iface types.Type) *Term {
	if v.op == "app" && v.aux == "payload:"+typeKey(dyn) {
		return v.args[0]
	}
	return intern("iface", typeKey(dyn), iface, dyn, v)
}

func (t *Term) dyn() types.Type { return t.val.(types.Type) }

func mkTuple(args ...*Term) *Term {
	return intern("tuple", "", nil, nil, args...)
}

func zeroOf(typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkConst(constant.MakeBool(false), typ)
		case u.Info()&types.IsInteger != 0:
			return mkConst(constant.MakeInt64(0), typ)
		case u.Info()&types.IsString != 0:
			return mkConst(constant.MakeString(""), typ)
		case u.Info()&types.IsFloat != 0:
			return mkConst(constant.ToFloat(constant.MakeInt64(0)), typ)
		}
		return mkNil(typ)
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = zeroOf(u.Field(i).Type())
		}
		return mkStruct(typ, fs...)
	case *types.Array:
		return intern("app", "zeroarray:"+typeKey(typ), typ, nil)
	case *types.Tuple:
		fs := make([]*Term, u.Len())
		for i := range fs {
			fs[i] = zeroOf(u.At(i).Type())
		}
		return mkTuple(fs...)
	}
	return mkNil(typ)
}

func mkFaddr(base *Term, i int, typ types.Type) *Term {
	return intern("faddr", strconv.Itoa(i)+"@"+typeKey(derefType(base.typ)), typ, i, base)
}

func mkIaddr(base, idx *Term, typ types.Type) *Term {
	return intern("iaddr", "", typ, nil, base, idx)
}

func derefType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return a.Elem()
		}
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Byte]
	case *types.Map:
		return u.Elem()
	}
	return nil
}

// ---- slices and sequences

func mkSl(base, lo, ln *Term, typ types.Type) *Term {
	if lo0, ok := lo.constInt(); ok && lo0 == 0 && base.op != "obj" && ln == mkLen(base) {
		return base
	}
	return intern("sl", "", typ, nil, base, lo, ln)
}

func mkLen(s *Term) *Term {
	switch {
	case s.op == "sl":
		return s.args[2]
	case s.isNil():
		return mkInt(0)
	case s.op == "const" && isString(s.typ):
		return mkInt(int64(len(constant.StringVal(s.val.(constant.Value)))))
	case s.op == "app" && (s.aux == "tostring" || s.aux == "tobytes"):
		return mkLen(s.args[0])
	}
	if a, ok := derefType(s.typ).Underlying().(*types.Array); ok {
		return mkInt(a.Len())
	}
	return mkApp("len", types.Typ[types.Int], s)
}

func seqLen(c *Term) *Term {
	switch c.op {
	case "unit":
		return mkInt(1)
	case "const":
		if c.isNil() {
			return mkInt(0)
		}
	case "sub":
		return c.args[2]
	case "store":
		return seqLen(c.args[0])
	case "cat":
		n := mkInt(0)
		for _, p := range c.args {
			n = mkAdd(n, seqLen(p), types.Typ[types.Int])
		}
		return n
	case "seqof":
		return mkLen(c.args[0])
	case "app":
		if c.aux == "converted" {
			x := c.args[0]
			if x.op == "snap" {
				x = x.args[0]
			}
			return mkLen(x)
		}
	}
	return mkApp("seqlen", types.Typ[types.Int], c)
}

func mkCat(typ types.Type, parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		if p.op == "cat" {
			out = append(out, p.args...)
			continue
		}
		if n, ok := seqLen(p).constInt(); ok && n == 0 {
			continue
		}
		out = append(out, p)
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern("cat", "", typ, nil, out...)
}

func mkSubSeq(c, lo, ln *Term) *Term {
	if l0, ok := lo.constInt(); ok && l0 == 0 && seqLen(c) == ln && (c.op != "app" || c.aux == "converted") {
		return c
	}
	if c.op == "sub" {
		return mkSubSeq(c.args[0], mkAdd(c.args[1], lo, lo.typ), ln)
	}
	if c.op == "cat" {
		// drop whole leading parts when offsets are syntactically known
		off := mkInt(0)
		for i, p := range c.args {
			if off == lo {
				rest := mkInt(0)
				for j := i; j < len(c.args); j++ {
					rest = mkAdd(rest, seqLen(c.args[j]), rest.typ)
					if rest == ln {
						return mkCat(c.typ, c.args[i:j+1]...)
					}
				}
			}
			off = mkAdd(off, seqLen(p), off.typ)
		}
	}
	if n, ok := ln.constInt(); ok && n == 1 && c.op == "store" {
		if _, ok := lo.constInt(); ok {
			x := c
			for x.op == "store" && x.args[1].isConst() && x.args[1] != lo {
				x = x.args[0]
			}
			if x.op == "store" && x.args[1] == lo {
				return mkUnit(x.args[2], c.typ)
			}
		}
	}
	return intern("sub", "", c.typ, nil, c, lo, ln)
}

func mkUnit(v *Term, typ types.Type) *Term { return intern("unit", "", typ, nil, v) }

// ---- booleans

func mkNot(t *Term) *Term {
	if t.isTrue() {
		return mkBool(false)
	}
	if t.isFalse() {
		return mkBool(true)
	}
	if t.op == "not" {
		return t.args[0]
	}
	return intern("not", "", types.Typ[types.Bool], nil, t)
}

func mkDiff(a, b *Term, k int64) *Term { // a - b < k ; nil means 0
	z := mkInt(0)
	if a == nil {
		a = z
	}
	if b == nil {
		b = z
	}
	if a == b {
		return mkBool(0 < k)
	}
	return intern("diff", strconv.FormatInt(k, 10), types.Typ[types.Bool], k, a, b)
}

func mkBig(a, b int64) constant.Value {
	return constant.BinaryOp(constant.MakeInt64(a), token.ADD, constant.MakeInt64(b))
}

// typeRange gives the least and greatest value an unknown of an integer type can have.
func typeRange(t *Term) (lo, hi constant.Value, ok bool) {
	if t == nil || t.typ == nil || !isInt(t.typ) || t.op != "sym" && t.op != "select" && !(t.op == "app" && strings.HasPrefix(t.aux, "conv:")) {
		return nil, nil, false
	}
	l, h := intRange(t.typ)
	return l.val.(constant.Value), h.val.(constant.Value), true
}

func mkLt(a, b *Term) *Term {
	if isInt(a.typ) {
		ba, ca, ok1 := a.lin()
		bb, cb, ok2 := b.lin()
		if ok1 && ok2 {
			// ba + ca < bb + cb  <=> ba - bb < cb - ca
			if ba == nil && bb == nil {
				return mkBool(ca < cb)
			}
			if lo, hi, ok := typeRange(ba); ok && bb == nil {
				if constant.Compare(mkBig(cb, -ca), token.LEQ, lo) {
					return mkBool(false)
				}
				if constant.Compare(mkBig(cb, -ca), token.GTR, hi) {
					return mkBool(true)
				}
			}
			if lo, hi, ok := typeRange(bb); ok && ba == nil {
				if constant.Compare(mkBig(ca, -cb), token.GEQ, hi) {
					return mkBool(false)
				}
				if constant.Compare(mkBig(ca, -cb), token.LSS, lo) {
					return mkBool(true)
				}
			}
			na, nb := ba != nil && ba.isApp("neg"), bb != nil && bb.isApp("neg")
			switch { // move negated terms to the other side
			case na && bb == nil:
				return mkDiff(nil, ba.args[0], cb-ca)
			case nb && ba == nil:
				return mkDiff(bb.args[0], nil, cb-ca)
			case na && nb:
				return mkDiff(bb.args[0], ba.args[0], cb-ca)
			}
			return mkDiff(ba, bb, cb-ca)
		}
	}
	if a.isConst() && b.isConst() && a.val != nil && b.val != nil {
		av, bv := a.val.(constant.Value), b.val.(constant.Value)
		if av.Kind() != constant.Bool {
			return mkBool(constant.Compare(av, token.LSS, bv))
		}
	}
	return intern("lt", "", types.Typ[types.Bool], nil, a, b)
}

func definitelyDistinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.op == "const" && b.op == "const" {
		return true // hash-consed: same class different value
	}
	rank := func(t *Term) int {
		switch t.op {
		case "obj", "global", "fn", "clos":
			return 1
		}
		return 0
	}
	if rank(a) == 1 && rank(b) == 1 {
		return a.op != "clos" && b.op != "clos"
	}
	if (rank(a) == 1 && b.isNil()) || (rank(b) == 1 && a.isNil()) {
		return true
	}
	if a.op == "iface" && b.isNil() || b.op == "iface" && a.isNil() {
		return true
	}
	if a.op == "iface" && b.op == "iface" && a.aux != b.aux {
		return true
	}
	if a.op == "sl" && b.isNil() && a.args[0].op == "obj" || b.op == "sl" && a.isNil() && b.args[0].op == "obj" {
		return true
	}
	if a.op == "faddr" && b.isNil() || b.op == "faddr" && a.isNil() {
		return true
	}
	return false
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return mkBool(true)
	}
	if isInt(a.typ) && isInt(b.typ) {
		ba, ca, ok1 := a.lin()
		bb, cb, ok2 := b.lin()
		if ok1 && ok2 && ba == bb {
			return mkBool(ca == cb)
		}
		if ok1 && ok2 && ba != nil && bb != nil && (ca != 0 || cb != 0) {
			// normalise to eq(x, y + k) with x.id < y.id
			if ba.id > bb.id {
				ba, bb, ca, cb = bb, ba, cb, ca
			}
			return intern("eq", "", types.Typ[types.Bool], nil, ba, mkLin(bb, cb-ca, bb.typ))
		}
		if ok1 && ok2 && ba == nil && cb != 0 {
			return mkEq(bb, mkConst(constant.MakeInt64(ca-cb), a.typ))
		}
		if ok1 && ok2 && bb == nil && ca != 0 {
			return mkEq(ba, mkConst(constant.MakeInt64(cb-ca), b.typ))
		}
	}
	if definitelyDistinct(a, b) {
		return mkBool(false)
	}
	if a.op == "iface" && b.op == "iface" {
		return mkEq(a.args[0], b.args[0])
	}
	if a.op == "struct" && b.op == "struct" || a.op == "struct" && b.typ != nil && a.typ != nil && isStruct(b.typ) || b.op == "struct" && isStruct(a.typ) {
		r := mkBool(true)
		st := a.typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			r = mkAnd(r, mkEq(mkField(a, i), mkField(b, i)))
		}
		return r
	}
	if b.isBoolConst() {
		a, b = b, a
	}
	if a.isTrue() {
		return b
	}
	if a.isFalse() {
		return mkNot(b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern("eq", "", types.Typ[types.Bool], nil, a, b)
}

func isStruct(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func mkAnd(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return mkBool(false)
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	return intern("and", "", types.Typ[types.Bool], nil, a, b)
}

// mkSelect reads element i of sequence c.
func mkSelect(c, i *Term, et types.Type, st *State) *Term {
	for {
		switch c.op {
		case "store":
			e := mkEq(c.args[1], i)
			if st != nil {
				e = st.eval(e)
			}
			if e.isTrue() {
				return c.args[2]
			}
			if e.isFalse() {
				c = c.args[0]
				continue
			}
			return intern("select", "", et, nil, c, i)
		case "zeros":
			return zeroOf(et)
		case "unit":
			return c.args[0]
		case "sub":
			i = mkAdd(i, c.args[1], types.Typ[types.Int])
			c = c.args[0]
			continue
		case "cat":
			off := mkInt(0)
			for _, p := range c.args {
				ln := seqLen(p)
				end := mkAdd(off, ln, off.typ)
				in := mkLt(i, end)
				if st != nil {
					in = st.eval(in)
				}
				if in.isTrue() {
					return mkSelect(p, mkSub(i, off, off.typ), et, st)
				}
				if in.isFalse() {
					off = end
					continue
				}
				return intern("select", "", et, nil, c, i)
			}
			return intern("select", "", et, nil, c, i)
		}
		return intern("select", "", et, nil, c, i)
	}
}

// ---- printing

func (t *Term) String() string {
	return t.str(0)
}

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 8 {
		return "..."
	}
	switch t.op {
	case "const":
		if t.val == nil {
			return "nil"
		}
		return t.val.(constant.Value).String()
	case "sym":
		if h := t.hint(); h != "" {
			return h + "#" + t.aux
		}
		return "s" + t.aux
	case "obj":
		if h := t.hint(); h != "" {
			return "&" + h + "#" + t.aux
		}
		return "&o" + t.aux
	case "global":
		return "&" + t.aux
	case "fn":
		return t.aux
	case "lin":
		c := t.aux
		if !strings.HasPrefix(c, "-") {
			c = "+" + c
		}
		return t.args[0].str(d+1) + c
	case "faddr":
		i := t.val.(int)
		name := strconv.Itoa(i)
		if st, ok := derefType(t.args[0].typ).Underlying().(*types.Struct); ok {
			name = st.Field(i).Name()
		}
		return "&" + t.args[0].str(d+1) + "." + name
	case "field":
		i, _ := strconv.Atoi(t.aux)
		name := t.aux
		if st, ok := t.args[0].typ.Underlying().(*types.Struct); ok {
			name = st.Field(i).Name()
		}
		return t.args[0].str(d+1) + "." + name
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.str(d+1))
	}
	n := t.op
	switch t.op {
	case "app":
		n = t.aux
	case "iface":
		n = "iface:" + shortType(t.dyn())
	case "struct":
		n = shortType(t.typ)
	case "diff":
		return fmt.Sprintf("(%s-%s<%s)", as[0], as[1], t.aux)
	}
	return n + "(" + strings.Join(as, ",") + ")"
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// subst rebuilds t with replacements.
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term, st *State) *Term {
	if t == nil {
		return nil
	}
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	changed := false
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = subst(a, m, memo, st)
		if args[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		r = rebuild(t, args, st)
		if rr, ok := m[r]; ok {
			r = rr
		}
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term, st *State) *Term {
	switch t.op {
	case "lin":
		c, _ := strconv.ParseInt(t.aux, 10, 64)
		return mkAddConst(args[0], c)
	case "struct":
		return mkStruct(t.typ, args...)
	case "field":
		i, _ := strconv.Atoi(t.aux)
		return mkField(args[0], i)
	case "sl":
		return mkSl(args[0], args[1], args[2], t.typ)
	case "eq":
		return mkEq(args[0], args[1])
	case "lt":
		return mkLt(args[0], args[1])
	case "diff":
		k, _ := strconv.ParseInt(t.aux, 10, 64)
		return mkLt(args[0], mkAddConst(args[1], k))
	case "not":
		return mkNot(args[0])
	case "and":
		return mkAnd(args[0], args[1])
	case "cat":
		return mkCat(t.typ, args...)
	case "sub":
		return mkSubSeq(args[0], args[1], args[2])
	case "select":
		return mkSelect(args[0], args[1], t.typ, st)
	case "app":
		switch t.aux {
		case "len":
			return mkLen(args[0])
		case "+":
			return mkAdd(args[0], args[1], t.typ)
		case "-":
			return mkSub(args[0], args[1], t.typ)
		}
		if strings.HasPrefix(t.aux, "payload:") {
			return mkPayload(t.typ, args[0])
		}
		if f, ok := appSimplify[t.aux]; ok {
			return f(t.typ, args)
		}
	}
	return intern(t.op, t.aux, t.typ, t.val, args...)
}

var appSimplify = map[string]func(types.Type, []*Term) *Term{}

// contains reports whether x occurs in t.
func contains(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.args {
		if contains(a, x) {
			return true
		}
	}
	return false
}

func walkTerm(t *Term, seen map[*Term]bool, f func(*Term)) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.args {
		walkTerm(a, seen, f)
	}
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}

func fnTerm(fn *ssa.Function) *Term {
	return intern("fn", fn.String(), fn.Type(), fn)
}

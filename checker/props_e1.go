package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["E01"] = checkE01
}

// ---- bits and where they come from

// bit is one bit of a word: a constant, a bit of a source (perhaps inverted), or unknown.
type bit struct {
	kind byte // '0', '1', 's' (source), '?'
	src  *Term
	idx  int
	neg  bool
}

var bit0, bit1, bitU = bit{kind: '0'}, bit{kind: '1'}, bit{kind: '?'}

func (b bit) not() bit {
	switch b.kind {
	case '0':
		return bit1
	case '1':
		return bit0
	case 's':
		b.neg = !b.neg
	}
	return b
}

func (b bit) and(c bit) bit {
	switch {
	case b.kind == '0' || c.kind == '0':
		return bit0
	case b.kind == '1':
		return c
	case c.kind == '1' || b == c && b.kind == 's':
		return b
	case b.kind == 's' && b.not() == c:
		return bit0
	}
	return bitU
}

func (b bit) or(c bit) bit { return b.not().and(c.not()).not() }

func (b bit) xor(c bit) bit {
	switch {
	case b.kind == '0':
		return c
	case b.kind == '1':
		return c.not()
	case c.kind == '0':
		return b
	case c.kind == '1':
		return b.not()
	case b.kind == 's' && b == c:
		return bit0
	case b.kind == 's' && b.not() == c:
		return bit1
	}
	return bitU
}

// bitval computes the bits of integer terms, low bit first. leaf gives the bits of sources.
type bitval struct {
	leaf func(t *Term, n int) []bit
	memo map[*Term][]bit
}

func newBitval(leaf func(t *Term, n int) []bit) *bitval {
	return &bitval{leaf: leaf, memo: map[*Term][]bit{}}
}

func unknownBits(n int) []bit {
	out := make([]bit, n)
	for i := range out {
		out[i] = bitU
	}
	return out
}

func constBits(v constant.Value, n int) []bit {
	out := make([]bit, n)
	m := constant.BinaryOp(constant.ToInt(v), token.AND, constant.BinaryOp(constant.Shift(constant.MakeInt64(1), token.SHL, uint(n)), token.SUB, constant.MakeInt64(1)))
	for i := range out {
		out[i] = bit0
		if constant.Sign(constant.BinaryOp(constant.Shift(m, token.SHR, uint(i)), token.AND, constant.MakeInt64(1))) != 0 {
			out[i] = bit1
		}
	}
	return out
}

// extend makes n bits of those of a value of type t.
func extend(bs []bit, t types.Type, n int) []bit {
	out := make([]bit, n)
	for i := range out {
		switch {
		case i < len(bs):
			out[i] = bs[i]
		case t != nil && isSigned(t) && len(bs) > 0:
			out[i] = bs[len(bs)-1]
		default:
			out[i] = bit0
		}
	}
	return out
}

func isSigned(t types.Type) bool {
	_, s := intBits(t)
	return s
}

// bits gives the n low bits of t.
func (v *bitval) bits(t *Term, n int) []bit {
	if t == nil || t.typ == nil || !isInt(t.typ) {
		return unknownBits(n)
	}
	if t.isConst() && t.val != nil {
		return constBits(t.val.(constant.Value), n)
	}
	bs, ok := v.memo[t]
	if !ok {
		w, _ := intBits(t.typ)
		bs = v.compute(t, w)
		v.memo[t] = bs
	}
	return extend(bs, t.typ, n)
}

func (v *bitval) compute(t *Term, n int) []bit {
	if v.leaf != nil {
		if bs := v.leaf(t, n); bs != nil {
			return bs
		}
	}
	two := func(f func(a, b bit) bit) []bit {
		x, y := v.bits(t.args[0], n), v.bits(t.args[1], n)
		out := make([]bit, n)
		for i := range out {
			out[i] = f(x[i], y[i])
		}
		return out
	}
	neg := func(x []bit) []bit {
		out := make([]bit, n)
		for i := range out {
			out[i] = x[i].not()
		}
		return out
	}
	if b, c, ok := t.lin(); ok && b != nil && b != t {
		switch {
		case c == -1 && b.isApp("neg"):
			return neg(v.bits(b.args[0], n))
		default:
			return addBits(v.bits(b, n), constBits(constant.MakeInt64(c), n), bit0)
		}
	}
	if t.op != "app" {
		return unknownBits(n)
	}
	switch {
	case strings.HasPrefix(t.aux, "widen:"), strings.HasPrefix(t.aux, "conv:"), strings.HasPrefix(t.aux, "trunc:"):
		return v.bits(t.args[0], n)
	case t.aux == "compl":
		return neg(v.bits(t.args[0], n))
	case t.aux == "band":
		return two(bit.and)
	case t.aux == "bor":
		return two(bit.or)
	case t.aux == "bxor":
		return two(bit.xor)
	case t.aux == "andnot":
		return two(func(a, b bit) bit { return a.and(b.not()) })
	case t.aux == "neg":
		return addBits(neg(v.bits(t.args[0], n)), constBits(constant.MakeInt64(1), n), bit0)
	case t.aux == "-":
		return addBits(v.bits(t.args[0], n), neg(v.bits(t.args[1], n)), bit1)
	case t.aux == "+":
		return addBits(v.bits(t.args[0], n), v.bits(t.args[1], n), bit0)
	case t.aux == "shl", t.aux == "shr", t.aux == "mul", t.aux == "quo":
		k, ok := t.args[1].constInt()
		if ok && (t.aux == "mul" || t.aux == "quo") {
			// by a power of two
			p := k
			if p <= 0 || p&(p-1) != 0 || t.aux == "quo" && isSigned(t.typ) {
				break
			}
			for k = 0; p > 1; p >>= 1 {
				k++
			}
		}
		if !ok || k < 0 {
			break
		}
		x := v.bits(t.args[0], n)
		out := make([]bit, n)
		for i := range out {
			j := i - int(k)
			if t.aux == "shr" || t.aux == "quo" {
				j = i + int(k)
			}
			switch {
			case j >= 0 && j < n:
				out[i] = x[j]
			case j >= n && isSigned(t.typ):
				out[i] = x[n-1]
			default:
				out[i] = bit0
			}
		}
		return out
	}
	return unknownBits(n)
}

func addBits(x, y []bit, carry bit) []bit {
	out := make([]bit, len(x))
	for i := range out {
		out[i] = x[i].xor(y[i]).xor(carry)
		if x[i].xor(y[i]).kind == '?' || carry.kind == '?' {
			out[i] = bitU
		}
		c := x[i].and(y[i]).or(carry.and(x[i].or(y[i])))
		carry = c
	}
	return out
}

// bitsConst gives the number the bits stand for, if all are constant.
func bitsConst(bs []bit, t types.Type) *Term {
	v := constant.MakeInt64(0)
	for i, b := range bs {
		switch b.kind {
		case '0':
		case '1':
			v = constant.BinaryOp(v, token.ADD, constant.Shift(constant.MakeInt64(1), token.SHL, uint(i)))
		default:
			return nil
		}
	}
	return truncConst(v, t)
}

// rangeOf gives the least and greatest number the bits can stand for.
func rangeOf(bs []bit, signed bool) (lo, hi constant.Value) {
	lo, hi = constant.MakeInt64(0), constant.MakeInt64(0)
	for i, b := range bs {
		w := constant.Shift(constant.MakeInt64(1), token.SHL, uint(i))
		if signed && i == len(bs)-1 {
			w = constant.UnaryOp(token.SUB, w, 0)
		}
		if b.kind == '1' || b.kind != '0' && constant.Sign(w) < 0 {
			lo = constant.BinaryOp(lo, token.ADD, w)
		}
		if b.kind == '1' || b.kind != '0' && constant.Sign(w) > 0 {
			hi = constant.BinaryOp(hi, token.ADD, w)
		}
	}
	return lo, hi
}

// ---- E01

// e1 follows the making of a key. Each pass of the loop over the key's columns is split into
// cases: the direction, the kind of the value, and a class of values of that kind for which
// the code is uniform. What is appended to the key in a pass is its code word: bytes whose bits
// come from the value, and loops over the value's own bytes, which are split into the 256 bytes.
// One arbitrary position of the key is followed as well, to see what is done to bytes already
// written.
type e1 struct {
	p          *Program
	r          *Report
	fn         *ssa.Function
	kinds      *valueKinds
	col, rev   *ssa.Function
	iKey, iRow int
	blocks     map[string]*ssa.BasicBlock
	codes      map[string]map[string]*e1code          // case -> word
	loops      map[string]map[string]map[string]*code // loop, case -> byte -> word
	exits      map[string][]bool
	bytesSeen  int
	row0       *Term
	canon      map[string]*Term
	byteSym    *Term
	eager      bool // the bytes of a value are taken one by one, not by classes
}

type code struct{ items []*Term }

type e1code struct {
	items []*Term
	xf    map[string]map[string]bool // class of a position -> what became of it
	x     *Term
}

type e1case struct {
	name, kind, atom string
	T                types.Type
}

func (e *e1) cases() []e1case {
	k := e.kinds
	return []e1case{
		{"null", "null", "", nil},
		{"bool false", "bool", "false", k.boolT}, {"bool true", "bool", "true", k.boolT},
		{"int neg", "int", "neg", k.intT}, {"int nonneg", "int", "nonneg", k.intT},
		{"float nan", "float", "nan", k.floatT}, {"float neg", "float", "neg", k.floatT}, {"float -0", "float", "-0", k.floatT},
		{"float +0", "float", "+0", k.floatT}, {"float pos", "float", "pos", k.floatT},
		{"string", "string", "", k.strT}, {"bytes", "bytes", "", k.bytesT},
	}
}

var wordT = types.Typ[types.String]

func mkWord(items []*Term) *Term { return mkApp("word", wordT, items...) }

func (e *e1) word(st *State, d int) []*Term {
	w := st.P["w"+itoa(d)]
	if w == nil {
		return nil
	}
	if !w.isApp("word") {
		return []*Term{mkApp("lost", wordT)}
	}
	return w.args
}

func loopStack(st *State) []string {
	s := gstr(st, "#L")
	if s == "" {
		return nil
	}
	return strings.Split(s, "|")
}

func (e *e1) itOf(st *State, d int) *Term { return st.P["it"+itoa(d)] }

// pop leaves loops that control is no longer in.
func (e *e1) pop(a *Analysis, st *State, b *ssa.BasicBlock) {
	for {
		ls := loopStack(st)
		if len(ls) == 0 {
			return
		}
		d := len(ls)
		top := ls[d-1]
		depth, _ := strconv.Atoi(top[:strings.Index(top, ":")])
		h := e.blocks[top]
		if len(st.frames) > depth || len(st.frames) == depth && st.top().fn == h.Parent() && a.inLoop(h, b) {
			return
		}
		if d == 1 {
			if !st.isTrue(mkEq(e.itOf(st, 1), mkLen(st.P["key"]))) {
				a.Violate(st, "columns", "the key may be finished before the last of its columns")
			} else {
				e.r.OK("every key column is encoded")
			}
			if gstr(st, "#case") != "" || len(e.word(st, 1)) > 0 {
				a.Violate(st, "columns", "the key is finished in the middle of a column")
			}
		} else {
			done := false
			if x := st.P["x"]; x != nil && (caseKind(st) == "string" || caseKind(st) == "bytes") {
				done = st.isFalse(mkLt(e.itOf(st, d), mkLen(x)))
			}
			e.exits[top] = append(e.exits[top], done)
			items := append(append(append([]*Term{}, e.word(st, d-1)...), mkApp("star:"+top, wordT)), e.word(st, d)...)
			st.P["w"+itoa(d-1)] = mkWord(items)
		}
		for _, k := range []string{"w", "it"} {
			delete(st.P, k+itoa(d))
		}
		delete(st.P, "#b")
		delete(st.P, "b")
		delete(st.P, "B")
		setG(st, "#L", strings.Join(ls[:d-1], "|"))
	}
}

func caseKind(st *State) string {
	c := gstr(st, "#case")
	if i := strings.Index(c, ":"); i >= 0 {
		c = c[i+1:]
	}
	k, _, _ := strings.Cut(c, " ")
	return k
}

func caseAtom(st *State) string {
	_, at, _ := strings.Cut(gstr(st, "#case"), " ")
	return at
}

// header counts passes.
func (e *e1) header(a *Analysis, st *State, b *ssa.BasicBlock) {
	e.pop(a, st, b)
	if constTrip(b) {
		return
	}
	if len(loopStack(st)) == 0 && st.P["cur"].isNil() {
		// the key so far, if it is not the nil one
		var empty *Term
		n := 0
		for v, t := range st.top().env {
			if isByteSlice(v.Type()) && !t.isNil() && st.isTrue(mkEq(mkLen(t), mkInt(0))) && t != empty {
				empty = t
				n++
			}
		}
		if n == 1 {
			st.P["cur"] = empty
		}
	}
	key := fmt.Sprintf("%d:%s:%d", len(st.frames), shortFn(b.Parent()), b.Index)
	e.blocks[key] = b
	ls := loopStack(st)
	d := len(ls)
	if d > 0 && ls[d-1] == key {
		it := e.itOf(st, d)
		if d == 1 {
			e.endColumn(a, st)
		} else {
			e.endByte(a, st, key)
		}
		st.P["it"+itoa(d)] = mkAddConst(it, 1)
		st.P["w"+itoa(d)] = mkWord(nil)
		return
	}
	setG(st, "#L", strings.Join(append(ls, key), "|"))
	st.P["it"+itoa(d+1)] = mkInt(0)
	st.P["w"+itoa(d+1)] = mkWord(nil)
}

func itemsKey(items []*Term) string {
	var sb strings.Builder
	for _, t := range items {
		sb.WriteString(t.String())
		sb.WriteByte(';')
	}
	return sb.String()
}

func isStar(t *Term) bool { return t.op == "app" && strings.HasPrefix(t.aux, "star:") }

// plainItems counts the bytes of a word, loops apart.
func plainItems(items []*Term) int {
	n := 0
	for _, t := range items {
		if !isStar(t) {
			n++
		}
	}
	return n
}

func (e *e1) endByte(a *Analysis, st *State, loop string) {
	c, b := gstr(st, "#case"), gstr(st, "#b")
	items := e.word(st, len(loopStack(st)))
	if e.loops[loop] == nil {
		e.loops[loop] = map[string]map[string]*code{}
	}
	k := c + "/" + b
	if e.loops[loop][k] == nil {
		e.loops[loop][k] = map[string]*code{}
	}
	if b != "any" {
		e.loops[loop][k][itemsKey(items)] = &code{items: items}
	} else {
		delete(e.loops[loop], k)
		B := st.P["B"] // the byte, or the constant it is known to be
		for n := int64(0); n < 256; n++ {
			v := mkConst(constant.MakeInt64(n), types.Typ[types.Uint8])
			if st.isFalse(mkEq(B, v)) {
				continue
			}
			bv := newBitval(e1leaf("", "", nil))
			its := make([]*Term, len(items))
			for i, t := range items {
				its[i] = t
				if !isStar(t) && !t.isConst() && !B.isConst() {
					its[i] = subst(t, map[*Term]*Term{B: v}, map[*Term]*Term{}, nil)
					if c := bitsConst(bv.bits(its[i], 8), types.Typ[types.Uint8]); c != nil {
						its[i] = c
					}
				}
			}
			k := c + "/" + strconv.FormatInt(n, 10)
			if e.loops[loop][k] == nil {
				e.loops[loop][k] = map[string]*code{}
			}
			e.loops[loop][k][itemsKey(its)] = &code{items: its}
		}
		st.substAll(e.canonicalByte(), mkSym(types.Typ[types.Uint8], "past"))
	}
	delete(st.P, "#b")
	delete(st.P, "b")
	delete(st.P, "B")
}

// canonicalByte stands for the byte of a pass over a value's bytes.
func (e *e1) canonicalByte() *Term {
	if e.byteSym == nil {
		e.byteSym = mkSym(types.Typ[types.Uint8], "byte")
	}
	return e.byteSym
}

// canonical stands for the value of a column.
func (e *e1) canonical(t types.Type) *Term {
	k := t.String()
	if e.canon == nil {
		e.canon = map[string]*Term{}
	}
	if e.canon[k] == nil {
		e.canon[k] = mkSym(t, "value")
	}
	return e.canon[k]
}

func (e *e1) endColumn(a *Analysis, st *State) {
	c := gstr(st, "#case")
	hit := gstr(st, "#hit")
	fin := func() *Term {
		return st.eval(mkSelect(st.seqOfSlice(st.P["cur"]), st.P["wit:w"], types.Typ[types.Uint8], st))
	}
	if c == "" {
		if len(e.word(st, 1)) > 0 {
			a.Violate(st, "code", "bytes are written for a column whose value is not looked at")
		}
	} else {
		items, x := e.word(st, 1), st.P["x"]
		k := itemsKey(items)
		m := e.codes[c]
		if m == nil {
			m = map[string]*e1code{}
			e.codes[c] = m
		}
		ec := m[k]
		if ec == nil {
			ec = &e1code{items: items, xf: map[string]map[string]bool{}, x: x}
			m[k] = ec
		}
		if hit != "none" && hit != "old" {
			if ec.xf[hit] == nil {
				ec.xf[hit] = map[string]bool{}
			}
			ec.xf[hit][e.became(st, st.P["e"], fin())] = true
		}
	}
	if hit == "old" && e.became(st, st.P["e"], fin()) != "same" {
		a.Violate(st, "earlier", "bytes of the key already written for another column are changed")
	}
	if hit != "none" {
		setG(st, "#hit", "old")
		setG(st, "#low", "")
		st.P["e"] = fin()
	}
	delete(st.P, "mark:r")
	rb, _ := sliceParts(st.P["row"])
	st.setContent(rb, e.row0)
	if x := st.P["x"]; x != nil && !x.isConst() {
		st.substAll(x, mkSym(x.typ, "past"))
	}
	st.P["c0"] = mkLen(st.P["cur"])
	delete(st.P, "#case")
	delete(st.P, "#dir")
	if xs := st.P["xs"]; xs != nil {
		st.substAll(xs, mkSym(xs.typ, "past"))
	}
	delete(st.P, "xs")
	delete(st.P, "x")
	st.P["#seen:w"] = mkBool(false)
}

// became tells what happened to a byte written as x and now y.
func (e *e1) became(st *State, x, y *Term) string {
	if x == nil || y == nil {
		return "?"
	}
	if x == y || st.isTrue(mkEq(x, y)) {
		return "same"
	}
	v := newBitval(func(t *Term, n int) []bit {
		if t != x {
			return nil
		}
		out := make([]bit, n)
		for i := range out {
			out[i] = bit{kind: 's', src: x, idx: i}
		}
		return out
	})
	p, q := v.bits(x, 8), v.bits(y, 8)
	same, inv := true, true
	for i := range p {
		if p[i].kind == '?' || p[i] != q[i] {
			same = false
		}
		if p[i].kind == '?' || p[i].not() != q[i] {
			inv = false
		}
	}
	switch {
	case same:
		return "same"
	case inv:
		return "inverted"
	}
	return "?"
}

// leaf gives the bits of the value of this pass.
func e1leaf(kind, atom string, x *Term) func(t *Term, n int) []bit {
	src := func(n int, fix func(i int) byte) []bit {
		out := make([]bit, n)
		for i := range out {
			out[i] = bit{kind: 's', src: x, idx: i}
			if c := fix(i); c != 0 {
				out[i] = bit{kind: c}
			}
		}
		return out
	}
	return func(t *Term, n int) []bit {
		if x == nil {
			return nil
		}
		switch kind {
		case "int":
			if bareInt(t) != bareInt(x) || n != 64 {
				return nil
			}
			return src(n, func(i int) byte {
				if i == 63 && atom == "neg" {
					return '1'
				} else if i == 63 {
					return '0'
				}
				return 0
			})
		case "float":
			if !t.isApp("math.Float64bits") {
				return nil
			}
			f, neg := floatOf(t.args[0])
			if f != bareInt(x) {
				return nil
			}
			return src(n, func(i int) byte {
				s := func(b bool) byte {
					if b != neg {
						return '1'
					}
					return '0'
				}
				switch {
				case i == 63 && atom != "nan":
					return s(atom == "neg" || atom == "-0")
				case atom == "-0" || atom == "+0":
					return '0'
				case atom == "nan" && i >= 52 && i < 63:
					return '1'
				}
				return 0
			})
		}
		return nil
	}
}

// bareInt strips changes of type that keep the value.
func bareInt(t *Term) *Term {
	for t.op == "app" && len(t.args) == 1 && (isConv(t) && t.args[0].typ != nil && t.typ != nil && types.Identical(t.typ.Underlying(), t.args[0].typ.Underlying())) {
		t = t.args[0]
	}
	return t
}

// floatOf strips conversions and negations of a double.
func floatOf(t *Term) (*Term, bool) {
	neg := false
	for {
		switch {
		case t.isApp("neg"):
			t, neg = t.args[0], !neg
		case bareInt(t) != t:
			t = bareInt(t)
		default:
			return t, neg
		}
	}
}

// class of a double in the class atom of x: one of nan neg -0 +0 pos, or a constant zero.
func floatClass(t, x *Term, atom string) string {
	if t.isConst() && t.val != nil {
		if constant.Sign(constant.ToFloat(t.val.(constant.Value))) == 0 {
			return "+0"
		}
		return ""
	}
	f, neg := floatOf(t)
	if f != bareInt(x) {
		return ""
	}
	if neg {
		return map[string]string{"nan": "nan", "neg": "pos", "-0": "+0", "+0": "-0", "pos": "neg"}[atom]
	}
	return atom
}

// compareFloat decides a comparison of doubles in known classes, if it can.
func compareFloat(op token.Token, a, b string, same bool) (bool, bool) {
	if a == "" || b == "" {
		return false, false
	}
	if a == "nan" || b == "nan" {
		return op == token.NEQ, true
	}
	rank := map[string]int{"neg": -1, "-0": 0, "+0": 0, "pos": 1}
	ra, rb := rank[a], rank[b]
	if ra == rb && ra != 0 && !same {
		return false, false
	}
	switch op {
	case token.EQL:
		return ra == rb, true
	case token.NEQ:
		return ra != rb, true
	case token.LSS:
		return ra < rb, true
	case token.LEQ:
		return ra <= rb, true
	case token.GTR:
		return ra > rb, true
	case token.GEQ:
		return ra >= rb, true
	}
	return false, false
}

// value computes on the classes of values.
func (e *e1) value(a *Analysis, st *State, in ssa.Value, ops []*Term) []*Term {
	kind, atom, x := caseKind(st), caseAtom(st), st.P["x"]
	if cv, ok := in.(*ssa.Convert); ok && st.P["xs"] != nil && isByteSlice(cv.Type()) && bareInt(ops[0]) == bareInt(x) {
		return []*Term{retype(st.P["xs"], cv.Type())}
	}
	if x == nil || kind != "int" && kind != "float" {
		return nil
	}
	bv := newBitval(e1leaf(kind, atom, x))
	fold := func(t *Term) []*Term {
		if t == nil || t.typ == nil || !isInt(in.Type()) || t.isConst() {
			return nil
		}
		n, _ := intBits(in.Type())
		if c := bitsConst(bv.bits(t, n), in.Type()); c != nil {
			return []*Term{c}
		}
		return nil
	}
	switch in := in.(type) {
	case *ssa.BinOp:
		if isFloat(in.X.Type()) {
			if v, ok := compareFloat(in.Op, floatClass(ops[0], x, atom), floatClass(ops[1], x, atom), ops[0] == ops[1]); ok {
				return []*Term{mkBool(v)}
			}
			return nil
		}
		if !isInt(in.X.Type()) {
			return nil
		}
		if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			n, sg := intBits(in.X.Type())
			l1, h1 := rangeOf(bv.bits(ops[0], n), sg)
			l2, h2 := rangeOf(bv.bits(ops[1], n), sg)
			lt := constant.Compare(h1, token.LSS, l2)
			gt := constant.Compare(h2, token.LSS, l1)
			le := constant.Compare(h1, token.LEQ, l2)
			ge := constant.Compare(h2, token.LEQ, l1)
			yes := []*Term{mkBool(true)}
			no := []*Term{mkBool(false)}
			switch in.Op {
			case token.EQL:
				if lt || gt {
					return no
				}
			case token.NEQ:
				if lt || gt {
					return yes
				}
			case token.LSS:
				if lt {
					return yes
				} else if ge {
					return no
				}
			case token.GEQ:
				if lt {
					return no
				} else if ge {
					return yes
				}
			case token.GTR:
				if gt {
					return yes
				} else if le {
					return no
				}
			case token.LEQ:
				if gt {
					return no
				} else if le {
					return yes
				}
			}
			return nil
		}
		switch in.Op {
		case token.ADD, token.SUB:
			// sums wrap around: they are kept apart from the unbounded ones of the core
			n, _ := intBits(in.Type())
			if mentions(ops[0], x) || mentions(ops[1], x) {
				y := bv.bits(ops[1], n)
				cy := bit0
				if in.Op == token.SUB {
					cy = bit1
					for i := range y {
						y[i] = y[i].not()
					}
				}
				if c := bitsConst(addBits(bv.bits(ops[0], n), y, cy), in.Type()); c != nil {
					return []*Term{c}
				}
				return []*Term{mkApp(map[token.Token]string{token.ADD: "+", token.SUB: "-"}[in.Op], in.Type(), ops...)}
			}
		}
		return fold(st.binop(in.Op, ops[0], ops[1], in.Type(), in.X.Type()))
	case *ssa.UnOp:
		if in.Op == token.XOR {
			return fold(mkApp("compl", in.Type(), ops[0]))
		}
		if in.Op == token.SUB && isInt(in.Type()) && mentions(ops[0], x) {
			t := mkApp("neg", in.Type(), ops[0])
			if f := fold(t); f != nil {
				return f
			}
			return []*Term{t}
		}
	case *ssa.Convert:
		return fold(a.convert(st, ops[0], in.X.Type(), in.Type()))
	}
	return nil
}

func mentions(t, x *Term) bool { return contains(t, bareInt(x)) }

func (e *e1) call(a *Analysis, st *State, c *Call) ([]Out, bool) {
	if c.Fn == nil {
		return nil, false
	}
	switch c.Fn {
	case e.col:
		return []Out{{St: st, Ret: mkApp("keycol", c.Sig.Results().At(0).Type(), c.Args[0])}}, true
	case e.rev:
		if d := loopStack(st); len(d) < 1 || st.eval(c.Args[0]) != st.eval(elemAt(st, st.P["key"], e.itOf(st, 1))) {
			a.Violate(st, "direction", "a direction is looked at that is not the current column's")
			return nil, true
		}
		var outs []Out
		for _, s := range e.directions(st) {
			outs = append(outs, Out{St: s, Ret: mkBool(gstr(s, "#dir") == "down")})
		}
		return outs, true
	}
	one := func(t *Term) ([]Out, bool) { return []Out{{St: st, Ret: t}}, true }
	x, atom := st.P["x"], caseAtom(st)
	if x != nil && caseKind(st) == "float" {
		switch c.Name() {
		case "math.IsNaN":
			if f, _ := floatOf(c.Args[0]); f == bareInt(x) {
				return one(mkBool(atom == "nan"))
			}
		case "math.Signbit":
			if cl := floatClass(c.Args[0], x, atom); cl != "" && cl != "nan" {
				return one(mkBool(cl == "neg" || cl == "-0"))
			}
		case "math.Float64bits":
			t := mkApp("math.Float64bits", types.Typ[types.Uint64], c.Args[0])
			if k := bitsConst(newBitval(e1leaf("float", atom, x)).bits(t, 64), t.typ); k != nil {
				return one(k)
			}
			return one(t)
		}
	}
	if n := c.Name(); strings.Contains(n, "encoding/binary.bigEndian.") || strings.Contains(n, "encoding/binary.littleEndian.") {
		base, m, _ := strings.Cut(n, "ndian.")
		big := strings.HasSuffix(base, "bigE")
		i := strings.IndexAny(m, "136")
		if i < 0 {
			return nil, false
		}
		w, err := strconv.Atoi(m[i:])
		if err != nil {
			return nil, false
		}
		buf, u := c.Args[1], c.Args[2]
		var us []*Term
		for k := 0; k < w/8; k++ {
			sh := k * 8
			if big {
				sh = w - 8 - k*8
			}
			b := u
			if sh > 0 {
				b = mkApp("shr", u.typ, u, mkInt(int64(sh)))
			}
			us = append(us, a.convert(st, b, u.typ, types.Typ[types.Uint8]))
		}
		switch {
		case strings.HasPrefix(m, "Put"):
			bs, lo := sliceParts(buf)
			ct := st.content(bs)
			for k, b := range us {
				ct = intern("store", "", ct.typ, nil, ct, mkAddConst(lo, int64(k)), b)
			}
			st.setContent(bs, ct)
			return []Out{{St: st}}, true
		case strings.HasPrefix(m, "Append"):
			var parts []*Term
			for _, b := range us {
				parts = append(parts, mkUnit(b, buf.typ))
			}
			outs := []Out{}
			for _, s := range e.forkPos(a, st, buf, w/8) {
				o := mkObj(buf.typ, "app")
				s.heap[contentKey(o)] = mkCat(buf.typ, append([]*Term{s.seqOfSlice(buf)}, parts...)...)
				res := intern("sl", "", buf.typ, nil, o, mkInt(0), mkAddConst(mkLen(buf), int64(w/8)))
				e.emit(a, s, buf, us, res)
				outs = append(outs, Out{St: s, Ret: res})
			}
			return outs, true
		}
	}
	return nil, false
}

// directions splits by the direction of the current column.
func (e *e1) directions(st *State) []*State {
	if gstr(st, "#dir") != "" {
		return []*State{st}
	}
	d := st.clone()
	setG(st, "#dir", "up")
	setG(d, "#dir", "down")
	return []*State{st, d}
}

// forkPos splits by where the followed position lies among n bytes about to be appended.
func (e *e1) forkPos(a *Analysis, st *State, base *Term, n int) []*State {
	if gstr(st, "#hit") != "none" || base != st.P["cur"] && !(st.P["cur"].isNil() && st.isTrue(mkEq(mkLen(base), mkInt(0)))) {
		setG(st, "#pend", "no")
		return []*State{st}
	}
	var out []*State
	I := types.Typ[types.Int]
	for j := 0; j < n; j++ {
		s := st.clone()
		if s.assume(mkEq(s.P["wit:w"], mkAdd(mkLen(base), mkInt(int64(j)), I)), true) && !s.dead {
			setG(s, "#pend", itoa(j))
			out = append(out, s)
		}
	}
	if st.assume(mkLt(st.P["wit:w"], mkAdd(mkLen(base), mkInt(int64(n)), I)), false) && !st.dead {
		setG(st, "#pend", "no")
		out = append(out, st)
	}
	return out
}

// emit records bytes appended.
func (e *e1) emit(a *Analysis, st *State, base *Term, us []*Term, res *Term) {
	cur := st.P["cur"]
	if base != cur && !(cur.isNil() && st.isTrue(mkEq(mkLen(base), mkInt(0)))) {
		a.Violate(st, "dropped", "bytes are appended to something else than the key so far")
		return
	}
	d := len(loopStack(st))
	if d == 0 {
		a.Violate(st, "outside", "bytes are written that belong to no key column")
		return
	}
	w := append([]*Term{}, e.word(st, d)...)
	for j, u := range us {
		if gstr(st, "#pend") == itoa(j) {
			setG(st, "#hit", fmt.Sprintf("%s/%d", loopStack(st)[d-1], plainItems(w)))
			if d == 1 {
				setG(st, "#low", itoa(plainItems(w)))
			} else {
				setG(st, "#low", itoa(plainItems(e.word(st, 1))))
			}
			// what is done to the byte later does not depend on what it is
			E := e.canonical(types.Typ[types.Uint8])
			b, lo := sliceParts(res)
			ct := st.content(b)
			st.setContent(b, intern("store", "", ct.typ, nil, ct, mkAdd(lo, st.P["wit:w"], types.Typ[types.Int]), E))
			st.P["e"] = E
		}
		w = append(w, u)
	}
	delete(st.P, "#pend")
	st.P["w"+itoa(d)] = mkWord(w)
	st.P["cur"] = res
	e.bytesSeen++
}

func (e *e1) onAppend(a *Analysis, st *State, base, elems, res *Term, in ssa.Instruction) {
	if !isByteSlice(res.typ) {
		return
	}
	n, ok := mkLen(elems).constInt()
	var us []*Term
	if !ok || n > 64 {
		us = []*Term{mkApp("raw", wordT, elems)}
	} else {
		q := st.seqOfSlice(elems)
		for j := int64(0); j < n; j++ {
			us = append(us, st.eval(mkSelect(q, mkInt(j), types.Typ[types.Uint8], st)))
		}
	}
	e.emit(a, st, base, us, res)
}

func (e *e1) instr(w *witness) func(a *Analysis, st *State, in ssa.Instruction) bool {
	return func(a *Analysis, st *State, in ssa.Instruction) bool {
		e.pop(a, st, in.Block())
		if c, ok := in.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && isByteSlice(c.Type()) && gstr(st, "#pend") == "" {
				if n, ok := mkLen(a.val(st, c.Call.Args[1])).constInt(); ok {
					for _, s := range e.forkPos(a, st, a.val(st, c.Call.Args[0]), int(n)) {
						a.push(s)
					}
					return false
				}
			}
		}
		var X, I ssa.Value
		switch in := in.(type) {
		case *ssa.Slice:
			e.part(a, st, in)
		case *ssa.IndexAddr:
			X, I = in.X, in.Index
		case *ssa.Index:
			X, I = in.X, in.Index
		case *ssa.Lookup:
			if isString(in.X.Type()) {
				X, I = in.X, in.Index
			}
		}
		if X == nil {
			return true
		}
		base := a.val(st, X)
		_, lo := sliceParts(base)
		idx := mkAdd(lo, a.val(st, I), types.Typ[types.Int])
		d := len(loopStack(st))
		switch {
		case baseOf(base) == baseOf(st.P["key"]) && types.Identical(base.typ, st.P["key"].typ):
			if d < 1 || !st.isTrue(mkEq(idx, e.itOf(st, 1))) {
				a.Violate(st, "columns", "the key's columns are not encoded one after the other")
				return false
			}
		case baseOf(base) == baseOf(st.P["row"]) && types.Identical(base.typ, st.P["row"].typ):
			if d < 1 {
				a.Violate(st, "columns", "a value is read outside the loop over the key")
				return false
			}
			ck := elemAt(st, st.P["key"], e.itOf(st, 1))
			want := mkApp("keycol", e.col.Signature.Results().At(0).Type(), ck)
			if st.eval(bareOf(idx)) != want && !st.isTrue(mkEq(bareOf(idx), want)) {
				a.Violate(st, "column", "the value read is not that of the key column: %s", idx)
				return false
			}
			if gstr(st, "#case") != "" {
				return true
			}
			v := elemAt(st, st.P["row"], idx)
			for _, sd := range e.directions(st) {
				for _, c := range e.cases() {
					s := sd.clone()
					// the value of this pass is one unknown, however it is read
					val := mkNil(v.typ)
					if c.T != nil {
						x := e.canonical(c.T)
						s.P["x"] = x
						switch c.name {
						case "bool false":
							s.assume(x, false)
						case "bool true":
							s.assume(x, true)
						case "int neg":
							s.assume(mkLt(x, mkInt(0)), true)
						case "int nonneg":
							s.assume(mkLt(x, mkInt(0)), false)
						}
						if c.kind == "string" {
							// its bytes, wherever they are taken
							s.P["xs"] = e.canonical(types.NewSlice(types.Typ[types.Uint8]))
							s.assume(mkEq(mkLen(s.P["xs"]), mkLen(x)), true)
						}
						val = mkIface(c.T, s.P["x"], v.typ)
					}
					rb, rlo := sliceParts(s.P["row"])
					ct := s.content(rb)
					s.setContent(rb, intern("store", "", ct.typ, nil, ct, mkAdd(rlo, s.eval(bareOf(idx)), types.Typ[types.Int]), val))
					setG(s, "#case", gstr(s, "#dir")+":"+c.name)
					if !s.dead {
						a.push(s)
					}
				}
			}
			return false
		case baseOf(base) == baseOf(st.P["cur"]) && isByteSlice(base.typ):
			return e.at(a, st, base, X, I)
		default:
			x := st.P["x"]
			if x == nil || d < 2 || x.isConst() || caseKind(st) != "string" && caseKind(st) != "bytes" || baseOf(base) != x && baseOf(base) != bareInt(x) && baseOf(base) != st.P["xs"] {
				return true
			}
			if !isString(base.typ) && st.seqOfSlice(baseOf(base)).op != "seqof" {
				return true
			}
			if !st.isTrue(mkEq(idx, e.itOf(st, d))) {
				a.Violate(st, "bytes-order", "the bytes of a value are not encoded one after the other")
				return false
			}
			if gstr(st, "#b") != "" {
				return true
			}
			q := intern("seqof", "", base.typ, nil, base)
			if !isString(base.typ) {
				q = st.seqOfSlice(baseOf(base))
			}
			b := mkSelect(q, idx, types.Typ[types.Uint8], st)
			if !e.eager {
				B := e.canonicalByte()
				st.P["b"], st.P["B"] = b, B
				st.assume(mkLt(B, mkInt(0)), false)
				st.assume(mkLt(B, mkInt(256)), true)
				setG(st, "#b", "any")
				return !st.dead
			}
			for k := 0; k < 256; k++ {
				s := st.clone()
				setG(s, "#b", itoa(k))
				s.P["b"] = b
				a.push(s)
			}
			return false
		}
		return true
	}
}

// part gives the distance of the position followed from the start of a part of the key a name.
func (e *e1) part(a *Analysis, st *State, in *ssa.Slice) {
	if in.Low == nil || !isByteSlice(in.X.Type()) || gstr(st, "#hit") == "none" {
		return
	}
	base := a.val(st, in.X)
	if baseOf(base) != baseOf(st.P["cur"]) {
		return
	}
	_, lo := sliceParts(base)
	intT := types.Typ[types.Int]
	lo = mkAdd(lo, a.val(st, in.Low), intT)
	if lo.isConst() {
		return
	}
	w, r := st.P["wit:w"], mkSym(intT, "r")
	if w.op != "sym" {
		st.P["mark:r"] = mkSub(w, lo, intT)
		return
	}
	z := mkInt(0)
	bound := func(x, y, u, v *Term) { // u - v = x - y
		bx, cx, o1 := x.lin()
		by, cy, o2 := y.lin()
		bu, cu, o3 := u.lin()
		bv, cv, o4 := v.lin()
		if !o1 || !o2 || !o3 || !o4 {
			return
		}
		for _, b := range []**Term{&bx, &by, &bu, &bv} {
			if *b == nil {
				*b = z
			}
		}
		if k, ok := st.upper(bx, by); ok {
			st.addDiff(bu, bv, k+cx-cy-cu+cv)
		}
		if k, ok := st.upper(by, bx); ok {
			st.addDiff(bv, bu, k+cy-cx-cv+cu)
		}
	}
	bound(w, lo, r, z)
	low := a.val(st, in.Low)
	n := mkLen(base)
	bound(w, n, r, mkSub(n, low, intT))
	if in.High != nil {
		h := a.val(st, in.High)
		bound(w, h, r, mkSub(h, low, intT))
	}
	st.substAll(w, mkAdd(lo, r, intT))
}

// at splits by whether an element of the key looked at or changed is the one followed. In a
// part of the key the distance from its start is compared.
func (e *e1) at(a *Analysis, st *State, base *Term, X, I ssa.Value) bool {
	var i, r *Term
	get := func() {
		_, lo := sliceParts(a.val(st, X))
		i = a.val(st, I)
		r = mkSub(st.P["wit:w"], lo, types.Typ[types.Int])
	}
	get()
	if !st.eval(mkEq(i, r)).isBoolConst() {
		eq := mkEq(i, r)
		if st.P["at"] == eq {
			a.Violate(st, "position", "it is not known which byte of the key is changed")
			return false
		}
		lt, gt := st.clone(), st.clone()
		for _, s := range []struct {
			s    *State
			less *Term
		}{{lt, mkLt(i, r)}, {gt, mkLt(r, i)}} {
			if !s.s.assume(s.less, true) || s.s.dead {
				continue
			}
			s.s.P["at"] = eq
			a.push(s.s)
		}
		if !st.assume(mkEq(i, r), true) || st.dead {
			return false
		}
		get()
	}
	delete(st.P, "at")
	if st.isTrue(mkEq(i, r)) {
		st.P["#seen:w"] = mkBool(true)
	} else if b, c, ok := r.lin(); ok && b != nil {
		// remembered although it follows, for what is not said is not looked for at joins
		if bi, ci, ok := i.lin(); ok && st.isTrue(mkLt(i, r)) {
			if bi == nil {
				bi = mkInt(0)
			}
			st.addDiff(bi, b, c-ci-1)
		}
	}
	return !st.dead
}

func checkE01(p *Program, r *Report) {
	r2 := NewReport(r.ID, p)
	r2.start = r.start
	if (&e1{p: p, r: r2}).run() {
		*r = *r2
		return
	}
	(&e1{p: p, r: r, eager: true}).run()
}

// run is true if all is well.
func (e *e1) run() bool {
	p, r := e.p, e.r
	r.Rule = "each pass of the loop over the key's columns is followed for each direction and each class of values (NULL, false, true, negative and other integers, NaN, negative, -0, +0 and positive doubles, strings, bytes); the bytes written are the pass's code word, by the provenance of each of their bits, with the loop over a string's bytes taken for each of the 256 bytes; one arbitrary position is followed through later changes; then, for every two classes of a type, the first place where their code words differ must be constant and ordered as the classes are, within a class the bits must be those of the value from the highest down, all straight or all inverted as the direction requires, and the codes of bytes and of the end of a string must differ, before either ends, as the bytes do; NULL comes first in both directions"
	e.blocks, e.codes, e.loops, e.exits = map[string]*ssa.BasicBlock{}, map[string]map[string]*e1code{}, map[string]map[string]map[string]*code{}, map[string][]bool{}
	if e.kinds = findValueKinds(p, r); e.kinds == nil {
		return false
	}
	e.col = columnOf(p)
	ckT := p.TypeOf("types", "ColumnKey")
	rowT := p.TypeOf("types", "Row")
	if e.col == nil || ckT == nil || rowT == nil || p.Method(ckT, "Reverse") == nil {
		r.Violate("anchor:ColumnKey", posZero, nil, "types.ColumnKey, its methods, or types.Row not found")
		return false
	}
	e.rev = p.Method(ckT, "Reverse")
	// the function making a key of a row
	for _, fn := range p.repoFns() {
		if fn.Pkg == nil || !strings.HasSuffix(fn.Pkg.Pkg.Path(), "/encode") || fn.Parent() != nil || !token.IsExported(fn.Name()) {
			continue
		}
		ik, ir := -1, -1
		for i, q := range fn.Params {
			if s, ok := q.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), ckT) {
				ik = i
			}
			if types.Identical(q.Type(), rowT) {
				ir = i
			}
		}
		res := fn.Signature.Results()
		if ik >= 0 && ir >= 0 && res.Len() == 1 && isByteSlice(res.At(0).Type()) {
			e.fn, e.iKey, e.iRow = fn, ik, ir
		}
	}
	if e.fn == nil {
		r.Violate("anchor:MakeKey", posZero, nil, "no function of encode makes a key of columns and a row")
		return false
	}
	w := &witness{name: "w", match: func(st *State, base *Term, in ssa.Instruction) bool { return true }}
	h := &Hooks{}
	h.Header = e.header
	h.Instr = e.instr(w)
	h.Append = e.onAppend
	h.Value = e.value
	h.Inline = func(fn *ssa.Function) bool { return true }
	h.Call = e.call
	h.LoadVal = func(a *Analysis, st *State, v *Term) *Term {
		if gstr(st, "#b") == "any" && st.P["b"] != nil && st.eval(v) == st.eval(st.P["b"]) {
			return st.P["B"]
		}
		if n, err := strconv.Atoi(gstr(st, "#b")); err == nil && st.P["b"] != nil && st.eval(v) == st.eval(st.P["b"]) {
			return mkConst(constant.MakeInt64(int64(n)), types.Typ[types.Uint8])
		}
		return v
	}
	h.Panic = func(a *Analysis, st *State, v *Term) {
		a.Violate(st, "panic:"+gstr(st, "#case"), "making a key panics for a value (%s)", gstr(st, "#case"))
	}
	h.Return = func(a *Analysis, st *State, res []*Term) {
		cur := st.P["cur"]
		if res[0] != cur && !st.isTrue(mkEq(mkLen(res[0]), mkInt(0))) || res[0] != cur && !cur.isNil() {
			a.Violate(st, "result", "what is returned is not the key made")
			return
		}
		if gstr(st, "#hit") == "old" {
			fin := st.eval(mkSelect(st.seqOfSlice(cur), st.P["wit:w"], types.Typ[types.Uint8], st))
			if e.became(st, st.P["e"], fin) != "same" {
				a.Violate(st, "earlier", "the key is changed after it was made")
				return
			}
		}
		r.OK("key returned as made")
	}
	a := NewAnalysis(p, r, h, shortFn(e.fn))
	a.Unroll, a.Exact = 0, true
	a.Marks = []string{"mark:r"}
	a.Keep = append(a.Keep, func(st *State) *Term {
		w, n := st.P["wit:w"], st.P["c0"]
		switch gstr(st, "#hit") {
		case "none":
			return nil
		case "old":
			return mkLt(w, n)
		}
		low, _ := strconv.Atoi(gstr(st, "#low"))
		return mkLt(mkAddConst(n, int64(low-1)), w)
	})
	a.Keep = append(a.Keep, func(st *State) *Term {
		w, n := st.P["wit:w"], mkLen(st.P["cur"])
		if gstr(st, "#hit") == "none" {
			return mkLt(mkAddConst(n, -1), w)
		}
		return mkLt(w, n)
	})
	st := newState()
	args := paramSyms(e.fn)
	st.P["key"], st.P["row"] = args[e.iKey], args[e.iRow]
	rb, _ := sliceParts(st.P["row"])
	e.row0 = st.content(rb)
	st.P["cur"] = mkNil(e.fn.Signature.Results().At(0).Type())
	st.P["c0"] = mkInt(0)
	setG(st, "#hit", "none")
	w.setup(a, st, nil)
	r.entries = append(r.entries, a.Entry)
	a.Start(st, e.fn, args)
	a.Run()
	if a.aborted {
		return false
	}
	e.decide()
	return len(r.violations) == 0
}

// ---- deciding the order

// cw is a code word: bytes (low bit first) and at most one loop over the bytes of the value.
type cword struct {
	pre, post [][]bit
	star      string
	inv       map[int]bool // positions within the loop's words that are inverted
}

func (e *e1) decide() {
	words := map[string]*cword{}
	for _, dir := range []string{"up", "down"} {
		for _, c := range e.cases() {
			k := dir + ":" + c.name
			if w := e.wordOf(k, c); w != nil {
				words[k] = w
			}
		}
	}
	byKind := map[string][]e1case{}
	var order []string
	for _, c := range e.cases() {
		if byKind[c.kind] == nil {
			order = append(order, c.kind)
		}
		byKind[c.kind] = append(byKind[c.kind], c)
	}
	pos := e.p.Fset.Position(e.fn.Pos())
	for _, dir := range []string{"up", "down"} {
		null := words[dir+":null"]
		for _, kind := range order {
			cs := byKind[kind]
			for i, c := range cs {
				w := words[dir+":"+c.name]
				if w == nil {
					continue
				}
				if kind != "null" && null != nil {
					if s := cmpWords(null, w); s != -1 {
						e.r.Violate("null-first:"+dir+":"+c.name, pos, nil, "the key of NULL (%s) does not sort before that of %s", dir, c.name)
					} else {
						e.r.OK("NULL sorts first")
					}
				}
				for _, d := range cs[i+1:] {
					x := words[dir+":"+d.name]
					if x == nil {
						continue
					}
					want := -1
					if dir == "down" {
						want = 1
					}
					if c.kind == "float" && c.atom == "-0" && d.atom == "+0" {
						want = 0
					}
					if s := cmpWords(w, x); s != want {
						e.r.Violate("order:"+dir+":"+c.name+"/"+d.name, pos, nil, "the keys (%s) of %s and %s do not sort as they do", dir, c.name, d.name)
					} else {
						e.r.OK("classes of values in order")
					}
				}
				if msg := e.within(w, c, dir); msg != "" {
					e.r.Violate("within:"+dir+":"+c.name, pos, nil, "the keys (%s) of two values %s: %s", dir, c.name, msg)
				} else {
					e.r.OK("values of a class in order")
				}
			}
		}
	}
	e.r.AtLeast("values of a class in order", 24)
	e.r.AtLeast("classes of values in order", 24)
	e.r.AtLeast("NULL sorts first", 22)
	e.r.AtLeast("every key column is encoded", 1)
	e.r.AtLeast("key returned as made", 1)
}

// merged gives the codes of a case, without the loops that write nothing.
func (e *e1) merged(k string) map[string]*e1code {
	out := map[string]*e1code{}
	for _, c := range e.codes[k] {
		var items []*Term
		for _, t := range c.items {
			if isStar(t) && !e.writes(strings.TrimPrefix(t.aux, "star:"), k) {
				continue
			}
			items = append(items, t)
		}
		key := itemsKey(items)
		o := out[key]
		if o == nil {
			o = &e1code{items: items, xf: map[string]map[string]bool{}, x: c.x}
			out[key] = o
		}
		for cl, s := range c.xf {
			for v := range s {
				if o.xf[cl] == nil {
					o.xf[cl] = map[string]bool{}
				}
				o.xf[cl][v] = true
			}
		}
	}
	return out
}

// writes tells whether a loop writes bytes in a case.
func (e *e1) writes(loop, k string) bool {
	for b, ws := range e.loops[loop] {
		if strings.HasPrefix(b, k+"/") {
			for _, x := range ws {
				if len(x.items) > 0 {
					return true
				}
			}
		}
	}
	return false
}

func (e *e1) wordOf(k string, c e1case) *cword {
	pos := e.p.Fset.Position(e.fn.Pos())
	m := e.merged(k)
	if len(m) != 1 {
		msg := "no key is made for it"
		if len(m) > 1 {
			msg = fmt.Sprintf("its code has %d forms", len(m))
		}
		e.r.Violate("code:"+k, pos, nil, "a value (%s): %s", k, msg)
		return nil
	}
	var ec *e1code
	for _, x := range m {
		ec = x
	}
	w := &cword{inv: map[int]bool{}}
	what := func(class string) (bool, bool) {
		s := ec.xf[class]
		if len(s) != 1 || s["?"] {
			return false, false
		}
		return s["inverted"], true
	}
	bv := newBitval(e1leaf(c.kind, c.atom, ec.x))
	outer := ""
	for cl := range ec.xf {
		if i := strings.LastIndex(cl, "/"); i > 0 && (outer == "" || cl[:i] < outer) {
			outer = cl[:i]
		}
	}
	i := -1
	for _, t := range ec.items {
		if isStar(t) {
			l := strings.TrimPrefix(t.aux, "star:")
			if w.star != "" {
				e.r.Violate("code:"+k, pos, nil, "a value (%s) is encoded by several loops", k)
				return nil
			}
			for _, done := range e.exits[l] {
				if !done {
					e.r.Violate("bytes:"+k, pos, nil, "the loop encoding a value (%s) may end before the last byte", k)
					return nil
				}
			}
			w.star = l
			continue
		}
		i++
		if t.typ == wordT || t.typ == nil || !isInt(t.typ) {
			e.r.Violate("code:"+k, pos, nil, "a value (%s) is written as it is, or something else than bytes: %s", k, t)
			return nil
		}
		bs := bv.bits(t, 8)
		inv, ok := what(fmt.Sprintf("%s/%d", e.outerLoop(), i))
		if !ok {
			e.r.Violate("changed:"+k, pos, nil, "a byte of the code of a value (%s) is changed after it was written, or differently", k)
			return nil
		}
		if inv {
			bs = append([]bit{}, bs...)
			for j := range bs {
				bs[j] = bs[j].not()
			}
		}
		if w.star == "" {
			w.pre = append(w.pre, bs)
		} else {
			w.post = append(w.post, bs)
		}
	}
	if w.star != "" {
		for cl := range ec.xf {
			if i := strings.LastIndex(cl, "/"); cl[:i] == w.star {
				n, _ := strconv.Atoi(cl[i+1:])
				inv, ok := what(cl)
				if !ok {
					e.r.Violate("changed:"+k, pos, nil, "a byte of the code of a value (%s) is changed after it was written, or differently", k)
					return nil
				}
				w.inv[n] = inv
			}
		}
	}
	return w
}

// outerLoop is the loop over the key's columns.
func (e *e1) outerLoop() string {
	var ks []string
	for k := range e.blocks {
		if strings.HasPrefix(k, "1:") {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, c := range e.codes {
		for _, x := range c {
			for cl := range x.xf {
				for _, k := range ks {
					if strings.HasPrefix(cl, k+"/") && e.loops[k] == nil {
						return k
					}
				}
			}
		}
	}
	return ""
}

// cmpWords compares code words of different classes: -1 or 1 when they always differ, first in
// a place that is constant in both, 0 when they are the same constant, 2 when unknown.
func cmpWords(x, y *cword) int {
	n := min(len(x.pre), len(y.pre))
	for i := 0; i < n; i++ {
		for j := 7; j >= 0; j-- {
			a, b := x.pre[i][j], y.pre[i][j]
			if a.kind != '0' && a.kind != '1' || b.kind != '0' && b.kind != '1' {
				return 2
			}
			if a != b {
				if a.kind == '0' {
					return -1
				}
				return 1
			}
		}
	}
	if len(x.pre) == len(y.pre) && x.star == "" && y.star == "" {
		return 0
	}
	return 2
}

// within checks that values of one class have codes in order.
func (e *e1) within(w *cword, c e1case, dir string) string {
	if c.kind == "string" || c.kind == "bytes" {
		return e.stringCode(w, dir+":"+c.name, dir)
	}
	if w.star != "" {
		return "the code has a part of variable length"
	}
	single := c.kind == "null" || c.kind == "bool" || c.atom == "nan" || c.atom == "-0" || c.atom == "+0"
	want := 62
	seen := map[int]bool{}
	for _, bs := range w.pre {
		for j := 7; j >= 0; j-- {
			b := bs[j]
			switch b.kind {
			case '0', '1':
			case 's':
				if single {
					return "one value has several codes"
				}
				if seen[b.idx] {
					continue
				}
				if b.idx != want {
					return fmt.Sprintf("bit %d of the value comes where bit %d should", b.idx, want)
				}
				// higher bits are greater values, except of negative doubles
				inv := dir == "down"
				if c.kind == "float" && c.atom == "neg" {
					inv = !inv
				}
				if b.neg != inv {
					return fmt.Sprintf("bit %d of the value sorts the wrong way", b.idx)
				}
				seen[b.idx] = true
				want--
			default:
				return "a bit of the code is not one of the value's"
			}
		}
	}
	if !single && want >= 0 {
		return fmt.Sprintf("bit %d of the value is not in the code", want)
	}
	return ""
}

// stringCode checks the codes of bytes and of the end.
func (e *e1) stringCode(w *cword, k, dir string) string {
	if w.star == "" {
		return "the bytes of the value are not in the code"
	}
	if len(w.post) == 0 {
		return "the code has no end"
	}
	num := func(bs []bit) int {
		n := 0
		for i, b := range bs {
			switch b.kind {
			case '1':
				n |= 1 << i
			case '0':
			default:
				return -1
			}
		}
		return n
	}
	end := num(w.post[0])
	if end < 0 {
		return "the end of the code is not constant"
	}
	bv := newBitval(e1leaf("", "", nil))
	var codes [257][]int
	codes[0] = []int{end} // the end sorts before any byte
	for b := 0; b < 256; b++ {
		ws := e.loops[w.star][fmt.Sprintf("%s/%d", k, b)]
		if len(ws) != 1 {
			return fmt.Sprintf("byte %d has %d codes", b, len(ws))
		}
		for _, x := range ws {
			if len(x.items) == 0 {
				return fmt.Sprintf("byte %d is not in the code", b)
			}
			for i, t := range x.items {
				n := num(bv.bits(t, 8))
				if n < 0 {
					return fmt.Sprintf("the code of byte %d is not constant: %s", b, t)
				}
				inv, ok := w.inv[i]
				if !ok {
					return fmt.Sprintf("what becomes of the code of byte %d is unknown", b)
				}
				if inv {
					n ^= 255
				}
				codes[b+1] = append(codes[b+1], n)
			}
		}
	}
	for i := range codes {
		for j := i + 1; j < len(codes); j++ {
			s := 0
			for l := 0; l < len(codes[i]) && l < len(codes[j]) && s == 0; l++ {
				s = codes[i][l] - codes[j][l]
			}
			if dir == "down" {
				s = -s
			}
			if s >= 0 {
				name := func(i int) string {
					if i == 0 {
						return "the end"
					}
					return fmt.Sprintf("byte %d", i-1)
				}
				return fmt.Sprintf("the codes of %s and %s do not sort as they do, or one begins with the other", name(i), name(j))
			}
		}
	}
	return ""
}

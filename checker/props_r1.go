package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/bits"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func init() {
	for n, f := range map[string]func(rune) bool{"unicode.IsSpace": unicode.IsSpace, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit} {
		appSimplify[n] = func(t types.Type, args []*Term) *Term {
			if v, ok := args[0].constInt(); ok && v >= -1<<31 && v < 1<<31 {
				return mkBool(f(rune(v)))
			}
			return intern("app", n, t, nil, args...)
		}
	}
	checks["R03"] = checkR03
	checks["R07"] = checkR07
}

// scannerRoles knows the scanner's types.
type scannerRoles struct {
	p      *Program
	r      *Report
	u      *upper
	scT    *types.Named // scanner.Scanner
	ctxT   *types.Named // scanner.ScanCtx
	fields map[string]int
	scan   *ssa.Function
	toks   map[string]int64 // token constants
	reads  int
}

func findScanner(p *Program, r *Report) *scannerRoles {
	s := &scannerRoles{p: p, r: r, u: &upper{p: p}, fields: map[string]int{}, toks: map[string]int64{}}
	s.scT, _ = p.TypeOf("parser/scanner", "Scanner").(*types.Named)
	s.ctxT, _ = p.TypeOf("parser/scanner", "ScanCtx").(*types.Named)
	if s.scT == nil || s.ctxT == nil {
		r.Violate("anchor:scanner", posZero, nil, "scanner.Scanner or scanner.ScanCtx not found")
		return nil
	}
	st, ok := s.ctxT.Underlying().(*types.Struct)
	if !ok {
		r.Violate("anchor:scanner", posZero, nil, "scanner.ScanCtx is no structure")
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		s.fields[st.Field(i).Name()] = i
	}
	for _, n := range []string{"Token", "Error", "Identifier", "String", "Bytes", "Integer", "Float"} {
		if _, ok := s.fields[n]; !ok {
			r.Violate("anchor:ScanCtx", posZero, nil, "scanner.ScanCtx has no field %s", n)
			return nil
		}
	}
	s.scan = p.Method(types.NewPointer(s.scT), "Scan")
	if s.scan == nil || len(s.scan.Params) != 2 {
		r.Violate("anchor:Scan", posZero, nil, "scanner.Scanner.Scan not found")
		return nil
	}
	for _, n := range []string{"EOF", "EndOfStatement", "Error", "Identifier", "Reserved", "String", "Bytes", "Integer", "Float", "Parameter"} {
		c, ok := p.Lookup("parser/token", n).(*types.Const)
		if !ok {
			r.Violate("anchor:token", posZero, nil, "token.%s not found", n)
			return nil
		}
		v, _ := constant.Int64Val(c.Val())
		s.toks[n] = v
	}
	return s
}

func (s *scannerRoles) tok(n string) *Term {
	return mkConst(constant.MakeInt64(s.toks[n]), types.Typ[types.Rune])
}

// the characters that matter to the shape of comments and literals
var runeClasses = []rune{'-', '/', '*', '\n', '\'', '"', '`', '[', ']'}

// what matters of a character, by what has been read of the token before it
var modeClasses = map[string]string{"": "-/\"`['", "dash": "-", "slash": "*", "line": "\n", "block": "*", "star": "*/"}

// lexMode follows comments: what has been read of the token since the scan began. The classes are
// the characters of runeClasses, "s" for other white space and "" for any other character.
func lexMode(mode, class string) string {
	switch mode {
	case "":
		switch class {
		case "\n", "s":
			return ""
		case "-":
			return "dash"
		case "/":
			return "slash"
		}
		return "token"
	case "dash":
		if class == "-" {
			return "line"
		}
		return "token"
	case "slash":
		if class == "*" {
			return "block"
		}
		return "token"
	case "line":
		if class == "\n" {
			return ""
		}
		return "line"
	case "block":
		if class == "*" {
			return "star"
		}
		return "block"
	case "star":
		switch class {
		case "*":
			return "star"
		case "/":
			return ""
		}
		return "block"
	}
	return "token"
}

// delivered notes a character of the token.
func delivered(st *State, class string) {
	m := gstr(st, "#mode")
	n := lexMode(m, class)
	if n == "token" && m == "" && (class == "\"" || class == "`" || class == "[") {
		setG(st, "#first", class)
	}
	setG(st, "#mode", n)
	switch class {
	case "s", "\n":
	case "'", "\"", "`", "]":
		setG(st, "#last", class)
	default:
		setG(st, "#last", "")
	}
}

func isSpaceTerm(x *Term) *Term {
	if f, ok := appSimplify["unicode.IsSpace"]; ok && x.isConst() {
		return f(types.Typ[types.Bool], []*Term{x})
	}
	return mkApp("unicode.IsSpace", types.Typ[types.Bool], x)
}

// resolve takes the character read last into account, telling apart what matters.
func (s *scannerRoles) resolve(st *State) []*State {
	x := st.P["cur"]
	if x == nil {
		return []*State{st}
	}
	x = st.eval(x)
	delete(st.P, "cur")
	if v, ok := x.constInt(); ok {
		cl := ""
		for _, c := range runeClasses {
			if v == int64(c) {
				cl = string(c)
			}
		}
		if cl == "" && v >= 0 && unicode.IsSpace(rune(v)) {
			cl = "s"
		}
		delivered(st, cl)
		return []*State{st}
	}
	var out []*State
	mode := gstr(st, "#mode")
	for _, c := range modeClasses[mode] {
		if sp := st.eval(isSpaceTerm(x)); sp.isBoolConst() && sp.isTrue() != unicode.IsSpace(c) {
			continue
		}
		n := st.clone()
		if n.assume(mkEq(x, mkConst(constant.MakeInt64(int64(c)), x.typ)), true) {
			delivered(n, string(c))
			out = append(out, n)
		}
		if !st.assume(mkEq(x, mkConst(constant.MakeInt64(int64(c)), x.typ)), false) {
			return out
		}
	}
	sp := st.eval(isSpaceTerm(x))
	switch {
	case sp.isTrue():
		delivered(st, "s")
	case sp.isFalse() || mode != "":
		delivered(st, "")
	default:
		n := st.clone()
		if n.assume(isSpaceTerm(x), true) {
			delivered(n, "s")
			out = append(out, n)
		}
		if !st.assume(isSpaceTerm(x), false) {
			return out
		}
		delivered(st, "")
	}
	return append(out, st)
}

// readRune gives the outcomes of reading a character.
func (s *scannerRoles) readRune(st0 *State, c *Call) []Out {
	s.reads++
	R := types.Typ[types.Rune]
	var outs []Out
	size := mkSym(types.Typ[types.Int], "size")
	add := func(n *State, r, err *Term) {
		outs = append(outs, Out{St: n, Ret: mkTuple(r, size, err)})
	}
	for _, st := range s.resolve(st0) {
		n := st.clone()
		r := mkSym(R, "char")
		if !n.assume(mkLt(r, mkConst(constant.MakeInt64(0), R)), false) ||
			!n.assume(mkLt(mkConst(constant.MakeInt64(unicode.MaxRune), R), r), false) {
			continue
		}
		n.P["cur"] = r
		add(n, r, mkNil(errType))
		// the end of the input
		n = st.clone()
		setG(n, "#eof", "yes")
		add(n, mkConst(constant.MakeInt64(0), R), s.u.eof())
		// a failure
		e := mkSym(errType, "readerr")
		st.assume(mkEq(e, mkNil(errType)), false)
		st.assume(mkEq(e, s.u.eof()), false)
		st.assume(mkApp("errors.Is", types.Typ[types.Bool], e, s.u.eof()), false)
		setG(st, "#readerr", "yes")
		add(st, mkConst(constant.MakeInt64(0), R), e)
	}
	return outs
}

func (s *scannerRoles) hooks(viol func(a *Analysis, st *State, rule, format string, args ...any)) *Hooks {
	h := &Hooks{}
	h.Branch = func(a *Analysis, st *State, cond *Term, in *ssa.If) {
		// arithmetic on digits stays in its range
		if cond.op != "eq" || cond.isConst() {
			return
		}
		for i, x := range cond.args {
			v, ok := cond.args[1-i].constInt()
			if !ok || x.isConst() || !isInt(x.typ) {
				continue
			}
			if lo, hi, ok := spanOf(st, x, 0); ok && (v < lo || v > hi) {
				st.assume(cond, false)
				return
			}
		}
	}
	h.LookupSplit = func(a *Analysis, st *State, m, k *Term, in *ssa.Lookup) ([]Out, bool) {
		return lookupTable(s.p, a, st, m, k, in)
	}
	h.Inline = func(fn *ssa.Function) bool {
		if fn.Pkg == nil {
			return fn.Parent() != nil
		}
		switch fn.Pkg.Pkg.Path() {
		case modulePath + "/parser/scanner", modulePath + "/parser/token":
			return true
		}
		return fn.Name() == "IsReserved"
	}
	h.Call = func(a *Analysis, st *State, c *Call) ([]Out, bool) {
		if c.Method != nil {
			if c.Method.Name() == "ReadRune" {
				return s.readRune(st, c), true
			}
			return nil, false
		}
		if c.Fn == nil {
			return nil, false
		}
		n := fnName(c.Fn)
		switch {
		case strings.HasPrefix(n, "unicode.Is"):
			if f, ok := appSimplify[n]; ok && c.Args[0].isConst() {
				return []Out{{St: st, Ret: f(types.Typ[types.Bool], c.Args)}}, true
			}
			if n == "unicode.IsLetter" || n == "unicode.IsDigit" {
				// neither letters nor digits are any of the characters told apart
				x := c.Args[0]
				no := st.clone()
				var outs []Out
				if no.assume(mkApp(n, types.Typ[types.Bool], x), false) {
					outs = append(outs, Out{St: no, Ret: mkBool(false)})
				}
				if st.assume(mkApp(n, types.Typ[types.Bool], x), true) &&
					st.assume(isSpaceTerm(x), false) &&
					st.assume(mkLt(x, mkConst(constant.MakeInt64('0'), x.typ)), false) &&
					st.assume(mkLt(mkConst(constant.MakeInt64(unicode.MaxRune), x.typ), x), false) {
					for _, k := range runeClasses {
						if !st.assume(mkEq(x, mkConst(constant.MakeInt64(int64(k)), x.typ)), false) {
							return outs, true
						}
					}
					outs = append(outs, Out{St: st, Ret: mkBool(true)})
				}
				return outs, true
			}
		case n == "unicode/utf8.ValidRune":
			x := c.Args[0]
			v := mkApp(n, types.Typ[types.Bool], x)
			no := st.clone()
			var outs []Out
			if st.assume(v, true) && st.assume(mkLt(x, mkConst(constant.MakeInt64(0), x.typ)), false) &&
				st.assume(mkLt(mkConst(constant.MakeInt64(unicode.MaxRune), x.typ), x), false) {
				outs = append(outs, Out{St: st, Ret: mkBool(true)})
			}
			if no.assume(v, false) {
				outs = append(outs, Out{St: no, Ret: mkBool(false)})
			}
			return outs, true
		case strings.HasPrefix(n, "bytes.Buffer.") || strings.HasPrefix(n, "strings.Builder."):
			m := n[strings.LastIndex(n, ".")+1:]
			if (m == "WriteRune" || m == "WriteByte") && len(c.Args) == 2 {
				s.written(a, st, c.Args[1], viol)
			}
			ret := freshResult(c.Sig, m)
			if m == "Bytes" || m == "Next" || m == "AvailableBuffer" {
				ret = mkApp("reused", ret.typ, ret)
			}
			return []Out{{St: st, Ret: ret}}, true
		case n == "strconv.ParseInt" || n == "strconv.ParseFloat" || n == "strconv.ParseUint" || n == "strconv.Atoi":
			ok := st.clone()
			v := mkSym(c.Sig.Results().At(0).Type(), "number")
			e := mkSym(errType, "converr")
			st.assume(mkEq(e, mkNil(errType)), false)
			setG(st, "#failed", "yes")
			return []Out{{St: ok, Ret: mkTuple(v, mkNil(errType))}, {St: st, Ret: mkTuple(v, e)}}, true
		case c.Fn.Pkg != nil && c.Fn.Pkg.Pkg.Path() == modulePath+"/types" && !h.Inline(c.Fn):
			return []Out{{St: st, Ret: freshResult(c.Sig, c.Fn.Name())}}, true
		}
		return nil, false
	}
	return h
}

// lookupTable looks something up in a table that never changes: the outcomes are all of its entries
// and that there is none.
func lookupTable(p *Program, a *Analysis, st *State, m, k *Term, in *ssa.Lookup) ([]Out, bool) {
	if m.op != "app" || !strings.HasPrefix(m.aux, "gval:") {
		return nil, false
	}
	g, _ := m.val.(*ssa.Global)
	if g == nil {
		return nil, false
	}
	tab, why := fixedTable(p, g)
	if why != "" {
		return nil, false
	}
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok {
		return nil, false
	}
	var outs []Out
	miss := st.clone()
	for _, e := range tab {
		key := mkConst(e.key, mt.Key())
		hit := miss.clone()
		if !miss.assume(mkEq(k, key), false) {
			miss = nil
		}
		if hit.assume(mkEq(k, key), true) {
			var v *Term
			if e.val != nil {
				v = mkConst(e.val, mt.Elem())
			} else {
				st, ok := mt.Elem().Underlying().(*types.Struct)
				if !ok {
					return nil, false
				}
				var fs []*Term
				for i := 0; i < st.NumFields(); i++ {
					if e.fields[i] == nil {
						return nil, false
					}
					fs = append(fs, mkConst(e.fields[i], st.Field(i).Type()))
				}
				v = mkStruct(mt.Elem(), fs...)
			}
			hit.note(in.Pos(), "entry %s", e.key)
			outs = append(outs, Out{St: hit, Ret: mkTuple(v, mkBool(true))})
		}
		if miss == nil {
			return outs, true
		}
	}
	miss.note(in.Pos(), "no entry")
	return append(outs, Out{St: miss, Ret: mkTuple(zeroOf(mt.Elem()), mkBool(false))}), true
}

// spanOf bounds an integer by its structure and what is known of its parts.
func spanOf(st *State, t *Term, depth int) (lo, hi int64, ok bool) {
	const big = int64(1) << 40
	if depth > 12 {
		return 0, 0, false
	}
	t = st.eval(t)
	if v, c := t.constInt(); c {
		return v, v, v > -big && v < big
	}
	lo, hi = -big, big
	base, c, isLin := t.lin()
	if isLin && base != nil && (c != 0 || base != t) {
		l, h, k := spanOf(st, base, depth+1)
		if k {
			lo, hi = l+c, h+c
		}
	} else if t.op == "app" && isConv(t) && isInt(t.args[0].typ) {
		l, h, k := spanOf(st, t.args[0], depth+1)
		if k {
			if tl, th, is := smallRange(t.typ); is && l >= tl && h <= th {
				lo, hi = l, h
			}
		}
	} else if t.op == "app" && len(t.args) == 2 && (t.aux == "+" || t.aux == "*" || t.aux == "-" || t.aux == "add" || t.aux == "mul" || t.aux == "sub") {
		l1, h1, k1 := spanOf(st, t.args[0], depth+1)
		l2, h2, k2 := spanOf(st, t.args[1], depth+1)
		if k1 && k2 {
			var vs []int64
			for _, x := range []int64{l1, h1} {
				for _, y := range []int64{l2, h2} {
					switch t.aux {
					case "+", "add":
						vs = append(vs, x+y)
					case "-", "sub":
						vs = append(vs, x-y)
					default:
						vs = append(vs, x*y)
					}
				}
			}
			sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
			if tl, th, is := smallRange(t.typ); is && vs[0] >= tl && vs[3] <= th && vs[0] > -big && vs[3] < big {
				lo, hi = vs[0], vs[3]
			}
		}
	}
	if t.op == "app" && len(t.args) == 2 {
		l1, h1, k1 := spanOf(st, t.args[0], depth+1)
		l2, h2, k2 := spanOf(st, t.args[1], depth+1)
		l, h := lo, hi
		switch {
		case !k1 || !k2 || l1 < 0 || l2 < 0:
		case t.aux == "shl" && h2 < 40 && h1 < big>>h2:
			l, h = l1<<l2, h1<<h2
		case t.aux == "shr" && h2 < 64:
			l, h = l1>>h2, h1>>l2
		case t.aux == "bor" || t.aux == "bxor":
			l, h = 0, int64(1)<<bits.Len64(uint64(max(h1, h2)))-1
		case t.aux == "band":
			l, h = 0, min(h1, h2)
		}
		if tl, th, is := smallRange(t.typ); is && l >= tl && h <= th {
			lo, hi = max(lo, l), min(hi, h)
		}
	}
	if tl, th, is := smallRange(t.typ); is {
		lo, hi = max(lo, tl), min(hi, th)
	}
	z := mkInt(0)
	if isLin && base == t || !isLin || base != nil && c == 0 {
		if u, k := st.upper(t, z); k {
			hi = min(hi, u)
		}
		if l, k := st.upper(z, t); k {
			lo = max(lo, -l)
		}
	}
	return lo, hi, lo > -big && hi < big
}

// smallRange gives the range of an integer type, cut to what is computed with here.
func smallRange(t types.Type) (int64, int64, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0, 0, false
	}
	bits, signed := intBits(t)
	const big = int64(1) << 41
	switch {
	case bits > 40 && signed:
		return -big, big, true
	case bits > 40:
		return 0, big, true
	case signed:
		return -(int64(1) << (bits - 1)), int64(1)<<(bits-1) - 1, true
	}
	return 0, int64(1)<<bits - 1, true
}

// written checks a character put into a literal: it must be one.
func (s *scannerRoles) written(a *Analysis, st *State, v *Term, viol func(a *Analysis, st *State, rule, format string, args ...any)) {
	if viol == nil {
		return
	}
	if types.Identical(v.typ.Underlying(), types.Typ[types.Byte]) {
		// the conversion to a byte must not have cut anything off
		for x := v; x.op == "app" && isConv(x); x = x.args[0] {
			lo, hi, ok := spanOf(st, x.args[0], 0)
			if !ok || lo < 0 || hi > 255 {
				viol(a, st, "cut:"+shortFn(st.top().fn), "a byte is made of something that may not fit one: %s", x.args[0])
				return
			}
		}
		s.r.OK("characters of literals are valid")
		return
	}
	if st.isTrue(mkApp("unicode/utf8.ValidRune", types.Typ[types.Bool], st.eval(v))) {
		s.r.OK("characters of literals are valid")
		return
	}
	lo, hi, ok := spanOf(st, v, 0)
	if !ok || lo < 0 || hi > unicode.MaxRune {
		viol(a, st, "char:"+shortFn(st.top().fn), "something that may be no character is taken into a token: %s", v)
		return
	}
	s.r.OK("characters of literals are valid")
}

// stale forgets the character read last unless it is to be read again.
func (s *scannerRoles) stale(st *State, sc *Term) {
	scS, _ := s.scT.Underlying().(*types.Struct)
	ru := -1
	for i := 0; i < scS.NumFields(); i++ {
		f := scS.Field(i)
		if types.Identical(f.Type(), types.Typ[types.Rune]) {
			ru = i
		}
	}
	for i := 0; i < scS.NumFields(); i++ {
		f := scS.Field(i)
		if f.Name() == "unread" && types.Identical(f.Type(), types.Typ[types.Bool]) && ru >= 0 &&
			st.eval(st.load(fieldAddr(sc, i), f.Type())).isFalse() {
			st.store(fieldAddr(sc, ru), mkSym(types.Typ[types.Rune], "stale"), types.Typ[types.Rune])
		}
	}
}

// remembered lists, for the variables of the scanner holding a character over the turns of a loop,
// the facts worth keeping: which character it is not.
func (s *scannerRoles) remembered() []func(*State) *Term {
	var out []func(*State) *Term
	R := types.Typ[types.Rune]
	facts := func(get func(st *State) *Term) {
		add := func(f func(v *Term) *Term) {
			out = append(out, func(st *State) *Term {
				v := get(st)
				if v == nil {
					return nil
				}
				return f(v)
			})
		}
		for _, c := range runeClasses {
			c := mkConst(constant.MakeInt64(int64(c)), R)
			add(func(v *Term) *Term { return mkNot(mkEq(v, c)) })
		}
		add(func(v *Term) *Term { return mkNot(isSpaceTerm(v)) })
		add(func(v *Term) *Term { return mkNot(mkLt(v, mkConst(constant.MakeInt64(0), R))) })
		add(func(v *Term) *Term { return mkNot(mkLt(mkConst(constant.MakeInt64(unicode.MaxRune), R), v)) })
	}
	facts(func(st *State) *Term { return st.P["cur"] })
	for _, fn := range s.p.Funcs("parser/scanner") {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if phi, ok := in.(*ssa.Phi); ok && types.Identical(phi.Type(), R) {
					facts(func(st *State) *Term { return st.top().env[phi] })
				}
			}
		}
	}
	return out
}

// explore runs the scanner from its initial state and from every state a scan leaves it in.
func (s *scannerRoles) explore(viol func(a *Analysis, st *State, rule, format string, args ...any), exit func(a *Analysis, st *State, ctx *Term, field func(n string) *Term)) {
	queued := map[string]bool{}
	type start struct {
		st  *State
		key string
	}
	scS, _ := s.scT.Underlying().(*types.Struct)
	pt := types.NewPointer(s.scT)
	keep := s.remembered()
	var work []start
	// boundary makes the state the next scan begins in
	boundary := func(old *State, sc *Term, pend bool) start {
		if old != nil {
			s.stale(old, sc)
		}
		n := newState()
		nsc := mkSym(pt, "scanner")
		n.assume(mkEq(nsc, mkNil(pt)), false)
		n.P["sc"] = nsc
		key := ""
		again := false
		for i := 0; i < scS.NumFields(); i++ {
			ft := scS.Field(i).Type()
			if isStruct(ft) {
				continue
			}
			fa := fieldAddr(nsc, i)
			if old == nil {
				if _, ok := ft.Underlying().(*types.Interface); !ok || isErrorType(ft) {
					if !isInt(ft) || types.Identical(ft, types.Typ[types.Rune]) {
						n.store(fa, zeroOf(ft), ft)
					}
				}
				continue
			}
			v := old.eval(old.load(fieldAddr(sc, i), ft))
			switch {
			case types.Identical(ft, types.Typ[types.Rune]):
				if v.isConst() {
					c, _ := v.constInt()
					if strings.ContainsRune("-/\"`['", rune(c)) || c < 0 || unicode.IsSpace(rune(c)) {
						n.store(fa, v, ft)
						key += fmt.Sprintf("%d=%s;", i, v)
						break
					}
				}
				x := mkSym(ft, "lookahead")
				if old.isFalse(mkLt(v, mkConst(constant.MakeInt64(0), ft))) {
					n.assume(mkLt(x, mkConst(constant.MakeInt64(0), ft)), false)
					key += "+"
				}
				if old.isFalse(mkLt(mkConst(constant.MakeInt64(unicode.MaxRune), ft), v)) {
					n.assume(mkLt(mkConst(constant.MakeInt64(unicode.MaxRune), ft), x), false)
					key += "<"
				}
				n.store(fa, x, ft)
				key += fmt.Sprintf("%d;", i)
			case isErrorType(ft):
				nn := old.eval(mkEq(v, mkNil(ft)))
				x := mkSym(ft, "error")
				if nn.isTrue() {
					x = mkNil(ft)
				} else if nn.isFalse() {
					n.assume(mkEq(x, mkNil(ft)), false)
					if old.isFalse(mkEq(v, s.u.eof())) {
						n.assume(mkEq(x, s.u.eof()), false)
					}
					if v == s.u.eof() {
						x = v
					}
				}
				n.store(fa, x, ft)
				key += fmt.Sprintf("%d=%s;", i, nn)
			case types.Identical(ft.Underlying(), types.Typ[types.Bool]) || isInt(ft) && v.isConst() && old.heap[fieldAddr(sc, i)] != nil:
				n.store(fa, v, ft)
				key += fmt.Sprintf("%d=%s;", i, v)
				if scS.Field(i).Name() == "unread" && v.isTrue() {
					again = true
				}
			}
		}
		if pend {
			setG(n, "#pend", "yes")
			key += "pend"
		}
		if old != nil && again {
			// the character read last is read again
			for i := 0; i < scS.NumFields(); i++ {
				ft := scS.Field(i).Type()
				if types.Identical(ft, types.Typ[types.Rune]) {
					v := n.eval(n.load(fieldAddr(nsc, i), ft))
					if c, ok := v.constInt(); !ok || c >= 0 {
						n.P["cur"] = v
					}
				}
			}
		}
		return start{n, key}
	}
	work = append(work, boundary(nil, nil, false))
	rounds := 0
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		s.r.OK("scanner state between scans explored")
		if rounds++; rounds > 200 {
			s.r.Violate("undecided:scanner", posZero, nil, "more than 200 different states between scans")
			return
		}
		h := s.hooks(viol)
		h.Return = func(a *Analysis, st *State, res []*Term) {
			ctx := st.P["ctx"]
			cs := s.ctxT.Underlying().(*types.Struct)
			field := func(n string) *Term {
				i := s.fields[n]
				return st.eval(st.load(fieldAddr(ctx, i), cs.Field(i).Type()))
			}
			pend := (gstr(st, "#readerr") != "" || gstr(st, "#pend") != "") && field("Token") != s.tok("Error")
			b := boundary(st, st.P["sc"], pend)
			for _, st := range s.resolve(st) {
				exit(a, st, st.P["ctx"], func(n string) *Term {
					i := s.fields[n]
					return st.eval(st.load(fieldAddr(st.P["ctx"], i), cs.Field(i).Type()))
				})
			}
			if !queued[b.key] {
				queued[b.key] = true
				work = append(work, b)
			}
		}
		h.Panic = func(a *Analysis, st *State, v *Term) {
			if viol != nil {
				viol(a, st, "panic:scan", "the scanner panics")
			}
		}
		a := NewAnalysis(s.p, s.r, h, shortFn(s.scan))
		a.Shared, a.Unroll = 1, 0
		// positions do not matter
		a.Forget = func(st *State) {
			for k := range st.heap {
				if k.op == "faddr" && (k.args[0] == st.P["sc"] || k.args[0] == st.P["ctx"] || k.args[0].op == "faddr" && k.args[0].args[0] == st.P["ctx"]) {
					if t := derefType(k.typ); t != nil && types.Identical(t, types.Typ[types.Int]) {
						st.heap[k] = mkSym(t, "position")
					}
				}
			}
		}
		a.Keep = keep
		cpt := types.NewPointer(s.ctxT)
		ctx := mkSym(cpt, "sctx")
		w.st.assume(mkEq(ctx, mkNil(cpt)), false)
		w.st.P["ctx"] = ctx
		a.Start(w.st, s.scan, []*Term{w.st.P["sc"], ctx})
		a.Run()
	}
}

func checkR07(p *Program, r *Report) {
	r.Rule = "the scanner is followed from its initial state and from every state a scan can leave it in, for every class of characters, the end of the input and a failure of the reader at every read: an error token comes with an error set by this scan; a failed read or conversion ends in an error token, at the latest in the next scan; the end of the input is reported only where nothing but white space and finished comments was read; literals are finished by their quote, their characters are valid and parameters are not zero"
	s := findScanner(p, r)
	if s == nil {
		return
	}
	viol := func(a *Analysis, st *State, rule, format string, args ...any) {
		a.Violate(st, rule, format, args...)
	}
	s.explore(viol, func(a *Analysis, st *State, ctx *Term, field func(n string) *Term) {
		tok := field("Token")
		is := func(n string) bool { return tok == s.tok(n) }
		if !tok.isConst() {
			for n := range s.toks {
				if !st.isFalse(mkEq(tok, s.tok(n))) {
					a.Violate(st, "token", "it is not known which token is returned: %s", tok)
					return
				}
			}
		}
		if is("Error") {
			if st.isFalse(mkEq(field("Error"), mkNil(errType))) {
				r.OK("error token with an error")
			} else {
				a.Violate(st, "no-error", "an error token is returned without an error")
			}
			return
		}
		switch {
		case gstr(st, "#pend") != "":
			a.Violate(st, "lost-late", "a failure of the reader met while looking ahead in the scan before is not reported")
			return
		case gstr(st, "#failed") != "":
			a.Violate(st, "conversion", "a number that cannot be converted is no error")
			return
		case is("EOF"):
			if gstr(st, "#readerr") != "" {
				a.Violate(st, "read-eof", "a failure of the reader is reported as the end of the input")
			} else if m := gstr(st, "#mode"); m == "block" || m == "star" {
				a.Violate(st, "comment", "a comment that is not finished is no error")
			} else if m != "" && m != "line" {
				a.Violate(st, "dropped", "the end of the input is reported although a character was read that is neither white space nor a comment")
			} else {
				r.OK("end of input only after white space and comments")
			}
			return
		case is("String") || is("Bytes"):
			if gstr(st, "#eof") != "" && gstr(st, "#last") != "'" {
				a.Violate(st, "quote", "a literal is returned without its closing quote")
			} else {
				r.OK("literal finished")
			}
		case is("Identifier") || is("Reserved"):
			f, l := gstr(st, "#first"), gstr(st, "#last")
			if gstr(st, "#eof") != "" && (f == "\"" && l != "\"" || f == "`" && l != "`" || f == "[" && l != "]") {
				a.Violate(st, "quote", "a quoted identifier is returned without its closing quote")
			} else {
				r.OK("identifier finished")
			}
		case is("Parameter"):
			if !st.isFalse(mkEq(field("Integer"), mkConst(constant.MakeInt64(0), types.Typ[types.Int64]))) {
				a.Violate(st, "parameter", "a parameter may be zero")
			} else {
				r.OK("parameter not zero")
			}
		default:
			r.OK("other token")
		}
	})
	r.AtLeast("error token with an error", 20)
	r.AtLeast("end of input only after white space and comments", 2)
	r.AtLeast("literal finished", 5)
	r.AtLeast("identifier finished", 5)
	r.AtLeast("characters of literals are valid", 10)
}

// reuses reports whether a value is memory of a buffer that is used again.
func reuses(x *Term) bool {
	if _, ok := x.typ.Underlying().(*types.Slice); ok {
		if b, _ := sliceParts(x); b != nil {
			x = rootOf(b)
		}
		if x.op == "obj" {
			return false
		}
	} else if isConv(x) {
		return false // conversions copy
	}
	found := false
	walkTerm(x, map[*Term]bool{}, func(t *Term) {
		if t.isApp("reused") {
			found = true
		}
	})
	return found
}

func checkR03(p *Program, r *Report) {
	r.Rule = "no scan leaves in a token memory of the scanner that a later scan writes to (such as the result of the buffer's Bytes, or a slice made by an earlier scan, without a copy): the scanner is followed from its initial state and from every state a scan can leave it in, and the bytes of the token returned must be memory allocated by that scan"
	s := findScanner(p, r)
	if s == nil {
		return
	}
	cs := s.ctxT.Underlying().(*types.Struct)
	s.explore(nil, func(a *Analysis, st *State, ctx *Term, field func(n string) *Term) {
		for i := 0; i < cs.NumFields(); i++ {
			v := st.eval(st.load(fieldAddr(ctx, i), cs.Field(i).Type()))
			if reuses(v) {
				a.Violate(st, "alias:"+cs.Field(i).Name(), "the token's %s is the scanner's own buffer", cs.Field(i).Name())
				return
			}
		}
		if field("Token") == s.tok("Bytes") {
			b, _ := sliceParts(field("Bytes"))
			if field("Bytes").isNil() || b != nil && rootOf(b).op == "obj" {
				r.OK("bytes literal is a copy")
			} else {
				a.Violate(st, "alias:Bytes", "the bytes of the token are not known to be a copy: %s", field("Bytes"))
			}
		} else {
			r.OK("token without memory of the scanner")
		}
	})
	r.AtLeast("bytes literal is a copy", 2)
}

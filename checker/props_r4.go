package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["R04"] = checkR04
}

// opTables are the tables indexed by operators.
type opTables struct {
	p     *Program
	r     *Report
	opT   *types.Named
	names map[int64]string // constants of the operators
	unary map[int64]bool   // operators of unary expressions
	bare  map[int64]bool   // unary operators without a printed form
}

// indexedBy finds the tables, in a package, that are indexed by operators.
func (o *opTables) indexedBy(pkg string, elem func(types.Type) bool) map[*ssa.Global]bool {
	out := map[*ssa.Global]bool{}
	isOp := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.Convert:
				v = x.X
				continue
			case *ssa.ChangeType:
				v = x.X
				continue
			}
			return types.Identical(v.Type(), o.opT)
		}
	}
	add := func(x, idx ssa.Value, t types.Type) {
		if !isOp(idx) || !elem(t) {
			return
		}
		if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
			x = u.X
		}
		if g, ok := x.(*ssa.Global); ok {
			out[g] = true
		}
	}
	for _, fn := range o.p.Funcs(pkg) {
		if isInitFn(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.IndexAddr:
					add(in.X, in.Index, derefType(in.Type()))
				case *ssa.Lookup:
					if m, ok := in.X.Type().Underlying().(*types.Map); ok {
						add(in.X, in.Index, m.Elem())
					}
				}
			}
		}
	}
	return out
}

// byOp gives, for every operator, what the tables and functions of a package from operators give.
func (o *opTables) byOp(pkg, what string, elem func(types.Type) bool) []map[int64]constant.Value {
	var out []map[int64]constant.Value
	var gs []*ssa.Global
	for g := range o.indexedBy(pkg, elem) {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].Pos() < gs[j].Pos() })
	for _, g := range gs {
		tab, why := fixedTable(o.p, g)
		if why != "" {
			o.r.Violate("undecided:"+g.Name(), o.p.Fset.Position(g.Pos()), nil, "the table %s of %s is not constant: %s", g.Name(), what, why)
			continue
		}
		m := map[int64]constant.Value{}
		for _, e := range tab {
			k, _ := constant.Int64Val(e.key)
			if e.val != nil {
				m[k] = e.val
			}
		}
		out = append(out, m)
		for k, n := range o.names {
			if m[k] == nil {
				o.r.Violate(g.Name()+":"+n, o.p.Fset.Position(g.Pos()), nil, "the table %s has no %s for the operator %s", g.Name(), what, n)
			} else {
				o.r.OK("every operator has an entry in the tables indexed by operators")
			}
		}
	}
	// functions from operators
	for _, fn := range o.p.Funcs(pkg) {
		sig := fn.Signature
		if len(fn.Params) != 1 || !types.Identical(fn.Params[0].Type(), o.opT) || sig.Results().Len() != 1 || !elem(sig.Results().At(0).Type()) || len(fn.Blocks) == 0 {
			continue
		}
		o.r.Touch(fn)
		m := map[int64]constant.Value{}
		for k, n := range o.names {
			h := &Hooks{}
			h.LookupSplit = func(a *Analysis, st *State, m, k *Term, in *ssa.Lookup) ([]Out, bool) {
				return lookupTable(o.p, a, st, m, k, in)
			}
			h.Return = func(a *Analysis, st *State, res []*Term) {
				if len(res) == 1 {
					if t := st.eval(res[0]); t.op == "const" {
						m[k] = t.val.(constant.Value)
					}
				}
			}
			a := NewAnalysis(o.p, o.r, h, shortFn(fn))
			a.Unroll = 100
			a.Start(newState(), fn, []*Term{mkConst(constant.MakeInt64(k), o.opT)})
			a.Run()
			if m[k] == nil && len(o.indexedBy(pkg, elem)) == 0 {
				o.r.Violate(shortFn(fn)+":"+n, o.p.Fset.Position(fn.Pos()), nil, "%s gives no constant %s for the operator %s", fn.Name(), what, n)
			}
		}
		if len(m) > 0 {
			out = append(out, m)
		}
	}
	if len(out) == 0 {
		o.r.Violate("anchor:"+what, posZero, nil, "no table gives the %s of operators", what)
	}
	return out
}

// scanOf gives the token the scanner makes of some text followed by a space.
func (s *scannerRoles) scanOf(text string) *Term {
	var got *Term
	n := 0
	h := s.hooks(nil)
	call := h.Call
	R := types.Typ[types.Rune]
	h.Call = func(a *Analysis, st *State, c *Call) ([]Out, bool) {
		if c.Method != nil && c.Method.Name() == "ReadRune" {
			in := gstr(st, "#in")
			r := ' '
			for i, x := range in {
				r = x
				in = in[i+len(string(x)):]
				break
			}
			setG(st, "#in", in)
			return []Out{{St: st, Ret: mkTuple(mkConst(constant.MakeInt64(int64(r)), R), mkInt(int64(len(string(r)))), mkNil(errType))}}, true
		}
		if c.Fn != nil && len(c.Args) > 0 {
			fn := fnName(c.Fn)
			if strings.HasPrefix(fn, "bytes.Buffer.") || strings.HasPrefix(fn, "strings.Builder.") {
				k := fmt.Sprintf("#buf%d", c.Args[0].id)
				switch fn[strings.LastIndex(fn, ".")+1:] {
				case "WriteRune", "WriteByte":
					v, ok := st.eval(c.Args[1]).constInt()
					if !ok {
						break
					}
					setG(st, k, gstr(st, k)+string(rune(v)))
					return []Out{{St: st, Ret: freshResult(c.Sig, "write")}}, true
				case "WriteString":
					t := st.eval(c.Args[1])
					if t.op != "const" {
						break
					}
					setG(st, k, gstr(st, k)+constant.StringVal(t.val.(constant.Value)))
					return []Out{{St: st, Ret: freshResult(c.Sig, "write")}}, true
				case "Reset":
					setG(st, k, "")
					return []Out{{St: st, Ret: freshResult(c.Sig, "reset")}}, true
				case "String":
					return []Out{{St: st, Ret: mkConst(constant.MakeString(gstr(st, k)), types.Typ[types.String])}}, true
				case "Len":
					return []Out{{St: st, Ret: mkInt(int64(len(gstr(st, k))))}}, true
				}
			}
		}
		return call(a, st, c)
	}
	h.LookupSplit = func(a *Analysis, st *State, m, k *Term, in *ssa.Lookup) ([]Out, bool) {
		if isString(k.typ) {
			if t, ok := textOf(st, k); ok {
				k = mkConst(constant.MakeString(t), k.typ)
			}
		}
		return lookupTable(s.p, a, st, m, k, in)
	}
	h.Return = func(a *Analysis, st *State, res []*Term) {
		cs := s.ctxT.Underlying().(*types.Struct)
		i := s.fields["Token"]
		t := st.eval(st.load(fieldAddr(st.P["ctx"], i), cs.Field(i).Type()))
		if n++; n > 1 && t != got {
			got = nil
			return
		}
		if gstr(st, "#in") != "" {
			// not all of it was taken
			return
		}
		got = t
	}
	a := NewAnalysis(s.p, s.r, h, shortFn(s.scan))
	a.Unroll = 100
	st := newState()
	sc := mkSym(types.NewPointer(s.scT), "scanner")
	st.assume(mkEq(sc, mkNil(sc.typ)), false)
	st.P["sc"] = sc
	scS, _ := s.scT.Underlying().(*types.Struct)
	for i := 0; i < scS.NumFields(); i++ {
		ft := scS.Field(i).Type()
		if _, ok := ft.Underlying().(*types.Interface); isStruct(ft) || ok && !isErrorType(ft) {
			continue
		}
		st.store(fieldAddr(sc, i), zeroOf(ft), ft)
	}
	ctx := mkSym(types.NewPointer(s.ctxT), "sctx")
	st.assume(mkEq(ctx, mkNil(ctx.typ)), false)
	st.P["ctx"] = ctx
	setG(st, "#in", text)
	a.Start(st, s.scan, []*Term{sc, ctx})
	a.Run()
	return got
}

// textOf gives the text of a string made of constants.
func textOf(st *State, t *Term) (string, bool) {
	t = st.eval(t)
	switch {
	case t.op == "const":
		if c, ok := t.val.(constant.Value); ok && c.Kind() == constant.String {
			return constant.StringVal(c), true
		}
	case t.op == "app" && t.aux == "add" && len(t.args) == 2 && isString(t.typ):
		x, ok1 := textOf(st, t.args[0])
		y, ok2 := textOf(st, t.args[1])
		return x + y, ok1 && ok2
	case t.op == "app" && isConv(t) && isString(t.typ):
		x := t.args[0]
		if v, ok := x.constInt(); ok {
			return string(rune(v)), true
		}
		if isString(x.typ) {
			return textOf(st, x)
		}
	case t.isApp("tostring") && t.args[0].op == "snap":
		x, c := t.args[0].args[0], t.args[0].args[1]
		sl, ok := x.typ.Underlying().(*types.Slice)
		if !ok {
			break
		}
		n, ok := st.eval(mkLen(x)).constInt()
		if !ok || n > 64 {
			break
		}
		e, _ := sl.Elem().Underlying().(*types.Basic)
		text := ""
		for i := int64(0); i < n; i++ {
			v, ok := st.eval(mkSelect(c, mkInt(i), sl.Elem(), st)).constInt()
			if !ok {
				return "", false
			}
			if e != nil && e.Kind() == types.Uint8 {
				text += string([]byte{byte(v)})
			} else {
				text += string(rune(v))
			}
		}
		return text, true
	}
	return "", false
}

// keyword finds the identifier of a reserved word.
func (o *opTables) keyword(word string) (constant.Value, types.Type) {
	for _, m := range o.p.Prog.AllPackages() {
		if m.Pkg.Path() != modulePath+"/types" {
			continue
		}
		var ns []string
		for n := range m.Members {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			g, ok := m.Members[n].(*ssa.Global)
			if !ok {
				continue
			}
			mt, ok := derefType(g.Type()).Underlying().(*types.Map)
			if !ok || !isString(mt.Key()) || !isInt(mt.Elem()) {
				continue
			}
			tab, why := fixedTable(o.p, g)
			if why != "" {
				continue
			}
			for _, e := range tab {
				if constant.StringVal(e.key) == word && e.val != nil && constant.Sign(e.val) < 0 {
					return e.val, mt.Elem()
				}
			}
		}
	}
	return nil, nil
}

// accepted gives what the parser makes of a token where an operator may be: the results of the
// function choosing the operator.
func (q *parserRoles) accepted(fn *ssa.Function, tok, id *Term) (res []*Term) {
	st := q.begin()
	if !q.arrange(st, 0) {
		return nil
	}
	h := q.hooks(fn)
	call := h.Call
	h.LookupMap = nil
	h.LookupSplit = func(a *Analysis, st *State, m, k *Term, in *ssa.Lookup) ([]Out, bool) {
		return lookupTable(q.p, a, st, m, k, in)
	}
	h.Call = func(a *Analysis, st *State, c *Call) ([]Out, bool) {
		if c.Fn == q.sc.scan {
			cell := q.freshCell()
			st.store(c.Args[len(c.Args)-1], cell, q.ctxT)
			st.assume(mkEq(mkField(cell, q.sc.fields["Token"]), tok), true)
			if id != nil {
				st.assume(mkEq(mkField(cell, q.sc.fields["Identifier"]), id), true)
			}
			return []Out{{St: st, Ret: freshResult(c.Sig, "scan")}}, true
		}
		return call(a, st, c)
	}
	n := 0
	h.Return = func(a *Analysis, st *State, r []*Term) {
		var vs []*Term
		for _, x := range r {
			vs = append(vs, st.eval(x))
		}
		if n++; n > 1 {
			for i := range vs {
				if i >= len(res) || vs[i] != res[i] {
					res = nil
					return
				}
			}
		}
		res = vs
	}
	h.Panic = func(a *Analysis, st *State, v *Term) {
		n += 2
		res = nil
	}
	a := q.analysis(fn, h)
	a.Start(st, fn, q.args(st, fn))
	a.Run()
	return res
}

// what SQL says about the precedence of operators, loosest first.
var opLevels = [][]string{
	{"OR"}, {"AND"}, {"NOT"}, {"=", "==", "!=", "<>", "<", "<=", ">", ">="}, {"+", "-", "*", "/", "%", "&", "|", "<<", ">>"}, {"neg"},
}

func checkR04(p *Program, r *Report) {
	r.Rule = "constants are propagated through the tables indexed by operators, the scanner and the function of the parser choosing an operator: every operator has a precedence and a printed form, no two of the same arity the same form; the printed form of every binary operator, given to the scanner, comes out as a token the parser maps back to that operator; every token of an operator is accepted by the parser or no operator; and the precedences are ordered as in SQL"
	q := findParser(p, r, "R04")
	if q == nil {
		return
	}
	o := &opTables{p: p, r: r, opT: q.opT, names: map[int64]string{}, unary: map[int64]bool{}, bare: map[int64]bool{}}
	if o.opT == nil {
		r.Violate("anchor:Op", posZero, nil, "sql.Op not found")
		return
	}
	sc := o.opT.Obj().Pkg().Scope()
	for _, n := range sc.Names() {
		if c, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(c.Type(), o.opT) {
			v, _ := constant.Int64Val(c.Val())
			if old, dup := o.names[v]; dup {
				r.Violate("same:"+n, p.Fset.Position(c.Pos()), nil, "the operators %s and %s are the same", old, n)
			}
			o.names[v] = n
		}
	}
	// the operators of unary expressions
	ueT := p.TypeOf("parser/sql", "UnaryExpr")
	for _, pkg := range []string{"parser", "parser/sql"} {
		for _, fn := range p.Funcs(pkg) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok || constOf(s.Val) == nil || !types.Identical(s.Val.Type(), o.opT) {
						continue
					}
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && ueT != nil && types.Identical(derefOr(fa.X.Type()), ueT) {
						v, _ := constant.Int64Val(constOf(s.Val))
						o.unary[v] = true
					}
				}
			}
		}
	}
	isStr := func(t types.Type) bool { return isString(t) }
	isNum := func(t types.Type) bool { return isInt(t) && !types.Identical(t, o.opT) }
	forms := o.byOp("parser/sql", "printed form", isStr)
	precs := o.byOp("parser", "precedence", isNum)
	if len(forms) == 0 || len(precs) == 0 {
		return
	}
	var ops []int64
	for k := range o.names {
		ops = append(ops, k)
	}
	sort.Slice(ops, func(i, j int) bool { return ops[i] < ops[j] })
	// the function choosing the operator
	var choose *ssa.Function
	at := -1
	for _, fn := range p.Funcs("parser") {
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			if types.Identical(fn.Signature.Results().At(i).Type(), o.opT) && q.takesParser(fn) && fn.Parent() == nil {
				choose, at = fn, i
			}
		}
	}
	if choose == nil {
		r.Violate("anchor:choose", posZero, nil, "the function of the parser choosing an operator was not found")
		return
	}
	r.Touch(choose)
	r.Touch(q.sc.scan)
	runeT := types.Typ[types.Rune]
	tokT := q.ctxT.Underlying().(*types.Struct).Field(q.sc.fields["Token"]).Type()
	bools := func(res []*Term) string {
		s := ""
		for i, x := range res {
			if i != at {
				s += " " + x.String()
			}
		}
		return s
	}
	_ = runeT
	tokOf := func(form string) (tok, id *Term) {
		if form != "" && (form[0] >= 'A' && form[0] <= 'Z' || form[0] >= 'a' && form[0] <= 'z') {
			v, t := o.keyword(form)
			if v == nil {
				return nil, nil
			}
			return q.sc.tok("Reserved"), mkConst(v, t)
		}
		return q.sc.scanOf(form), nil
	}
	none := q.accepted(choose, mkConst(constant.MakeInt64(','), tokT), nil)
	if none == nil {
		r.Violate("undecided:"+shortFn(choose), p.Fset.Position(choose.Pos()), nil, "what %s does with a comma is not known", choose.Name())
		return
	}
	taken := map[int64]string{} // tokens of operators
	kind := map[string]map[string]string{}
	for _, form := range forms {
		seenU, seenB := map[string]string{}, map[string]string{}
		for _, k := range ops {
			if form[k] == nil {
				continue
			}
			f, n := constant.StringVal(form[k]), o.names[k]
			seen := seenB
			if o.unary[k] {
				if f == "" {
					o.bare[k] = true
					continue
				}
				seen = seenU
			}
			pos := p.Fset.Position(sc.Lookup(n).Pos())
			if f == "" {
				r.Violate("form:"+n, pos, nil, "the operator %s has no printed form", n)
				continue
			}
			if old, dup := seen[f]; dup {
				r.Violate("form:"+n, pos, nil, "the operators %s and %s are both printed as %s", old, n, f)
				continue
			}
			seen[f] = n
			r.OK("the printed form of an operator is its own")
			tok, id := tokOf(f)
			if tok == nil || !tok.isConst() || tok == q.sc.tok("Error") {
				r.Violate("scan:"+n, pos, nil, "the printed form %s of the operator %s is not scanned as one token", f, n)
				continue
			}
			if o.unary[k] {
				r.OK("the printed form of a unary operator is a token")
				continue
			}
			v, _ := tok.constInt()
			taken[v] = f
			res := q.accepted(choose, tok, id)
			switch {
			case res == nil || bools(res) == bools(none):
				r.Violate("accept:"+n, pos, nil, "the printed form %s of the operator %s is not accepted as one", f, n)
			case res[at] != mkConst(constant.MakeInt64(k), o.opT):
				g := res[at].String()
				if c, ok := res[at].constInt(); ok {
					g = o.names[c]
				}
				r.Violate("accept:"+n, pos, nil, "the printed form %s of the operator %s is parsed as %s", f, n, g)
			default:
				r.OK("the printed form of a binary operator is parsed as that operator")
				for l, lv := range opLevels {
					for _, x := range lv {
						if x == f && (l == 3 || l == 4) {
							c := fmt.Sprint(l)
							if kind[c] == nil {
								kind[c] = map[string]string{}
							}
							kind[c][bools(res)] = n
						}
					}
				}
			}
		}
	}
	// comparisons, and no arithmetic, compare with all rows of a subquery
	if len(kind["3"]) > 1 || len(kind["4"]) > 1 {
		r.Violate("bool", p.Fset.Position(choose.Pos()), nil, "%s does not treat all comparisons and all of arithmetic the same: %v", choose.Name(), kind)
	} else {
		for b := range kind["3"] {
			if kind["4"][b] != "" {
				r.Violate("bool", p.Fset.Position(choose.Pos()), nil, "%s treats %s and %s alike", choose.Name(), kind["3"][b], kind["4"][b])
			}
		}
		r.OK("comparisons are told from arithmetic")
	}
	// other tokens of operators
	for _, text := range o.texts(q) {
		tok := q.sc.scanOf(text)
		if tok == nil || !tok.isConst() {
			r.Violate("scan:"+text, posZero, nil, "what the scanner makes of %s is not known", text)
			continue
		}
		if tok == q.sc.tok("Error") {
			if len(text) > 1 {
				r.Violate("scan:"+text, posZero, nil, "the scanner does not know the operator %s", text)
			}
			continue
		}
		v, _ := tok.constInt()
		if _, ok := taken[v]; ok {
			r.OK("every token of an operator is one the parser knows")
			continue
		}
		res := q.accepted(choose, tok, nil)
		switch {
		case res == nil:
			r.Violate("token:"+text, p.Fset.Position(choose.Pos()), nil, "what the parser makes of %s is not known", text)
		case bools(res) == bools(none):
			if len(text) > 1 {
				r.Violate("token:"+text, p.Fset.Position(choose.Pos()), nil, "the parser does not know the operator %s", text)
				continue
			}
			r.OK("a character of operators that is none is refused")
		default:
			c, ok := res[at].constInt()
			want, other := "", ""
			for _, m := range forms {
				if ok && m[c] != nil {
					want = constant.StringVal(m[c])
				}
			}
			for _, e := range [][]string{{"=", "=="}, {"<>", "!="}} {
				if text == e[0] {
					other = e[1]
				}
				if text == e[1] {
					other = e[0]
				}
			}
			if want == "" || want != other {
				r.Violate("token:"+text, p.Fset.Position(choose.Pos()), nil, "the parser takes %s for %q", text, want)
				continue
			}
			r.OK("every token of an operator is one the parser knows")
		}
	}
	// precedences
	for _, prec := range precs {
		byForm := map[string][2]int64{}
		for _, k := range ops {
			if prec[k] == nil || o.bare[k] {
				continue
			}
			v, _ := constant.Int64Val(prec[k])
			if v <= 0 {
				r.Violate("precedence:"+o.names[k], p.Fset.Position(sc.Lookup(o.names[k]).Pos()), nil, "the operator %s has no precedence", o.names[k])
				continue
			}
			f := constant.StringVal(forms[0][k])
			if o.unary[k] && f == "-" {
				f = "neg"
			}
			byForm[f] = [2]int64{v, k}
		}
		less := func(a, b string) {
			x, ok1 := byForm[a]
			y, ok2 := byForm[b]
			if !ok1 || !ok2 {
				return
			}
			if x[0] >= y[0] {
				n := o.names[x[1]]
				r.Violate("order:"+n, p.Fset.Position(sc.Lookup(n).Pos()), nil, "the operator %s does not bind looser than %s", n, o.names[y[1]])
				return
			}
			r.OK("precedences are ordered as in SQL")
		}
		for i := range opLevels {
			for j := i + 1; j < len(opLevels); j++ {
				for _, x := range opLevels[i] {
					for _, y := range opLevels[j] {
						less(x, y)
					}
				}
			}
		}
		for _, x := range []string{"+", "-"} {
			for _, y := range []string{"*", "/", "%"} {
				less(x, y)
			}
		}
		for _, pair := range [][2]string{{"+", "-"}, {"*", "/"}, {"/", "%"}} {
			x, ok1 := byForm[pair[0]]
			y, ok2 := byForm[pair[1]]
			if ok1 && ok2 && x[0] != y[0] {
				n := o.names[x[1]]
				r.Violate("order:"+n, p.Fset.Position(sc.Lookup(n).Pos()), nil, "the operators %s and %s do not bind alike", n, o.names[y[1]])
			} else if ok1 && ok2 {
				r.OK("precedences are ordered as in SQL")
			}
		}
	}
	r.AtLeast("every operator has an entry in the tables indexed by operators", 30)
	r.AtLeast("the printed form of an operator is its own", 15)
	r.AtLeast("the printed form of a binary operator is parsed as that operator", 12)
	r.AtLeast("every token of an operator is one the parser knows", 15)
	r.AtLeast("precedences are ordered as in SQL", 50)
}

// texts are the texts of operators: the keys of the scanner's tables of them.
func (o *opTables) texts(q *parserRoles) []string {
	seen := map[string]bool{}
	var out []string
	for _, m := range o.p.Prog.AllPackages() {
		if m.Pkg.Path() != modulePath+"/parser/token" && m.Pkg.Path() != modulePath+"/parser/scanner" {
			continue
		}
		for _, x := range m.Members {
			g, ok := x.(*ssa.Global)
			if !ok {
				continue
			}
			mt, ok := derefType(g.Type()).Underlying().(*types.Map)
			if !ok {
				continue
			}
			tab, why := fixedTable(o.p, g)
			if why != "" {
				continue
			}
			for _, e := range tab {
				for _, v := range []constant.Value{e.key, e.val} {
					if v != nil && v.Kind() == constant.String && len(constant.StringVal(v)) > 1 {
						seen[constant.StringVal(v)] = true
					}
				}
				_ = mt
			}
		}
	}
	for _, c := range "+-*/%=<>&|!" {
		seen[string(c)] = true
	}
	for s := range seen {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

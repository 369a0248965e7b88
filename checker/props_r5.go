package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["R05"] = checkR05
}

// treeRoles knows the expression trees and the functions that put them in order.
type treeRoles struct {
	q       *parserRoles
	p       *Program
	r       *Report
	exprT   types.Type // sql.Expr
	be, ue  *types.Named
	nodes   []*types.Named // types with operands
	names   map[int64]string
	prec    map[int64]int64
	noOp    map[int64]bool
	roots   map[*ssa.Function]bool
	loops   map[*ssa.BasicBlock]string // loops over operands that put each in order: "T/field"
	left    int                        // fields of binary expressions
	right   int
	opF     map[*types.Named]int
	argSeen map[*ssa.Parameter]bool
}

func (t *treeRoles) isExpr(x types.Type) bool { return types.Identical(x, t.exprT) }

func (t *treeRoles) isExprSlice(x types.Type) bool {
	sl, ok := x.Underlying().(*types.Slice)
	return ok && t.isExpr(sl.Elem())
}

func (t *treeRoles) node(x types.Type) *types.Named {
	n, _ := derefOr(x).(*types.Named)
	for _, m := range t.nodes {
		if n == m {
			return m
		}
	}
	return nil
}

func (t *treeRoles) find() bool {
	t.exprT = t.p.TypeOf("parser/sql", "Expr")
	t.be, _ = t.p.TypeOf("parser/sql", "BinaryExpr").(*types.Named)
	t.ue, _ = t.p.TypeOf("parser/sql", "UnaryExpr").(*types.Named)
	if t.exprT == nil || t.be == nil || t.ue == nil || t.q.opT == nil {
		t.r.Violate("anchor:Expr", posZero, nil, "sql.Expr, sql.BinaryExpr, sql.UnaryExpr or sql.Op not found")
		return false
	}
	it := t.exprT.Underlying().(*types.Interface)
	sc := t.q.opT.Obj().Pkg().Scope()
	t.opF = map[*types.Named]int{}
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		st, ok := nt.Underlying().(*types.Struct)
		if !ok || !types.Implements(types.NewPointer(nt), it) && !types.Implements(nt, it) {
			continue
		}
		has := false
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if t.isExpr(f.Type()) || t.isExprSlice(f.Type()) {
				has = true
			}
			if types.Identical(f.Type(), t.q.opT) {
				t.opF[nt] = i
			}
			if nt == t.be && f.Name() == "Left" {
				t.left = i
			}
			if nt == t.be && f.Name() == "Right" {
				t.right = i
			}
		}
		if has {
			t.nodes = append(t.nodes, nt)
		}
	}
	t.names = map[int64]string{}
	for _, n := range sc.Names() {
		if c, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(c.Type(), t.q.opT) {
			v, _ := constant.Int64Val(c.Val())
			t.names[v] = n
		}
	}
	o := &opTables{p: t.p, r: t.r, opT: t.q.opT, names: t.names}
	t.prec, t.noOp = map[int64]int64{}, map[int64]bool{}
	for _, m := range o.byOp("parser", "precedence", func(x types.Type) bool { return isInt(x) && !types.Identical(x, o.opT) }) {
		for k, v := range m {
			t.prec[k], _ = constant.Int64Val(v)
		}
		break
	}
	for _, m := range o.byOp("parser/sql", "printed form", isString) {
		for k, v := range m {
			if constant.StringVal(v) == "" {
				t.noOp[k] = true
			}
		}
		break
	}
	if len(t.prec) == 0 || len(t.noOp) == 0 {
		t.r.Violate("anchor:NoOp", posZero, nil, "no operator stands for parentheses")
		return false
	}
	// the functions putting trees in order
	t.roots = map[*ssa.Function]bool{}
	for fn := range t.q.rec {
		s := fn.Signature
		if len(fn.Params) == 1 && t.isExpr(fn.Params[0].Type()) && s.Results().Len() == 1 && t.isExpr(s.Results().At(0).Type()) {
			t.roots[fn] = true
		}
	}
	if len(t.roots) == 0 {
		t.r.Violate("anchor:adjust", posZero, nil, "no recursive function from expressions to expressions puts operators in order")
		return false
	}
	return true
}

func (t *treeRoles) addr(n *Term, nt *types.Named, f int) (*Term, types.Type) {
	ft := nt.Underlying().(*types.Struct).Field(f).Type()
	return mkFaddr(n, f, types.NewPointer(ft)), ft
}

func (t *treeRoles) cur(st *State, n *Term, nt *types.Named, f int) *Term {
	a, ft := t.addr(n, nt, f)
	t.snap(st, n, nt, f)
	return st.eval(st.load(a, ft))
}

// snap remembers what a field of a node held at first.
func (t *treeRoles) snap(st *State, n *Term, nt *types.Named, f int) {
	k := fmt.Sprintf("i|%d|%d", n.id, f)
	if st.P[k] == nil {
		a, ft := t.addr(n, nt, f)
		st.P[k] = st.load(a, ft)
	}
}

func (t *treeRoles) first(st *State, n *Term, nt *types.Named, f int) *Term {
	t.snap(st, n, nt, f)
	return st.eval(st.P[fmt.Sprintf("i|%d|%d", n.id, f)])
}

func yatom(x *Term) *Term { return mkApp("yield", x.typ, x) }

// yield lists the operands and operators of a tree in order, as it is now or was at first.
func (t *treeRoles) yield(st *State, v *Term, first bool, depth int) []*Term {
	v = st.eval(v)
	if depth > 8 {
		return []*Term{mkSym(t.exprT, "endless")}
	}
	get := t.cur
	if first {
		get = t.first
	}
	if v.op == "iface" {
		n := v.args[0]
		nt := t.node(v.dyn())
		if nt != nil && !first && gstr(st, fmt.Sprintf("#gone|%d", n.id)) != "" {
			return []*Term{mkSym(t.exprT, "gone")}
		}
		switch nt {
		case nil:
		case t.be:
			out := t.yield(st, get(st, n, nt, t.left), first, depth+1)
			out = append(out, get(st, n, nt, t.opF[nt]))
			return append(out, t.yield(st, get(st, n, nt, t.right), first, depth+1)...)
		case t.ue:
			op := get(st, n, nt, t.opF[nt])
			out := []*Term{mkApp("open", op.typ, op)}
			s := nt.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if t.isExpr(s.Field(i).Type()) {
					out = append(out, t.yield(st, get(st, n, nt, i), first, depth+1)...)
				}
			}
			return append(out, mkApp("close", op.typ, op))
		default:
			return []*Term{mkApp("node", v.typ, n)}
		}
	}
	if y := t.result(st, v); y != nil {
		return y.args
	}
	return []*Term{yatom(v)}
}

// result gives the yield of what is a result of putting a tree in order.
func (t *treeRoles) result(st *State, v *Term) *Term {
	for _, k := range pKeys(st) {
		if strings.HasPrefix(k, "r|") && st.eval(st.P[k]) == v {
			return st.eval(st.P["y|"+k[2:]])
		}
	}
	return nil
}

func pKeys(st *State) []string {
	var ks []string
	for k := range st.P {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// norm expands operands that are known to be operations.
func (t *treeRoles) norm(st *State, y []*Term, depth int) []*Term {
	var out []*Term
	for _, x := range y {
		x = st.eval(x)
		if depth > 8 {
			return append(out, x)
		}
		if x.isApp("open") || x.isApp("close") {
			op := st.eval(x.args[0])
			paren, plain := false, true
			if v, ok := op.constInt(); ok {
				paren, plain = t.noOp[v], !t.noOp[v]
			} else {
				for k := range t.noOp {
					if !st.isFalse(mkEq(op, mkConst(constant.MakeInt64(k), op.typ))) {
						plain = false
					}
				}
			}
			switch {
			case paren || !plain:
				out = append(out, x)
			case x.isApp("open"):
				out = append(out, op)
			}
			continue
		}
		if !x.isApp("yield") {
			out = append(out, x)
			continue
		}
		v := x.args[0]
		if v.op == "iface" && t.node(v.dyn()) != nil {
			if e := t.yield(st, v, true, 0); len(e) != 1 || e[0] != x {
				out = append(out, t.norm(st, e, depth+1)...)
				continue
			}
		}
		if r := t.result(st, v); r != nil && v.op != "iface" {
			out = append(out, t.norm(st, r.args, depth+1)...)
			continue
		}
		// what came of putting it in order turned out to be an operation
		done := false
		for _, k := range pKeys(st) {
			if !strings.HasPrefix(k, "r|") {
				continue
			}
			r, y := st.eval(st.P[k]), st.eval(st.P["y|"+k[2:]])
			if len(y.args) == 1 && y.args[0] == x && r.op == "iface" && t.node(r.dyn()) != nil {
				e := t.yield(st, r, true, 0)
				out = append(out, t.norm(st, e, depth+1)...)
				done = true
				break
			}
		}
		if !done {
			out = append(out, x)
		}
	}
	return out
}

func sameYield(x, y []*Term) bool {
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// ordered says why a tree is not in order, assuming that results of the function are.
func (t *treeRoles) ordered(st *State, v *Term, depth int) string {
	v = st.eval(v)
	if v.isNil() {
		return ""
	}
	if depth > 8 {
		return "the tree is endless"
	}
	if v.op != "iface" {
		if t.result(st, v) != nil {
			return ""
		}
		for _, nt := range t.nodes {
			n := st.clone()
			if n.assume(mkApp2typeis(v, types.NewPointer(nt)), true) {
				return fmt.Sprintf("an operand which may be a %s is not put in order", nt.Obj().Name())
			}
		}
		return ""
	}
	nt := t.node(v.dyn())
	if nt == nil {
		return ""
	}
	n := v.args[0]
	if gstr(st, fmt.Sprintf("#gone|%d", n.id)) != "" {
		return "a part of what was put in order is used again"
	}
	if t.result(st, v) != nil && gstr(st, fmt.Sprintf("#mod|%d", n.id)) == "" {
		return ""
	}
	s := nt.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if t.isExprSlice(ft) {
			if gstr(st, "#loop|"+nt.Obj().Name()+"/"+s.Field(i).Name()) == "" {
				return fmt.Sprintf("%s of a %s are not put in order", s.Field(i).Name(), nt.Obj().Name())
			}
			continue
		}
		if !t.isExpr(ft) {
			continue
		}
		c := t.cur(st, n, nt, i)
		if why := t.ordered(st, c, depth+1); why != "" {
			return why
		}
		switch {
		case nt == t.be:
			if why := t.pair(st, t.cur(st, n, nt, t.opF[nt]), c, i == t.right, false); why != "" {
				return why
			}
		case nt == t.ue:
			if why := t.pair(st, t.cur(st, n, nt, t.opF[nt]), c, false, true); why != "" {
				return why
			}
		default:
			// on its own
			x, y := t.norm(st, t.yield(st, c, false, 0), 0), t.norm(st, t.yield(st, t.first(st, n, nt, i), true, 0), 0)
			if !sameYield(x, y) {
				return fmt.Sprintf("%s of a %s is replaced by something else", s.Field(i).Name(), nt.Obj().Name())
			}
		}
	}
	return ""
}

func mkApp2typeis(v *Term, T types.Type) *Term {
	return intern("app", "typeis:"+typeKey(T), types.Typ[types.Bool], T, v)
}

// pair says why an operand may not stand below an operator.
func (t *treeRoles) pair(st *State, op, c *Term, right, unary bool) string {
	n := st.clone()
	if !n.assume(mkEq(c, mkNil(c.typ)), false) {
		return ""
	}
	if c = n.eval(c); c.op != "iface" {
		if !n.assume(mkApp2typeis(c, types.NewPointer(t.be)), true) {
			return ""
		}
		c = n.eval(c)
	}
	if c.op != "iface" || t.node(c.dyn()) != t.be {
		return ""
	}
	cop := t.cur(n, c.args[0], t.be, t.opF[t.be])
	for ko, no := range t.names {
		if unary && t.noOp[ko] {
			continue
		}
		m := n.clone()
		if !m.assume(mkEq(op, mkConst(constant.MakeInt64(ko), op.typ)), true) {
			continue
		}
		for kc, nc := range t.names {
			if t.noOp[kc] || t.prec[kc] > t.prec[ko] || t.prec[kc] == t.prec[ko] && !right {
				continue
			}
			cm := m.clone()
			x := cm.eval(cop)
			if cm.assume(mkEq(x, mkConst(constant.MakeInt64(kc), x.typ)), true) && !cm.dead {
				return fmt.Sprintf("the operands of %s may include one of %s without parentheses", no, nc)
			}
		}
	}
	t.r.OK("operands bind at least as tightly as the operator applied to them")
	return ""
}

func (t *treeRoles) adjust() {
	q := t.q
	for fn := range t.roots {
		t.r.Touch(fn)
		h := &Hooks{}
		h.Inline = func(f *ssa.Function) bool { return q.inParser(f) || f.Parent() != nil && q.inParser(f.Parent()) }
		h.Call = func(a *Analysis, st *State, c *Call) ([]Out, bool) {
			if c.Fn == nil || !t.roots[c.Fn] {
				return nil, false
			}
			x := st.eval(c.Args[0])
			y := t.yield(st, x, false, 0)
			ret := mkSym(t.exprT, "inOrder")
			if st.isFalse(mkEq(x, mkNil(x.typ))) || x.op == "iface" {
				st.assume(mkEq(ret, mkNil(ret.typ)), false)
			}
			t.forget(st, x, 0)
			k := fmt.Sprint(int(c.Pos()))
			st.P["r|"+k] = ret
			st.P["y|"+k] = intern("ycat", "", t.exprT, nil, y...)
			return []Out{{St: st, Ret: ret}}, true
		}
		h.Load = func(a *Analysis, st *State, addr, val *Term, in ssa.Instruction) {
			if addr.op == "faddr" {
				if nt := t.node(derefOr(addr.args[0].typ)); nt != nil {
					t.snap(st, addr.args[0], nt, addr.val.(int))
				}
			}
			if addr.op == "iaddr" && isInt(val.typ) {
				if u, ok := in.(*ssa.UnOp); ok {
					if ia, ok := u.X.(*ssa.IndexAddr); ok {
						x := ia.X
						if l, ok := x.(*ssa.UnOp); ok {
							x = l.X
						}
						if g, ok := x.(*ssa.Global); ok {
							if f := t.tableApp(g); f != "" {
								st.assume(mkEq(val, mkApp(f, val.typ, addr.args[1])), true)
							}
						}
					}
				}
			}
		}
		h.LookupMap = func(a *Analysis, st *State, m, k *Term, in *ssa.Lookup) (*Term, *Term, bool) {
			g, _ := m.val.(*ssa.Global)
			mt, ok := in.X.Type().Underlying().(*types.Map)
			if g == nil || !ok || !isInt(mt.Elem()) {
				return nil, nil, false
			}
			if f := t.tableApp(g); f != "" {
				return mkApp(f, mt.Elem(), k), mkBool(true), true
			}
			return nil, nil, false
		}
		h.Store = func(a *Analysis, st *State, addr, val *Term, in ssa.Instruction) {
			if addr.op == "faddr" {
				if nt := t.node(derefOr(addr.args[0].typ)); nt != nil {
					n := addr.args[0]
					if gstr(st, fmt.Sprintf("#gone|%d", n.id)) != "" {
						a.Violate(st, "reuse:"+shortFn(fn), "a part of what was put in order is changed again")
					}
					// the nodes of a tree are different from each other
					for k := range st.heap {
						if r := rootOf(k); r != n && r.typ != nil && types.Identical(r.typ, n.typ) && r.op == "sym" {
							st.assume(mkEq(r, n), false)
						}
					}
					t.snap(st, n, nt, addr.val.(int))
					setG(st, fmt.Sprintf("#mod|%d", n.id), "yes")
				}
				return
			}
			if addr.op == "iaddr" && t.isExpr(derefOr(addr.typ)) {
				v := st.eval(val)
				y := t.result(st, v)
				old := st.eval(st.load(addr, t.exprT))
				if y == nil || len(y.args) != 1 || st.eval(y.args[0]) != st.eval(yatom(old)) {
					a.Violate(st, "operand:"+shortFn(fn), "an operand is replaced by something that is not the same operand put in order")
				} else {
					t.r.OK("each operand of a call is put in order in its place")
				}
			}
		}
		h.Header = func(a *Analysis, st *State, b *ssa.BasicBlock) {
			if n := t.loops[b]; n != "" {
				setG(st, "#loop|"+n, "yes")
			}
		}
		h.Return = func(a *Analysis, st *State, res []*Term) {
			if len(res) != 1 {
				return
			}
			v := st.eval(res[0])
			if why := t.ordered(st, v, 0); why != "" {
				a.Violate(st, "order:"+shortFn(fn), "%s", why)
			} else {
				t.r.OK("a tree put in order is returned")
			}
			x := t.norm(st, t.yield(st, v, false, 0), 0)
			y := t.norm(st, []*Term{yatom(st.P["root"])}, 0)
			if !sameYield(x, y) {
				a.Violate(st, "sequence:"+shortFn(fn), "the operands and operators are not in the order they were given in: %s became %s", y, x)
			} else {
				t.r.OK("operands and operators stay in order")
			}
		}
		h.Panic = func(a *Analysis, st *State, v *Term) {}
		a := NewAnalysis(t.p, t.r, h, shortFn(fn))
		a.Shared, a.Unroll = 1, 0
		st := newState()
		x := mkSym(t.exprT, "expr")
		st.assume(mkEq(x, mkNil(x.typ)), false)
		st.P["root"] = x
		a.Start(st, fn, []*Term{x})
		a.Run()
	}
}

// forget drops what is known of the nodes of a tree passed on.
func (t *treeRoles) forget(st *State, v *Term, depth int) {
	v = st.eval(v)
	if v.op != "iface" || depth > 8 {
		return
	}
	nt := t.node(v.dyn())
	if nt == nil {
		return
	}
	n := v.args[0]
	s := nt.Underlying().(*types.Struct)
	setG(st, fmt.Sprintf("#gone|%d", n.id), "yes")
	for i := 0; i < s.NumFields(); i++ {
		if t.isExpr(s.Field(i).Type()) {
			t.forget(st, t.cur(st, n, nt, i), depth+1)
		}
	}
}

// tableApp makes a function of what a table of numbers gives for a constant index.
func (t *treeRoles) tableApp(g *ssa.Global) string {
	name := "tab:" + g.Name()
	if appSimplify[name] != nil {
		return name
	}
	tab, why := fixedTable(t.p, g)
	if why != "" {
		return ""
	}
	appSimplify[name] = func(typ types.Type, args []*Term) *Term {
		v, ok := args[0].constInt()
		if !ok {
			return nil
		}
		for _, e := range tab {
			if k, _ := constant.Int64Val(e.key); k == v && e.val != nil {
				return mkConst(e.val, typ)
			}
		}
		return mkConst(constant.MakeInt64(0), typ)
	}
	return name
}

// findLoops finds the loops that put every element of a slice of operands in order.
func (t *treeRoles) findLoops() {
	t.loops = map[*ssa.BasicBlock]string{}
	a := NewAnalysis(t.p, t.r, &Hooks{}, "loops")
	for _, fn := range t.p.Funcs("parser") {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := s.Addr.(*ssa.IndexAddr)
				if !ok || !t.isExprSlice(ia.X.Type()) {
					continue
				}
				c, ok := s.Val.(*ssa.Call)
				if !ok || !t.roots[c.Common().StaticCallee()] {
					continue
				}
				// the loop around it
				hd := b
				for hd != nil && !(a.isHeader(hd) && a.inLoop(hd, b)) {
					hd = hd.Idom()
				}
				if hd == nil {
					continue
				}
				var fieldOfNode func(v ssa.Value) string
				fieldOfNode = func(v ssa.Value) string {
					if pa, ok := v.(*ssa.Parameter); ok {
						return t.argField(pa, fieldOfNode)
					}
					u, ok := v.(*ssa.UnOp)
					if !ok {
						return ""
					}
					fa, ok := u.X.(*ssa.FieldAddr)
					if !ok {
						return ""
					}
					nt := t.node(derefOr(fa.X.Type()))
					if nt == nil {
						return ""
					}
					return nt.Obj().Name() + "/" + nt.Underlying().(*types.Struct).Field(fa.Field).Name()
				}
				name := fieldOfNode(ia.X)
				if name == "" {
					continue
				}
				// every turn comes by, and the only way out is the end of the slice
				good := true
				for _, pr := range hd.Preds {
					if a.inLoop(hd, pr) && !b.Dominates(pr) {
						good = false
					}
				}
				for _, x := range fn.Blocks {
					if x == hd || !a.inLoop(hd, x) {
						continue
					}
					for _, y := range x.Succs {
						if y != hd && !a.inLoop(hd, y) {
							good = false
						}
					}
				}
				if good && t.wholeRange(hd, ia.Index, fieldOfNode, name) {
					t.loops[hd] = name
				}
			}
		}
	}
}

// argField gives what is passed for a parameter, if it is the same everywhere.
func (t *treeRoles) argField(pa *ssa.Parameter, field func(ssa.Value) string) string {
	fn, name := pa.Parent(), ""
	if t.argSeen[pa] {
		return ""
	}
	if t.argSeen == nil {
		t.argSeen = map[*ssa.Parameter]bool{}
	}
	t.argSeen[pa] = true
	defer delete(t.argSeen, pa)
	idx := -1
	for i, x := range fn.Params {
		if x == pa {
			idx = i
		}
	}
	for _, g := range t.p.Funcs("parser") {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() != fn {
					for _, op := range in.Operands(nil) {
						if *op == ssa.Value(fn) {
							return ""
						}
					}
					continue
				}
				n := field(c.Common().Args[idx])
				if n == "" || name != "" && name != n {
					return ""
				}
				name = n
			}
		}
	}
	return name
}

// wholeRange: the loop runs an index from the first to the last element of a slice.
func (t *treeRoles) wholeRange(hd *ssa.BasicBlock, idx ssa.Value, field func(ssa.Value) string, name string) bool {
	f, ok := hd.Instrs[len(hd.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := f.Cond.(*ssa.BinOp)
	if !ok || c.Op.String() != "<" || c.X != idx {
		return false
	}
	l, ok := c.Y.(*ssa.Call)
	if !ok {
		return false
	}
	if bi, ok := l.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" || field(l.Call.Args[0]) != name {
		return false
	}
	one := func(v ssa.Value) bool {
		k := constOf(v)
		return k != nil && k.ExactString() == "1"
	}
	start := func(v ssa.Value, want string) bool {
		k := constOf(v)
		return k != nil && k.ExactString() == want
	}
	isInc := func(v ssa.Value, of ssa.Value) bool {
		b, ok := v.(*ssa.BinOp)
		return ok && b.Op.String() == "+" && (b.X == of && one(b.Y) || b.Y == of && one(b.X))
	}
	if phi, ok := idx.(*ssa.Phi); ok && phi.Block() == hd {
		// for i := 0; i < len; i++
		for _, e := range phi.Edges {
			if !start(e, "0") && !isInc(e, phi) {
				return false
			}
		}
		return true
	}
	// range: the index is one more than the one before
	if b, ok := idx.(*ssa.BinOp); ok {
		phi, _ := b.X.(*ssa.Phi)
		if phi == nil || !isInc(b, phi) {
			return false
		}
		for _, e := range phi.Edges {
			if !start(e, "-1") && e != ssa.Value(b) {
				return false
			}
		}
		return true
	}
	return false
}

// raw finds the functions of the parser whose trees are still to be put in order, and checks where
// these trees go.
func (t *treeRoles) raw() {
	q := t.q
	raw := map[*ssa.Function]bool{}
	var fns []*ssa.Function
	for _, fn := range t.p.Funcs("parser") {
		if t.q.takesParser(fn) && len(fn.Blocks) > 0 {
			fns = append(fns, fn)
		}
	}
	returnsExpr := func(fn *ssa.Function) bool {
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			if t.isExpr(fn.Signature.Results().At(i).Type()) {
				return true
			}
		}
		return false
	}
	calls := func(fn *ssa.Function) map[*ssa.Function]bool {
		m := map[*ssa.Function]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil {
						m[f] = true
					}
				}
			}
		}
		return m
	}
	// a function is raw when a tree it returns is made of operations that were not put in order
	var isRaw func(v ssa.Value, seen map[ssa.Value]bool) bool
	isRaw = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Call:
			f := v.Common().StaticCallee()
			return f != nil && raw[f]
		case *ssa.Extract:
			return isRaw(v.Tuple, seen)
		case *ssa.Phi:
			for _, e := range v.Edges {
				if isRaw(e, seen) {
					return true
				}
			}
		case *ssa.MakeInterface:
			return isRaw(v.X, seen)
		case *ssa.ChangeInterface:
			return isRaw(v.X, seen)
		case *ssa.TypeAssert:
			return isRaw(v.X, seen)
		case *ssa.Alloc:
			// a node built here
			if t.node(derefType(v.Type())) == t.be || t.node(derefType(v.Type())) == t.ue {
				return q.takesParser(v.Parent()) && calls(v.Parent())[v.Parent()]
			}
		case *ssa.UnOp:
			if al, ok := v.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) && isRaw(s.Val, seen) {
						return true
					}
				}
			}
		case *ssa.Parameter:
			return t.isExpr(v.Type())
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range fns {
			if raw[fn] || !returnsExpr(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, x := range ret.Results {
						if t.isExpr(x.Type()) && isRaw(x, map[ssa.Value]bool{}) && !raw[fn] {
							raw[fn], changed = true, true
						}
					}
				}
			}
			// a binary expression is built out of the function's own trees
			if !raw[fn] && calls(fn)[fn] {
				raw[fn], changed = true, true
			}
		}
	}
	n := 0
	for _, fn := range fns {
		if raw[fn] {
			n++
			t.r.Touch(fn)
			if o := fn.Object(); o != nil && o.Exported() {
				t.r.Violate("raw:"+shortFn(fn), t.p.Fset.Position(fn.Pos()), nil, "%s returns expressions whose operators were not put in order", fn.Name())
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Common().StaticCallee() == nil || !raw[c.Common().StaticCallee()] {
					continue
				}
				t.sinks(fn, c, raw, map[ssa.Value]bool{}, true)
				for i := range c.Common().Args {
					_ = i
				}
			}
		}
		if raw[fn] {
			t.sequence(fn, raw)
		}
	}
	if n == 0 {
		t.r.Violate("anchor:raw", posZero, nil, "no function of the parser builds expressions")
	}
}

// sinks checks where a tree that is still to be put in order goes.
func (t *treeRoles) sinks(fn *ssa.Function, v ssa.Value, raw map[*ssa.Function]bool, seen map[ssa.Value]bool, whole bool) {
	if seen[v] || v.Referrers() == nil {
		return
	}
	seen[v] = true
	bad := func(in ssa.Instruction, what string) {
		t.r.Violate("raw:"+shortFn(fn), t.p.Fset.Position(in.Pos()), nil, "%s: an expression whose operators were not put in order %s", shortFn(fn), what)
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef, *ssa.If, *ssa.BinOp:
		case *ssa.Phi, *ssa.MakeInterface, *ssa.ChangeInterface:
			t.sinks(fn, r.(ssa.Value), raw, seen, whole)
		case *ssa.Extract:
			if t.isExpr(r.Type()) {
				t.sinks(fn, r, raw, seen, whole)
			}
		case *ssa.TypeAssert:
			bad(r, "is looked into")
		case *ssa.Return:
			if !raw[fn] {
				bad(r, "is returned")
			}
			t.r.OK("expressions are put in order before they are used")
		case *ssa.Call:
			f := r.Common().StaticCallee()
			if b, ok := r.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" {
				t.sinks(fn, r, raw, seen, whole)
				continue
			}
			if f == nil || !t.roots[f] && !raw[f] {
				bad(r, "is passed on")
				continue
			}
			t.r.OK("expressions are put in order before they are used")
		case *ssa.Slice:
			t.sinks(fn, r, raw, seen, whole)
		case *ssa.Store:
			if r.Val != v {
				continue
			}
			switch a := r.Addr.(type) {
			case *ssa.FieldAddr:
				nt := t.node(derefOr(a.X.Type()))
				if nt == nil || !raw[fn] {
					bad(r, "is put into "+fieldKey(a))
					continue
				}
				if nt == t.be && a.Field == t.left && t.whole(v, raw, map[ssa.Value]bool{}) {
					bad(r, "becomes the left operand, as if it were in parentheses")
					continue
				}
				t.r.OK("expressions are put in order before they are used")
			case *ssa.IndexAddr:
				if al, ok := a.X.(*ssa.Alloc); ok {
					for _, u := range *al.Referrers() {
						if sl, ok := u.(*ssa.Slice); ok {
							t.sinks(fn, sl, raw, seen, whole)
						}
					}
					continue
				}
				bad(r, "is put into a slice")
			case *ssa.Alloc:
				// a variable
				for _, u := range *a.Referrers() {
					if l, ok := u.(*ssa.UnOp); ok {
						t.sinks(fn, l, raw, seen, whole)
					}
				}
			default:
				bad(r, "is stored")
			}
		default:
			bad(r, "is used")
		}
	}
}

// whole: the value may be everything that was parsed up to the end of an expression.
func (t *treeRoles) whole(v ssa.Value, raw map[*ssa.Function]bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Call:
		f := v.Common().StaticCallee()
		if f == nil || !raw[f] {
			return false
		}
		for _, a := range v.Common().Args {
			if t.isExpr(a.Type()) {
				return false // goes on from an operand
			}
		}
		// parts of the function itself
		return f.Signature.Results().Len() == 1 && t.continues(f, raw)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if t.whole(e, raw, seen) {
				return true
			}
		}
	case *ssa.MakeInterface:
		return t.whole(v.X, raw, seen)
	case *ssa.ChangeInterface:
		return t.whole(v.X, raw, seen)
	}
	return false
}

// continues: the function parses operators after the first operand.
func (t *treeRoles) continues(f *ssa.Function, raw map[*ssa.Function]bool) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if al, ok := in.(*ssa.Alloc); ok && t.node(derefType(al.Type())) == t.be {
				return true
			}
			if c, ok := in.(*ssa.Call); ok && raw[c.Common().StaticCallee()] && c.Common().StaticCallee() != f {
				for _, r := range *c.Referrers() {
					if _, ok := r.(*ssa.Return); ok && t.continues(c.Common().StaticCallee(), raw) {
						return true
					}
				}
			}
		}
	}
	return false
}

// sequence checks that the left operand of a binary expression is parsed before its right one.
func (t *treeRoles) sequence(fn *ssa.Function, raw map[*ssa.Function]bool) {
	sources := func(v ssa.Value) []*ssa.Call {
		var out []*ssa.Call
		seen := map[ssa.Value]bool{}
		var walk func(v ssa.Value)
		walk = func(v ssa.Value) {
			if v == nil || seen[v] {
				return
			}
			seen[v] = true
			switch v := v.(type) {
			case *ssa.Call:
				if f := v.Common().StaticCallee(); f != nil && t.q.takesParser(f) {
					out = append(out, v)
				}
			case *ssa.Phi:
				for _, e := range v.Edges {
					walk(e)
				}
			case *ssa.MakeInterface:
				walk(v.X)
			case *ssa.ChangeInterface:
				walk(v.X)
			case *ssa.Extract:
				walk(v.Tuple)
			case *ssa.UnOp:
				walk(v.X)
			case *ssa.Alloc:
				for _, r := range *v.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr == ssa.Value(v) {
							walk(r.Val)
						}
					case *ssa.FieldAddr:
						for _, w := range *r.Referrers() {
							if s, ok := w.(*ssa.Store); ok && s.Addr == ssa.Value(r) {
								walk(s.Val)
							}
						}
					}
				}
			}
		}
		walk(v)
		return out
	}
	before := func(x, y *ssa.Call) bool {
		if x.Block() == y.Block() {
			for _, in := range x.Block().Instrs {
				if in == ssa.Instruction(x) {
					return true
				}
				if in == ssa.Instruction(y) {
					return false
				}
			}
		}
		seen := map[*ssa.BasicBlock]bool{}
		var reach func(b *ssa.BasicBlock) bool
		reach = func(b *ssa.BasicBlock) bool {
			for _, s := range b.Succs {
				if s == x.Block() {
					return true
				}
				if !seen[s] {
					seen[s] = true
					if reach(s) {
						return true
					}
				}
			}
			return false
		}
		return !reach(y.Block())
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			al, ok := in.(*ssa.Alloc)
			if !ok || t.node(derefType(al.Type())) != t.be {
				continue
			}
			var l, r ssa.Value
			for _, u := range *al.Referrers() {
				fa, ok := u.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				for _, w := range *fa.Referrers() {
					if s, ok := w.(*ssa.Store); ok && s.Addr == ssa.Value(fa) {
						if fa.Field == t.left {
							l = s.Val
						} else if fa.Field == t.right {
							r = s.Val
						}
					}
				}
			}
			if l == nil || r == nil {
				t.r.Violate("sequence:"+shortFn(fn), t.p.Fset.Position(al.Pos()), nil, "%s: a binary expression without one of its operands", shortFn(fn))
				continue
			}
			ls, rs := sources(l), sources(r)
			if len(rs) == 0 {
				t.r.Violate("sequence:"+shortFn(fn), t.p.Fset.Position(al.Pos()), nil, "%s: the right operand of a binary expression is not parsed here", shortFn(fn))
				continue
			}
			good := true
			for _, x := range ls {
				for _, y := range rs {
					if x == y || !before(x, y) {
						good = false
					}
				}
			}
			if !good {
				t.r.Violate("sequence:"+shortFn(fn), t.p.Fset.Position(al.Pos()), nil, "%s: the right operand of a binary expression may be what was parsed before its left one", shortFn(fn))
				continue
			}
			t.r.OK("left operands are parsed before right ones")
		}
	}
}

func checkR05(p *Program, r *Report) {
	r.Rule = "the function putting the operators of a tree in order is followed under the assumption that its recursive calls do what it should: on every path the tree returned has the same operands and operators in the same sequence, parentheses are never taken apart, no operand of a unary or binary operator is an operation with a looser operator (or, on the right, one as loose), and every operand below was put in order; trees built by the parser go nowhere before they went through it, and left operands are parsed before right ones"
	q := findParser(p, r, "R05")
	if q == nil {
		return
	}
	t := &treeRoles{q: q, p: p, r: r}
	if !t.find() {
		return
	}
	t.findLoops()
	t.adjust()
	t.raw()
	r.AtLeast("a tree put in order is returned", 6)
	r.AtLeast("operands and operators stay in order", 6)
	r.AtLeast("operands bind at least as tightly as the operator applied to them", 3)
	r.AtLeast("expressions are put in order before they are used", 5)
	r.AtLeast("left operands are parsed before right ones", 1)
}

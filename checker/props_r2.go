package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["R01"] = checkR01
	checks["R06"] = checkR06
}

// parserRoles knows the parser: its ring of tokens and which of its methods are followed one by one.
type parserRoles struct {
	p          *Program
	r          *Report
	pT         *types.Named // parser.Parser
	ctxT       *types.Named // scanner.ScanCtx
	sc         *scannerRoles
	fi         map[string]int // fields of the parser
	fts        map[string]types.Type
	ring       int64 // tokens remembered
	summ       map[*ssa.Function]bool
	rec        map[*ssa.Function]bool // recursive functions without a parser
	list       []*ssa.Function        // methods followed one by one, in order
	want       string                 // the property being decided
	in         map[*ssa.Function]bool // functions that move in the ring
	need       map[string]bool        // "method/tokens to be read again" that are called
	todo       []task
	rtErr      types.Type   // runtime.Error
	opT        *types.Named // sql.Op
	opLo, opHi int64
	rd         map[string]bool // fields with slices that are indexed by constants: "T.F"
	sqlI       []*types.Named
}

// task: a method to be followed with so many tokens to be read again.
type task struct {
	fn *ssa.Function
	un int64
}

func findParser(p *Program, r *Report, want string) *parserRoles {
	q := &parserRoles{p: p, r: r, fi: map[string]int{}, fts: map[string]types.Type{}, summ: map[*ssa.Function]bool{}, rec: map[*ssa.Function]bool{}, want: want, rd: map[string]bool{}, need: map[string]bool{}, in: map[*ssa.Function]bool{}}
	q.sc = findScanner(p, r)
	if q.sc == nil {
		return nil
	}
	q.ctxT = q.sc.ctxT
	q.pT, _ = p.TypeOf("parser", "Parser").(*types.Named)
	if q.pT == nil {
		r.Violate("anchor:Parser", posZero, nil, "parser.Parser not found")
		return nil
	}
	st, ok := q.pT.Underlying().(*types.Struct)
	if !ok {
		r.Violate("anchor:Parser", posZero, nil, "parser.Parser is no structure")
		return nil
	}
	role := func(n string, i int) {
		q.fi[n], q.fts[n] = i, st.Field(i).Type()
	}
	for i := 0; i < st.NumFields(); i++ {
		t := st.Field(i).Type()
		at, isArr := t.Underlying().(*types.Array)
		switch {
		case isArr && types.Identical(at.Elem(), q.ctxT):
			role("ring", i)
			q.ring = at.Len()
		case types.Identical(t, types.NewPointer(q.ctxT)):
			role("cur", i)
		case types.Identical(t, q.sc.scT):
			role("scanner", i)
		case types.Identical(t.Underlying(), types.Typ[types.Bool]):
			role("failed", i)
		case isInt(t) && st.Field(i).Name() == "current":
			role("current", i)
		case isInt(t) && st.Field(i).Name() == "unscanned":
			role("unscanned", i)
		}
	}
	for _, n := range []string{"ring", "cur", "scanner", "failed", "current", "unscanned"} {
		if _, ok := q.fi[n]; !ok {
			r.Violate("anchor:Parser."+n, posZero, nil, "the part of parser.Parser playing the role %q was not found", n)
			return nil
		}
	}
	if q.ring < 2 || q.ring > 4 {
		r.Violate("undecided:ring", posZero, nil, "a ring of %d tokens", q.ring)
		return nil
	}
	q.opT, _ = p.TypeOf("parser/sql", "Op").(*types.Named)
	if q.opT != nil {
		sc := q.opT.Obj().Pkg().Scope()
		for _, n := range sc.Names() {
			if c, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(c.Type(), q.opT) {
				v, _ := constant.Int64Val(c.Val())
				q.opLo, q.opHi = min(q.opLo, v), max(q.opHi, v)
			}
		}
	}
	for _, fn := range p.Funcs("parser") {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ta, ok := in.(*ssa.TypeAssert); ok && ta.AssertedType.String() == "runtime.Error" {
					q.rtErr = ta.AssertedType
				}
			}
		}
	}
	q.classify()
	return q
}

func (q *parserRoles) isParserPtr(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	return ok && types.Identical(pt.Elem(), q.pT)
}

func (q *parserRoles) takesParser(fn *ssa.Function) bool {
	for _, x := range fn.Params {
		if q.isParserPtr(x.Type()) {
			return true
		}
	}
	for _, x := range fn.FreeVars {
		if q.isParserPtr(x.Type()) || q.isParserPtr(derefOr(x.Type())) {
			return true
		}
	}
	return false
}

func derefOr(t types.Type) types.Type {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

// treeType: part of a syntax tree (not one of its enumerations).
func (q *parserRoles) treeType(t types.Type) bool {
	t = derefOr(t)
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modulePath+"/parser/sql" {
		return false
	}
	_, basic := n.Underlying().(*types.Basic)
	return !basic
}

func (q *parserRoles) inParser(fn *ssa.Function) bool {
	return fn != nil && fn.Pkg != nil && fn.Pkg.Pkg.Path() == modulePath+"/parser"
}

// classify chooses the functions followed one by one, under assumptions on how they are called.
func (q *parserRoles) classify() {
	fns := q.p.Funcs("parser")
	calls := map[*ssa.Function]map[*ssa.Function]bool{}
	inner := q.in
	exported := map[*ssa.Function]bool{}
	for _, fn := range fns {
		calls[fn] = map[*ssa.Function]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if t := c.Common().StaticCallee(); q.inParser(t) {
						calls[fn][t] = true
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					if t, ok := mc.Fn.(*ssa.Function); ok {
						calls[fn][t] = true
					}
				}
				if fa, ok := in.(*ssa.FieldAddr); ok && q.isParserPtr(fa.X.Type()) {
					if f := fa.Field; f == q.fi["ring"] || f == q.fi["current"] || f == q.fi["unscanned"] {
						inner[fn] = true
					}
				}
				if ia, ok := in.(*ssa.IndexAddr); ok {
					if c := constOf(ia.Index); c != nil {
						if u, ok := ia.X.(*ssa.UnOp); ok && u.Op == token.MUL {
							if k := fieldKey(u.X); k != "" {
								q.rd[k] = true
							}
						}
					}
				}
			}
		}
		if o := fn.Object(); o != nil && o.Exported() {
			exported[fn] = true
		}
	}
	reach := func(from, to *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function) bool
		walk = func(f *ssa.Function) bool {
			for c := range calls[f] {
				if c == to {
					return true
				}
				if !seen[c] {
					seen[c] = true
					if walk(c) {
						return true
					}
				}
			}
			return false
		}
		return walk(from)
	}
	a := NewAnalysis(q.p, q.r, &Hooks{}, "parser")
	for _, fn := range fns {
		if inner[fn] || fn.Parent() != nil || len(fn.Blocks) == 0 || isInitFn(fn) {
			continue
		}
		if !q.takesParser(fn) {
			if reach(fn, fn) {
				q.rec[fn] = true
			}
			continue
		}
		if exported[fn] || len(fn.Params) == 0 || !q.isParserPtr(fn.Params[0].Type()) {
			continue
		}
		tree := false
		for i, x := range fn.Params {
			if i > 0 && q.treeType(x.Type()) {
				tree = true
			}
		}
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			if q.treeType(fn.Signature.Results().At(i).Type()) {
				tree = true
			}
		}
		loop := false
		for _, b := range fn.Blocks {
			if !a.isHeader(b) {
				continue
			}
			for _, c := range fn.Blocks {
				if c != b && !a.inLoop(b, c) {
					continue
				}
				for _, in := range c.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if t := ci.Common().StaticCallee(); q.inParser(t) && q.takesParser(t) && !q.onlyFails(t) {
							loop = true
						}
					}
				}
			}
		}
		moves := false
		for m := range inner {
			if reach(fn, m) {
				moves = true
			}
		}
		if moves && (tree || loop || reach(fn, fn)) {
			q.summ[fn] = true
			q.list = append(q.list, fn)
		}
	}
	sort.Slice(q.list, func(i, j int) bool { return q.list[i].Pos() < q.list[j].Pos() })
}

// onlyFails: a function that never returns.
func (q *parserRoles) onlyFails(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Return); ok {
				return false
			}
		}
	}
	return true
}

// fieldKey names the field an address is of.
func fieldKey(v ssa.Value) string {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	n, ok := derefOr(fa.X.Type()).(*types.Named)
	if !ok {
		return ""
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return n.Obj().Name() + "." + st.Field(fa.Field).Name()
}

// ---- the ring

func (q *parserRoles) fieldOf(st *State, n string) *Term {
	return st.eval(st.load(fieldAddr(st.P["parser"], q.fi[n]), q.fts[n]))
}

func (q *parserRoles) setField(st *State, n string, v *Term) {
	st.store(fieldAddr(st.P["parser"], q.fi[n]), v, q.fts[n])
}

func (q *parserRoles) num(st *State, n string) (int64, bool) {
	return q.fieldOf(st, n).constInt()
}

func (q *parserRoles) cellAddr(st *State, i int64) *Term {
	arr := fieldAddr(st.P["parser"], q.fi["ring"])
	return mkIaddr(arr, mkInt(i%q.ring), types.NewPointer(q.ctxT))
}

func (q *parserRoles) cell(st *State, i int64) *Term {
	return st.load(q.cellAddr(st, i), q.ctxT)
}

func (q *parserRoles) tokOf(st *State, cell *Term) *Term {
	return st.eval(mkField(cell, q.sc.fields["Token"]))
}

// freshCell makes a token about which nothing is known.
func (q *parserRoles) freshCell() *Term {
	cs := q.ctxT.Underlying().(*types.Struct)
	var fs []*Term
	for i := 0; i < cs.NumFields(); i++ {
		fs = append(fs, mkSym(cs.Field(i).Type(), cs.Field(i).Name()))
	}
	return mkStruct(q.ctxT, fs...)
}

// setRing puts tokens into the ring.
func (q *parserRoles) setRing(st *State, cells []*Term) {
	arr := fieldAddr(st.P["parser"], q.fi["ring"])
	c := intern("zeros", "", q.fts["ring"], nil)
	for i, x := range cells {
		c = intern("store", "", q.fts["ring"], nil, c, mkInt(int64(i)), x)
	}
	st.setContent(arr, c)
}

func (q *parserRoles) is(tok *Term, name string) *Term {
	return mkEq(tok, mkConst(constant.MakeInt64(q.sc.toks[name]), tok.typ))
}

// arrange puts the parser in a state with un tokens to be read again, the current one at cell 0 and
// what is assumed of them; false when that is impossible.
func (q *parserRoles) arrange(st *State, un int64) bool {
	cells := make([]*Term, q.ring)
	for i := range cells {
		cells[i] = q.freshCell()
	}
	q.setRing(st, cells)
	u := q.fts["current"]
	q.setField(st, "current", mkConst(constant.MakeInt64(0), u))
	q.setField(st, "unscanned", mkConst(constant.MakeInt64(un), q.fts["unscanned"]))
	q.setField(st, "cur", q.cellAddr(st, 0))
	// the tokens scanned last, latest first
	for k := int64(0); k < q.ring; k++ {
		st.P[fmt.Sprintf("h%d", k)] = q.tokOf(st, cells[((un-k)%q.ring+q.ring)%q.ring])
	}
	for k := int64(0); k < un; k++ {
		t := q.tokOf(st, cells[(un-k)%q.ring])
		if !st.assume(q.is(t, "Error"), false) {
			return false
		}
		if k > 0 && !q.noEnd(st, t) {
			return false
		}
	}
	setG(st, "#n", "2")
	return true
}

// h gives the k-th last token scanned.
func h(st *State, k int64) *Term {
	t := st.P[fmt.Sprintf("h%d", k)]
	if t == nil {
		return nil
	}
	return st.eval(t)
}

// pos notes where the parser is in its ring, so that such states are not mixed.
func (q *parserRoles) pos(st *State) {
	setG(st, "#pos", q.fieldOf(st, "current").String()+"/"+q.fieldOf(st, "unscanned").String())
}

// ---- what is assumed of methods and checked of them

// ringOK checks that the tokens to be read again are those scanned last.
func (q *parserRoles) ringOK(a *Analysis, st *State, where string) (un int64, ok bool) {
	cur, ok1 := q.num(st, "current")
	un, ok2 := q.num(st, "unscanned")
	if !ok1 || !ok2 || cur < 0 || cur >= q.ring {
		q.viol(a, st, "R06", "ring:"+where, "where the parser is in its ring of tokens is not known")
		return 0, false
	}
	if un < 0 || un > q.ring {
		q.viol(a, st, "R06", "ring:"+where, "more tokens are to be read again than are remembered")
		return 0, false
	}
	if q.fieldOf(st, "cur") != st.eval(q.cellAddr(st, cur)) {
		q.viol(a, st, "R06", "ring:"+where, "the current token is not the one the parser is at")
		return 0, false
	}
	for k := int64(0); k < un; k++ {
		t := q.tokOf(st, q.cell(st, cur+un-k))
		if hk := h(st, k); t != hk {
			q.viol(a, st, "R06", "ring:"+where, "a token to be read again is not the one that was scanned")
			return 0, false
		}
	}
	if un < q.ring {
		if hk := h(st, un); q.tokOf(st, q.cell(st, cur)) != hk {
			q.viol(a, st, "R06", "ring:"+where, "the current token is not the one before those to be read again")
			return 0, false
		}
	}
	q.r.OK(q.tag("R06", "the tokens to be read again are the last scanned"))
	return un, true
}

func (q *parserRoles) tag(prop, s string) string {
	return s
}

func (q *parserRoles) viol(a *Analysis, st *State, prop, rule, format string, args ...any) {
	if prop == q.want {
		a.Violate(st, rule, format, args...)
	}
}

// canCall says whether what is assumed at the start of methods holds.
func (q *parserRoles) canCall(a *Analysis, st *State) bool {
	if gstr(st, "#skip") != "" {
		return false
	}
	if gstr(st, "#n") != "2" && !q.isNoEnd(st, h(st, 0)) {
		return false
	}
	un, ok := q.num(st, "unscanned")
	if !ok || un >= q.ring {
		return ok
	}
	cur, ok := q.num(st, "current")
	if !ok {
		return false
	}
	t := q.tokOf(st, q.cell(st, cur))
	return q.isNoEnd(st, t) && st.isFalse(q.is(t, "Error"))
}

// noEnd assumes that a token is the end neither of a statement nor of the input.
func (q *parserRoles) noEnd(st *State, t *Term) bool {
	return st.assume(q.is(t, "EndOfStatement"), false) && st.assume(q.is(t, "EOF"), false)
}

func (q *parserRoles) isNoEnd(st *State, t *Term) bool {
	return st.isFalse(q.is(t, "EndOfStatement")) && st.isFalse(q.is(t, "EOF"))
}

// inside assumes that the current token is one of a statement.
func (q *parserRoles) inside(st *State, un int64) bool {
	if un >= q.ring {
		return true
	}
	t := q.tokOf(st, q.cell(st, 0))
	return q.noEnd(st, t) && st.assume(q.is(t, "Error"), false)
}

// settled checks what is assumed after methods.
func (q *parserRoles) settled(a *Analysis, st *State, where string, fails bool) {
	un, ok := q.ringOK(a, st, where)
	if !ok {
		return
	}
	if un >= q.ring {
		q.viol(a, st, "R06", "end:"+where, "more tokens are put back than were taken")
		return
	}
	cur, _ := q.num(st, "current")
	for k := int64(0); k < un; k++ {
		if !st.isFalse(q.is(h(st, k), "Error")) {
			q.viol(a, st, "R06", "error:"+where, "an error is to be read again as if it were a token")
			return
		}
		if k > 0 && !q.isNoEnd(st, h(st, k)) {
			q.viol(a, st, "R06", "end:"+where, "something was read past the end of the statement")
			return
		}
	}
	noEnd := q.isNoEnd(st, q.tokOf(st, q.cell(st, cur)))
	if fails {
		if un >= q.ring {
			q.viol(a, st, "R06", "end:"+where, "a failure when the current token is not known")
			return
		}
		if un > 0 && !noEnd {
			q.viol(a, st, "R06", "end:"+where, "something was read past the end of the statement")
			return
		}
	} else if un < q.ring {
		if !noEnd {
			q.viol(a, st, "R06", "end:"+where, "the end of the statement may have been taken by a part of it")
			return
		}
		if !st.isFalse(q.is(q.tokOf(st, q.cell(st, cur)), "Error")) {
			q.viol(a, st, "R06", "ignored:"+where, "an error of the scanner is ignored")
			return
		}
	}
	q.r.OK("the end of the statement is left to be read")
}

// results gives the results of a method: parts of the tree are not nil.
func (q *parserRoles) results(st *State, c *Call) []Out {
	ret := freshResult(c.Sig, c.Fn.Name())
	if ret == nil {
		return []Out{{St: st}}
	}
	rs := c.Sig.Results()
	n := rs.Len()
	part := func(t *Term, i int) *Term { return t }
	if n > 1 {
		part = func(t *Term, i int) *Term { return t.args[i] }
	}
	flag := -1
	var trees []int
	for i := 0; i < n; i++ {
		t := rs.At(i).Type()
		if types.Identical(t.Underlying(), types.Typ[types.Bool]) {
			flag = i
		}
		if q.mayBeNil(t) {
			trees = append(trees, i)
		}
	}
	set := func(s *State) bool {
		for _, i := range trees {
			x := part(ret, i)
			if !s.assume(mkEq(x, mkNil(x.typ)), false) {
				return false
			}
		}
		return true
	}
	if flag < 0 {
		if !set(st) {
			return nil
		}
		return []Out{{St: st, Ret: ret}}
	}
	no := st.clone()
	var outs []Out
	if no.assume(part(ret, flag), false) {
		outs = append(outs, Out{St: no, Ret: ret})
	}
	if st.assume(part(ret, flag), true) && set(st) {
		outs = append(outs, Out{St: st, Ret: ret})
	}
	return outs
}

func (q *parserRoles) mayBeNil(t types.Type) bool {
	if !q.treeType(t) {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return true
	}
	return false
}

// havocTrees forgets the parts of trees a method was given.
func (q *parserRoles) havocTrees(st *State, args []*Term) {
	var ts []*Term
	for _, x := range args {
		if x != nil && x.typ != nil && x != st.P["parser"] && q.treeType(x.typ) {
			if _, ok := x.typ.Underlying().(*types.Pointer); ok {
				ts = append(ts, x)
			} else if isIface(x.typ) {
				ts = append(ts, x)
			}
		}
	}
	if len(ts) > 0 {
		st.havoc(ts, false)
	}
}

// summary gives the outcomes of a method: it succeeds or fails, with any number of tokens to be read again.
func (q *parserRoles) summary(a *Analysis, st *State, c *Call) []Out {
	q.havocTrees(st, c.Args)
	for _, x := range c.Args {
		// whether slices of what is given have elements is unknown
		if x != nil && x.typ != nil {
			if n, ok := derefOr(x.typ).(*types.Named); ok {
				for k := range q.rd {
					if strings.HasPrefix(k, n.Obj().Name()+".") && st.P["#ne:"+k] != nil {
						setG(st, "#ne:"+k, "?")
					}
				}
			}
		}
	}
	var outs []Out
	in, _ := q.num(st, "unscanned")
	if k := fmt.Sprintf("%p/%d", c.Fn, in); !q.need[k] {
		q.need[k] = true
		q.todo = append(q.todo, task{c.Fn, in})
	}
	for un := int64(0); un < q.ring; un++ {
		n := st.clone()
		if !q.arrange(n, un) {
			continue
		}
		if !q.inside(n, un) {
			continue
		}
		outs = append(outs, q.results(n, c)...)
	}
	catches := false
	for _, f := range st.frames {
		if len(f.defers) > 0 {
			catches = true
		}
	}
	for un := int64(0); un < q.ring && catches; un++ {
		n := st.clone()
		if !q.arrange(n, un) {
			continue
		}
		if un > 0 && !q.noEnd(n, q.tokOf(n, q.cell(n, 0))) {
			continue
		}
		n.note(c.Pos(), "%s fails", c.Fn.Name())
		outs = append(outs, Out{St: n, Panic: q.failure(n)})
	}
	return outs
}

// scanned models the scanner giving a token.
func (q *parserRoles) scanned(a *Analysis, st *State, c *Call) []Out {
	last := h(st, 0)
	n := gstr(st, "#n")
	var outs []Out
	go1 := func(st *State, ended bool) {
		cell := q.freshCell()
		t := mkField(cell, q.sc.fields["Token"])
		ctx := c.Args[len(c.Args)-1]
		st.store(ctx, cell, q.ctxT)
		for k := q.ring - 1; k > 0; k-- {
			st.P[fmt.Sprintf("h%d", k)] = st.P[fmt.Sprintf("h%d", k-1)]
		}
		st.P["h0"] = t
		switch {
		case ended || gstr(st, "#n") == "0":
			setG(st, "#n", "1")
		default:
			setG(st, "#n", "2")
		}
		e := mkField(cell, q.sc.fields["Error"])
		bad := st.clone()
		if bad.assume(q.is(t, "Error"), true) && bad.assume(mkEq(e, mkNil(e.typ)), false) {
			outs = append(outs, Out{St: bad})
		}
		if st.assume(q.is(t, "Error"), false) {
			outs = append(outs, Out{St: st})
		}
	}
	if n == "0" || last == nil {
		go1(st, false)
		return outs
	}
	end := q.is(last, "EndOfStatement")
	if !st.isFalse(end) {
		e := st.clone()
		if e.assume(end, true) {
			if n == "2" && gstr(e, "#skip") == "" {
				q.viol(a, e, "R06", "past:"+shortFn(q.method(e)), "a token after the end of the statement is read")
			} else {
				q.r.OK("no token after the end of a statement is read for it")
				setG(e, "#skip", "")
				go1(e, true)
			}
		}
		if !st.assume(end, false) {
			return outs
		}
	}
	if gstr(st, "#skip") == "" {
		if b := st.clone(); n == "2" && b.assume(q.is(last, "EOF"), true) {
			q.viol(a, b, "R06", "past:"+shortFn(q.method(b)), "a token after the end of the input is read")
		}
		if n == "2" {
			st.assume(q.is(last, "EOF"), false)
		}
		if b := st.clone(); b.assume(q.is(last, "Error"), true) {
			q.viol(a, b, "R06", "ignored:"+shortFn(q.method(b)), "an error of the scanner is ignored")
		}
		st.assume(q.is(last, "Error"), false)
	}
	q.r.OK("no token after the end of a statement is read for it")
	go1(st, false)
	return outs
}

// method is the innermost function that is not about single tokens.
func (q *parserRoles) method(st *State) *ssa.Function {
	for i := len(st.frames) - 1; i >= 0; i-- {
		if f := st.frames[i].fn; f != nil && (q.summ[f] || i == 0) {
			return f
		}
	}
	return st.top().fn
}

// failure makes an error of a statement: not one of the run-time system.
func (q *parserRoles) failure(st *State) *Term {
	e := mkSym(errType, "failure")
	st.assume(mkEq(e, mkNil(errType)), false)
	B := types.Typ[types.Bool]
	st.assume(mkApp("impl:"+typeKey(errType), B, e), true)
	if q.rtErr != nil {
		st.assume(mkApp("impl:"+typeKey(q.rtErr), B, e), false)
	}
	return e
}

// asserted: the value was taken out of an interface.
func asserted(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Extract:
		_, ok := v.Tuple.(*ssa.TypeAssert)
		return ok && v.Index == 0
	case *ssa.TypeAssert:
		return !v.CommaOk
	}
	return false
}

// ranged: the index runs over the elements of the same slice.
func ranged(base, idx ssa.Value, at *ssa.BasicBlock) bool {
	inc, ok := idx.(*ssa.BinOp)
	if !ok || inc.Op != token.ADD {
		return false
	}
	if c := constOf(inc.Y); c == nil || !constant.Compare(c, token.EQL, constant.MakeInt64(1)) {
		return false
	}
	phi, ok := inc.X.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range phi.Edges {
		if e == idx {
			continue
		}
		if c := constOf(e); c == nil || constant.Compare(c, token.LSS, constant.MakeInt64(-1)) {
			return false
		}
	}
	return belowLen(base, idx, at)
}

// belowLen: the block is only reached when the index is less than the length of the slice.
func belowLen(base, idx ssa.Value, at *ssa.BasicBlock) bool {
	for b := at; b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil || len(d.Instrs) == 0 {
			return false
		}
		f, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d.Succs[0] != b || len(b.Preds) != 1 {
			continue
		}
		c, ok := f.Cond.(*ssa.BinOp)
		if !ok || c.Op != token.LSS || c.X != idx {
			continue
		}
		if l, ok := c.Y.(*ssa.Call); ok {
			if bi, ok := l.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && l.Call.Args[0] == base {
				return true
			}
		}
	}
	return false
}

func (q *parserRoles) hooks(root *ssa.Function) *Hooks {
	h := &Hooks{}
	h.Inline = func(fn *ssa.Function) bool {
		return q.inParser(fn) || fn.Parent() != nil && q.inParser(fn.Parent())
	}
	h.Call = func(a *Analysis, st *State, c *Call) ([]Out, bool) {
		if c.Fn == nil {
			if c.Method != nil && len(c.Args) > 0 && !c.Args[0].isNil() {
				x := c.Args[0]
				if st.eval(mkEq(x, mkNil(x.typ))).isFalse() {
					q.r.OK("methods are called on values that exist")
					if res, ok := stdModel(a, st, c); ok {
						return res, true
					}
					return []Out{{St: st, Ret: freshResult(c.Sig, c.Method.Name())}}, true
				}
			}
			return nil, false
		}
		switch {
		case q.rec[c.Fn]:
			q.havocTrees(st, c.Args)
			ret := freshResult(c.Sig, c.Fn.Name())
			ok := ret != nil && ret.op != "tuple"
			for _, x := range c.Args {
				if isIface(x.typ) && !st.nonNil(x) {
					ok = false
				}
			}
			if ok && q.mayBeNil(ret.typ) && !st.assume(mkEq(ret, mkNil(ret.typ)), false) {
				return nil, true
			}
			return []Out{{St: st, Ret: ret}}, true
		case q.summ[c.Fn] && q.canCall(a, st):
			if _, ok := q.ringOK(a, st, "call:"+c.Fn.Name()); !ok {
				return nil, true
			}
			q.r.OK("methods are called in a state they expect")
			for i, x := range c.Args {
				if i > 0 && q.mayBeNil(x.typ) && !st.nonNil(x) {
					q.viol(a, st, "R01", "nil:"+c.Fn.Name(), "nil is passed to %s as a part of the tree", c.Fn.Name())
				}
			}
			return q.summary(a, st, c), true
		case q.summ[c.Fn]:
			if gstr(st, "#skip") != "" {
				q.viol(a, st, "R06", "skip:"+shortFn(root), "a statement is parsed out of the rest of one that failed")
				return nil, true
			}
			// followed as part of its caller
			for _, f := range st.frames {
				if f.fn == c.Fn {
					q.viol(a, st, "R06", "past:"+shortFn(c.Fn), "%s is called after what may be the end of the statement", c.Fn.Name())
					return nil, true
				}
			}
			return nil, false
		}
		n := fnName(c.Fn)
		pkg := ""
		if c.Fn.Pkg != nil {
			pkg = c.Fn.Pkg.Pkg.Path()
		}
		if pkg == modulePath+"/parser/scanner" {
			recv := c.Fn.Signature.Recv()
			if recv != nil && types.Identical(derefOr(recv.Type()), q.sc.scT) {
				switch {
				case c.Fn == q.sc.scan:
					return q.scanned(a, st, c), true
				case c.Sig.Results().Len() > 0:
					q.handedOut(a, st, c)
				}
			}
			return []Out{{St: st, Ret: freshResult(c.Sig, c.Fn.Name())}}, true
		}
		if strings.HasPrefix(pkg, modulePath) && !q.inParser(c.Fn) {
			// of other packages
			ret := freshResult(c.Sig, c.Fn.Name())
			return []Out{{St: st, Ret: ret}}, true
		}
		if n == "fmt.Errorf" {
			return []Out{{St: st, Ret: q.failure(st)}}, true
		}
		return nil, false
	}
	h.FnRet = func(a *Analysis, st *State, fn *ssa.Function, res *Term) {
		q.pos(st)
	}
	h.Header = func(a *Analysis, st *State, b *ssa.BasicBlock) {
		// only the order of the tokens matters, not where they are
		if b == nil || q.in[b.Parent()] {
			return
		}
		for _, f := range st.frames {
			if f.fn == nil || q.in[f.fn] {
				return
			}
			for _, t := range f.env {
				if q.intoRing(st, t) {
					return
				}
			}
		}
		if cur, ok := q.num(st, "current"); ok && q.fieldOf(st, "cur") == st.eval(q.cellAddr(st, cur)) {
			q.turn(st, 0)
		}
	}
	h.LookupSplit = func(a *Analysis, st *State, m, k *Term, in *ssa.Lookup) ([]Out, bool) {
		mt, ok := in.X.Type().Underlying().(*types.Map)
		if !ok {
			return nil, false
		}
		no := st.clone()
		v := mkSym(mt.Elem(), "entry")
		var tab []tabEnt
		if g, _ := m.val.(*ssa.Global); g != nil && m.op == "app" && strings.HasPrefix(m.aux, "gval:") {
			if t, why := fixedTable(q.p, g); why == "" {
				tab = t
			}
		}
		if tab != nil && isInt(mt.Key()) {
			// which kinds of tokens have no entry, and the range of what is in the entries
			for _, n := range sortedKeysOf(q.sc.toks) {
				c, found := constant.MakeInt64(q.sc.toks[n]), false
				for _, e := range tab {
					if constant.Compare(e.key, token.EQL, c) {
						found = true
					}
				}
				if !found && !st.assume(mkEq(k, mkConst(c, k.typ)), false) {
					return []Out{{St: no, Ret: mkTuple(zeroOf(mt.Elem()), mkBool(false))}}, true
				}
			}
			if et, ok := mt.Elem().Underlying().(*types.Struct); ok {
				var fs []*Term
				for i := 0; i < et.NumFields(); i++ {
					ft := et.Field(i).Type()
					f := mkSym(ft, et.Field(i).Name())
					fs = append(fs, f)
					if lo, hi, ok := tableSpan(tab, i); ok && isInt(ft) {
						st.assume(mkLt(f, mkConst(constant.MakeInt64(lo), ft)), false)
						st.assume(mkLt(mkConst(constant.MakeInt64(hi), ft), f), false)
					}
				}
				v = mkStruct(mt.Elem(), fs...)
			}
		}
		return []Out{{St: no, Ret: mkTuple(zeroOf(mt.Elem()), mkBool(false))}, {St: st, Ret: mkTuple(v, mkBool(true))}}, true
	}
	h.Store = func(a *Analysis, st *State, addr, val *Term, in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		if q.opT != nil && types.Identical(s.Val.Type(), q.opT) && strings.Contains(fieldKey(s.Addr), ".") && q.want == "R01" {
			if lo, hi, ok := spanOf(st, val, 0); !ok || lo < q.opLo || hi > q.opHi {
				q.viol(a, st, "R01", "op:"+shortFn(s.Parent()), "what may be no operator is put into a tree: %s", val)
			} else {
				q.r.OK("operators in trees exist")
			}
		}
		if k := fieldKey(s.Addr); q.rd[k] {
			ne := st.eval(mkLt(mkInt(0), mkLen(val)))
			switch {
			case val.isNil() || ne.isFalse():
				setG(st, "#ne:"+k, "")
			case ne.isTrue():
				setG(st, "#ne:"+k, "yes")
			default:
				setG(st, "#ne:"+k, "?")
			}
		}
	}
	h.Load = func(a *Analysis, st *State, addr, val *Term, in ssa.Instruction) {
		u, ok := in.(*ssa.UnOp)
		if !ok {
			return
		}
		if q.opT != nil && types.Identical(u.Type(), q.opT) && strings.Contains(fieldKey(u.X), ".") {
			lo, hi := mkConst(constant.MakeInt64(q.opLo), q.opT), mkConst(constant.MakeInt64(q.opHi), q.opT)
			st.assume(mkLt(val, lo), false)
			st.assume(mkLt(hi, val), false)
		}
		if k := fieldKey(u.X); q.rd[k] && gstr(st, "#ne:"+k) == "yes" {
			st.assume(mkLt(mkInt(0), mkLen(val)), true)
			st.assume(mkEq(val, mkNil(val.typ)), false)
		}
	}
	bad := func(a *Analysis, st *State, rule, format string, args ...any) {
		q.viol(a, st, "R01", rule, format, args...)
	}
	if q.in[root] {
		bad = func(*Analysis, *State, string, string, ...any) {}
	}
	h.Deref = func(a *Analysis, st *State, ptr *Term, in ssa.Instruction) {
		if q.treeType(ptr.typ) {
			// pointers in interfaces are checked where they are put there
			for _, x := range in.Operands(nil) {
				if asserted(*x) {
					st.assume(mkEq(ptr, mkNil(ptr.typ)), false)
					return
				}
			}
		}
		bad(a, st, "nil:"+shortFn(in.Parent()), "something that may be nil is used: %s", ptr)
	}
	h.Index = func(a *Analysis, st *State, base, idx *Term, in ssa.Instruction) {
		if ia, ok := in.(*ssa.IndexAddr); ok {
			if ranged(ia.X, ia.Index, ia.Block()) {
				return
			}
			if u, ok := ia.X.(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); ok {
					if tab, why := fixedTable(q.p, g); why == "" {
						n := int64(0)
						for _, e := range tab {
							v, _ := constant.Int64Val(e.key)
							n = max(n, v+1)
						}
						if lo, hi, ok := spanOf(st, idx, 0); ok && lo >= 0 && hi < n {
							q.r.OK("indexes of tables exist")
							return
						}
					}
				}
			}
		}
		bad(a, st, "index:"+shortFn(in.Parent()), "an index may be out of range: %s", idx)
	}
	h.Assert = func(a *Analysis, st *State, x *Term, T types.Type, in *ssa.TypeAssert) {
		bad(a, st, "assert:"+shortFn(in.Parent()), "a type assertion may fail")
	}
	h.Arith = func(a *Analysis, st *State, in *ssa.BinOp, x, y *Term) {
		if (in.Op == token.QUO || in.Op == token.REM) && isInt(in.X.Type()) && !st.isFalse(mkEq(y, mkConst(constant.MakeInt64(0), y.typ))) {
			bad(a, st, "div:"+shortFn(in.Parent()), "a division by what may be zero")
		}
	}
	h.Instr = func(a *Analysis, st *State, in ssa.Instruction) bool {
		if q.want != "R01" {
			return true
		}
		switch in := in.(type) {
		case *ssa.Call:
			if c := in.Common(); c.IsInvoke() {
				if x := a.val(st, c.Value); !st.nonNil(x) {
					bad(a, st, "nil:"+shortFn(in.Parent()), "a method of something that may be nil is called: %s", x)
				}
			}
		case *ssa.Panic:
			v := a.val(st, in.X)
			if !(v.op == "iface" && types.Implements(v.dyn(), errType.Underlying().(*types.Interface))) && !st.isTrue(mkApp("impl:"+typeKey(errType), types.Typ[types.Bool], v)) {
				bad(a, st, "panic:"+shortFn(in.Parent()), "the parser panics with what is not an error of the statement")
			}
		case *ssa.MakeInterface:
			if _, ok := in.X.Type().Underlying().(*types.Pointer); ok && q.treeType(in.X.Type()) {
				if x := a.val(st, in.X); !st.nonNil(x) && !asserted(in.X) {
					bad(a, st, "nil:"+shortFn(in.Parent()), "a part of a tree may be nil: %s", x)
				} else {
					q.r.OK("parts of the tree are not nil")
				}
			}
		case *ssa.Return:
			q.treesReturned(a, st, in)
		}
		return true
	}
	return h
}

func (q *parserRoles) treesReturned(a *Analysis, st *State, in *ssa.Return) {
	fn := in.Parent()
	if !q.summ[fn] {
		return
	}
	flag := true
	for _, x := range in.Results {
		v := st.eval(a.val(st, x))
		if types.Identical(x.Type().Underlying(), types.Typ[types.Bool]) && v.isFalse() {
			flag = false
		}
	}
	for _, x := range in.Results {
		v := a.val(st, x)
		if q.mayBeNil(x.Type()) && flag && !st.nonNil(v) {
			q.viol(a, st, "R01", "result:"+shortFn(fn), "%s may return nil as a part of the tree", fn.Name())
			return
		}
	}
	q.r.OK("parts of the tree are not nil")
}

// handedOut: what follows the statement is given out to be read as something else.
func (q *parserRoles) handedOut(a *Analysis, st *State, c *Call) {
	un, _ := q.num(st, "unscanned")
	cur, _ := q.num(st, "current")
	last := h(st, 0)
	if gstr(st, "#n") != "0" && last != nil && un <= 1 {
		t := q.tokOf(st, q.cell(st, cur+un))
		if t == last && q.ends(st, last) {
			q.r.OK("what follows a statement is handed out at its end")
			return
		}
	}
	q.viol(a, st, "R06", "reader:"+shortFn(q.method(st)), "what follows in the input is handed out before the end of the statement was read")
}

// ends: the token is the end of a statement or of the input.
func (q *parserRoles) ends(st *State, t *Term) bool {
	for _, n := range []string{"EndOfStatement", "EOF"} {
		if st.isTrue(q.is(t, n)) {
			return true
		}
	}
	n := st.clone()
	return !n.assume(q.is(t, "EndOfStatement"), false) || !n.assume(q.is(t, "EOF"), false)
}

func (q *parserRoles) analysis(root *ssa.Function, h *Hooks) *Analysis {
	a := NewAnalysis(q.p, q.r, h, shortFn(root))
	a.Shared, a.Unroll = 1, 40
	a.Forget = func(st *State) {
		q.pos(st)
		// what is in lists of parts of trees does not matter
		ring := contentKey(fieldAddr(st.P["parser"], q.fi["ring"]))
		for k, v := range st.heap {
			if k.op != "content" || k == ring || v.op == "sym" {
				continue
			}
			et := elemType(k.args[0].typ)
			if et == nil && v.typ != nil {
				et = elemType(v.typ)
			}
			if et == nil {
				continue
			}
			if _, ok := et.Underlying().(*types.Basic); !ok {
				st.heap[k] = mkSym(v.typ, "elements")
			}
		}
	}
	for k := int64(0); k < q.ring; k++ {
		a.Wits = append(a.Wits, fmt.Sprintf("cell%d", k))
	}
	for k := int64(0); k < q.ring; k++ {
		k := k
		for _, n := range []string{"EndOfStatement", "Error", "EOF"} {
			n := n
			a.Keep = append(a.Keep, func(st *State) *Term {
				t := st.P[fmt.Sprintf("h%d", k)]
				if t == nil {
					return nil
				}
				return mkNot(q.is(t, n))
			})
		}
	}
	return a
}

// begin makes the state a method starts in.
func (q *parserRoles) begin() *State {
	st := newState()
	pt := types.NewPointer(q.pT)
	x := mkSym(pt, "parser")
	st.assume(mkEq(x, mkNil(pt)), false)
	st.P["parser"] = x
	for k := int64(0); k < q.ring; k++ {
		st.P[fmt.Sprintf("cell%d", k)] = mkInt(k)
	}
	return st
}

func (q *parserRoles) args(st *State, fn *ssa.Function) []*Term {
	var args []*Term
	for _, x := range fn.Params {
		if q.isParserPtr(x.Type()) {
			args = append(args, st.P["parser"])
			continue
		}
		v := mkSym(x.Type(), x.Name())
		if q.mayBeNil(x.Type()) {
			st.assume(mkEq(v, mkNil(v.typ)), false)
		}
		args = append(args, v)
	}
	return args
}

// methods follows the methods one by one, as they are called.
func (q *parserRoles) methods() {
	for len(q.todo) > 0 {
		fn, un := q.todo[0].fn, q.todo[0].un
		q.todo = q.todo[1:]
		q.r.Touch(fn)
		st := q.begin()
		if !q.arrange(st, un) || !q.inside(st, un) {
			continue
		}
		h := q.hooks(fn)
		h.Return = func(a *Analysis, st *State, res []*Term) {
			q.settled(a, st, shortFn(fn), false)
		}
		h.Panic = func(a *Analysis, st *State, v *Term) {
			q.settled(a, st, shortFn(fn), true)
		}
		a := q.analysis(fn, h)
		a.Start(st, fn, q.args(st, fn))
		q.run(a, fn, un)
	}
}

func (q *parserRoles) run(a *Analysis, fn *ssa.Function, un int64) {
	t0 := time.Now()
	if os.Getenv("R2DEBUG") != "" {
		fmt.Fprint(os.Stderr, fn.Name(), " ", un)
	}
	a.Run()
	if os.Getenv("R2DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "", a.steps, a.Paths, time.Since(t0).Round(time.Millisecond))
	}
}

// moves checks that what the functions moving in the ring do does not depend on where in it they are.
func (q *parserRoles) moves() {
	var fns []*ssa.Function
	for fn := range q.in {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	called, outside := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, fn := range q.p.Funcs("parser") {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var t *ssa.Function
				c, isCall := in.(ssa.CallInstruction)
				if isCall {
					t = c.Common().StaticCallee()
				}
				if t != nil && q.in[t] {
					called[t] = true
					if !q.in[fn] {
						outside[t] = true
					}
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && f != t {
						outside[f] = true
					}
				}
			}
		}
	}
	for _, fn := range fns {
		q.r.Touch(fn)
		if called[fn] && !outside[fn] && (fn.Object() == nil || !fn.Object().Exported()) {
			// a part of the others, followed with them
			continue
		}
		if len(fn.Params) != 1 || !q.isParserPtr(fn.Params[0].Type()) {
			if isInitFn(fn) || !q.takesParser(fn) {
				continue
			}
		}
		for un := int64(0); un <= q.ring; un++ {
			var first string
			for cur := int64(0); cur < q.ring; cur++ {
				st := q.begin()
				if !q.arrange(st, un) {
					continue
				}
				q.turn(st, cur)
				var does []string
				h := q.hooks(fn)
				h.Return = func(a *Analysis, st *State, res []*Term) {
					if q.hasRing(fn) {
						n, _ := q.ringOK(a, st, shortFn(fn))
						does = append(does, fmt.Sprint(n, st.eval(st.P["h0"]).id == st.P["start"].id))
					}
				}
				h.Panic = func(a *Analysis, st *State, v *Term) {
					does = append(does, "panic")
				}
				st.P["start"] = st.P["h0"]
				setG(st, "#n", "0")
				a := q.analysis(fn, h)
				a.Start(st, fn, q.args(st, fn))
				q.run(a, fn, un)
				sort.Strings(does)
				d := strings.Join(does, ";")
				if cur == 0 {
					first = d
				} else if d != first {
					q.r.Violate("turn:"+shortFn(fn), q.p.Fset.Position(fn.Pos()), nil, "what %s does depends on where the parser is in its ring of tokens", fn.Name())
					return
				}
				q.r.OK("moves do not depend on the position in the ring")
			}
		}
	}
}

func (q *parserRoles) intoRing(st *State, t *Term) bool {
	for t != nil && (t.op == "faddr" || t.op == "iaddr") {
		if t == fieldAddr(st.P["parser"], q.fi["ring"]) {
			return true
		}
		t = t.args[0]
	}
	return false
}

func (q *parserRoles) hasRing(fn *ssa.Function) bool {
	return q.takesParser(fn)
}

// turn makes the current token the one at another place of the ring.
func (q *parserRoles) turn(st *State, to int64) {
	cur, ok := q.num(st, "current")
	if !ok || cur == to {
		return
	}
	cells := make([]*Term, q.ring)
	for i := range cells {
		cells[(int64(i)-cur+to+q.ring)%q.ring] = q.cell(st, int64(i))
	}
	q.setRing(st, cells)
	q.setField(st, "current", mkConst(constant.MakeInt64(to), q.fts["current"]))
	q.setField(st, "cur", q.cellAddr(st, to))
}

// entry follows an exported method that parses, from every state a parser can be in between statements.
func (q *parserRoles) entry(fn *ssa.Function, stmts bool) {
	q.r.Touch(fn)
	type start struct {
		failed bool
		un     int64
	}
	starts := []start{{false, 0}}
	if stmts {
		for un := int64(0); un < q.ring; un++ {
			starts = append(starts, start{true, un})
		}
	}
	for _, s := range starts {
		st := q.begin()
		if !q.arrange(st, s.un) {
			continue
		}
		q.setField(st, "failed", mkBool(s.failed))
		last := h(st, 0)
		if s.failed {
			setG(st, "#skip", "yes")
			setG(st, "#n", "2")
			if s.un == 0 {
				st.assume(q.is(last, "EndOfStatement"), false)
			} else {
				q.noEnd(st, q.tokOf(st, q.cell(st, 0)))
			}
		} else {
			setG(st, "#n", "0")
		}
		hk := q.hooks(fn)
		hk.Return = func(a *Analysis, st *State, res []*Term) {
			if stmts {
				q.parsed(a, st, res)
			}
			if len(res) != 2 {
				return
			}
			v, e := st.eval(res[0]), st.eval(res[1])
			vn, en := st.eval(mkEq(v, mkNil(v.typ))), st.eval(mkEq(e, mkNil(e.typ)))
			if vn.isTrue() && en.isFalse() || vn.isFalse() && en.isTrue() {
				q.r.OK("either a tree or an error is returned")
			} else {
				q.viol(a, st, "R01", "either:"+shortFn(fn), "not exactly one of a tree and an error is returned")
			}
		}
		hk.Panic = func(a *Analysis, st *State, v *Term) {
			q.viol(a, st, "R01", "panic:"+shortFn(fn), "%s panics", fn.Name())
		}
		a := q.analysis(fn, hk)
		a.Start(st, fn, q.args(st, fn))
		q.run(a, fn, s.un)
	}
}

// parsed checks the state in which a statement is returned.
func (q *parserRoles) parsed(a *Analysis, st *State, res []*Term) {
	if len(res) != 2 {
		q.viol(a, st, "R06", "undecided:Parse", "Parse does not return a statement and an error")
		return
	}
	un, ok := q.ringOK(a, st, "Parse")
	if !ok {
		return
	}
	last := h(st, 0)
	skip := gstr(st, "#skip") != ""
	failed := q.fieldOf(st, "failed")
	e := st.eval(res[1])
	if st.isTrue(mkEq(e, mkNil(e.typ))) {
		switch {
		case skip:
			q.viol(a, st, "R06", "skip:Parse", "a statement is returned out of the rest of one that failed")
		case un != 0 || !q.ends(st, last):
			q.viol(a, st, "R06", "end:Parse", "a statement is returned before its end was read")
		case !failed.isFalse():
			q.viol(a, st, "R06", "failed:Parse", "after a statement was parsed, the next one is skipped")
		default:
			q.r.OK("after a statement the next one is parsed")
		}
		return
	}
	cur, _ := q.num(st, "current")
	for _, f := range []bool{true, false} {
		n := st.clone()
		if !n.assume(failed, f) {
			continue
		}
		if f {
			// the end of the statement must be still to come
			t := q.tokOf(n, q.cell(n, cur))
			if !skip && gstr(n, "#n") == "1" && un > 0 {
				// nothing was taken yet
				q.r.OK("after an error the rest of the statement is skipped")
				continue
			}
			if !n.isFalse(q.is(t, "EndOfStatement")) && un < q.ring {
				q.viol(a, n, "R06", "failed:Parse", "after an error at the end of a statement, the next statement is skipped too")
				continue
			}
			q.r.OK("after an error the rest of the statement is skipped")
			continue
		}
		if un != 0 || !q.ends(n, h(n, 0)) {
			q.viol(a, n, "R06", "rest:Parse", "after an error the rest of the statement is parsed as if it were another one")
			continue
		}
		q.r.OK("after an error the rest of the statement is skipped")
	}
}

func (q *parserRoles) explore() {
	q.moves()
	n := 0
	for _, name := range []string{"Parse", "ParseExpr"} {
		if fn := q.p.Method(types.NewPointer(q.pT), name); fn != nil {
			q.entry(fn, name == "Parse")
			n++
		}
	}
	q.methods()
	if n == 0 {
		q.r.Violate("anchor:Parse", posZero, nil, "Parser.Parse not found")
	}
	// the recursive functions on trees
	if q.want == "R01" {
		for _, fn := range q.p.Funcs("parser") {
			if !q.rec[fn] {
				continue
			}
			q.r.Touch(fn)
			st := q.begin()
			h := q.hooks(fn)
			h.Return = func(a *Analysis, st *State, res []*Term) {
				for _, x := range res {
					if q.mayBeNil(x.typ) && !st.nonNil(x) {
						q.viol(a, st, "R01", "result:"+shortFn(fn), "%s may return nil for something that is not", fn.Name())
					}
				}
			}
			a := q.analysis(fn, h)
			a.Start(st, fn, q.args(st, fn))
			a.Run()
		}
	}
}

func checkR06(p *Program, r *Report) {
	r.Rule = "every method of the parser is followed, from every state of its ring of tokens, under assumptions that are checked wherever it is called and wherever it ends: tokens are read once, in order and only put back when they were the last ones; nothing reads on after what may be the end of the statement; a statement is returned only when its end has just been read, and after an error the rest of the statement, and no more, is still to be skipped; what follows is handed out only at the end of the statement"
	q := findParser(p, r, "R06")
	if q == nil {
		return
	}
	q.explore()
	r.AtLeast("the tokens to be read again are the last scanned", 50)
	r.AtLeast("the end of the statement is left to be read", 30)
	r.AtLeast("no token after the end of a statement is read for it", 50)
	r.AtLeast("after a statement the next one is parsed", 1)
	r.AtLeast("after an error the rest of the statement is skipped", 2)
	r.AtLeast("what follows a statement is handed out at its end", 1)
}

func checkR01(p *Program, r *Report) {
	r.Rule = "every method of the parser is followed, from every state of its ring of tokens, under assumptions that are checked wherever it is called and wherever it ends: no use of nil, index, division or type assertion can fail, the parser gives up only with an error that Parse turns into its result, parts of trees are not nil, and exactly one of a tree and an error is returned"
	q := findParser(p, r, "R01")
	if q == nil {
		return
	}
	q.explore()
	r.AtLeast("parts of the tree are not nil", 30)
	r.AtLeast("either a tree or an error is returned", 3)
	r.AtLeast("methods are called in a state they expect", 30)
}

// tableSpan bounds a field of the entries of a table.
func tableSpan(tab []tabEnt, field int) (lo, hi int64, ok bool) {
	for n, e := range tab {
		if e.fields == nil || e.fields[field] == nil || e.fields[field].Kind() != constant.Int {
			return 0, 0, false
		}
		v, _ := constant.Int64Val(e.fields[field])
		if n == 0 || v < lo {
			lo = v
		}
		if n == 0 || v > hi {
			hi = v
		}
	}
	return lo, hi, len(tab) > 0
}

func sortedKeysOf(m map[string]int64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

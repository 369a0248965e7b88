package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["R02"] = checkR02
}

// kwRoles knows where the parser takes keywords.
type kwRoles struct {
	q     *parserRoles
	p     *Program
	r     *Report
	idT   types.Type
	ctxF  int                    // the field of the scanner's context with the identifier
	moves map[*ssa.Function]bool // functions which take tokens
	stops map[*ssa.Function]bool // functions which never return
	names map[int64]string
	used  map[*ssa.Function]bool
}

// noise are keywords SQL has for what happens without them too.
var noise = map[string]bool{"ASC": true, "RESTRICT": true, "COLUMN": true, "OUTER": true, "INNER": true}

// synonym: keywords SQL has for the same thing.
func synonym(x, y string) bool {
	s := map[string]bool{"ANY": true, "SOME": true}
	return s[x] && s[y]
}

const (
	kwSome   = 1 // the identifier is keyword k
	kwOther  = 2 // the identifier is none of those compared with
	kwAbsent = 3 // there was no keyword
	kwAny    = 4 // nothing is known
)

// kwWalk follows what a function does after a keyword was taken.
type kwWalk struct {
	k        *kwRoles
	site     ssa.Instruction
	mode     int
	val      int64
	consts   map[int64]bool // compared with
	next     []*ssa.Call    // calls taking tokens that come first
	eff      map[string]bool
	ins      map[interface{}]bool // instructions, and edges bringing constants
	syntax   map[string]bool      // effects that only take tokens
	data     bool                 // the keyword, or whether it is one, is used as a value
	nilRet   int                  // returns of nothing
	retOK    int                  // returns of something
	panics   int
	refused  int
	returnsK bool
	halt     map[*ssa.Call]bool // where to end
	frames   int
}

type kwFrame struct {
	w     *kwWalk
	fn    *ssa.Function
	up    *kwFrame
	args  []ssa.Value
	mark  map[ssa.Value]int // 1: the keyword, 2: perhaps
	bools map[ssa.Value]int // 1: true, 2: false, 3: perhaps
	edges map[[2]*ssa.BasicBlock]bool
	from  map[*ssa.BasicBlock]int // reached from this instruction on
	subs  map[*ssa.Call]*kwFrame
	chg   bool
	start *ssa.BasicBlock // where it starts, if not at the beginning
	top   bool
}

func (w *kwWalk) frame(fn *ssa.Function, up *kwFrame, args []ssa.Value) *kwFrame {
	w.frames++
	return &kwFrame{w: w, fn: fn, up: up, args: args, mark: map[ssa.Value]int{}, bools: map[ssa.Value]int{}, edges: map[[2]*ssa.BasicBlock]bool{}, from: map[*ssa.BasicBlock]int{}, subs: map[*ssa.Call]*kwFrame{}}
}

func (f *kwFrame) setMark(v ssa.Value, kw bool) {
	o, n := f.mark[v], 0
	switch {
	case kw && o == 0:
		n = 1
		if _, seen := f.mark[v]; seen {
			n = 2
		}
	case kw:
		n = o
	case o == 1:
		n = 2
	default:
		n = o
	}
	if x, seen := f.mark[v]; !seen || x != n {
		f.mark[v], f.chg = n, true
	}
}

func (f *kwFrame) setBool(v ssa.Value, b int) {
	o, seen := f.bools[v]
	if seen && o != b {
		b = 3
	}
	if !seen || o != b {
		f.bools[v], f.chg = b, true
	}
}

func (f *kwFrame) isKw(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Parameter:
		if f.mark[v] == 1 {
			return true
		}
		if f.up != nil {
			for i, p := range f.fn.Params {
				if p == x && i < len(f.args) {
					return f.up.isKw(f.args[i])
				}
			}
		}
		return false
	case *ssa.ChangeType:
		return f.isKw(x.X)
	case *ssa.Convert:
		return f.isKw(x.X)
	}
	return f.mark[v] == 1
}

// decide gives 1 for true, 2 for false and 3 for both.
func (f *kwFrame) decide(v ssa.Value) int {
	if c := constOf(v); c != nil && c.Kind() == constant.Bool {
		if constant.BoolVal(c) {
			return 1
		}
		return 2
	}
	if b, ok := f.bools[v]; ok {
		return b
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			if d := f.decide(x.X); d != 3 {
				return 3 - d
			}
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return 3
		}
		kv, cv := x.X, x.Y
		if !f.isKw(kv) {
			kv, cv = cv, kv
		}
		c := constOf(cv)
		if c == nil || !f.isKw(kv) || c.Kind() != constant.Int {
			return 3
		}
		n, _ := constant.Int64Val(c)
		f.w.consts[n] = true
		eq := 3
		switch f.w.mode {
		case kwSome:
			eq = 2
			if n == f.w.val {
				eq = 1
			}
		case kwOther:
			eq = 2
		}
		if eq != 3 && x.Op == token.NEQ {
			eq = 3 - eq
		}
		return eq
	case *ssa.Parameter:
		if f.up != nil {
			for i, p := range f.fn.Params {
				if p == x && i < len(f.args) {
					return f.up.decide(f.args[i])
				}
			}
		}
	}
	return 3
}

// run follows a function from an instruction on.
func (f *kwFrame) run(b *ssa.BasicBlock, idx int, live bool) {
	if idx > 0 || b.Index > 0 {
		f.start = b
	}
	for n := 0; n < 6; n++ {
		f.chg = false
		f.edges = map[[2]*ssa.BasicBlock]bool{}
		f.from = map[*ssa.BasicBlock]int{}
		f.pass(b, idx, live)
		if !f.chg {
			return
		}
	}
}

func (f *kwFrame) pass(b *ssa.BasicBlock, idx int, live bool) {
	k := f.w.k
	type item struct {
		b    *ssa.BasicBlock
		idx  int
		live bool
	}
	seen := map[string]bool{}
	todo := []item{{b, idx, live}}
	go1 := func(from, to *ssa.BasicBlock, live bool) {
		f.edges[[2]*ssa.BasicBlock{from, to}] = true
		for _, in := range to.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, p := range to.Preds {
				if p != from || f.start != nil && to.Dominates(f.start) {
					continue
				}
				if types.Identical(phi.Type(), k.idT) {
					f.setMark(phi, f.isKw(phi.Edges[i]))
				} else if types.Identical(phi.Type().Underlying(), types.Typ[types.Bool]) {
					f.setBool(phi, f.decide(phi.Edges[i]))
				}
			}
		}
		todo = append(todo, item{to, 0, live})
	}
	for len(todo) > 0 {
		it := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		key := fmt.Sprint(it.b.Index, it.idx, it.live)
		if seen[key] {
			continue
		}
		seen[key] = true
		if o, ok := f.from[it.b]; !ok || it.idx < o {
			f.from[it.b] = it.idx
		}
		live, ended := it.live, false
		for _, in := range it.b.Instrs[it.idx:] {
			if in == f.w.site {
				ended = true // again
				break
			}
			if c, ok := in.(*ssa.Call); ok && f.w.halt[c] {
				ended = true
				break
			}
			switch in := in.(type) {
			case *ssa.UnOp:
				if k.isIdent(in) {
					f.setMark(in, live)
				}
			case *ssa.Call:
				fn := in.Common().StaticCallee()
				if fn == nil {
					continue
				}
				if k.stops[fn] {
					ended = true
					break
				}
				arg := false
				for _, a := range in.Common().Args {
					arg = arg || types.Identical(a.Type(), k.idT) && f.isKw(a)
				}
				if k.q.inParser(fn) && len(fn.Blocks) > 0 && (arg || live && k.reads(fn)) && f.depth() < 4 && !k.variadic(fn) {
					s := f.subs[in]
					if s == nil {
						s = f.w.frame(fn, f, in.Common().Args)
						f.subs[in] = s
					}
					s.run(fn.Blocks[0], 0, live)
					f.chg = f.chg || s.chg
				} else if f.depth() == 0 && k.moves[fn] && live {
					f.w.next = append(f.w.next, in)
				}
				if k.moves[fn] {
					live = false
				}
			case *ssa.Panic, *ssa.Return:
				ended = true
			}
			if ended {
				break
			}
		}
		if ended {
			continue
		}
		if iff, ok := it.b.Instrs[len(it.b.Instrs)-1].(*ssa.If); ok {
			d := f.decide(iff.Cond)
			if d != 2 {
				go1(it.b, it.b.Succs[0], live)
			}
			if d != 1 {
				go1(it.b, it.b.Succs[1], live)
			}
			continue
		}
		for _, s := range it.b.Succs {
			go1(it.b, s, live)
		}
	}
}

func (f *kwFrame) depth() int {
	n := 0
	for u := f.up; u != nil; u = u.up {
		n++
	}
	return n
}

// effects collects what is done on the way.
func (f *kwFrame) effects() {
	w, k := f.w, f.w.k
	for b, idx := range f.from {
		for _, in := range b.Instrs[idx:] {
			if in == w.site {
				continue
			}
			if c, ok := in.(*ssa.Call); ok && w.halt[c] {
				break
			}
			stop := false
			switch in.(type) {
			case *ssa.Call, *ssa.Store, *ssa.MapUpdate, *ssa.Return:
				w.ins[in] = true
			}
			switch in := in.(type) {
			case *ssa.Phi:
				for i, e := range in.Edges {
					if c := constOf(e); c != nil && f.edges[[2]*ssa.BasicBlock{b.Preds[i], b}] {
						if d := f.desc(e, 0, nil); d != "nil" && !strings.HasSuffix(d, ":nothing") {
							w.ins[[2]interface{}{in, i}] = true
						}
					}
				}
			case *ssa.Call:
				fn := in.Common().StaticCallee()
				if fn != nil && k.stops[fn] {
					w.refused++
					w.eff["refused"] = true
					stop = true
					break
				}
				if s := f.subs[in]; s != nil {
					s.effects()
					continue
				}
				if fn == nil || !(fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modulePath)) || k.q.inParser(fn) && !k.moves[fn] && fn.Signature.Results().Len() > 0 {
					continue
				}
				d := f.desc(in, 0, nil)
				w.eff[d] = true
				w.syntax[d] = k.syntax(fn)
			case *ssa.Store:
				d := f.desc(in.Val, 0, nil)
				if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
					if _, ok := ia.X.(*ssa.Alloc); ok {
						continue
					}
				}
				w.eff["store "+f.desc(in.Addr, 0, nil)+" = "+d] = true
			case *ssa.MapUpdate:
				w.eff["store "+f.desc(in.Map, 0, nil)+"["+f.desc(in.Key, 0, nil)+"] = "+f.desc(in.Value, 0, nil)] = true
			case *ssa.Panic:
				w.panics++
				stop = true
			case *ssa.Return:
				var ds []string
				for _, x := range in.Results {
					if types.Identical(x.Type(), k.idT) && f.isKw(x) {
						w.returnsK = w.returnsK || f.up == nil
					}
					ds = append(ds, f.desc(x, 0, nil))
				}
				if f.up == nil || f.top {
					w.eff["return "+strings.Join(ds, ", ")] = true
					none := len(in.Results) > 0
					for _, d := range ds {
						if d != "nil" && d != "nil|nil" {
							none = false
						}
					}
					if none {
						w.nilRet++
					} else {
						w.retOK++
					}
				}
				stop = true
			}
			if stop {
				break
			}
		}
	}
}

// desc says what a value is.
func (f *kwFrame) desc(v ssa.Value, depth int, busy map[ssa.Value]bool) string {
	if v == nil {
		return "-"
	}
	if depth > 7 || busy[v] {
		return "…"
	}
	nb := map[ssa.Value]bool{v: true}
	for x := range busy {
		nb[x] = true
	}
	d := func(x ssa.Value) string { return f.desc(x, depth+1, nb) }
	if types.Identical(v.Type(), f.w.k.idT) && f.isKw(v) {
		f.w.data = true
		switch f.w.mode {
		case kwSome:
			return "kw:" + f.w.k.names[f.w.val]
		default:
			return "kw"
		}
	}
	if types.Identical(v.Type().Underlying(), types.Typ[types.Bool]) {
		switch f.decide(v) {
		case 1:
			_, c := v.(*ssa.Const)
			f.w.data = f.w.data || !c
			return "true"
		case 2:
			_, c := v.(*ssa.Const)
			f.w.data = f.w.data || !c
			return "false"
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "nil"
		}
		if n, ok := x.Type().(*types.Named); ok && x.Value.Kind() == constant.Int && n.Obj().Pkg() != nil {
			return n.Obj().Name() + ":" + f.w.k.declared(n, x.Value)
		}
		return x.Value.ExactString()
	case *ssa.Parameter:
		for i, p := range f.fn.Params {
			if p != x {
				continue
			}
			if f.up != nil && i < len(f.args) {
				return f.up.desc(f.args[i], depth+1, nb)
			}
			return fmt.Sprint("param", i)
		}
	case *ssa.Call:
		if s := f.subs[x]; s != nil {
			var out []string
			for b := range s.from {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					var ds []string
					for _, y := range r.Results {
						ds = append(ds, s.desc(y, depth+1, nb))
					}
					out = append(out, strings.Join(ds, ","))
				}
			}
			return joinSet(out)
		}
		name := "?"
		if fn := x.Common().StaticCallee(); fn != nil {
			name = shortFn(fn)
		} else if b, ok := x.Common().Value.(*ssa.Builtin); ok {
			name = b.Name()
		} else if x.Common().IsInvoke() {
			name = x.Common().Method.Name()
		}
		var as []string
		for _, a := range x.Common().Args {
			if !f.w.k.q.isParserPtr(a.Type()) {
				as = append(as, d(a))
			}
		}
		return name + "(" + strings.Join(as, ", ") + ")"
	case *ssa.Phi:
		var out []string
		for i, e := range x.Edges {
			if f.edges[[2]*ssa.BasicBlock{x.Block().Preds[i], x.Block()}] {
				out = append(out, d(e))
			}
		}
		return joinSet(out)
	case *ssa.Alloc:
		s := "new " + derefType(x.Type()).String()
		var out []string
		for _, r := range *x.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == ssa.Value(x) && f.reached(r) {
					out = append(out, d(r.Val))
				}
			case *ssa.IndexAddr:
				for _, u := range *r.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(r) && f.reached(st) {
						out = append(out, d(r.Index)+":"+d(st.Val))
					}
				}
			case *ssa.FieldAddr:
				for _, u := range *r.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(r) && f.reached(st) {
						out = append(out, fmt.Sprint(r.Field, ":", d(st.Val)))
					}
				}
			}
		}
		sort.Strings(out)
		return s + "{" + strings.Join(out, ", ") + "}"
	case *ssa.FieldAddr:
		if al, ok := x.X.(*ssa.Alloc); ok {
			return derefType(al.Type()).String() + fmt.Sprint(".", x.Field)
		}
		return d(x.X) + fmt.Sprint(".", x.Field)
	case *ssa.Field:
		return d(x.X) + fmt.Sprint(".", x.Field)
	case *ssa.IndexAddr:
		return d(x.X) + "[" + d(x.Index) + "]"
	case *ssa.UnOp:
		return x.Op.String() + d(x.X)
	case *ssa.BinOp:
		return "(" + d(x.X) + x.Op.String() + d(x.Y) + ")"
	case *ssa.Extract:
		return d(x.Tuple) + fmt.Sprint("#", x.Index)
	case *ssa.MakeInterface:
		return d(x.X)
	case *ssa.ChangeInterface:
		return d(x.X)
	case *ssa.ChangeType:
		return d(x.X)
	case *ssa.Convert:
		return d(x.X)
	case *ssa.Slice:
		return d(x.X)
	case *ssa.Lookup:
		return d(x.X) + "[" + d(x.Index) + "]"
	case *ssa.TypeAssert:
		return d(x.X) + "." + x.AssertedType.String()
	case *ssa.Global:
		return x.Name()
	case *ssa.Function:
		return shortFn(x)
	}
	return fmt.Sprintf("%T", v)
}

func (f *kwFrame) reached(in ssa.Instruction) bool {
	idx, ok := f.from[in.Block()]
	if !ok {
		return false
	}
	for i, x := range in.Block().Instrs {
		if x == in {
			return i >= idx
		}
	}
	return false
}

func joinSet(xs []string) string {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	var out []string
	for x := range m {
		out = append(out, x)
	}
	sort.Strings(out)
	return strings.Join(out, "|")
}

// declared gives the name of a constant, or "nothing" if its type has names but not for it.
func (k *kwRoles) declared(n *types.Named, v constant.Value) string {
	sc := n.Obj().Pkg().Scope()
	any := false
	for _, s := range sc.Names() {
		if c, ok := sc.Lookup(s).(*types.Const); ok && types.Identical(c.Type(), n) {
			any = true
			if constant.Compare(c.Val(), token.EQL, v) {
				return s
			}
		}
	}
	if any && strings.HasSuffix(n.Obj().Pkg().Path(), "parser/sql") {
		return "nothing"
	}
	return v.ExactString()
}

// isIdent: the value is the identifier of the current token.
func (k *kwRoles) isIdent(v *ssa.UnOp) bool {
	if v.Op != token.MUL {
		return false
	}
	fa, ok := v.X.(*ssa.FieldAddr)
	return ok && fa.Field == k.ctxF && types.Identical(derefOr(fa.X.Type()), k.q.ctxT)
}

// reads: the function looks at the current identifier before it takes a token.
func (k *kwRoles) reads(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 || !k.q.takesParser(fn) || k.stops[fn] || !k.moves[fn] && fn.Signature.Results().Len() == 1 && isString(fn.Signature.Results().At(0).Type()) {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.UnOp:
				if k.isIdent(in) {
					return true
				}
			case *ssa.Call:
				if c := in.Common().StaticCallee(); c != nil && k.moves[c] {
					return false
				}
			}
		}
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(fn.Blocks[0])
}

// variadic: the function takes one of a list of keywords.
func (k *kwRoles) variadic(fn *ssa.Function) bool {
	s := fn.Signature
	if !k.q.takesParser(fn) || s.Params().Len() == 0 || s.Results().Len() == 0 {
		return false
	}
	sl, ok := s.Params().At(s.Params().Len() - 1).Type().(*types.Slice)
	return ok && types.Identical(sl.Elem(), k.idT)
}

// keywords lists the keywords passed.
func (k *kwRoles) keywords(c *ssa.Call) ([]int64, bool) {
	v := c.Common().Args[len(c.Common().Args)-1]
	var out []int64
	switch x := v.(type) {
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			return nil, false
		}
		at, ok := derefType(al.Type()).Underlying().(*types.Array)
		if !ok {
			return nil, false
		}
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, u := range *ia.Referrers() {
				if st, ok := u.(*ssa.Store); ok {
					n := constOf(st.Val)
					if n == nil {
						return nil, false
					}
					i, _ := constant.Int64Val(n)
					out = append(out, i)
				}
			}
		}
		return out, int64(len(out)) == at.Len()
	case *ssa.UnOp:
		g, ok := x.X.(*ssa.Global)
		if !ok {
			return nil, false
		}
		tab, why := fixedTable(k.p, g)
		if why != "" {
			return nil, false
		}
		for _, e := range tab {
			if e.val == nil {
				return nil, false
			}
			i, _ := constant.Int64Val(e.val)
			out = append(out, i)
		}
		return out, true
	}
	return nil, false
}

// follow gives what is done after a token was taken at a call.
func (k *kwRoles) follow(c *ssa.Call, mode int, val int64, halt map[*ssa.Call]bool) *kwWalk {
	w := &kwWalk{halt: halt, k: k, site: c, mode: mode, val: val, consts: map[int64]bool{}, eff: map[string]bool{}, ins: map[interface{}]bool{}, syntax: map[string]bool{}}
	fn := c.Parent()
	f := w.frame(fn, nil, nil)
	f.top = true
	fnc := c.Common().StaticCallee()
	given := func(v ssa.Value, t types.Type) {
		switch {
		case types.Identical(t, k.idT):
			if k.variadic(fnc) || k.current(fnc) {
				f.mark[v] = 1
			}
		case types.Identical(t, types.Typ[types.Bool]) && k.variadic(fnc):
			switch mode {
			case kwSome:
				f.bools[v] = 1
			case kwAbsent:
				f.bools[v] = 2
			}
		}
	}
	if t, ok := c.Type().(*types.Tuple); ok {
		for _, r := range *c.Referrers() {
			if e, ok := r.(*ssa.Extract); ok {
				given(e, t.At(e.Index).Type())
			}
		}
	} else {
		given(c, c.Type())
	}
	idx := 0
	for i, in := range c.Block().Instrs {
		if in == ssa.Instruction(c) {
			idx = i + 1
		}
	}
	f.run(c.Block(), idx, mode != kwAbsent)
	if mode == kwAny {
		return w
	}
	if mode == kwAbsent {
		w.next = nil
		f.next()
	}
	f.effects()
	// handed on to whoever called
	if w.returnsK && mode == kwSome {
		for _, g := range k.p.Funcs("parser") {
			for _, b := range g.Blocks {
				for i, in := range b.Instrs {
					uc, ok := in.(*ssa.Call)
					if !ok || uc.Common().StaticCallee() != fn || g == fn {
						continue
					}
					u := w.frame(g, nil, nil)
					u.top = true
					if types.Identical(uc.Type(), k.idT) {
						u.mark[uc] = 1
					}
					u.run(b, i+1, true)
					w.nilRet, w.retOK = 0, 0
					u.effects()
				}
			}
		}
	}
	return w
}

// next collects the calls which take a token first.
func (f *kwFrame) next() {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, idx int)
	walk = func(b *ssa.BasicBlock, idx int) {
		for _, in := range b.Instrs[idx:] {
			if c, ok := in.(*ssa.Call); ok && c.Common().StaticCallee() != nil && f.w.k.moves[c.Common().StaticCallee()] {
				if c != f.w.site {
					f.w.next = append(f.w.next, c)
				}
				return
			}
		}
		for _, s := range b.Succs {
			if !seen[s] && f.edges[[2]*ssa.BasicBlock{b, s}] {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	c := f.w.site.(*ssa.Call)
	for i, in := range c.Block().Instrs {
		if in == ssa.Instruction(c) {
			walk(c.Block(), i+1)
		}
	}
}

// current: the function returns the identifier of the token it took.
func (k *kwRoles) current(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if len(r.Results) != 1 {
				return false
			}
			u, ok := r.Results[0].(*ssa.UnOp)
			if !ok || !k.isIdent(u) {
				return false
			}
		}
	}
	return len(fn.Blocks) > 0
}

func without(x map[string]bool, y map[string]bool) map[string]bool {
	out := map[string]bool{}
	for s := range x {
		if !y[s] {
			out[s] = true
		}
	}
	return out
}

// syntax: the function takes tokens which have to be there, and nothing else comes of it.
func (k *kwRoles) syntax(fn *ssa.Function) bool {
	if !k.moves[fn] {
		return false
	}
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		if _, basic := t.(*types.Basic); !basic && !(types.Identical(t, k.idT) && k.variadic(fn)) {
			return false
		}
	}
	for i, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Pointer); ok && i > 0 {
			return false
		}
	}
	return true
}

func (w *kwWalk) outcome() map[string]bool {
	out := map[string]bool{}
	for s := range w.eff {
		if !w.syntax[s] {
			out[s] = true
		}
	}
	return out
}

func sameSet(x, y map[string]bool) bool {
	return len(x) == len(y) && len(without(x, y)) == 0
}

// ownIns: something is executed which isn't for every other keyword.
func ownIns(w *kwWalk, all []*kwWalk) bool {
	for in := range w.ins {
		for _, v := range all {
			if !v.ins[in] {
				return true
			}
		}
	}
	return false
}

func (k *kwRoles) site(c *ssa.Call) (ks []int64, ws []*kwWalk, absent *kwWalk) {
	fnc, fn := c.Common().StaticCallee(), c.Parent()
	pos := k.p.Fset.Position(c.Pos())
	at := shortFn(fn)
	optional, declared := false, k.variadic(fnc)
	if declared {
		var ok bool
		ks, ok = k.keywords(c)
		if !ok {
			return nil, nil, nil
		}
		res := fnc.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if types.Identical(res.At(i).Type(), types.Typ[types.Bool]) {
				optional = true
			}
		}
	} else {
		w := k.follow(c, kwAny, 0, nil)
		for n := range w.consts {
			ks = append(ks, n)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		optional = true
	}
	if declared {
		in := map[int64]bool{}
		for _, n := range ks {
			in[n] = true
		}
		cs := k.follow(c, kwAny, 0, nil).consts
		for n := range k.names {
			if cs[n] && !in[n] {
				k.r.Violate("unreachable:"+at+":"+k.names[n], pos, nil, "%s: what follows %s is never reached, because %s isn't accepted", at, k.names[n], k.names[n])
			}
		}
	}
	if len(ks) == 0 || !optional && len(ks) == 1 {
		return nil, nil, nil
	}
	for _, n := range ks {
		ws = append(ws, k.follow(c, kwSome, n, nil))
	}
	all := append([]*kwWalk{}, ws...)
	if optional {
		m := kwAbsent
		if !declared {
			m = kwOther
		}
		absent = k.follow(c, m, 0, nil)
		all = append(all, absent)
	}
	if os.Getenv("KWDEBUG") == at {
		for i, w := range all {
			fmt.Println(at, i, pos, w.mode, w.val, w.retOK, w.nilRet, w.refused, w.panics)
			for s := range w.eff {
				fmt.Println("    ", s)
			}
		}
	}
	common := map[string]bool{}
	for s := range all[0].eff {
		in := true
		for _, w := range all[1:] {
			in = in && w.eff[s]
		}
		if in {
			common[s] = true
		}
	}
	for i, w := range ws {
		name := k.names[ks[i]]
		own := without(w.eff, common)
		bad := func(what string, args ...interface{}) {
			k.r.Violate("keyword:"+at+":"+name, pos, nil, "%s: after %s %s", at, name, fmt.Sprintf(what, args...))
		}
		switch {
		case noise[name]:
		case absent != nil && sameSet(w.eff, absent.eff):
			bad("the parser goes on as if it weren't there")
			continue
		case absent != nil && declared && (sameSet(w.outcome(), absent.outcome()) || len(w.outcome()) == 0 && w.panics == 0):
			bad("nothing comes of it but that tokens are taken")
			continue
		case absent == nil && (len(own) == 0 || !w.data && !ownIns(w, ws)):
			bad("the parser does nothing which it doesn't do for any other keyword")
			continue
		}
		if w.panics > 0 && w.retOK+w.nilRet+w.refused == 0 {
			bad("no path gets any further than a panic")
			continue
		}
		if declared && w.nilRet > 0 && w.retOK == 0 {
			bad("nothing is returned")
			continue
		}
		none := false
		for s := range own {
			if i := strings.Index(s, ":nothing"); i >= 0 && !strings.HasPrefix(s[i+8:], "|") && !strings.Contains(s[:i], "|") {
				none = true
			}
		}
		if none {
			bad("a choice with no name is stored")
			continue
		}
		same := ""
		for j := range ws[:i] {
			o := k.names[ks[j]]
			if sameSet(ws[j].eff, w.eff) && !synonym(o, name) && !(noise[name] || noise[o]) {
				same = o
			}
		}
		if same != "" {
			bad("the parser does the same as after %s", same)
			continue
		}
		k.r.OK("an accepted keyword leads to parsing of its own")
	}
	return
}

func checkR02(p *Program, r *Report) {
	r.Rule = "for every place where the parser takes a keyword, and each keyword it takes or compares there, the control flow under that keyword is followed (through helpers looking at the same token) and what is done under it — tokens taken, functions called, fields and results set to which constants — is compared: a keyword does something that is not done without it or for every other keyword, two keywords never lead to the same unless SQL makes them synonyms, none leads only to a panic, to returning nothing or to an unnamed choice; what was parsed is not thrown away"
	q := findParser(p, r, "R02")
	if q == nil {
		return
	}
	k := &kwRoles{q: q, p: p, r: r, names: map[int64]string{}, moves: map[*ssa.Function]bool{}, stops: map[*ssa.Function]bool{}}
	k.idT = p.TypeOf("types", "Identifier")
	st, _ := q.ctxT.Underlying().(*types.Struct)
	k.ctxF = -1
	if k.idT != nil && st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if types.Identical(st.Field(i).Type(), k.idT) {
				k.ctxF = i
			}
		}
	}
	if k.ctxF < 0 {
		r.Violate("anchor:Identifier", posZero, nil, "the identifier of a token was not found")
		return
	}
	sc := k.idT.(*types.Named).Obj().Pkg().Scope()
	for _, n := range sc.Names() {
		if c, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(c.Type(), k.idT) {
			v, _ := constant.Int64Val(c.Val())
			k.names[v] = n
		}
	}
	fns := p.Funcs("parser")
	// functions which take tokens
	for fn := range q.in {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && q.isParserPtr(fa.X.Type()) {
						k.moves[fn] = true
					}
				}
			}
		}
	}
	for chg := true; chg; {
		chg = false
		for _, fn := range fns {
			if k.moves[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(*ssa.Call); ok && c.Common().StaticCallee() != nil && k.moves[c.Common().StaticCallee()] {
						k.moves[fn], chg = true, true
					}
				}
			}
		}
	}
	for chg := true; chg; {
		chg = false
		for _, fn := range fns {
			if k.stops[fn] || len(fn.Blocks) == 0 || fn.Recover != nil {
				continue
			}
			// no return is reached
			seen := map[*ssa.BasicBlock]bool{}
			var walk func(b *ssa.BasicBlock) bool
			walk = func(b *ssa.BasicBlock) bool {
				if seen[b] {
					return false
				}
				seen[b] = true
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Return:
						return true
					case *ssa.Call:
						if c := in.Common().StaticCallee(); c != nil && k.stops[c] {
							return false
						}
					}
				}
				for _, s := range b.Succs {
					if walk(s) {
						return true
					}
				}
				return false
			}
			if !walk(fn.Blocks[0]) {
				k.stops[fn], chg = true, true
			}
		}
	}
	type alt struct {
		ks     []int64
		ws     []*kwWalk
		absent *kwWalk
	}
	sites := map[*ssa.Call]*alt{}
	var order []*ssa.Call
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Common().StaticCallee() == nil || !k.moves[c.Common().StaticCallee()] {
					continue
				}
				ks, ws, absent := k.site(c)
				if len(ks) > 0 {
					r.Touch(fn)
					sites[c] = &alt{ks, ws, absent}
					order = append(order, c)
				}
				// what was parsed is used
				used := c.Referrers() != nil && len(*c.Referrers()) > 0
				res := c.Common().StaticCallee().Signature.Results()
				value := false
				for i := 0; i < res.Len(); i++ {
					t := res.At(i).Type()
					n, _ := derefOr(t).(*types.Named)
					if n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg() != q.pT.Obj().Pkg() && (!types.Identical(t, k.idT) || !k.variadic(c.Common().StaticCallee())) {
						value = true
					}
				}
				if value && !used {
					if fluent(c) {
						continue
					}
					r.Violate("dropped:"+shortFn(fn), p.Fset.Position(c.Pos()), nil, "%s: what %s parsed is thrown away", shortFn(fn), shortFn(c.Common().StaticCallee()))
				} else if value {
					r.OK("what was parsed is used")
				}
			}
		}
	}
	// alternatives tried one after the other
	for _, c := range order {
		x := sites[c]
		if x.absent == nil || !k.variadic(c.Common().StaticCallee()) {
			continue
		}
		seen := map[*ssa.Call]bool{c: true}
		todo := append([]*ssa.Call{}, x.absent.next...)
		for len(todo) > 0 {
			d := todo[0]
			todo = todo[1:]
			y := sites[d]
			if seen[d] || y == nil || d.Parent() != c.Parent() || y.absent == nil || !k.variadic(d.Common().StaticCallee()) {
				continue
			}
			seen[d] = true
			todo = append(todo, y.absent.next...)
			for i, w := range x.ws {
				for j, v := range y.ws {
					m, n := k.names[x.ks[i]], k.names[y.ks[j]]
					if x.ks[i] == y.ks[j] || noise[m] || noise[n] || synonym(m, n) {
						continue
					}
					if sameSet(w.eff, v.eff) {
						at := shortFn(c.Parent())
						r.Violate("keyword:"+at+":"+n, p.Fset.Position(d.Pos()), nil, "%s: after %s the parser does the same as after %s", at, n, m)
					} else {
						r.OK("alternatives are told apart")
					}
				}
			}
		}
	}
	// in a loop, a keyword does something before the next one is looked for
	for _, c := range order {
		x := sites[c]
		if x.absent == nil || !k.variadic(c.Common().StaticCallee()) {
			continue
		}
		before := map[*ssa.Call]bool{}
		for _, d := range order {
			seen := map[*ssa.Call]bool{}
			var walk func(e *ssa.Call) bool
			walk = func(e *ssa.Call) bool {
				y := sites[e]
				if seen[e] || y == nil || y.absent == nil || e.Parent() != c.Parent() || !k.variadic(e.Common().StaticCallee()) {
					return false
				}
				seen[e] = true
				for _, n := range y.absent.next {
					if n == c || walk(n) {
						return true
					}
				}
				return false
			}
			if d != c && walk(d) {
				before[d] = true
			}
		}
		if len(before) == 0 {
			continue
		}
		for _, n := range x.ks {
			name, at := k.names[n], shortFn(c.Parent())
			if w := k.follow(c, kwSome, n, before); len(w.outcome()) == 0 && !noise[name] {
				r.Violate("keyword:"+at+":"+name, p.Fset.Position(c.Pos()), nil, "%s: after %s the parser does nothing before it looks for the next keyword", at, name)
			} else {
				r.OK("a keyword in a list does something")
			}
		}
	}
	r.AtLeast("an accepted keyword leads to parsing of its own", 60)
	r.AtLeast("alternatives are told apart", 5)
	r.AtLeast("what was parsed is used", 30)
}

// fluent: the call returns what it was given.
func fluent(c *ssa.Call) bool {
	fn := c.Common().StaticCallee()
	n := 0
	for _, b := range fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			n++
			if len(r.Results) != 1 {
				return false
			}
			if _, ok := r.Results[0].(*ssa.Parameter); !ok {
				return false
			}
		}
	}
	return n > 0
}

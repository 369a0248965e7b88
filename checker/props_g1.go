package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["G01"] = checkG01
	checks["G02"] = checkG02
	checks["G07"] = checkG07
}

// ---- events of the layers above storage

// upper knows the interfaces the engine and the evaluator work through.
type upper struct {
	p      *Program
	ifaces map[string]bool // "storage.Store" ...
	use    map[*ssa.Function]bool
	inl    map[*ssa.Function]bool
}

// inline follows the functions that lead to the interfaces, and small helpers; loops over
// plain data elsewhere are taken as unknown.
func (u *upper) inline(fn *ssa.Function) bool {
	if u.use == nil {
		u.use = map[*ssa.Function]bool{}
		u.inl = map[*ssa.Function]bool{}
		for _, pkg := range []string{"engine", "evaluate"} {
			for f := range u.uses(pkg) {
				u.use[f] = true
			}
		}
	}
	if r, ok := u.inl[fn]; ok {
		return r
	}
	r := false
	if u.p.IsRepo(fn) {
		loop, calls, fv := false, 0, false
		for _, b := range fn.Blocks {
			for _, s := range b.Succs {
				if s.Dominates(b) {
					loop = true
				}
			}
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					calls++
					if cc := c.Common(); !cc.IsInvoke() && cc.StaticCallee() == nil {
						if _, ok := cc.Value.(*ssa.Builtin); !ok {
							fv = true
						}
					}
				}
			}
		}
		up := false
		for f := fn; f != nil; f = f.Parent() {
			if f.Pkg != nil && (f.Pkg == u.p.SSA[modulePath+"/engine"] || f.Pkg == u.p.SSA[modulePath+"/evaluate"]) {
				up = true
			}
		}
		r = u.use[fn] || fv || !loop && (up || calls == 0)
	}
	u.inl[fn] = r
	return r
}

func findUpper(p *Program, r *Report) *upper {
	u := &upper{p: p, ifaces: map[string]bool{}}
	for pkg, ns := range map[string][]string{
		"storage": {"Store", "Transaction", "Table", "Rows", "RowRef"},
		"engine":  {"Engine", "Transaction", "Table"},
	} {
		for _, n := range ns {
			t, _ := p.TypeOf(pkg, n).(*types.Named)
			if t == nil {
				r.Violate("anchor:"+pkg+"."+n, posZero, nil, "interface %s.%s not found", pkg, n)
				return nil
			}
			if _, ok := t.Underlying().(*types.Interface); !ok {
				r.Violate("anchor:"+pkg+"."+n, posZero, nil, "%s.%s is not an interface", pkg, n)
				return nil
			}
			u.ifaces[pkg+"."+n] = true
		}
	}
	return u
}

// event names a call through one of the interfaces: "storage.Rows.Next"; "" for others.
func (u *upper) event(m *types.Func) string {
	if m == nil {
		return ""
	}
	n := relPkg(methName(m))
	i := strings.LastIndex(n, ".")
	if i < 0 || !u.ifaces[n[:i]] {
		return ""
	}
	return n
}

// uses reports the functions that can reach a call through the interfaces.
func (u *upper) uses(pkg string) map[*ssa.Function]bool {
	fns := u.p.Funcs(pkg)
	out := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, fn := range fns {
			if out[fn] {
				continue
			}
			hit := false
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if c.Common().IsInvoke() && u.event(c.Common().Method) != "" {
							hit = true
						}
					}
					for _, op := range in.Operands(nil) {
						if f, ok := (*op).(*ssa.Function); ok && out[f] {
							hit = true
						}
					}
					if mc, ok := in.(*ssa.MakeClosure); ok && out[mc.Fn.(*ssa.Function)] {
						hit = true
					}
				}
			}
			if hit {
				out[fn] = true
				changed = true
			}
		}
	}
	return out
}

// roots lists the operations of a package a user can call that reach the interfaces.
func (u *upper) roots(pkgs ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, pkg := range pkgs {
		uses := u.uses(pkg)
		for _, fn := range u.p.Funcs(pkg) {
			if uses[fn] && fn.Parent() == nil && fn.Object() != nil && fn.Object().Exported() {
				out = append(out, fn)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// handle makes a value of an interface type that is like no other.
func handle(t types.Type, hint string) *Term {
	pt := types.NewPointer(types.Typ[types.Int])
	return mkIface(pt, mkObj(pt, hint), t)
}

var eofTerm *Term

// eof is the value of io.EOF.
func (u *upper) eof() *Term {
	if eofTerm == nil {
		for _, sp := range u.p.Prog.AllPackages() {
			if sp.Pkg.Path() == "io" {
				if g, ok := sp.Members["EOF"].(*ssa.Global); ok {
					eofTerm = globalInit(intern("global", g.String(), g.Type(), g), errType)
				}
			}
		}
	}
	return eofTerm
}

// outcome is one way a call through the interfaces, or of a callback, can end.
type outcome struct {
	st   *State
	ret  *Term
	vals []*Term // results without the error
	err  *Term   // nil: none
	kind string  // "ok", "err", "eof"
}

// outcomes enumerates the ways such a call can end.
func (u *upper) outcomes(st *State, ev string, sig *types.Signature, eof bool) []*outcome {
	res := sig.Results()
	n := res.Len()
	hasErr := n > 0 && isErrorType(res.At(n-1).Type())
	short := ev[strings.LastIndex(ev, ".")+1:]
	kinds := []string{"ok"}
	if hasErr {
		kinds = append(kinds, "err")
		if eof {
			kinds = append(kinds, "eof")
		}
	}
	var out []*outcome
	for i, k := range kinds {
		o := &outcome{st: st, kind: k}
		if i < len(kinds)-1 {
			o.st = st.clone()
		}
		var all []*Term
		for j := 0; j < n; j++ {
			t := res.At(j).Type()
			if hasErr && j == n-1 {
				switch k {
				case "ok":
					o.err = mkNil(t)
				case "err":
					o.err = mkError(short + " failed")
				case "eof":
					o.err = u.eof()
				}
				all = append(all, o.err)
				continue
			}
			var v *Term
			switch {
			case k != "ok":
				v = zeroOfSafe(t)
				if v == nil {
					v = mkSym(t, short)
				}
			case isIface(t) && namedOf(t) != nil && u.ifaces[relPkg(namedOf(t).Obj().Pkg().Path())+"."+namedOf(t).Obj().Name()]:
				v = handle(t, short)
			default:
				v = mkSym(t, short)
			}
			o.vals = append(o.vals, v)
			all = append(all, v)
		}
		switch len(all) {
		case 0:
		case 1:
			o.ret = all[0]
		default:
			o.ret = mkTuple(all...)
		}
		out = append(out, o)
	}
	return out
}

func isErrorType(t types.Type) bool { return types.Identical(t, errType) }

// upHooks turns interface calls and callbacks into events.
type upHooks struct {
	Hooks
	// event is called after the outcome is known; before for the state before the call
	before func(a *Analysis, st *State, ev string, c *Call)
	event  func(a *Analysis, st *State, ev string, c *Call, o *outcome)
	extra  func(a *Analysis, st *State, c *Call) ([]Out, bool)
	panics bool // callbacks can panic
}

func (u *upper) hooks(h *upHooks) *Hooks {
	h.Hooks.Inline = u.inline
	h.Hooks.Call = func(a *Analysis, st *State, c *Call) ([]Out, bool) {
		if h.extra != nil {
			if o, ok := h.extra(a, st, c); ok {
				return o, true
			}
		}
		ev := ""
		if c.Fn == nil {
			ev = u.event(c.Method)
			if ev == "" && c.Value != nil && c.Method == nil {
				ev = "callback"
			}
		}
		if ev == "" {
			return nil, false
		}
		if h.before != nil {
			h.before(a, st, ev, c)
			if st.dead {
				return nil, true
			}
		}
		var outs []Out
		if ev == "callback" {
			if h.panics {
				p := st.clone()
				p.note(c.Pos(), "the callback panics")
				outs = append(outs, Out{St: p, Panic: mkSym(errType, "panic")})
			}
			st.havoc(c.Args, true)
		}
		for _, o := range u.outcomes(st, ev, c.Sig, ev == "storage.Rows.Next" || ev == "callback") {
			if o.err != nil {
				o.st.note(c.Pos(), "%s: %s", ev, o.kind)
			} else {
				o.st.note(c.Pos(), "%s", ev)
			}
			if h.event != nil {
				h.event(a, o.st, ev, c, o)
			}
			outs = append(outs, Out{St: o.st, Ret: o.ret})
		}
		return outs, true
	}
	return &h.Hooks
}

// run analyses an operation on unknown data.
func (u *upper) run(r *Report, fn *ssa.Function, h *Hooks, prep func(a *Analysis, st *State, args []*Term)) {
	name := shortFn(fn)
	a := NewAnalysis(u.p, r, h, name)
	st, args := plainEntry(fn)
	r.entries = append(r.entries, name)
	if prep != nil {
		prep(a, st, args)
	}
	a.Start(st, fn, args)
	a.Run()
	r.OK("operation analysed to completion")
}

// resultError is the error among the results (nil when the function has none).
func resultError(fn *ssa.Function, res []*Term) *Term {
	sig := fn.Signature.Results()
	if n := sig.Len(); n > 0 && isErrorType(sig.At(n-1).Type()) && len(res) == n {
		return res[n-1]
	}
	return nil
}

func gstr(st *State, k string) string {
	v := st.P[k]
	if v == nil || !v.isConst() || v.isNil() {
		return ""
	}
	return constant.StringVal(v.val.(constant.Value))
}

func setG(st *State, k, v string) {
	if v == "" {
		delete(st.P, k)
		return
	}
	st.P[k] = mkStr(v)
}

// failing tracks whether a step has failed: "#err" names the first failing call, "#probe" a
// failing look-up that is forgiven when the creation it guards is attempted.
func trackErrors(st *State, ev string, c *Call, o *outcome) {
	switch ev {
	case "engine.Transaction.CreateTable":
		if gstr(st, "#probe") != "" && len(c.Args) > 2 && st.P["probe"] == c.Args[2] {
			setG(st, "#probe", "")
			delete(st.P, "probe")
		}
	case "engine.Transaction.OpenTable":
		if o.kind == "err" && gstr(st, "#probe") == "" && len(c.Args) > 2 {
			setG(st, "#probe", ev)
			st.P["probe"] = c.Args[2]
			return
		}
	}
	if o.kind == "err" && gstr(st, "#err") == "" {
		setG(st, "#err", ev)
	}
}

func failedStep(st *State) string {
	if s := gstr(st, "#err"); s != "" {
		return s
	}
	return gstr(st, "#probe")
}

// ---- G07

func checkG07(p *Program, r *Report) {
	r.Rule = "error propagation: every operation of the engine and the evaluator is followed with every storage (or engine) call and callback failing in turn; once a call has failed, every return must carry an error that is certainly not nil (io.EOF from Rows.Next or a callback ends a scan and does not count; a failing OpenTable is forgiven when CreateTable of the same table is then attempted)"
	u := findUpper(p, r)
	if u == nil {
		return
	}
	for _, fn := range u.roots("engine", "evaluate") {
		fn := fn
		h := &upHooks{}
		h.event = func(a *Analysis, st *State, ev string, c *Call, o *outcome) {
			trackErrors(st, ev, c, o)
			if o.kind == "err" {
				r.OK("failing call followed")
			}
		}
		h.Return = func(a *Analysis, st *State, res []*Term) {
			f := failedStep(st)
			if f == "" {
				return
			}
			e := resultError(fn, res)
			if e == nil || !st.eval(mkEq(e, mkNil(errType))).isFalse() {
				a.Violate(st, "dropped:"+a.Entry+":"+f, "%s fails but no error is returned", f)
			} else {
				r.OK("error returned after a failing call")
			}
		}
		u.run(r, fn, u.hooks(h), nil)
	}
	r.AtLeast("operation analysed to completion", 22)
	r.AtLeast("failing call followed", 60)
	r.AtLeast("error returned after a failing call", 60)
}

// ---- G02

const cursorSlots = 4

func checkG02(p *Program, r *Report) {
	r.Rule = "cursor typestate: every operation of the engine and the evaluator is followed with every outcome of every storage call, and callbacks that succeed, fail, stop or panic; a cursor that Table.Rows returned is open until Rows.Close, is used only while open, and no exit, by return or by panic, is reached with one open"
	u := findUpper(p, r)
	if u == nil {
		return
	}
	for _, fn := range u.roots("engine", "evaluate") {
		h := &upHooks{panics: true}
		h.before = func(a *Analysis, st *State, ev string, c *Call) {
			if !strings.HasPrefix(ev, "storage.Rows.") {
				return
			}
			x := c.Args[0]
			ours := x.op == "iface" && x.args[0].op == "obj"
			for i := 0; i < cursorSlots; i++ {
				k := itoa(i)
				if st.P["cur"+k] == x && gstr(st, "#cur"+k) == "open" {
					if ev == "storage.Rows.Close" {
						setG(st, "#cur"+k, "")
						delete(st.P, "cur"+k)
						r.OK("cursor closed")
					} else {
						r.OK("open cursor used")
					}
					return
				}
			}
			if ours {
				a.Violate(st, "closed-use:"+a.Entry+":"+ev, "%s on a cursor that has been closed", ev)
			} else if st.nonNil(x) || x.isNil() || true {
				// a cursor of the caller
				for i := 0; i < cursorSlots; i++ {
					if gstr(st, "#cur"+itoa(i)) == "open" && !st.isFalse(mkEq(x, st.P["cur"+itoa(i)])) {
						a.Violate(st, "unknown-cursor:"+a.Entry+":"+ev, "%s on a cursor that cannot be told from an open one", ev)
					}
				}
			}
		}
		h.event = func(a *Analysis, st *State, ev string, c *Call, o *outcome) {
			if ev != "storage.Table.Rows" || o.kind != "ok" {
				return
			}
			for i := 0; i < cursorSlots; i++ {
				k := itoa(i)
				if gstr(st, "#cur"+k) == "" {
					setG(st, "#cur"+k, "open")
					st.P["cur"+k] = o.vals[0]
					r.OK("cursor opened")
					return
				}
			}
			a.Undecided(st, "more than %d cursors open", cursorSlots)
		}
		exit := func(a *Analysis, st *State, how string) {
			for i := 0; i < cursorSlots; i++ {
				if gstr(st, "#cur"+itoa(i)) == "open" {
					a.Violate(st, "left-open:"+a.Entry+":"+how, "a cursor is left open when the operation ends by %s", how)
					return
				}
			}
			r.OK("no cursor open at the end by " + how)
		}
		h.Return = func(a *Analysis, st *State, res []*Term) { exit(a, st, "return") }
		h.Panic = func(a *Analysis, st *State, v *Term) { exit(a, st, "panic") }
		u.run(r, fn, u.hooks(h), nil)
	}
	r.AtLeast("operation analysed to completion", 22)
	r.AtLeast("cursor opened", 12)
	r.AtLeast("cursor closed", 30)
	r.AtLeast("no cursor open at the end by return", 60)
	r.AtLeast("no cursor open at the end by panic", 5)
}

// ---- G01

func checkG01(p *Program, r *Report) {
	r.Rule = "transaction typestate: every operation of the engine and the evaluator is followed with every outcome of every call it makes; a transaction it begins is, unless handed to the caller or kept in the session, committed or rolled back exactly once before it returns; it is never committed after a step failed; success is returned only after a successful commit, and an error never after one. A transaction object passes Commit and Rollback on exactly once and refuses afterwards"
	u := findUpper(p, r)
	if u == nil {
		return
	}
	for _, fn := range u.roots("engine", "evaluate") {
		fn := fn
		h := &upHooks{}
		complete := func(a *Analysis, st *State, ev string) {
			if s := gstr(st, "#tx"); s == "committed" || s == "rolled back" {
				a.Violate(st, "again:"+a.Entry+":"+ev, "%s of a transaction that has been %s", ev, s)
			}
		}
		h.before = func(a *Analysis, st *State, ev string, c *Call) {
			switch ev {
			case "storage.Store.Begin", "engine.Engine.Begin":
				if gstr(st, "#tx") == "open" {
					a.Violate(st, "begin-twice:"+a.Entry, "a second transaction is begun while one is open")
				}
			case "storage.Transaction.Commit", "storage.Transaction.Rollback", "engine.Transaction.Commit", "engine.Transaction.Rollback":
				if c.Args[0] == st.P["tx"] {
					complete(a, st, ev)
					if f := failedStep(st); f != "" && strings.HasSuffix(ev, ".Commit") {
						a.Violate(st, "commit-failed-step:"+a.Entry+":"+f, "the transaction is committed although %s failed", f)
					}
				}
			}
		}
		h.event = func(a *Analysis, st *State, ev string, c *Call, o *outcome) {
			switch ev {
			case "storage.Store.Begin", "engine.Engine.Begin":
				st.P["tx"] = o.vals[0]
				setG(st, "#tx", "open")
				r.OK("transaction begun")
			case "storage.Transaction.Commit", "engine.Transaction.Commit":
				if c.Args[0] != st.P["tx"] {
					return
				}
				if o.kind == "ok" {
					setG(st, "#tx", "committed")
				} else {
					setG(st, "#tx", "commit failed")
				}
			case "storage.Transaction.Rollback", "engine.Transaction.Rollback":
				if c.Args[0] == st.P["tx"] {
					setG(st, "#tx", "rolled back")
				}
			default:
				trackErrors(st, ev, c, o)
			}
		}
		h.Return = func(a *Analysis, st *State, res []*Term) {
			s := gstr(st, "#tx")
			if s == "" {
				return
			}
			if s == "open" {
				if txKept(st, res) {
					r.OK("transaction handed on")
					return
				}
				a.Violate(st, "not-completed:"+a.Entry, "control returns with the transaction neither committed nor rolled back")
				return
			}
			e := resultError(fn, res)
			if e == nil {
				a.Violate(st, "no-result:"+a.Entry, "the outcome of the transaction is not reported")
				return
			}
			c := st.eval(mkEq(e, mkNil(errType)))
			switch {
			case s == "committed" && !c.isTrue():
				a.Violate(st, "error-after-commit:"+a.Entry, "an error is returned although the transaction was committed")
			case s != "committed" && !c.isFalse():
				a.Violate(st, "success-without-commit:"+a.Entry, "success is returned although the transaction was not committed (%s)", s)
			default:
				r.OK("completed according to the outcome returned")
			}
		}
		u.run(r, fn, u.hooks(h), nil)
	}
	u.txObjects(r)
	r.AtLeast("operation analysed to completion", 22)
	r.AtLeast("transaction begun", 6)
	r.AtLeast("completed according to the outcome returned", 15)
	r.AtLeast("transaction handed on", 2)
	r.AtLeast("passed on once", 4)
	r.AtLeast("refused after completion", 4)
}

// txKept reports whether the open transaction is reachable from the results or from memory
// the caller can see.
func txKept(st *State, res []*Term) bool {
	tx := st.P["tx"].args[0]
	var from []*Term
	for _, x := range res {
		if x != nil {
			from = append(from, x)
		}
	}
	if st.reach(from, true)[tx] {
		return true
	}
	for _, k := range sortedKeys(st.heap) {
		if root := rootOf(k); root.op == "sym" && contains(st.heap[k], tx) {
			return true
		}
	}
	return false
}

// txObjects checks the two-call histories of the engine's transaction type.
func (u *upper) txObjects(r *Report) {
	txI := u.p.TypeOf("engine", "Transaction")
	for _, T := range u.p.Impls("engine", txI) {
		n := namedOf(T)
		for _, first := range []string{"Commit", "Rollback"} {
			for _, second := range []string{"Commit", "Rollback"} {
				f1, f2 := u.p.Method(n, first), u.p.Method(n, second)
				if f1 == nil || f2 == nil {
					continue
				}
				u.twice(r, f1, f2)
			}
		}
	}
}

func (u *upper) twice(r *Report, f1, f2 *ssa.Function) {
	name := shortFn(f1) + "," + f2.Name()
	h := &upHooks{}
	phase := "#phase"
	h.before = func(a *Analysis, st *State, ev string, c *Call) {
		if ev != "storage.Transaction.Commit" && ev != "storage.Transaction.Rollback" {
			return
		}
		want := f1.Name()
		if gstr(st, phase) == "2" {
			a.Violate(st, "passed-again:"+name, "%s is passed to the storage although the transaction was already completed", f2.Name())
		} else if !strings.HasSuffix(ev, "."+want) {
			a.Violate(st, "passed-other:"+name, "%s is passed on as %s", want, ev)
		} else if gstr(st, "#n") != "" {
			a.Violate(st, "passed-twice:"+name, "%s is passed to the storage twice", want)
		} else {
			setG(st, "#n", "1")
		}
	}
	h.event = func(a *Analysis, st *State, ev string, c *Call, o *outcome) {
		if o.kind == "err" && gstr(st, phase) != "2" {
			setG(st, "#err", ev)
		}
	}
	var recv *Term
	next := func(a *Analysis, st *State) {
		st.frames = nil
		st.nframes += 1000
		setG(st, phase, "2")
		args := paramSyms(f2)
		args[0] = st.P["arg0"]
		a.Start(st, f2, args)
	}
	h.Return = func(a *Analysis, st *State, res []*Term) {
		if gstr(st, phase) == "2" {
			e := resultError(f2, res)
			if e == nil || !st.eval(mkEq(e, mkNil(errType))).isFalse() {
				a.Violate(st, "accepted-again:"+name, "%s of a completed transaction does not report an error", f2.Name())
			} else {
				r.OK("refused after completion")
			}
			return
		}
		e := resultError(f1, res)
		switch {
		case gstr(st, "#n") == "":
			if e == nil || !st.eval(mkEq(e, mkNil(errType))).isFalse() {
				a.Violate(st, "not-passed:"+name, "%s reports success without reaching the storage", f1.Name())
			}
			return
		case gstr(st, "#err") != "":
			if e == nil || !st.eval(mkEq(e, mkNil(errType))).isFalse() {
				a.Violate(st, "lost:"+name, "the storage's error is not returned by %s", f1.Name())
				return
			}
		default:
			if e == nil || !st.eval(mkEq(e, mkNil(errType))).isTrue() {
				a.Violate(st, "refused:"+name, "%s fails although the storage succeeded", f1.Name())
				return
			}
		}
		r.OK("passed on once")
		next(a, st)
	}
	a := NewAnalysis(u.p, r, u.hooks(h), name)
	st, args := plainEntry(f1)
	recv = args[0]
	st.P["arg0"] = recv
	r.entries = append(r.entries, name)
	a.Start(st, f1, args)
	a.Run()
}

package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["Q01"] = checkQ01
}

// session knows the evaluator's types.
type session struct {
	*upper
	r      *Report
	sesT   *types.Named // evaluate.Session
	stmtT  types.Type   // sql.Stmt
	txT    types.Type   // engine.Transaction
	fTx    int
	fEng   int
	kinds  []*types.Named // the statements, by name
	byName map[string]*types.Named
}

func findSession(p *Program, r *Report) *session {
	u := findUpper(p, r)
	if u == nil {
		return nil
	}
	s := &session{upper: u, r: r, fTx: -1, fEng: -1, byName: map[string]*types.Named{}}
	s.sesT, _ = p.TypeOf("evaluate", "Session").(*types.Named)
	s.stmtT = p.TypeOf("parser/sql", "Stmt")
	s.txT = p.TypeOf("engine", "Transaction")
	engT := p.TypeOf("engine", "Engine")
	if s.sesT == nil || s.stmtT == nil || s.txT == nil || engT == nil {
		r.Violate("anchor:Session", posZero, nil, "evaluate.Session, sql.Stmt or the engine's interfaces not found")
		return nil
	}
	st, ok := s.sesT.Underlying().(*types.Struct)
	if ok {
		for i := 0; i < st.NumFields(); i++ {
			switch {
			case types.Identical(st.Field(i).Type(), s.txT):
				s.fTx = i
			case types.Identical(st.Field(i).Type(), engT):
				s.fEng = i
			}
		}
	}
	iface, ok2 := s.stmtT.Underlying().(*types.Interface)
	if !ok || !ok2 || s.fTx < 0 || s.fEng < 0 {
		r.Violate("anchor:Session", posZero, nil, "evaluate.Session is not as expected: no engine or no transaction")
		return nil
	}
	sp := p.SSA[modulePath+"/parser/sql"]
	if sp == nil {
		r.Violate("anchor:sql", posZero, nil, "package sql not found")
		return nil
	}
	for _, m := range sp.Members {
		t, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		n, ok := t.Type().(*types.Named)
		if !ok || isIface(n) || !types.Implements(types.NewPointer(n), iface) {
			continue
		}
		s.kinds = append(s.kinds, n)
		s.byName[n.Obj().Name()] = n
	}
	sort.Slice(s.kinds, func(i, j int) bool { return s.kinds[i].Obj().Name() < s.kinds[j].Obj().Name() })
	if len(s.kinds) < 10 {
		r.Violate("anchor:Stmt", posZero, nil, "only %d kinds of statements found", len(s.kinds))
		return nil
	}
	return s
}

// stmt makes an unknown statement of a kind.
func (s *session) stmt(st *State, n *types.Named) (*Term, *Term) {
	pt := types.NewPointer(n)
	o := mkSym(pt, "stmt")
	st.assume(mkEq(o, mkNil(pt)), false)
	return mkIface(pt, o, s.stmtT), o
}

// isResolve reports whether a call resolves the names of a statement.
func (s *session) isResolve(c *Call) bool {
	if c.Fn != nil {
		return c.Fn.Name() == "Resolve" && c.Fn.Pkg == s.p.SSA[modulePath+"/parser/sql"]
	}
	return c.Method != nil && relPkg(methName(c.Method)) == "parser/sql.Stmt.Resolve"
}

// valueCall models the functions of package types: they know nothing of sessions.
func (s *session) valueCall(st *State, c *Call) ([]Out, bool) {
	if c.Fn != nil && c.Fn.Pkg != nil && c.Fn.Pkg == s.p.SSA[modulePath+"/types"] && !s.inline(c.Fn) {
		return []Out{{St: st, Ret: freshResult(c.Sig, c.Fn.Name())}}, true
	}
	return nil, false
}

// entries lists the operations of a session.
func (s *session) entries() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range s.p.Funcs("evaluate") {
		if fn.Parent() == nil && fn.Object() != nil && fn.Object().Exported() && fn.Signature.Recv() != nil {
			if n := namedOf(derefType(fn.Signature.Recv().Type())); n == s.sesT {
				out = append(out, fn)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func stmtParam(s *session, fn *ssa.Function) int {
	for i, p := range fn.Params {
		if types.Identical(p.Type(), s.stmtT) {
			return i
		}
	}
	return -1
}

func checkQ01(p *Program, r *Report) {
	r.Rule = "session typestate: every operation of a session is followed for every kind of statement, with a transaction open and with none, and every outcome of every call of the engine; a transaction is begun only when none is open, used only while open, completed at most once, and on every exit, by return or panic, the only transaction that may be open is the one the session holds; BEGIN, COMMIT and ROLLBACK do what they say or report an error; a statement of its own is committed exactly when it succeeds; databases are created and dropped only with no transaction open"
	s := findSession(p, r)
	if s == nil {
		return
	}
	seenEval := false
	for _, fn := range s.entries() {
		i := stmtParam(s, fn)
		kinds := []*types.Named{nil}
		if i >= 0 {
			kinds = s.kinds
			seenEval = true
		}
		for _, k := range kinds {
			for _, open := range []bool{false, true} {
				s.typestate(fn, i, k, open)
			}
		}
	}
	if !seenEval {
		r.Violate("anchor:Session.Evaluate", posZero, nil, "no operation of a session takes a statement")
	}
	s.newSession()
	r.AtLeast("transaction begun", 10)
	r.AtLeast("own transaction committed after success", 6)
	r.AtLeast("own transaction ended after failure", 6)
	r.AtLeast("exit checked", 60)
	r.AtLeast("protocol statement checked", 6)
}

func (s *session) typestate(fn *ssa.Function, stmtIdx int, kind *types.Named, open bool) {
	r := s.r
	kn := ""
	if kind != nil {
		kn = kind.Obj().Name()
	}
	name := shortFn(fn)
	where := name + ":" + kn
	var tx0 *Term
	isOpen := func(st *State, k string) bool {
		return st.P[k] != nil && gstr(st, "#"+k) == ""
	}
	anyOpen := func(st *State) bool { return isOpen(st, "tx0") || isOpen(st, "own") }
	h := &upHooks{}
	h.extra = func(a *Analysis, st *State, c *Call) ([]Out, bool) {
		if s.isResolve(c) {
			if gstr(st, "#used") != "" {
				a.Violate(st, "resolved-late:"+where, "names are resolved after the statement has been begun")
			}
			return []Out{{St: st}}, true
		}
		return s.valueCall(st, c)
	}
	h.before = func(a *Analysis, st *State, ev string, c *Call) {
		switch ev {
		case "engine.Engine.Begin":
			if anyOpen(st) {
				a.Violate(st, "second:"+where, "a transaction is begun while one is open")
				st.dead = true
			}
			return
		case "engine.Engine.CreateDatabase", "engine.Engine.DropDatabase":
			if anyOpen(st) {
				a.Violate(st, "database:"+where, "%s is called while a transaction is open", ev)
				st.dead = true
			}
			return
		}
		if len(ev) < 18 || ev[:18] != "engine.Transaction" {
			return
		}
		x := st.eval(c.Args[0])
		for _, k := range []string{"tx0", "own"} {
			if st.P[k] == x {
				if !isOpen(st, k) {
					a.Violate(st, "use-after:"+where, "%s is called on a transaction that is completed", ev)
					st.dead = true
				}
				return
			}
		}
		a.Violate(st, "unknown:"+where, "%s is called on a transaction that is not the session's", ev)
		st.dead = true
	}
	h.event = func(a *Analysis, st *State, ev string, c *Call, o *outcome) {
		setG(st, "#used", "yes")
		switch ev {
		case "engine.Engine.Begin":
			st.P["own"] = o.ret
			setG(st, "#own", "")
			r.OK("transaction begun")
		case "engine.Transaction.Commit", "engine.Transaction.Rollback":
			x := st.eval(c.Args[0])
			how := "commit"
			if ev == "engine.Transaction.Rollback" {
				how = "rollback"
			}
			for _, k := range []string{"tx0", "own"} {
				if st.P[k] == x {
					setG(st, "#"+k, how+":"+o.kind)
					if o.err != nil {
						st.P["err:"+k] = o.err
					}
				}
			}
		default:
			if o.kind == "err" {
				setG(st, "#failed", "yes")
			}
		}
	}
	exit := func(a *Analysis, st *State, panics bool) {
		fin := st.eval(st.load(fieldAddr(st.P["ses"], s.fTx), s.txT))
		r.OK("exit checked")
		held := ""
		for _, k := range []string{"tx0", "own"} {
			if st.P[k] != nil && st.P[k] == fin {
				held = k
			}
		}
		for _, k := range []string{"tx0", "own"} {
			if isOpen(st, k) && held != k {
				a.Violate(st, "leaked:"+where, "a transaction is left open that the session does not hold")
				return
			}
		}
		if held != "" && !isOpen(st, held) {
			a.Violate(st, "stale:"+where, "the session still holds a transaction that is completed")
			return
		}
		if held == "" && !fin.isNil() {
			a.Violate(st, "held:"+where, "the session holds an unknown transaction: %s", fin)
		}
	}
	h.Return = func(a *Analysis, st *State, res []*Term) {
		exit(a, st, false)
		if kind == nil {
			if held := gstr(st, "#tx0"); held != "" || st.P["own"] != nil {
				a.Violate(st, "protocol:"+where, "an operation that runs no statement begins or completes a transaction")
			}
			return
		}
		e := resultError(fn, res)
		fails, succeeds := false, false
		if e != nil {
			n := st.eval(mkEq(e, mkNil(errType)))
			fails, succeeds = n.isFalse(), n.isTrue()
		}
		used := gstr(st, "#used") != ""
		tx, own := gstr(st, "#tx0"), gstr(st, "#own")
		fin := st.eval(st.load(fieldAddr(st.P["ses"], s.fTx), s.txT))
		bad := ""
		switch kn {
		case "Begin":
			r.OK("protocol statement checked")
			switch {
			case open && (used || !fails || fin != st.P["tx0"]):
				bad = "BEGIN with a transaction open is not refused"
			case !open && (st.P["own"] == nil || fin != st.P["own"] || !succeeds):
				bad = "BEGIN does not leave a transaction open"
			}
		case "Commit", "Rollback":
			r.OK("protocol statement checked")
			want := "commit"
			if kn == "Rollback" {
				want = "rollback"
			}
			switch {
			case !open && (used || !fails):
				bad = want + " without a transaction is not refused"
			case open && (tx != want+":ok" && tx != want+":err" || st.P["own"] != nil || !fin.isNil()):
				bad = want + " does not complete the transaction"
			case open && (tx == want+":ok" && !succeeds || tx == want+":err" && !fails):
				bad = want + " does not report its outcome"
			}
		case "CreateDatabase", "DropDatabase":
			r.OK("protocol statement checked")
			if open && (used || !fails || fin != st.P["tx0"]) {
				bad = "a database is created or dropped inside a transaction"
			} else if st.P["own"] != nil {
				bad = "a database is created or dropped with a transaction of its own"
			}
		default:
			switch {
			case open && (tx != "" || st.P["own"] != nil):
				bad = "a statement completes or begins a transaction although one is open"
			case !open && st.P["own"] != nil && succeeds && own != "commit:ok":
				bad = "a statement succeeds but its transaction is not committed"
			case !open && st.P["own"] != nil && fails && own != "commit:err" && own != "rollback:ok" && own != "rollback:err":
				bad = "a statement fails but its transaction is not rolled back"
			case !open && st.P["own"] != nil && !fails && !succeeds:
				bad = "the outcome of a statement is not that of its transaction"
			case !open && gstr(st, "#failed") != "" && own == "commit:ok" && !forgiven(kn):
				bad = "a statement with a failed step is committed"
			case !open && st.P["own"] != nil && succeeds:
				r.OK("own transaction committed after success")
			case !open && st.P["own"] != nil:
				r.OK("own transaction ended after failure")
			}
		}
		if bad != "" {
			a.Violate(st, "protocol:"+where, "%s", bad)
		}
	}
	h.Panic = func(a *Analysis, st *State, v *Term) { exit(a, st, true) }
	s.run(r, fn, s.hooks(h), func(a *Analysis, st *State, args []*Term) {
		ses := args[0]
		st.P["ses"] = ses
		tx0 = mkNil(s.txT)
		if open {
			tx0 = handle(s.txT, "open")
			st.P["tx0"] = tx0
		}
		st.store(fieldAddr(ses, s.fTx), tx0, s.txT)
		if stmtIdx >= 0 {
			x, _ := s.stmt(st, kind)
			args[stmtIdx] = x
		}
	})
}

// forgiven names the statements that take a failing look-up for absence.
func forgiven(kind string) bool { return kind == "CreateTable" }

// newSession checks that sessions start without a transaction.
func (s *session) newSession() {
	r := s.r
	n := 0
	for _, fn := range s.p.Funcs("evaluate") {
		fn := fn
		if fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Recv() != nil {
			continue
		}
		res := fn.Signature.Results()
		if res.Len() == 0 || namedOf(derefType(res.At(0).Type())) != s.sesT {
			continue
		}
		n++
		h := &upHooks{}
		h.Return = func(a *Analysis, st *State, res []*Term) {
			o := st.eval(res[0])
			if o.isNil() {
				return
			}
			if fin := st.eval(st.load(fieldAddr(o, s.fTx), s.txT)); !fin.isNil() {
				a.Violate(st, "new:"+shortFn(fn), "a new session has a transaction")
			} else {
				r.OK("new session has no transaction")
			}
		}
		h.before = func(a *Analysis, st *State, ev string, c *Call) {
			if ev == "engine.Engine.Begin" {
				a.Violate(st, "new:"+shortFn(fn), "a new session begins a transaction")
			}
		}
		s.run(r, fn, s.hooks(h), nil)
	}
	r.AtLeast("new session has no transaction", 1)
}

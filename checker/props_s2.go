package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["S04"] = checkS04
}

func (s *storageRoles) treeTypeF() types.Type { return fieldTypeOf(s.storeT, s.stTree) }

// txCells loads the interesting cells of a transaction and gives their addresses.
func (s *storageRoles) txCells(st *State, tx *Term) (sto, tree, com, n *Term) {
	sto = st.load(fieldAddr(tx, s.txStore), fieldTypeOf(s.txT, s.txStore))
	tree = st.load(fieldAddr(tx, s.txTree), fieldTypeOf(s.txT, s.txTree))
	n = st.load(fieldAddr(tx, s.txN), fieldTypeOf(s.txT, s.txN))
	com = st.load(fieldAddr(sto, s.stTree), s.treeTypeF())
	return
}

// phase2 restarts the analysis on the state reached by an operation.
func (s *storageRoles) phase2(a *Analysis, st *State, h *Hooks, fn *ssa.Function, name string, args []*Term) {
	n := st.clone()
	n.frames = nil
	n.snaps = map[snapKey]*State{}
	n.panicV = nil
	b := NewAnalysis(a.P, a.R, h, name)
	b.Start(n, fn, args)
	b.Run()
}

// restArgs makes unknown arguments after the receiver.
func restArgs(recv *Term, fn *ssa.Function) []*Term {
	as := paramSyms(fn)
	as[0] = recv
	return as
}

func checkS02(p *Program, r *Report) {
	r.Rule = "typestate: every normal return of Commit with a nil error leaves the store's committed tree equal to the transaction's tree at entry, every other exit and every exit of Rollback leaves it as it was; from each state so reached, Commit and Rollback are analysed again and must return an error without writing the committed tree or touching the store's lock"
	r.Assume = []string{storageAssume}
	s := findStorage(p, r)
	if s == nil {
		return
	}
	commit, rollback := s.root(s.txT, "Commit"), s.root(s.txT, "Rollback")
	for _, m := range []struct {
		name string
		fn   *ssa.Function
	}{{"Commit", commit}, {"Rollback", rollback}} {
		st, args := s.entry(m.fn)
		tx := args[0]
		sto, tree, com, n := s.txCells(st, tx)
		st.P["tree0"], st.P["com0"], st.P["sto0"], st.P["n0"] = tree, com, sto, n
		isCommit := m.name == "Commit"
		h := &sHooks{}
		cur := func(st *State) *Term {
			return st.load(fieldAddr(st.P["sto0"], s.stTree), s.treeTypeF())
		}
		unchanged := func(a *Analysis, st *State, what string) {
			if !st.P["sto0"].isNil() && cur(st) != st.P["com0"] && !st.isTrue(mkEq(cur(st), st.P["com0"])) {
				a.Violate(st, "changed:"+m.name+":"+what, "the committed state changed although the operation ended with %s", what)
			} else {
				r.OK("committed state unchanged on " + what)
			}
		}
		h.Store = func(a *Analysis, st *State, addr, val *Term, in ssa.Instruction) {
			if isField(addr, s.storeT, s.stTree) && addr.args[0] != st.P["sto0"] {
				a.Violate(st, "other:"+m.name, "the committed tree of another store is written")
			}
		}
		h.tree = func(a *Analysis, st *State, c *Call, e *treeEvent) {
			if isMutator(e.op) {
				a.Violate(st, "mutate:"+m.name, "%s changes tree contents while completing a transaction", m.name)
			}
		}
		h.Panic = func(a *Analysis, st *State, v *Term) { unchanged(a, st, "panic") }
		h.Return = func(a *Analysis, st *State, res []*Term) {
			e := st.eval(mkEq(res[len(res)-1], mkNil(errType)))
			if !e.isTrue() {
				x := st.clone()
				if x.assume(e, false) {
					unchanged(a, x, "error")
				}
			}
			if e.isFalse() {
				return
			}
			if !st.assume(e, true) {
				return
			}
			if isCommit {
				if cur(st) != st.P["tree0"] && !st.isTrue(mkEq(cur(st), st.P["tree0"])) {
					a.Violate(st, "publish:Commit", "Commit succeeds but the committed tree (%s) is not the transaction's tree (%s)", cur(st), st.P["tree0"])
				} else {
					r.OK("commit publishes the working tree")
				}
			} else {
				unchanged(a, st, "success")
			}
			s.again(a, r, st, m.name, commit, rollback)
		}
		a := NewAnalysis(p, r, s.hooks(h), "transaction."+m.name)
		r.entries = append(r.entries, a.Entry)
		a.Start(st, m.fn, args)
		a.Run()
	}
	r.AtLeast("commit publishes the working tree", 1)
	r.AtLeast("committed state unchanged on success", 1)
	r.AtLeast("second completion refused", 4)
}

// again analyses completing a transaction that was completed already.
func (s *storageRoles) again(a *Analysis, r *Report, st *State, first string, commit, rollback *ssa.Function) {
	for _, m := range []struct {
		name string
		fn   *ssa.Function
	}{{"Commit", commit}, {"Rollback", rollback}} {
		name := m.name + " after " + first
		h := &sHooks{}
		h.Store = func(a *Analysis, st *State, addr, val *Term, in ssa.Instruction) {
			if isField(addr, s.storeT, s.stTree) {
				a.Violate(st, "again:"+name+":store", "%s writes the committed tree", name)
			}
		}
		h.lock = func(a *Analysis, st *State, mu *Term, op string, c *Call) {
			if isField(mu, s.storeT, s.stMutex) {
				a.Violate(st, "again:"+name+":lock", "%s calls %s on the store's lock", name, op)
			}
		}
		h.Deref = func(a *Analysis, st *State, ptr *Term, in ssa.Instruction) {
			if st.isTrue(mkEq(ptr, mkNil(ptr.typ))) {
				a.Violate(st, "again:"+name+":nil", "%s dereferences nil", name)
			}
		}
		h.Panic = func(a *Analysis, st *State, v *Term) {
			a.Violate(st, "again:"+name+":panic", "%s panics instead of returning an error", name)
		}
		h.Return = func(a *Analysis, st *State, res []*Term) {
			if !st.isFalse(mkEq(res[len(res)-1], mkNil(errType))) {
				a.Violate(st, "again:"+name+":ok", "%s can return without an error", name)
			} else {
				r.OK("second completion refused")
			}
		}
		s.phase2(a, st, s.hooks(h), m.fn, name, restArgs(st.P["arg0"], m.fn))
	}
}

func checkS03(p *Program, r *Report) {
	r.Rule = "lock typestate per store: Begin acquires the store's mutex exactly once before reading the committed tree and returns with it held, bound to that tree; Commit and Rollback release it exactly once when they succeed, with no access to the committed tree after the release, and never otherwise; no other operation touches it"
	r.Assume = []string{storageAssume, "sync.Mutex provides mutual exclusion"}
	s := findStorage(p, r)
	if s == nil {
		return
	}
	num := func(st *State, k string) int64 {
		if v, ok := st.P[k]; ok {
			n, _ := v.constInt()
			return n
		}
		return 0
	}
	s.runRoots(r, s.roots(), func(rt root) *Hooks {
		begin := rt.T == s.storeT && rt.name == "Begin"
		complete := rt.T == s.txT && (rt.name == "Commit" || rt.name == "Rollback")
		key := rt.T.Obj().Name() + "." + rt.name
		h := &sHooks{}
		h.lock = func(a *Analysis, st *State, mu *Term, op string, c *Call) {
			if !isField(mu, s.storeT, s.stMutex) {
				return
			}
			r.OK("lock operation")
			k := "#" + op
			st.P[k] = mkInt(num(st, k) + 1)
			switch {
			case begin && op == "Lock":
				if mu.args[0] != st.P["arg0"] {
					a.Violate(st, "lock:"+key, "Begin locks another store")
				}
			case complete && op == "Unlock":
				sto := st.load(fieldAddr(st.P["arg0"], s.txStore), fieldTypeOf(s.txT, s.txStore))
				if s0, ok := st.P["sto0"]; ok {
					sto = s0
				}
				if mu.args[0] != sto {
					a.Violate(st, "lock:"+key, "%s releases the lock of another store", key)
				}
			case begin || complete:
				a.Violate(st, "lock:"+key+":"+op, "%s calls %s on the store's lock", key, op)
			default:
				a.Violate(st, "lock:"+key+":"+op, "%s must not touch the store's lock but calls %s", key, op)
			}
		}
		access := func(a *Analysis, st *State, addr *Term, what string) {
			if !isField(addr, s.storeT, s.stTree) || isFresh(addr.args[0]) {
				return
			}
			r.OK("access to the committed tree under the lock")
			switch {
			case rt.T == s.storeT:
				if num(st, "#Lock") != 1 || num(st, "#Unlock") != 0 {
					a.Violate(st, "unlocked:"+key+":"+what, "%s %ss the committed tree without holding the lock", key, what)
				}
			case complete:
				if num(st, "#Unlock") != 0 {
					a.Violate(st, "unlocked:"+key+":"+what, "%s %ss the committed tree after releasing the lock", key, what)
				}
			}
		}
		h.Load = func(a *Analysis, st *State, addr, val *Term, in ssa.Instruction) { access(a, st, addr, "read") }
		h.Store = func(a *Analysis, st *State, addr, val *Term, in ssa.Instruction) { access(a, st, addr, "write") }
		h.Instr = func(a *Analysis, st *State, in ssa.Instruction) bool {
			if complete && st.P["sto0"] == nil {
				st.P["sto0"] = st.load(fieldAddr(st.P["arg0"], s.txStore), fieldTypeOf(s.txT, s.txStore))
			}
			return true
		}
		want := func(a *Analysis, st *State, lock, unlock int64, what string) {
			if num(st, "#Lock") != lock || num(st, "#Unlock") != unlock {
				a.Violate(st, "balance:"+key+":"+what, "%s ends with %s after %d Lock and %d Unlock calls (expected %d and %d)", key, what, num(st, "#Lock"), num(st, "#Unlock"), lock, unlock)
			} else {
				r.OK("lock balance on " + what)
			}
		}
		h.Panic = func(a *Analysis, st *State, v *Term) {
			if num(st, "#Lock") != num(st, "#Unlock") || complete {
				want(a, st, 0, 0, "panic")
			}
		}
		h.Return = func(a *Analysis, st *State, res []*Term) {
			if begin {
				want(a, st, 1, 0, "return")
				tx := res[0]
				if tx.op == "iface" {
					tx = tx.args[0]
				}
				if namedOf(derefType(tx.typ)) != s.txT {
					a.Violate(st, "begin:type", "Begin returns something other than a transaction of this store")
					return
				}
				sto, tree, com, _ := s.txCells(st, tx)
				if sto != st.P["arg0"] {
					a.Violate(st, "begin:store", "the new transaction does not refer to the store it was begun on")
				} else if tree != com {
					if ok, _ := s.privateTree(st, tree); !(ok && treeVer(st, tree) == treeVer(st, com)) {
						a.Violate(st, "begin:tree", "the new transaction does not start from the committed tree")
					}
				}
				if !isFresh(tx) {
					a.Violate(st, "begin:fresh", "Begin does not return a new transaction")
				}
				r.OK("begin binds store and tree")
				return
			}
			if !complete {
				want(a, st, 0, 0, "return")
				return
			}
			e := st.eval(mkEq(res[len(res)-1], mkNil(errType)))
			if !e.isTrue() {
				x := st.clone()
				if x.assume(e, false) {
					want(a, x, 0, 0, "error")
				}
			}
			if !e.isFalse() && st.assume(e, true) {
				want(a, st, 0, 1, "success")
			}
		}
		return s.hooks(h)
	})
	r.AtLeast("begin binds store and tree", 1)
	r.AtLeast("lock balance on success", 2)
	r.AtLeast("lock operation", 3)
}

// txOf finds the transaction a receiver belongs to, following single-pointer fields.
func (s *storageRoles) txOf(st *State, recv *Term) *Term {
	T := namedOf(derefType(recv.typ))
	if T == s.txT {
		return recv
	}
	for depth := 0; depth < 4; depth++ {
		T = namedOf(recv.typ)
		if T == nil {
			return nil
		}
		if T == s.txT {
			return recv
		}
		su, ok := T.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		var next *Term
		for i := 0; i < su.NumFields(); i++ {
			ft := su.Field(i).Type()
			n := namedOf(ft)
			if n == s.txT || n == s.tableT || n == s.rowsT {
				if _, isPtr := recv.typ.Underlying().(*types.Pointer); isPtr {
					next = st.load(fieldAddr(recv, i), ft)
				} else {
					next = mkField(recv, i)
				}
				break
			}
		}
		if next == nil {
			return nil
		}
		recv = next
	}
	return nil
}

func checkS04(p *Program, r *Report) {
	r.Rule = "counter and typestate: the cursor counter of the transaction changes by +1 exactly when Rows succeeds, by -1 exactly when Close succeeds, and never otherwise; Commit and Rollback take effect only where the counter is known to be zero; after Close, every use of that cursor panics or returns an error"
	r.Assume = []string{storageAssume}
	s := findStorage(p, r)
	if s == nil {
		return
	}
	for _, rt := range s.roots() {
		rt := rt
		key := rt.T.Obj().Name() + "." + rt.name
		complete := rt.T == s.txT && (rt.name == "Commit" || rt.name == "Rollback")
		st, args := s.entry(rt.fn)
		var tx *Term
		if len(args) > 0 && rt.T != s.storeT {
			tx = s.txOf(st, args[0])
		}
		if tx != nil {
			st.P["tx0"] = tx
			st.P["n0"] = st.load(fieldAddr(tx, s.txN), fieldTypeOf(s.txT, s.txN))
		} else if rt.T != s.storeT {
			r.Violate("anchor:tx:"+key, posZero, nil, "cannot find the transaction of %s", key)
			continue
		}
		h := &sHooks{}
		h.Store = func(a *Analysis, st *State, addr, val *Term, in ssa.Instruction) {
			if isField(addr, s.txT, s.txN) && addr.args[0] != st.P["tx0"] && !isFresh(addr.args[0]) {
				a.Violate(st, "counter:"+key, "the cursor counter of another transaction is changed")
			}
			if complete && isField(addr, s.storeT, s.stTree) {
				s.needZero(a, r, st, key, "writing the committed tree")
			}
		}
		h.lock = func(a *Analysis, st *State, mu *Term, op string, c *Call) {
			if complete && isField(mu, s.storeT, s.stMutex) {
				s.needZero(a, r, st, key, op)
			}
		}
		delta := func(st *State) *Term {
			if st.P["tx0"] == nil {
				return mkInt(0)
			}
			now := st.load(fieldAddr(st.P["tx0"], s.txN), fieldTypeOf(s.txT, s.txN))
			return st.eval(mkSub(now, st.P["n0"], types.Typ[types.Int]))
		}
		want := func(a *Analysis, st *State, n int64, what string) {
			d, ok := delta(st).constInt()
			if !ok || d != n {
				a.Violate(st, "delta:"+key+":"+what, "%s changes the cursor counter by %s on %s (expected %+d)", key, delta(st), what, n)
			} else {
				r.OK("counter change on " + what)
			}
		}
		h.Panic = func(a *Analysis, st *State, v *Term) { want(a, st, 0, "panic") }
		h.Return = func(a *Analysis, st *State, res []*Term) {
			if rt.T == s.storeT && rt.name == "Begin" && res[0].op == "iface" {
				n := st.load(fieldAddr(res[0].args[0], s.txN), fieldTypeOf(s.txT, s.txN))
				if c, ok := n.constInt(); !ok || c != 0 {
					a.Violate(st, "begin", "a new transaction does not start with zero open cursors (%s)", n)
				} else {
					r.OK("new transaction has no cursors")
				}
			}
			if complete {
				// a successful completion requires zero cursors at entry
				if !st.isFalse(mkEq(res[len(res)-1], mkNil(errType))) && !st.isTrue(mkEq(st.P["n0"], mkInt(0))) {
					a.Violate(st, "complete:"+key, "%s succeeds although cursors may be open", key)
				}
				return
			}
			n := int64(0)
			if rt.T == s.tableT && rt.name == "Rows" {
				n = 1
			} else if rt.T == s.rowsT && rt.name == "Close" {
				n = -1
			}
			if n == 0 {
				want(a, st, 0, "return")
				return
			}
			e := st.eval(mkEq(res[len(res)-1], mkNil(errType)))
			if !e.isTrue() {
				x := st.clone()
				if x.assume(e, false) {
					want(a, x, 0, "error")
				}
			}
			if e.isFalse() || !st.assume(e, true) {
				return
			}
			want(a, st, n, "success")
			var cur *Term
			if rt.name == "Close" {
				cur = st.P["arg0"]
			} else {
				cur = res[0]
				if cur.op == "iface" {
					cur = cur.args[0]
				}
				if namedOf(derefType(cur.typ)) != s.rowsT {
					a.Violate(st, "rows:type", "Rows returns something other than this backend's cursor")
					return
				}
				if s.txOf(st, cur) != st.P["tx0"] {
					a.Violate(st, "rows:tx", "the new cursor does not belong to the transaction it was opened in")
				}
				// the new cursor, closed at once, counts back and is then refused
				s.closeThen(a, r, st, cur)
				return
			}
			s.refused(a, r, st, cur)
		}
		a := NewAnalysis(p, r, s.hooks(h), key)
		r.entries = append(r.entries, key)
		a.Start(st, rt.fn, args)
		a.Run()
	}
	r.AtLeast("counter change on success", 2)
	r.AtLeast("completion effect with zero cursors", 3)
	r.AtLeast("use after close refused", 3)
}

func (s *storageRoles) needZero(a *Analysis, r *Report, st *State, key, what string) {
	if !st.isTrue(mkEq(st.P["n0"], mkInt(0))) {
		a.Violate(st, "complete:"+key, "%s takes effect (%s) although cursors may be open", key, what)
	} else {
		r.OK("completion effect with zero cursors")
	}
}

func (s *storageRoles) closeThen(a *Analysis, r *Report, st *State, cur *Term) {
	cl := s.root(s.rowsT, "Close")
	h := &sHooks{}
	st.P["cur"] = cur
	h.Return = func(a *Analysis, x *State, res []*Term) {
		if x.isFalse(mkEq(res[len(res)-1], mkNil(errType))) {
			a.Violate(x, "close:error", "closing a newly opened cursor fails")
			return
		}
		now := x.load(fieldAddr(x.P["tx0"], s.txN), fieldTypeOf(s.txT, s.txN))
		if now != x.P["n0"] {
			a.Violate(x, "close:balance", "opening and closing a cursor leaves the counter changed (%s)", now)
		} else {
			r.OK("open and close balance")
		}
		s.refused(a, r, x, x.P["cur"])
	}
	h.Panic = func(a *Analysis, x *State, v *Term) {
		a.Violate(x, "close:panic", "closing a newly opened cursor panics")
	}
	s.phase2(a, st, s.hooks(h), cl, "Close after Rows", restArgs(cur, cl))
}

// refused checks that a closed cursor refuses every use.
func (s *storageRoles) refused(a *Analysis, r *Report, st *State, cur *Term) {
	for _, m := range s.methods(s.rowsI, s.rowsT) {
		m := m
		h := &sHooks{}
		h.Panic = func(a *Analysis, x *State, v *Term) { r.OK("use after close refused") }
		h.Return = func(a *Analysis, x *State, res []*Term) {
			// io.EOF is not a refusal
			e := res[len(res)-1]
			if !x.isFalse(mkEq(e, mkNil(errType))) || isEOF(e) {
				a.Violate(x, "closed:"+m.name, "%s works on a closed cursor", m.name)
			} else {
				r.OK("use after close refused")
			}
		}
		s.phase2(a, st, s.hooks(h), m.fn, m.name+" after Close", restArgs(cur, m.fn))
	}
}

func isEOF(t *Term) bool {
	found := false
	walkTerm(t, map[*Term]bool{}, func(x *Term) {
		if x.op == "global" && x.aux == "errobj:io.EOF" {
			found = true
		}
	})
	return found
}

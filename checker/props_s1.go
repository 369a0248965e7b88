package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["S01"] = checkS01
	checks["S02"] = checkS02
	checks["S03"] = checkS03
}

// sHooks gives the common hooks of the storage checks.
type sHooks struct {
	Hooks
	tree  func(a *Analysis, st *State, c *Call, e *treeEvent)
	lock  func(a *Analysis, st *State, mu *Term, op string, c *Call)
	item  func(a *Analysis, st *State, it *Term) // an iterated item is handed to the callback
	extra func(a *Analysis, st *State, c *Call) ([]Out, bool)
}

func (s *storageRoles) hooks(h *sHooks) *Hooks {
	h.Hooks.Call = func(a *Analysis, st *State, c *Call) ([]Out, bool) {
		if h.extra != nil {
			if o, ok := h.extra(a, st, c); ok {
				return o, true
			}
		}
		if c.Fn != nil && len(c.Args) > 0 {
			switch n := c.Name(); n {
			case "sync.Mutex.Lock", "sync.Mutex.Unlock", "sync.Mutex.TryLock", "sync.RWMutex.Lock", "sync.RWMutex.Unlock",
				"sync.RWMutex.RLock", "sync.RWMutex.RUnlock":
				if h.lock != nil {
					h.lock(a, st, c.Args[0], n[len(n)-len(lastDot(n)):], c)
				}
				if n == "sync.Mutex.TryLock" {
					return nil, false
				}
				return []Out{{St: st}}, true
			}
		}
		if o, ok := s.btreeModel(a, st, c, func(e *treeEvent) {
			if h.tree != nil {
				h.tree(a, st, c, e)
			}
		}, h.item); ok {
			return o, true
		}
		return s.models(a, st, c)
	}
	return &h.Hooks
}

func lastDot(s string) string {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '.' {
			return s[i+1:]
		}
	}
	return s
}

// committedCells lists the known committed-tree cells of stores.
func (s *storageRoles) committedCells(st *State) []*Term {
	var out []*Term
	for _, k := range sortedKeys(st.heap) {
		if isField(k, s.storeT, s.stTree) {
			out = append(out, k)
		}
	}
	return out
}

// privateTree decides whether a tree cannot be the committed tree of any store.
func (s *storageRoles) privateTree(st *State, t *Term) (bool, string) {
	if t.op == "obj" {
		for _, k := range s.committedCells(st) {
			if st.heap[k] == t {
				return false, "the tree was stored in the committed state"
			}
		}
		return true, ""
	}
	// the working tree of a transaction, known to differ from its store's committed tree
	for _, k := range sortedKeys(st.heap) {
		if !isField(k, s.txT, s.txTree) || st.heap[k] != t {
			continue
		}
		tx := k.args[0]
		sto := st.load(fieldAddr(tx, s.txStore), fieldTypeOf(s.txT, s.txStore))
		com := st.load(fieldAddr(sto, s.stTree), fieldTypeOf(s.storeT, s.stTree))
		if st.isFalse(mkEq(com, t)) {
			return true, ""
		}
	}
	return false, "the tree may be the committed tree of the store"
}

func fieldTypeOf(n *types.Named, i int) types.Type {
	return n.Underlying().(*types.Struct).Field(i).Type()
}

// runRoots analyses every operation reachable through the storage interfaces.
func (s *storageRoles) runRoots(r *Report, roots []root, mk func(rt root) *Hooks) {
	for _, rt := range roots {
		name := rt.T.Obj().Name() + "." + rt.name
		a := NewAnalysis(s.p, r, mk(rt), name)
		st, args := s.entry(rt.fn)
		r.entries = append(r.entries, name)
		a.Start(st, rt.fn, args)
		a.Run()
		r.OK("operation analysed to completion")
		_ = a
	}
}

const storageAssume = "google/btree behaves as documented: Clone gives an independent tree; only ReplaceOrInsert, Delete*, Clear change a tree"

func checkS01(p *Program, r *Report) {
	r.Rule = "ownership: on every path of every storage operation, a tree that is changed must be a private clone, or the transaction's tree known to differ from the store's committed tree; the committed tree is written only by Commit or when the store is created; a transaction's tree is only ever nil, the committed tree or a private clone; rows are never changed in place"
	r.Assume = []string{storageAssume}
	s := findStorage(p, r)
	if s == nil {
		return
	}
	s.runRoots(r, s.roots(), func(rt root) *Hooks {
		h := &sHooks{}
		h.tree = func(a *Analysis, st *State, c *Call, e *treeEvent) {
			if !isMutator(e.op) {
				return
			}
			if ok, why := s.privateTree(st, e.tree); !ok {
				a.Violate(st, "mutate-shared:"+a.Entry+":"+e.op, "%s on a tree that is not private to the transaction (%s)", e.op, why)
			} else {
				r.OK("mutation of a private tree")
			}
		}
		h.Store = func(a *Analysis, st *State, addr, val *Term, in ssa.Instruction) {
			s.ownStore(a, r, st, rt, addr, val)
		}
		return s.hooks(h)
	})
	// constructors and package functions that create stores
	for _, fn := range p.Funcs(s.pkg) {
		if fn.Object() == nil || fn.Signature.Recv() != nil || !fn.Object().Exported() {
			continue
		}
		h := &sHooks{}
		h.Store = func(a *Analysis, st *State, addr, val *Term, in ssa.Instruction) {
			s.ownStore(a, r, st, root{name: fn.Name()}, addr, val)
		}
		h.tree = func(a *Analysis, st *State, c *Call, e *treeEvent) {
			if isMutator(e.op) {
				if ok, why := s.privateTree(st, e.tree); !ok && e.tree.op != "obj" {
					a.Violate(st, "mutate-shared:"+a.Entry+":"+e.op, "%s on a tree that is not private (%s)", e.op, why)
				}
			}
		}
		a := NewAnalysis(p, r, s.hooks(h), fn.Name())
		r.entries = append(r.entries, fn.Name())
		st, args := s.entry(fn)
		a.Start(st, fn, args)
		a.Run()
	}
	r.AtLeast("mutation of a private tree", 3)
}

// ownStore checks one memory write against the ownership rules.
func (s *storageRoles) ownStore(a *Analysis, r *Report, st *State, rt root, addr, val *Term) {
	if hasIaddr(addr) {
		b := rootOf(addr)
		if !isFresh(b) {
			a.Violate(st, "in-place:"+a.Entry, "a slice not created by this operation is changed in place (%s)", addr)
		} else if st.esc[b] {
			a.Violate(st, "in-place:"+a.Entry, "a slice is changed after it was handed out or stored (%s)", addr)
		} else {
			r.OK("element write to a private slice")
		}
		return
	}
	if addr.op != "faddr" {
		return
	}
	T := namedOf(derefType(addr.args[0].typ))
	switch {
	case T == s.storeT && addr.val.(int) == s.stTree:
		b := addr.args[0]
		if isFresh(b) && !st.esc[b] {
			r.OK("initial committed tree")
			return
		}
		if rt.T == s.txT && rt.name == "Commit" {
			r.OK("publication in Commit")
			return
		}
		if st.load(addr, fieldTypeOf(s.storeT, s.stTree)) == val {
			return
		}
		a.Violate(st, "publish:"+a.Entry, "the committed tree is replaced outside Commit")
	case T == s.txT && addr.val.(int) == s.txTree:
		switch {
		case val.isNil():
			r.OK("transaction tree cleared")
		case val.op == "obj":
			for _, k := range sortedKeys(st.heap) {
				if k != addr && isField(k, s.txT, s.txTree) && st.heap[k] == val {
					a.Violate(st, "share:"+a.Entry, "two transactions share one working tree")
					return
				}
			}
			if !st.esc[val] {
				r.OK("transaction tree is a private clone")
				return
			}
			if ok, why := s.privateTree(st, val); !ok {
				a.Violate(st, "share:"+a.Entry, "working tree is not private: %s", why)
				return
			}
			r.OK("transaction tree is a private clone")
		default:
			// must be a committed tree of a store, or keep its own value
			if st.heap[addr] == val {
				return
			}
			for _, k := range s.committedCells(st) {
				if st.heap[k] == val {
					r.OK("transaction tree starts as the committed tree")
					return
				}
			}
			a.Violate(st, "share:"+a.Entry, "the transaction's tree is set to a tree of unknown ownership (%s)", val)
		}
	}
}

package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// storageRoles names the parts of the storage backend by what they are.
type storageRoles struct {
	p                                *Program
	pkg                              string
	storeT                           *types.Named
	txT                              *types.Named
	tableT                           *types.Named
	rowsT                            *types.Named
	refT                             *types.Named
	itemT                            *types.Named
	storeI, txI, tableI, rowsI, refI types.Type

	stTree, stMutex      int // fields of the store
	txStore, txTree, txN int // fields of the transaction
	itRel, itKey, itRow  int
	rels                 map[string]*Term
	fixed                map[*ssa.Global][]int64
	cats                 map[string][2]*Term
	canonTid             *Term
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func isBTreePtr(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "github.com/google/btree" && strings.HasPrefix(n.Obj().Name(), "BTree")
}

func findStorage(p *Program, r *Report) *storageRoles {
	s := &storageRoles{p: p, pkg: "storage/basic"}
	get := func(name string) (types.Type, *types.Named) {
		t := p.TypeOf("storage", name)
		if t == nil {
			r.Violate("anchor:"+name, posZero, nil, "interface storage.%s not found", name)
			return nil, nil
		}
		im := p.Impls(s.pkg, t)
		if len(im) != 1 {
			r.Violate("anchor:"+name, posZero, nil, "expected one implementation of storage.%s in %s, found %d", name, s.pkg, len(im))
			return t, nil
		}
		return t, namedOf(im[0])
	}
	s.storeI, s.storeT = get("Store")
	s.txI, s.txT = get("Transaction")
	s.tableI, s.tableT = get("Table")
	s.rowsI, s.rowsT = get("Rows")
	s.refI, s.refT = get("RowRef")
	if s.storeT == nil || s.txT == nil || s.tableT == nil || s.rowsT == nil || s.refT == nil {
		return nil
	}
	s.stTree, s.stMutex, s.txStore, s.txTree, s.txN = -1, -1, -1, -1, -1
	one := func(what string, n *types.Named, pred func(t types.Type) bool) int {
		idx := -1
		st := n.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if pred(st.Field(i).Type()) {
				if idx >= 0 {
					r.Violate("anchor:"+what, posZero, nil, "more than one candidate field for %s in %s", what, n)
					return -2
				}
				idx = i
			}
		}
		if idx < 0 {
			r.Violate("anchor:"+what, posZero, nil, "no field for %s in %s", what, n)
		}
		return idx
	}
	s.stTree = one("committed tree", s.storeT, isBTreePtr)
	s.stMutex = one("store mutex", s.storeT, func(t types.Type) bool {
		n := namedOf(t)
		return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync"
	})
	s.txStore = one("store of transaction", s.txT, func(t types.Type) bool { return namedOf(t) == s.storeT })
	s.txTree = one("working tree", s.txT, isBTreePtr)
	s.txN = one("cursor counter", s.txT, isInt)
	// item type: element type of the tree
	tt := s.storeT.Underlying().(*types.Struct).Field(s.stTree).Type().(*types.Pointer).Elem().(*types.Named)
	if tt.TypeArgs().Len() == 1 {
		s.itemT = namedOf(tt.TypeArgs().At(0))
	}
	if s.itemT == nil {
		r.Violate("anchor:item", posZero, nil, "tree item type not found")
		return nil
	}
	rowT := p.TypeOf("types", "Row")
	s.itRow = one("item row", s.itemT, func(t types.Type) bool { return types.Identical(t, rowT) })
	s.itKey = one("item key", s.itemT, func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := sl.Elem().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	})
	s.itRel = one("item relation", s.itemT, isInt)
	for _, i := range []int{s.stTree, s.stMutex, s.txStore, s.txTree, s.txN, s.itRow, s.itKey, s.itRel} {
		if i < 0 {
			return nil
		}
	}
	return s
}

// fieldAddr makes the address of a field.
func fieldAddr(base *Term, i int) *Term {
	st := derefType(base.typ).Underlying().(*types.Struct)
	return mkFaddr(base, i, types.NewPointer(st.Field(i).Type()))
}

func isField(addr *Term, n *types.Named, i int) bool {
	return addr.op == "faddr" && addr.val.(int) == i && namedOf(derefType(addr.args[0].typ)) == n
}

// root is a method reachable through a storage interface.
type root struct {
	T    *types.Named
	name string
	fn   *ssa.Function
}

func (s *storageRoles) methods(iface types.Type, T *types.Named) []root {
	var out []root
	it := iface.Underlying().(*types.Interface)
	for i := 0; i < it.NumMethods(); i++ {
		n := it.Method(i).Name()
		if fn := s.p.Method(T, n); fn != nil {
			out = append(out, root{T, n, fn})
		}
	}
	return out
}

func (s *storageRoles) roots() []root {
	var out []root
	out = append(out, s.methods(s.storeI, s.storeT)...)
	out = append(out, s.methods(s.txI, s.txT)...)
	out = append(out, s.methods(s.tableI, s.tableT)...)
	out = append(out, s.methods(s.rowsI, s.rowsT)...)
	out = append(out, s.methods(s.refI, s.refT)...)
	return out
}

func (s *storageRoles) root(T *types.Named, name string) *ssa.Function {
	return s.p.Method(T, name)
}

// entry builds the initial state and arguments of a method call on unknown data.
func (s *storageRoles) entry(fn *ssa.Function) (*State, []*Term) {
	st := newState()
	args := paramSyms(fn)
	for i, x := range args {
		st.P[fmt.Sprintf("arg%d", i)] = x // keeps what is reachable from the arguments known
	}
	if len(args) > 0 && fn.Signature.Recv() != nil {
		if _, ok := args[0].typ.Underlying().(*types.Pointer); ok {
			st.assume(mkEq(args[0], mkNil(args[0].typ)), false)
		}
	}
	return st, args
}

// ---- B-tree model

func treeVerKey(t *Term) *Term { return intern("treever", "", nil, nil, t) }

func treeVer(st *State, t *Term) *Term {
	if v, ok := st.heap[treeVerKey(t)]; ok {
		return v
	}
	if st.isHavoced(rootOf(t)) {
		v := mkApp("tother", types.Typ[types.UnsafePointer], mkSym(types.Typ[types.UnsafePointer], "ver"))
		setTreeVer(st, t, v)
		return v
	}
	return mkApp("ver0", types.Typ[types.UnsafePointer], t)
}

func setTreeVer(st *State, t, v *Term) { st.heap[treeVerKey(t)] = v }

// treeHas is the fact "the tree version holds an item with this relation and key".
func treeHas(st *State, ver, rel, key *Term) *Term {
	for {
		if ver.isApp("tins") {
			if ver.args[1] == rel && ver.args[2] == key {
				return mkBool(true)
			}
			if st.isFalse(mkEq(ver.args[1], rel)) {
				ver = ver.args[0]
				continue
			}
			t := mkApp("treehas", types.Typ[types.Bool], ver.args[0], rel, key)
			if v, ok := st.bools[t]; ok && v {
				return mkBool(true)
			}
		}
		if ver.isApp("tdel") {
			if ver.args[1] == rel && ver.args[2] == key {
				return mkBool(false)
			}
			if st.isFalse(mkEq(ver.args[1], rel)) {
				ver = ver.args[0]
				continue
			}
			t := treeHas(st, ver.args[0], rel, key)
			if st.isFalse(t) {
				return mkBool(false)
			}
		}
		break
	}
	return mkApp("treehas", types.Typ[types.Bool], ver, rel, key)
}

type treeEvent struct {
	op            string
	tree          *Term
	item          *Term
	rel, key, row *Term
	rowSeq        *Term
	verBefore     *Term
}

func seqOrNil(st *State, s *Term) *Term {
	if s.isNil() {
		return s
	}
	return st.seqOfSlice(s)
}

// btreeModel interprets calls on the tree; ev is called before the effect.
func (s *storageRoles) btreeModel(a *Analysis, st *State, c *Call, ev func(*treeEvent), onItem func(a *Analysis, st *State, it *Term)) ([]Out, bool) {
	if c.Fn == nil {
		return nil, false
	}
	n := fnName(c.Fn)
	const pre = "github.com/google/btree."
	if !strings.HasPrefix(n, pre) {
		return nil, false
	}
	n = strings.TrimPrefix(n, pre)
	e := &treeEvent{}
	if strings.HasPrefix(n, "BTreeG.") {
		e.op = strings.TrimPrefix(n, "BTreeG.")
		e.tree = c.Args[0]
		if !a.deref(st, e.tree, c.Instr) {
			return nil, true
		}
		e.verBefore = treeVer(st, e.tree)
	} else {
		e.op = n
	}
	item := func(t *Term) {
		e.item = t
		e.rel = mkField(t, s.itRel)
		e.key = mkField(t, s.itKey)
		e.row = mkField(t, s.itRow)
		if e.row.typ != nil && !e.row.isNil() {
			e.rowSeq = st.seqOfSlice(e.row)
		}
	}
	V := types.Typ[types.UnsafePointer]
	stored := func(x *State) *Term {
		fs := make([]*Term, s.itemT.Underlying().(*types.Struct).NumFields())
		for i := range fs {
			fs[i] = mkField(e.item, i)
		}
		fs[s.itRow] = mkApp("storedrow", s.itemT.Underlying().(*types.Struct).Field(s.itRow).Type(), e.verBefore, e.rel, e.key)
		return mkStruct(s.itemT, fs...)
	}
	has := func(yes func(x *State) *Term, no func(x *State) *Term) []Out {
		h := st.eval(treeHas(st, e.verBefore, e.rel, e.key))
		var outs []Out
		if !h.isTrue() {
			o := st
			if !h.isFalse() {
				o = st.clone()
			}
			if o.assume(h, false) {
				o.note(c.Pos(), "%s: no item with this key", e.op)
				outs = append(outs, Out{St: o, Ret: no(o)})
			}
			if h.isFalse() {
				return outs
			}
		}
		if st.assume(h, true) {
			st.note(c.Pos(), "%s: item exists", e.op)
			outs = append(outs, Out{St: st, Ret: yes(st)})
		}
		return outs
	}
	switch e.op {
	case "NewG", "NewWithFreeListG":
		o := mkObj(c.Sig.Results().At(0).Type(), "newtree")
		setTreeVer(st, o, mkApp("emptytree", V))
		ev(e)
		return []Out{{St: st, Ret: o}}, true
	case "Clone":
		ev(e)
		o := mkObj(c.Sig.Results().At(0).Type(), "clone")
		setTreeVer(st, o, e.verBefore)
		return []Out{{St: st, Ret: o}}, true
	case "Get":
		item(c.Args[1])
		ev(e)
		return has(func(x *State) *Term { return mkTuple(stored(x), mkBool(true)) },
			func(x *State) *Term { return mkTuple(zeroOf(s.itemT), mkBool(false)) }), true
	case "Has":
		item(c.Args[1])
		ev(e)
		return has(func(x *State) *Term { return mkBool(true) }, func(x *State) *Term { return mkBool(false) }), true
	case "ReplaceOrInsert":
		item(c.Args[1])
		ev(e)
		st.escape(e.item)
		rs := e.rowSeq
		if rs == nil {
			rs = mkNil(nil)
		}
		setTreeVer(st, e.tree, mkApp("tins", V, e.verBefore, e.rel, e.key, rs))
		return has(func(x *State) *Term { return mkTuple(stored(x), mkBool(true)) },
			func(x *State) *Term { return mkTuple(zeroOf(s.itemT), mkBool(false)) }), true
	case "Delete":
		item(c.Args[1])
		ev(e)
		return has(func(x *State) *Term {
			setTreeVer(x, e.tree, mkApp("tdel", V, e.verBefore, e.rel, e.key))
			return mkTuple(stored(x), mkBool(true))
		}, func(x *State) *Term { return mkTuple(zeroOf(s.itemT), mkBool(false)) }), true
	case "DeleteMin", "DeleteMax", "Clear":
		ev(e)
		setTreeVer(st, e.tree, mkApp("tother", V, mkSym(V, "ver")))
		return []Out{{St: st, Ret: freshResult(c.Sig, e.op)}}, true
	case "Len":
		ev(e)
		return []Out{{St: st, Ret: mkApp("treelen", types.Typ[types.Int], e.verBefore)}}, true
	case "Min", "Max":
		ev(e)
		return []Out{{St: st, Ret: freshResult(c.Sig, e.op)}}, true
	case "Ascend", "AscendGreaterOrEqual", "AscendLessThan", "AscendRange", "Descend", "DescendLessOrEqual", "DescendGreaterThan", "DescendRange":
		if len(c.Args) > 2 {
			item(c.Args[1])
		}
		ev(e)
		cb := c.Args[len(c.Args)-1]
		a.PushIter(st, e.op, cb, c.Instr, func(a *Analysis, x *State) []*Term {
			it := mkSym(s.itemT, "it")
			if onItem != nil {
				onItem(a, x, it)
			}
			return []*Term{it}
		})
		return []Out{{St: st, Again: true}}, true
	}
	a.Undecided(st, "tree operation %s is not modelled", e.op)
	return nil, true
}

func isMutator(op string) bool {
	switch op {
	case "ReplaceOrInsert", "Delete", "DeleteMin", "DeleteMax", "Clear":
		return true
	}
	return false
}

// storageModels handles library and cross-package calls made by the backend.
func (s *storageRoles) models(a *Analysis, st *State, c *Call) ([]Out, bool) {
	if c.Fn == nil {
		if c.Method != nil && c.Method.Pkg() != nil && c.Method.Pkg().Path() == modulePath+"/storage" {
			// predicates supplied by the caller: functions of their arguments
			rt := c.Args[0].typ
			isOurs := false
			for _, t := range []types.Type{s.storeI, s.txI, s.tableI, s.rowsI, s.refI} {
				if rt != nil && types.Identical(rt, t) {
					isOurs = true
				}
			}
			if !isOurs {
				return []Out{{St: st, Ret: pureResult(st, methName(c.Method), c.Sig, c.Args)}}, true
			}
		}
		return nil, false
	}
	n := c.Name()
	switch n {
	case "bytes.Compare":
		return bytesCmp(st, c.Args[0], c.Args[1]), true
	case modulePath + "/encode.MakeKey":
		rs := seqOrNil(st, c.Args[1])
		if def := c.Args[0]; def.op == "app" && strings.HasPrefix(def.aux, "gval:") && !c.Args[1].isNil() {
			// a fixed key definition: the key is made of these columns only
			if cols, ok := s.fixedKey(a, def); ok {
				var us []*Term
				for _, k := range cols {
					us = append(us, mkUnit(mkSelect(rs, mkInt(k), elemType(c.Args[1].typ), st), rs.typ))
				}
				rs = mkCat(rs.typ, us...)
			}
		}
		return []Out{{St: st, Ret: mkApp("MakeKey", c.Sig.Results().At(0).Type(), snapArgs(st, c.Args[:1])[0], rs)}}, true
	case modulePath + "/types.ConvertRow":
		return convertRowModel(a, st, c), true
	case modulePath + "/types.ColumnKeyUpdated":
		as := snapArgs(st, c.Args)
		t := mkApp("keyupdated", types.Typ[types.Bool], as...)
		return []Out{{St: st, Ret: t}}, true
	case "encoding/gob.NewEncoder":
		return []Out{{St: st, Ret: mkApp("gobenc", c.Sig.Results().At(0).Type(), c.Args[0])}}, true
	case "encoding/gob.NewDecoder":
		return []Out{{St: st, Ret: mkApp("gobdec", c.Sig.Results().At(0).Type(), c.Args[0])}}, true
	case "bytes.NewReader", "bytes.NewBuffer":
		o := mkObj(c.Sig.Results().At(0).Type(), "reader")
		st.heap[intern("bufval", "", nil, nil, o)] = intern("snap", "", c.Args[0].typ, nil, c.Args[0], seqOrNil(st, c.Args[0]))
		return []Out{{St: st, Ret: o}}, true
	case "encoding/gob.Encoder.Encode":
		x := c.Args[1]
		if x.op == "iface" {
			x = x.args[0]
		}
		var v *Term
		if p, ok := x.typ.(*types.Pointer); ok {
			v = st.load(x, p.Elem())
		} else {
			v = x
		}
		no := st.clone()
		no.note(c.Pos(), "gob encoding fails")
		e := mkError("goberr")
		if c.Args[0].isApp("gobenc") {
			b := c.Args[0].args[0]
			if b.op == "iface" {
				b = b.args[0]
			}
			st.heap[intern("bufval", "", nil, nil, b)] = mkApp("gob", types.NewSlice(types.Typ[types.Byte]), deepVal(st, v))
		}
		return []Out{{St: no, Ret: e}, {St: st, Ret: mkNil(errType)}}, true
	case "bytes.Buffer.Bytes":
		b := c.Args[0]
		if v, ok := st.heap[intern("bufval", "", nil, nil, b)]; ok {
			return []Out{{St: st, Ret: v}}, true
		}
	case "encoding/gob.Decoder.Decode":
		dst := c.Args[1]
		if dst.op == "iface" {
			dst = dst.args[0]
		}
		no := st.clone()
		no.note(c.Pos(), "gob decoding fails")
		e := mkError("goberr")
		var src *Term
		if c.Args[0].isApp("gobdec") {
			b := c.Args[0].args[0]
			if b.op == "iface" {
				b = b.args[0]
			}
			src = st.heap[intern("bufval", "", nil, nil, b)]
		}
		if src == nil {
			src = mkSym(types.NewSlice(types.Typ[types.Byte]), "gobsrc")
		}
		T := derefType(dst.typ)
		st.store(dst, mkApp("ungob", T, src), T)
		return []Out{{St: no, Ret: e}, {St: st, Ret: mkNil(errType)}}, true
	}
	return nil, false
}

// fixedKey gives the columns of a key definition declared as a package variable.
func (s *storageRoles) fixedKey(a *Analysis, def *Term) ([]int64, bool) {
	g, _ := def.val.(*ssa.Global)
	if g == nil {
		return nil, false
	}
	if s.fixed == nil {
		s.fixed = map[*ssa.Global][]int64{}
	}
	if v, ok := s.fixed[g]; ok {
		return v, v != nil
	}
	s.fixed[g] = nil
	column := columnOf(s.p)
	init := g.Pkg.Func("init")
	if init == nil || column == nil {
		return nil, false
	}
	var arr ssa.Value
	els := map[ssa.Value]map[int64]ssa.Value{}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			w, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if w.Addr == ssa.Value(g) {
				if sl, ok := w.Val.(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
					arr = sl.X
				}
			} else if ia, ok := w.Addr.(*ssa.IndexAddr); ok {
				if i, ok := ia.Index.(*ssa.Const); ok {
					if els[ia.X] == nil {
						els[ia.X] = map[int64]ssa.Value{}
					}
					els[ia.X][i.Int64()] = w.Val
				}
			}
		}
	}
	m := els[arr]
	if arr == nil || len(m) == 0 || int64(len(m)) != derefType(arr.Type()).Underlying().(*types.Array).Len() {
		return nil, false
	}
	var out []int64
	for i := int64(0); i < int64(len(m)); i++ {
		call, ok := m[i].(*ssa.Call)
		if !ok || call.Call.StaticCallee() == nil || !s.p.IsRepo(call.Call.StaticCallee()) {
			return nil, false
		}
		var args []*Term
		for _, x := range call.Call.Args {
			c, ok := x.(*ssa.Const)
			if !ok || c.Value == nil {
				return nil, false
			}
			args = append(args, mkConst(c.Value, c.Type()))
		}
		run := func(fn *ssa.Function, args []*Term) (out *Term) {
			b := NewAnalysis(s.p, a.R, &Hooks{Return: func(_ *Analysis, st *State, res []*Term) { out = st.eval(res[0]) }}, fn.Name())
			b.Start(newState(), fn, args)
			b.Run()
			return
		}
		ck := run(call.Call.StaticCallee(), args)
		if ck == nil {
			return nil, false
		}
		col := run(column, []*Term{ck})
		if col == nil {
			return nil, false
		}
		k, ok := col.constInt()
		if !ok {
			return nil, false
		}
		out = append(out, k)
	}
	s.fixed[g] = out
	return out, true
}

// deepVal snapshots slices inside a struct value.
func deepVal(st *State, v *Term) *Term {
	if v.op == "struct" {
		args := make([]*Term, len(v.args))
		for i, x := range v.args {
			args[i] = deepVal(st, x)
		}
		return intern("deep", typeKey(v.typ), v.typ, nil, args...)
	}
	if v.typ != nil {
		if _, ok := v.typ.Underlying().(*types.Slice); ok && !v.isNil() {
			return intern("snap", "", v.typ, nil, v, st.seqOfSlice(v))
		}
	}
	return v
}

// convertRowModel: either an error, or a fresh row of one converted value per column type.
func convertRowModel(a *Analysis, st *State, c *Call) []Out {
	no := st.clone()
	no.note(c.Pos(), "ConvertRow fails")
	typ := c.Sig.Results().At(0).Type()
	o := mkObj(typ, "converted")
	st.heap[contentKey(o)] = mkApp("converted", typ, snapArgs(st, c.Args[:1])[0], seqOrNil(st, c.Args[1]))
	row := intern("sl", "", typ, nil, o, mkInt(0), mkLen(c.Args[0]))
	st.note(c.Pos(), "ConvertRow succeeds")
	if !st.assume(mkLt(mkLen(c.Args[0]), mkLen(c.Args[1])), false) {
		return []Out{{St: no, Ret: mkTuple(mkNil(typ), mkError("converr"))}}
	}
	return []Out{{St: no, Ret: mkTuple(mkNil(typ), mkError("converr"))}, {St: st, Ret: mkTuple(row, mkNil(errType))}}
}

func (s *storageRoles) String() string { return fmt.Sprint(s.pkg) }

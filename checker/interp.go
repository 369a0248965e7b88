package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Call describes a call event.
type Call struct {
	Fn     *ssa.Function // resolved concrete callee (may be nil)
	Method *types.Func   // interface method when the receiver's dynamic type is unknown
	Value  *Term         // unknown function value
	Args   []*Term       // includes the receiver
	Instr  ssa.Instruction
	Sig    *types.Signature
	Defer  bool
}

func (c *Call) Pos() token.Pos { return c.Instr.Pos() }

// Is reports whether the call is to the named function or method, e.g. "sync.Mutex.Lock".
func (c *Call) Name() string {
	if c.Fn != nil {
		return fnName(c.Fn)
	}
	if c.Method != nil {
		return methName(c.Method)
	}
	return "?"
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if obj, ok := fn.Object().(*types.Func); ok {
		return methName(obj)
	}
	return fn.String()
}

func methName(m *types.Func) string {
	pkg := ""
	if m.Pkg() != nil {
		pkg = m.Pkg().Path() + "."
	}
	sig := m.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return pkg + n.Obj().Name() + "." + m.Name()
		}
		return pkg + "?." + m.Name()
	}
	return pkg + m.Name()
}

// Out is one outcome of a handled call.
type Out struct {
	St    *State
	Ret   *Term // result (tuple for several, nil for none)
	Panic *Term
	Again bool // do not bind or advance: a frame was pushed
}

type Hooks struct {
	Call        func(a *Analysis, st *State, c *Call) ([]Out, bool)
	After       func(a *Analysis, st *State, c *Call) // after an opaque/default call (not used for inlined)
	Inline      func(fn *ssa.Function) bool
	Store       func(a *Analysis, st *State, addr, val *Term, in ssa.Instruction)
	Load        func(a *Analysis, st *State, addr, val *Term, in ssa.Instruction)
	Append      func(a *Analysis, st *State, base, elems, res *Term, in ssa.Instruction)
	Branch      func(a *Analysis, st *State, cond *Term, in *ssa.If)
	Return      func(a *Analysis, st *State, res []*Term)
	Panic       func(a *Analysis, st *State, v *Term)
	FnRet       func(a *Analysis, st *State, fn *ssa.Function, res *Term) // an inlined function returns
	MapUpd      func(a *Analysis, st *State, m, k, v *Term, in ssa.Instruction)
	Instr       func(a *Analysis, st *State, in ssa.Instruction) bool // false: prune path
	LoadVal     func(a *Analysis, st *State, v *Term) *Term           // what is read, or something known to equal it
	Header      func(a *Analysis, st *State, b *ssa.BasicBlock)
	Deref       func(a *Analysis, st *State, ptr *Term, in ssa.Instruction)
	Index       func(a *Analysis, st *State, base, idx *Term, in ssa.Instruction)
	Assert      func(a *Analysis, st *State, x *Term, T types.Type, in *ssa.TypeAssert) // failing unchecked assertion possible
	Arith       func(a *Analysis, st *State, in *ssa.BinOp, x, y *Term)
	Value       func(a *Analysis, st *State, in ssa.Value, ops []*Term) []*Term // results of an operator or conversion (one path each); nil: default
	LookupSplit func(a *Analysis, st *State, m, k *Term, in *ssa.Lookup) ([]Out, bool)
	LookupMap   func(a *Analysis, st *State, m, k *Term, in *ssa.Lookup) (*Term, *Term, bool)
}

type Violation struct {
	Rule  string // rule+construct key, stable
	Msg   string
	Pos   token.Position
	Trace []string
}

// Analysis is one run over one entry point.
type Analysis struct {
	P         *Program
	H         *Hooks
	Entry     string
	work      []*State
	seen      map[string]bool
	gsnap     map[string]*State // generalised states shared by all paths
	gcount    map[string]int
	steps     int
	MaxSteps  int
	MaxStates int
	Shared    int  // arrivals at a loop head, in one discrete partition, that are followed separately
	Exact     bool // loops over constant ranges are followed exactly
	Unroll    int  // passes of a loop with a known condition that are followed exactly
	R         *Report
	frameSeq  int
	vorder    map[*ssa.Function][]ssa.Value
	fids      map[*ssa.Function]string
	live      map[*ssa.Function]*liveInfo
	MaxRec    int
	aborted   bool
	Paths     int
	Wits      []string             // properties holding witness indexes
	Marks     []string             // properties holding other places bounds are kept at
	Keep      []func(*State) *Term // facts re-established at joins where both sides have them
	Forget    func(*State)         // drops what does not matter, where paths meet
	debug     bool
}

func NewAnalysis(p *Program, r *Report, h *Hooks, entry string) *Analysis {
	return &Analysis{P: p, H: h, R: r, Entry: entry, seen: map[string]bool{}, gsnap: map[string]*State{}, gcount: map[string]int{}, MaxSteps: 3000000, MaxStates: 200000, Shared: sharedAfter, Unroll: 6,
		vorder: map[*ssa.Function][]ssa.Value{}, fids: map[*ssa.Function]string{}, live: map[*ssa.Function]*liveInfo{}, MaxRec: 1,
		debug: os.Getenv("ABSDEBUG") != ""}
}

func (a *Analysis) fnID(fn *ssa.Function) string {
	if s, ok := a.fids[fn]; ok {
		return s
	}
	s := fmt.Sprintf("f%d", len(a.fids))
	a.fids[fn] = s
	return s
}

func (a *Analysis) valueOrder(fn *ssa.Function) []ssa.Value {
	if v, ok := a.vorder[fn]; ok {
		return v
	}
	var out []ssa.Value
	for _, p := range fn.Params {
		out = append(out, p)
	}
	for _, p := range fn.FreeVars {
		out = append(out, p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				out = append(out, v)
			}
		}
	}
	a.vorder[fn] = out
	return out
}

// Start begins exploring fn with the given arguments.
func (a *Analysis) Start(st *State, fn *ssa.Function, args []*Term) {
	if len(fn.Blocks) == 0 {
		a.Undecided(st, "no body for %s", fn)
		return
	}
	a.pushFrame(st, fn, args, nil, nil)
	a.work = append(a.work, st)
}

// Undecided records that the analysis could not finish.
func (a *Analysis) Undecided(st *State, format string, args ...any) {
	a.aborted = true
	var tr []string
	pos := token.Position{}
	if st != nil {
		tr = a.traceOf(st)
		if len(st.frames) > 0 {
			pos = a.posOf(st)
		}
	}
	a.R.Violate("undecided:"+a.Entry, pos, tr, "analysis undecided: "+format, args...)
}

func (a *Analysis) posOf(st *State) token.Position {
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		if f.fn == nil || f.block == nil {
			continue
		}
		for pc := f.pc; pc >= 0; pc-- {
			if pc < len(f.block.Instrs) {
				if p := f.block.Instrs[pc].Pos(); p.IsValid() {
					return a.P.Fset.Position(p)
				}
			}
		}
	}
	return token.Position{}
}

func (a *Analysis) traceOf(st *State) []string {
	var out []string
	for t := st.trace; t != nil; t = t.up {
		p := a.P.Fset.Position(t.pos)
		out = append(out, fmt.Sprintf("%s:%d: %s", a.P.rel(p.Filename), p.Line, t.msg))
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// Violate reports a violated obligation on this path.
func (a *Analysis) Violate(st *State, rule string, format string, args ...any) {
	a.R.Violate(rule, a.posOf(st), a.traceOf(st), a.Entry+": "+format, args...)
}

func (a *Analysis) pushFrame(st *State, fn *ssa.Function, args []*Term, bindings []*Term, retTo ssa.Instruction) *Frame {
	st.nframes++
	f := &Frame{fn: fn, env: map[ssa.Value]*Term{}, block: fn.Blocks[0], id: st.nframes, retTo: retTo}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		} else {
			f.env[p] = mkSym(p.Type(), p.Name())
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bindings) {
			f.env[fv] = bindings[i]
		} else {
			f.env[fv] = mkSym(fv.Type(), fv.Name())
		}
	}
	st.frames = append(st.frames, f)
	a.R.Touch(fn)
	return f
}

// Run explores all states.
func (a *Analysis) Run() {
	for len(a.work) > 0 && !a.aborted {
		st := a.work[len(a.work)-1]
		a.work = a.work[:len(a.work)-1]
		a.run(st)
	}
	a.work = nil
	a.R.States += len(a.seen)
	a.R.Steps += a.steps
}

func (a *Analysis) run(st *State) {
	for {
		if st.dead {
			return
		}
		a.steps++
		if a.steps > a.MaxSteps || len(a.seen) > a.MaxStates {
			a.Undecided(st, "step or state budget exceeded (%d steps, %d states)", a.steps, len(a.seen))
			return
		}
		if !a.step(st) {
			return
		}
	}
}

func (a *Analysis) val(st *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			switch v.Type().Underlying().(type) {
			case *types.Struct, *types.Array, *types.Basic, *types.Tuple:
				return zeroOf(v.Type())
			}
			return mkNil(v.Type())
		}
		return mkConst(v.Value, v.Type())
	case *ssa.Global:
		return intern("global", v.Pkg.Pkg.Path()+"."+v.Name(), v.Type(), v)
	case *ssa.Function:
		return fnTerm(v)
	case *ssa.Builtin:
		return intern("fn", "builtin:"+v.Name(), v.Type(), v)
	}
	t, ok := st.top().env[v]
	if !ok {
		// dropped as dead or never assigned on this path
		t = mkSym(v.Type(), v.Name())
		st.top().env[v] = t
	}
	return t
}

func (a *Analysis) push(st *State) { a.work = append(a.work, st) }

// jump moves control to block b; false when the state was already explored.
func (a *Analysis) jump(st *State, b *ssa.BasicBlock) bool {
	f := st.top()
	f.prev = f.block
	f.block = b
	f.pc = 0
	// drop snapshots of loops we left
	for k := range st.snaps {
		if k.frame == f.id && k.header != nil && k.header.Parent() == f.fn && !a.inLoop(k.header, b) {
			delete(st.snaps, k)
		}
	}
	for k := range st.visits {
		if k.frame == f.id && !a.inLoop(k.header, b) {
			delete(st.visits, k)
		}
	}
	// phis
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	if len(phis) > 0 {
		idx := -1
		for i, p := range b.Preds {
			if p == f.prev {
				idx = i
				break
			}
		}
		vals := make([]*Term, len(phis))
		for i, p := range phis {
			vals[i] = a.val(st, p.Edges[idx])
		}
		for i, p := range phis {
			f.env[p] = vals[i]
		}
		f.pc = len(phis)
	}
	li := a.liveness(f.fn)
	// prune dead values
	lv := li.in[b]
	for v := range f.env {
		if !lv[v] {
			delete(f.env, v)
		}
	}
	if a.isHeader(b) {
		return a.atHeader(st, b, f.id)
	}
	if len(b.Preds) > 1 {
		return a.memo(st)
	}
	return true
}

func (a *Analysis) memo(st *State) bool {
	if a.Forget != nil {
		a.Forget(st)
	}
	a.gc(st)
	k := a.stateKey(st)
	if a.seen[k] {
		return false
	}
	a.seen[k] = true
	return true
}

// constTrip finds loops counting in constant steps from a constant to a constant.
func constTrip(b *ssa.BasicBlock) bool {
	if len(b.Instrs) == 0 {
		return false
	}
	i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := i.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	isConst := func(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }
	x := c.X
	if isConst(x) {
		x = c.Y
	} else if !isConst(c.Y) {
		return false
	}
	step := func(v ssa.Value) ssa.Value { // what a constant is added to
		if s, ok := v.(*ssa.BinOp); ok && (s.Op == token.ADD || s.Op == token.SUB) && isConst(s.Y) {
			return s.X
		}
		return nil
	}
	if v := step(x); v != nil {
		x = v
	}
	p, ok := x.(*ssa.Phi)
	if !ok || p.Block() != b {
		return false
	}
	for _, e := range p.Edges {
		if !isConst(e) && step(e) != ssa.Value(p) {
			return false
		}
	}
	return true
}

func (a *Analysis) atHeader(st *State, b *ssa.BasicBlock, frame int) bool {
	if a.H.Header != nil && b != nil {
		a.H.Header(a, st, b)
	}
	if a.Forget != nil {
		a.Forget(st)
	}
	a.gc(st)
	sk := snapKey{frame, b, a.sig(st)}
	if vk := (snapKey{frame, b, ""}); b != nil && (st.visits[vk] < a.Unroll || a.Exact && st.visits[vk] < 300 && constTrip(b)) && a.decided(st, b) {
		// the loop condition is known: no need to generalise yet
		st.visits[vk]++
		k := a.stateKey(st)
		if a.seen[k] {
			return false
		}
		a.seen[k] = true
		return true
	}
	// many paths reach this point: from here on they share one generalised state
	gk := a.place(st, b)
	a.gcount[gk]++
	if a.gcount[gk] > a.Shared {
		if old, ok := a.gsnap[gk]; ok {
			j := a.join(old, st)
			if a.debug {
				fmt.Fprintf(os.Stderr, "SHARED %v\n OLD %s\n NEW %s\n ===> %s\n", b, a.stateKey(old), a.stateKey(st), a.stateKey(j))
			}
			*st = *j
			a.gc(st)
		}
		k := a.stateKey(st)
		if a.seen[k] {
			return false
		}
		a.seen[k] = true
		snap := st.clone()
		snap.snaps = map[snapKey]*State{}
		a.gsnap[gk] = snap
		return true
	}
	if old, ok := st.snaps[sk]; ok {
		j := a.join(old, st)
		if a.debug {
			fmt.Fprintf(os.Stderr, "JOIN %v\n OLD %s\n NEW %s\n ===> %s\n", b, a.stateKey(old), a.stateKey(st), a.stateKey(j))
		}
		*st = *j
	}
	a.gc(st)
	k := a.stateKey(st)
	if a.seen[k] {
		return false
	}
	a.seen[k] = true
	snap := st.clone()
	snap.snaps = map[snapKey]*State{}
	st.snaps[sk] = snap
	return true
}

// sharedAfter is the number of arrivals at a loop head, in one discrete partition, that are
// followed separately.
const sharedAfter = 200

// place identifies the control location of a state and its discrete partition.
func (a *Analysis) place(st *State, b *ssa.BasicBlock) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%p;", b)
	for _, f := range st.frames {
		if f.fn != nil {
			fmt.Fprintf(&sb, "%d.%d.%v%v%p", f.block.Index, f.pc, f.isDefer, f.unwind, f.retTo)
			for _, d := range f.defers {
				fmt.Fprintf(&sb, "+%p", d.in)
			}
		} else if f.iter != nil {
			fmt.Fprintf(&sb, "it%s%d", f.iter.name, f.iter.phase)
		}
		fmt.Fprintf(&sb, "%p;", f.fn)
	}
	// code is discrete
	code := map[*Term]bool{}
	fns := func(t *Term) {
		walkTerm(t, code, func(x *Term) {
			if x.op == "fn" || x.op == "clos" {
				fmt.Fprintf(&sb, "%s%p,", x.aux, x.val)
			}
		})
	}
	for _, f := range st.frames {
		if f.fn != nil {
			for _, v := range a.valueOrder(f.fn) {
				if t, ok := f.env[v]; ok {
					fns(t)
				}
			}
			for _, d := range f.defers {
				fns(d.fn)
			}
		} else if f.iter != nil {
			fns(f.iter.fn)
		}
	}
	for _, k := range sortedKeys(st.heap) {
		fns(st.heap[k])
	}
	ids := map[*Frame]int{}
	for i, f := range st.frames {
		ids[f] = f.id
		f.id = i
	}
	sb.WriteString(a.sig(st))
	for f, id := range ids {
		f.id = id
	}
	return sb.String()
}

// decided reports whether the loop head's branch is determined by what is known.
func (a *Analysis) decided(st *State, b *ssa.BasicBlock) bool {
	loc := map[ssa.Value]*Term{}
	get := func(v ssa.Value) *Term {
		if t, ok := loc[v]; ok {
			return t
		}
		if c, ok := v.(*ssa.Const); ok {
			return a.val(st, c)
		}
		return st.top().env[v]
	}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.BinOp:
			x, y := get(in.X), get(in.Y)
			if x == nil || y == nil {
				return false
			}
			if x, y = st.eval(x), st.eval(y); isInt(in.X.Type()) && (x.op != "const" || y.op != "const") {
				return false
			}
			loc[in] = st.binop(in.Op, x, y, in.Type(), in.X.Type())
		case *ssa.Call:
			bi, ok := in.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "len" {
				return false
			}
			if x := get(in.Call.Args[0]); x != nil {
				loc[in] = mkLen(x)
			}
		case *ssa.If:
			c := get(in.Cond)
			return c != nil && st.eval(c).isBoolConst()
		default:
			return false
		}
	}
	return false
}

// ---- loops and liveness

type liveInfo struct {
	in     map[*ssa.BasicBlock]map[ssa.Value]bool
	header map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
}

func (a *Analysis) liveness(fn *ssa.Function) *liveInfo {
	if li, ok := a.live[fn]; ok {
		return li
	}
	li := &liveInfo{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}, header: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		li.in[b] = map[ssa.Value]bool{}
	}
	tracked := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
			return false
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			lv := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range li.in[s] {
					if phi, ok := v.(*ssa.Phi); ok && phi.Block() == s {
						continue
					}
					lv[v] = true
				}
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, in := range s.Instrs {
						phi, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if tracked(phi.Edges[pi]) {
							lv[phi.Edges[pi]] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if _, ok := in.(*ssa.Phi); ok {
					continue // phis are live-in at their own block after evaluation
				}
				if v, ok := in.(ssa.Value); ok {
					delete(lv, v)
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && tracked(*op) {
						lv[*op] = true
					}
				}
			}
			// phi values of this block: live-in means live after the phi nodes
			if len(lv) != len(li.in[b]) {
				li.in[b] = lv
				changed = true
			}
		}
		// remove phis defined in b from predecessors' view: handled because they are
		// defined in b itself and only edges' operands are needed in predecessors.
	}
	// a phi of block b must not be live in the predecessors of b (except around loops)
	for _, b := range fn.Blocks {
		for _, p := range b.Preds {
			if b.Dominates(p) {
				body := li.header[b]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{b: true}
					li.header[b] = body
				}
				var stack []*ssa.BasicBlock
				if !body[p] {
					body[p] = true
					stack = append(stack, p)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, q := range x.Preds {
						if !body[q] {
							body[q] = true
							stack = append(stack, q)
						}
					}
				}
			}
		}
	}
	if fn.Recover != nil {
		// values needed by the recover block (named results) must stay
		for v := range li.in[fn.Recover] {
			for _, b := range fn.Blocks {
				li.in[b][v] = true
			}
		}
	}
	a.live[fn] = li
	return li
}

func (a *Analysis) isHeader(b *ssa.BasicBlock) bool {
	return a.liveness(b.Parent()).header[b] != nil
}

func (a *Analysis) inLoop(h, b *ssa.BasicBlock) bool {
	return a.liveness(h.Parent()).header[h][b]
}

// liveAfter prunes the caller's env before a call.
func (a *Analysis) pruneAt(f *Frame) {
	if f.fn == nil || f.block == nil {
		return
	}
	li := a.liveness(f.fn)
	lv := map[ssa.Value]bool{}
	b := f.block
	for _, s := range b.Succs {
		for v := range li.in[s] {
			lv[v] = true
		}
		for pi, p := range s.Preds {
			if p == b {
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					lv[phi.Edges[pi]] = true
				}
			}
		}
	}
	for k := len(b.Instrs) - 1; k > f.pc; k-- {
		for _, op := range b.Instrs[k].Operands(nil) {
			if *op != nil {
				lv[*op] = true
			}
		}
	}
	if b.Instrs[f.pc] != nil {
		if _, ok := b.Instrs[f.pc].(*ssa.RunDefers); ok {
			for _, op := range b.Instrs[f.pc].Operands(nil) {
				lv[*op] = true
			}
		}
	}
	if f.fn.Recover != nil {
		for v := range li.in[f.fn.Recover] {
			lv[v] = true
		}
	}
	for v := range f.env {
		if !lv[v] {
			delete(f.env, v)
		}
	}
}

// ---- stepping

func (a *Analysis) step(st *State) bool {
	f := st.top()
	if f.iter != nil {
		return a.stepIter(st)
	}
	in := f.block.Instrs[f.pc]
	if a.H.Instr != nil && !a.H.Instr(a, st, in) {
		return false
	}
	set := func(v ssa.Value, t *Term) {
		f.env[v] = t
		f.pc++
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		f.pc++
	case *ssa.Alloc:
		o := mkObj(in.Type(), in.Comment)
		set(in, o)
	case *ssa.Phi:
		f.pc++
	case *ssa.UnOp:
		if in.Op != token.MUL && a.H.Value != nil && a.override(st, in, a.val(st, in.X)) {
			return false
		}
		switch in.Op {
		case token.MUL:
			p := a.val(st, in.X)
			if !a.deref(st, p, in) {
				return false
			}
			v := st.load(p, in.Type())
			if a.H.Load != nil {
				a.H.Load(a, st, p, v, in)
			}
			if a.H.LoadVal != nil {
				v = a.H.LoadVal(a, st, v)
			}
			set(in, v)
		case token.NOT:
			set(in, mkNot(a.val(st, in.X)))
		case token.SUB:
			x := a.val(st, in.X)
			if isInt(in.Type()) {
				if n, ok := x.constInt(); ok {
					set(in, mkConst(constant.MakeInt64(-n), in.Type()))
				} else if b, c, ok := x.lin(); ok && b.isApp("neg") {
					set(in, mkLin(b.args[0], -c, in.Type()))
				} else if ok {
					set(in, mkLin(mkApp("neg", in.Type(), b), -c, in.Type()))
				} else {
					set(in, mkApp("neg", in.Type(), x))
				}
			} else {
				set(in, mkApp("neg", in.Type(), x))
			}
		case token.XOR:
			x := a.val(st, in.X)
			set(in, mkApp("compl", in.Type(), x))
		default:
			a.Undecided(st, "unsupported operation %s", in)
			return false
		}
	case *ssa.BinOp:
		x, y := a.val(st, in.X), a.val(st, in.Y)
		if a.H.Arith != nil {
			a.H.Arith(a, st, in, x, y)
		}
		if a.H.Value != nil && a.override(st, in, x, y) {
			return false
		}
		set(in, st.binop(in.Op, x, y, in.Type(), in.X.Type()))
	case *ssa.ChangeType:
		x := a.val(st, in.X)
		set(in, retype(x, in.Type()))
	case *ssa.ChangeInterface:
		set(in, a.val(st, in.X))
	case *ssa.Convert:
		if a.H.Value != nil && a.override(st, in, a.val(st, in.X)) {
			return false
		}
		set(in, a.convert(st, a.val(st, in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		set(in, mkApp("conv:"+typeKey(in.Type()), in.Type(), a.val(st, in.X)))
	case *ssa.MakeInterface:
		set(in, mkIface(in.X.Type(), a.val(st, in.X), in.Type()))
	case *ssa.MakeClosure:
		args := []*Term{fnTerm(in.Fn.(*ssa.Function))}
		for _, b := range in.Bindings {
			args = append(args, a.val(st, b))
		}
		set(in, intern("clos", "", in.Type(), nil, args...))
	case *ssa.MakeMap:
		set(in, mkObj(in.Type(), "map"))
	case *ssa.MakeChan:
		set(in, mkObj(in.Type(), "chan"))
	case *ssa.MakeSlice:
		o := mkObj(in.Type(), "slice")
		ln := a.val(st, in.Len)
		set(in, intern("sl", "", in.Type(), nil, o, mkInt(0), ln))
	case *ssa.FieldAddr:
		p := a.val(st, in.X)
		if !a.deref(st, p, in) {
			return false
		}
		if p.op != "faddr" && p.op != "iaddr" && p.typ == nil || !types.Identical(derefType(p.typ), derefType(in.X.Type())) {
			p = retype(p, in.X.Type())
		}
		set(in, mkFaddr(p, in.Field, in.Type()))
	case *ssa.Field:
		x := a.val(st, in.X)
		set(in, mkField(retypeStruct(x, in.X.Type()), in.Field))
	case *ssa.IndexAddr:
		x := a.val(st, in.X)
		idx := a.val(st, in.Index)
		ln := mkLen(x)
		if at, ok := derefType(in.X.Type()).Underlying().(*types.Array); ok {
			ln = mkInt(at.Len())
		}
		if !a.bounds(st, x, idx, ln, in) {
			return false
		}
		b, lo := sliceParts(x)
		set(in, mkIaddr(b, mkAdd(lo, idx, types.Typ[types.Int]), in.Type()))
	case *ssa.Index:
		x := a.val(st, in.X)
		idx := a.val(st, in.Index)
		ln := mkLen(x)
		if at, ok := in.X.Type().Underlying().(*types.Array); ok {
			ln = mkInt(at.Len())
		}
		if !a.bounds(st, x, idx, ln, in) {
			return false
		}
		if isString(in.X.Type()) {
			if x.isConst() {
				if n, ok := idx.constInt(); ok {
					s := constant.StringVal(x.val.(constant.Value))
					if int(n) < len(s) && n >= 0 {
						set(in, mkConst(constant.MakeInt64(int64(s[n])), in.Type()))
						break
					}
				}
			}
			v := mkSelect(intern("seqof", "", in.X.Type(), nil, x), idx, in.Type(), st)
			if a.H.LoadVal != nil {
				v = a.H.LoadVal(a, st, v)
			}
			set(in, v)
		} else if x.op == "arrval" {
			set(in, mkSelect(x.args[0], idx, in.Type(), st))
		} else {
			set(in, mkSelect(intern("seqof", "", in.X.Type(), nil, x), idx, in.Type(), st))
		}
	case *ssa.Lookup:
		return a.lookup(st, in)
	case *ssa.MapUpdate:
		m, k, v := a.val(st, in.Map), a.val(st, in.Key), a.val(st, in.Value)
		if a.H.MapUpd != nil {
			a.H.MapUpd(a, st, m, k, v, in)
		}
		st.heap[intern("mapver", "", nil, nil, m)] = mkSym(types.Typ[types.Int], "mapver")
		st.escapeVia(m, v)
		f.pc++
	case *ssa.Range:
		set(in, mkApp("range", in.Type(), a.val(st, in.X), mkSym(types.Typ[types.Int], "rng")))
	case *ssa.Next:
		tup := in.Type().(*types.Tuple)
		done := st.clone()
		done.top().env[in] = mkTuple(mkBool(false), zeroOfSafe(tup.At(1).Type()), zeroOfSafe(tup.At(2).Type()))
		done.top().pc++
		done.note(in.Pos(), "iteration ends")
		a.push(done)
		k, v := mkSym(tup.At(1).Type(), "key"), mkSym(tup.At(2).Type(), "elem")
		if in.IsString {
			it := a.val(st, in.Iter)
			v = mkApp("runeat", tup.At(2).Type(), it, k)
		} else {
			it := a.val(st, in.Iter)
			v = mkApp("mapval", tup.At(2).Type(), it.args[0], k)
		}
		set(in, mkTuple(mkBool(true), k, v))
	case *ssa.Slice:
		return a.slice(st, in)
	case *ssa.SliceToArrayPointer:
		set(in, mkApp("arrptr", in.Type(), a.val(st, in.X)))
	case *ssa.Store:
		p, v := a.val(st, in.Addr), a.val(st, in.Val)
		if !a.deref(st, p, in) {
			return false
		}
		if a.H.Store != nil {
			a.H.Store(a, st, p, v, in)
		}
		st.store(p, v, in.Val.Type())
		f.pc++
	case *ssa.Extract:
		t := a.val(st, in.Tuple)
		if t.op == "tuple" {
			set(in, t.args[in.Index])
		} else {
			set(in, mkApp(fmt.Sprintf("extract%d", in.Index), in.Type(), t))
		}
	case *ssa.TypeAssert:
		return a.typeAssert(st, in)
	case *ssa.Call:
		return a.call(st, in, &in.Call)
	case *ssa.Defer:
		d := &deferred{in: in}
		c := &in.Call
		if c.IsInvoke() {
			d.meth = c.Method
			d.args = append(d.args, a.val(st, c.Value))
		} else if b, ok := c.Value.(*ssa.Builtin); ok {
			d.bi = b
		} else {
			d.fn = a.val(st, c.Value)
		}
		for _, x := range c.Args {
			d.args = append(d.args, a.val(st, x))
		}
		f.defers = append(f.defers, d)
		f.pc++
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			return a.runDeferred(st, d, false)
		}
		f.pc++
	case *ssa.Go:
		a.Undecided(st, "go statement not modelled: %s", in)
		return false
	case *ssa.Panic:
		v := a.val(st, in.X)
		st.note(in.Pos(), "panic(%s)", v)
		return a.startPanic(st, v)
	case *ssa.If:
		c := st.eval(a.val(st, in.Cond))
		if a.H.Branch != nil {
			a.H.Branch(a, st, c, in)
		}
		b := f.block
		if c.isTrue() {
			return a.jump(st, b.Succs[0])
		}
		if c.isFalse() {
			return a.jump(st, b.Succs[1])
		}
		other := st.clone()
		okF := other.assume(c, false) && !other.dead
		okT := st.assume(c, true) && !st.dead
		pos := condPos(in)
		if okF {
			other.note(pos, "%s is false", c)
			if a.jump(other, b.Succs[1]) {
				a.push(other)
			}
		}
		if okT {
			st.note(pos, "%s is true", c)
			return a.jump(st, b.Succs[0])
		}
		return false
	case *ssa.Jump:
		return a.jump(st, f.block.Succs[0])
	case *ssa.Return:
		res := make([]*Term, len(in.Results))
		for i, r := range in.Results {
			res[i] = a.val(st, r)
		}
		return a.doReturn(st, res, in)
	default:
		a.Undecided(st, "unsupported instruction %T: %s", in, in)
		return false
	}
	return true
}

// override lets a check give the results of an operator; each continues as a path of its own.
func (a *Analysis) override(st *State, in ssa.Value, ops ...*Term) bool {
	rs := a.H.Value(a, st, in, ops)
	for i, v := range rs {
		n := st
		if i < len(rs)-1 {
			n = st.clone()
		}
		n.top().env[in] = v
		n.top().pc++
		a.push(n)
	}
	return len(rs) > 0
}

func zeroOfSafe(t types.Type) *Term {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return mkInt(0)
	}
	return zeroOf(t)
}

func condPos(in *ssa.If) token.Pos {
	if v, ok := in.Cond.(ssa.Instruction); ok && v.Pos().IsValid() {
		return v.Pos()
	}
	for i := len(in.Block().Instrs) - 1; i >= 0; i-- {
		if p := in.Block().Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	return in.Pos()
}

func retype(x *Term, typ types.Type) *Term {
	if x.typ != nil && types.Identical(x.typ, typ) {
		return x
	}
	switch x.op {
	case "const":
		if x.val == nil {
			return mkNil(typ)
		}
		return x
	case "struct":
		return mkStruct(typ, x.args...)
	}
	return x
}

func retypeStruct(x *Term, typ types.Type) *Term {
	return x
}

func (a *Analysis) deref(st *State, p *Term, in ssa.Instruction) bool {
	if p.op == "faddr" || p.op == "iaddr" || p.op == "obj" || p.op == "global" {
		return true
	}
	n := st.eval(mkEq(p, mkNil(p.typ)))
	if n.isFalse() {
		return true
	}
	if a.H.Deref != nil {
		a.H.Deref(a, st, p, in)
	}
	if n.isTrue() {
		return false // run-time panic; not followed unless a hook reports it
	}
	return st.assume(n, false)
}

func (a *Analysis) bounds(st *State, base, idx, ln *Term, in ssa.Instruction) bool {
	lo := st.eval(mkLt(idx, mkInt(0)))
	hi := st.eval(mkLt(idx, ln))
	if lo.isFalse() && hi.isTrue() {
		return true
	}
	if a.H.Index != nil {
		a.H.Index(a, st, base, idx, in)
	}
	return st.assume(lo, false) && st.assume(hi, true)
}

func (a *Analysis) lookup(st *State, in *ssa.Lookup) bool {
	f := st.top()
	m, k := a.val(st, in.X), a.val(st, in.Index)
	if isString(in.X.Type()) {
		ln := mkLen(m)
		if !a.bounds(st, m, k, ln, in) {
			return false
		}
		if m.isConst() {
			if n, ok := k.constInt(); ok {
				s := constant.StringVal(m.val.(constant.Value))
				f.env[in] = mkConst(constant.MakeInt64(int64(s[n])), in.Type())
				f.pc++
				return true
			}
		}
		f.env[in] = mkSelect(intern("seqof", "", in.X.Type(), nil, m), k, in.Type(), st)
		f.pc++
		return true
	}
	if a.H.LookupSplit != nil {
		if outs, done := a.H.LookupSplit(a, st, m, k, in); done {
			for i, o := range outs {
				r := o.Ret
				if !in.CommaOk {
					r = r.args[0]
				}
				o.St.top().env[in] = r
				o.St.top().pc++
				if i > 0 {
					a.push(o.St)
				}
			}
			if len(outs) == 0 {
				return false
			}
			if outs[0].St != st {
				a.push(outs[0].St)
				return false
			}
			return true
		}
	}
	var v, ok *Term
	handled := false
	if a.H.LookupMap != nil {
		v, ok, handled = a.H.LookupMap(a, st, m, k, in)
	}
	vt := in.X.Type().Underlying().(*types.Map).Elem()
	if !handled {
		ver := st.mapVer(m)
		args := []*Term{m, k}
		if ver != nil {
			args = append(args, ver)
		}
		v = mkApp("mapget", vt, args...)
		ok = mkApp("maphas", types.Typ[types.Bool], args...)
	}
	if in.CommaOk {
		e := st.eval(ok)
		if !e.isBoolConst() {
			other := st.clone()
			if other.assume(e, false) {
				other.top().env[in] = mkTuple(zeroOf(vt), mkBool(false))
				other.top().pc++
				other.note(in.Pos(), "key not in map")
				a.push(other)
			}
			if !st.assume(e, true) {
				return false
			}
			f = st.top()
			f.env[in] = mkTuple(v, mkBool(true))
			f.pc++
			return true
		}
		if e.isFalse() {
			v = zeroOf(vt)
		}
		f.env[in] = mkTuple(v, e)
	} else {
		f.env[in] = v
	}
	f.pc++
	return true
}

func (a *Analysis) slice(st *State, in *ssa.Slice) bool {
	f := st.top()
	x := a.val(st, in.X)
	I := types.Typ[types.Int]
	lo := mkInt(0)
	if in.Low != nil {
		lo = a.val(st, in.Low)
	}
	var full *Term
	if at, ok := derefType(in.X.Type()).Underlying().(*types.Array); ok {
		full = mkInt(at.Len())
	} else {
		full = mkLen(x)
	}
	hi := full
	if in.High != nil {
		hi = a.val(st, in.High)
	}
	// bounds: 0 <= lo <= hi <= cap (len for strings)
	if !(st.isFalse(mkLt(lo, mkInt(0))) && st.isFalse(mkLt(hi, lo)) && st.isFalse(mkLt(full, hi))) {
		if a.H.Index != nil {
			a.H.Index(a, st, x, hi, in)
		}
		if !st.assume(mkLt(lo, mkInt(0)), false) || !st.assume(mkLt(hi, lo), false) {
			return false
		}
		if isString(in.X.Type()) && !st.assume(mkLt(full, hi), false) {
			return false
		}
	}
	if isString(in.X.Type()) {
		if n, ok := lo.constInt(); ok && n == 0 && hi == full {
			f.env[in] = x
		} else {
			f.env[in] = intern("sl", "", in.Type(), nil, x, lo, mkSub(hi, lo, I))
		}
		f.pc++
		return true
	}
	b, off := sliceParts(x)
	if _, ok := derefType(in.X.Type()).Underlying().(*types.Array); ok {
		b, off = x, mkInt(0)
	}
	if x.isNil() {
		f.env[in] = x
	} else {
		f.env[in] = mkSl(b, mkAdd(off, lo, I), mkSub(hi, lo, I), in.Type())
	}
	f.pc++
	return true
}

func (a *Analysis) typeAssert(st *State, in *ssa.TypeAssert) bool {
	f := st.top()
	x := a.val(st, in.X)
	T := in.AssertedType
	payload := func(s *State) *Term {
		y := a.val(s, in.X)
		if isIface(T) {
			return y
		}
		return mkPayload(T, y)
	}
	var cond *Term
	if isIface(T) {
		switch {
		case x.isNil():
			cond = mkBool(false)
		case x.op == "iface":
			cond = mkBool(types.Implements(x.dyn(), T.Underlying().(*types.Interface)))
		default:
			cond = mkApp("impl:"+typeKey(T), types.Typ[types.Bool], x)
		}
	} else {
		cond = mkTypeIs(x, T)
	}
	c := st.eval(cond)
	if !c.isTrue() {
		if in.CommaOk {
			no := st
			if !c.isFalse() {
				no = st.clone()
			}
			if no.assume(c, false) {
				no.top().env[in] = mkTuple(zeroOf(T), mkBool(false))
				no.top().pc++
				no.note(in.Pos(), "%s is not %s", x, shortType(T))
				if c.isFalse() {
					return true
				}
				a.push(no)
			} else if c.isFalse() {
				return false
			}
		} else {
			if a.H.Assert != nil {
				a.H.Assert(a, st, x, T, in)
			}
			if c.isFalse() {
				return false
			}
		}
		if !st.assume(c, true) {
			return false
		}
		if isIface(T) {
			st.assume(mkEq(a.val(st, in.X), mkNil(in.X.Type())), false)
		}
		st.note(in.Pos(), "%s is %s", x, shortType(T))
	}
	f = st.top()
	v := payload(st)
	if in.CommaOk {
		f.env[in] = mkTuple(v, mkBool(true))
	} else {
		f.env[in] = v
	}
	f.pc++
	return !st.dead
}

func (st *State) binop(op token.Token, x, y *Term, typ types.Type, xt types.Type) *Term {
	B := types.Typ[types.Bool]
	switch op {
	case token.EQL, token.NEQ:
		var e *Term
		if isFloat(xt) {
			if x.isConst() && y.isConst() {
				e = mkBool(constant.Compare(x.val.(constant.Value), token.EQL, y.val.(constant.Value)))
			} else {
				if x.id > y.id {
					x, y = y, x
				}
				e = intern("app", "feq", B, nil, x, y)
			}
		} else {
			if isIface(xt) || isIface(y.typ) && !isIface(x.typ) {
				_ = e
			}
			e = mkEq(x, y)
		}
		if op == token.NEQ {
			return mkNot(e)
		}
		return e
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if op == token.GTR || op == token.GEQ {
			x, y = y, x
		}
		if isFloat(xt) {
			if x.isConst() && y.isConst() {
				t := token.LSS
				if op == token.LEQ || op == token.GEQ {
					t = token.LEQ
				}
				return mkBool(constant.Compare(x.val.(constant.Value), t, y.val.(constant.Value)))
			}
			if op == token.LSS || op == token.GTR {
				return mkApp("flt", B, x, y)
			}
			return mkApp("fle", B, x, y)
		}
		if op == token.LSS || op == token.GTR {
			return mkLt(x, y)
		}
		return mkNot(mkLt(y, x))
	case token.ADD:
		if isInt(xt) {
			return mkAdd(x, y, typ)
		}
		if x.isConst() && y.isConst() && isString(xt) {
			return mkConst(constant.BinaryOp(x.val.(constant.Value), token.ADD, y.val.(constant.Value)), typ)
		}
		return mkApp("add", typ, x, y)
	case token.SUB:
		if isInt(xt) {
			return mkSub(x, y, typ)
		}
		return mkApp("sub", typ, x, y)
	}
	name := map[token.Token]string{token.MUL: "mul", token.QUO: "quo", token.REM: "rem", token.AND: "band", token.OR: "bor",
		token.XOR: "bxor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot"}[op]
	if x.isConst() && y.isConst() && x.val != nil && y.val != nil {
		xv, yv := x.val.(constant.Value), y.val.(constant.Value)
		switch op {
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(yv); ok {
				return truncConst(constant.Shift(xv, op, uint(n)), typ)
			}
		case token.QUO, token.REM:
			if constant.Sign(yv) != 0 && isInt(xt) {
				o := op
				if op == token.QUO {
					o = token.QUO_ASSIGN
				}
				return truncConst(constant.BinaryOp(xv, o, yv), typ)
			}
		default:
			return truncConst(constant.BinaryOp(xv, op, yv), typ)
		}
	}
	return mkApp(name, typ, x, y)
}

func intBits(typ types.Type) (int, bool) {
	b, ok := typ.Underlying().(*types.Basic)
	if !ok {
		return 64, false
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8, b.Kind() == types.Int8
	case types.Int16, types.Uint16:
		return 16, b.Kind() == types.Int16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32, b.Kind() != types.Uint32
	}
	return 64, b.Info()&types.IsUnsigned == 0
}

// intRange gives the least and greatest value of an integer type.
func intRange(typ types.Type) (lo, hi *Term) {
	bits, signed := intBits(typ)
	one := constant.MakeInt64(1)
	l := constant.MakeInt64(0)
	if signed {
		bits--
		l = constant.UnaryOp(token.SUB, constant.Shift(one, token.SHL, uint(bits)), 0)
	}
	h := constant.BinaryOp(constant.Shift(one, token.SHL, uint(bits)), token.SUB, one)
	return mkConst(l, types.Typ[types.Int]), mkConst(h, types.Typ[types.Int])
}

func truncConst(v constant.Value, typ types.Type) *Term {
	if !isInt(typ) {
		return mkConst(v, typ)
	}
	bits, signed := intBits(typ)
	mod := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits))
	v = constant.ToInt(v)
	r := constant.BinaryOp(v, token.REM, mod)
	if constant.Sign(r) < 0 {
		r = constant.BinaryOp(r, token.ADD, mod)
	}
	if signed {
		half := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits-1))
		if constant.Compare(r, token.GEQ, half) {
			r = constant.BinaryOp(r, token.SUB, mod)
		}
	}
	return mkConst(r, typ)
}

// convert models a value conversion.
func (a *Analysis) convert(st *State, x *Term, from, to types.Type) *Term {
	if isInt(from) && isInt(to) {
		if x.isConst() {
			return truncConst(x.val.(constant.Value), to)
		}
		if lo, hi := intRange(to); st.isFalse(mkLt(x, lo)) && (hi.isBig() || st.isFalse(mkLt(hi, x))) {
			return x // within the range of the new type
		}
		fb, fs := intBits(from)
		tb, ts := intBits(to)
		if fb == tb && fs == ts || !fs && tb > fb || fs && ts && tb >= fb {
			// value preserving
			if fb == tb {
				return x
			}
			return mkApp("widen:"+typeKey(to.Underlying()), to, x)
		}
		if x.isApp("len") && tb == 64 || st.nonNegSmall(x) {
			return x // small non-negative values are preserved
		}
		return mkApp("conv:"+typeKey(to.Underlying()), to, x)
	}
	switch {
	case isString(to) && isString(from):
		return x
	case isString(to):
		if _, ok := from.Underlying().(*types.Slice); ok {
			if q := st.seqOfSlice(x); q.op == "seqof" && isString(q.args[0].typ) {
				return q.args[0]
			}
			return mkApp("tostring", to, intern("snap", "", from, nil, x, st.seqOfSlice(x)))
		}
	case isString(from):
		if _, ok := to.Underlying().(*types.Slice); ok {
			o := mkObj(to, "bytes")
			s := intern("sl", "", to, nil, o, mkInt(0), mkApp("convlen:"+typeKey(to), types.Typ[types.Int], x))
			if e := elemType(to); isInt(e) {
				if b, _ := intBits(e); b == 8 {
					s = intern("sl", "", to, nil, o, mkInt(0), mkLen(x))
					st.heap[contentKey(o)] = intern("seqof", "", from, nil, x)
				}
			}
			return s
		}
	}
	if isFloat(from) && isFloat(to) && types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	if x.isConst() && x.val != nil && isFloat(to) {
		return mkConst(constant.ToFloat(x.val.(constant.Value)), to)
	}
	return mkApp("conv:"+typeKey(to.Underlying())+"<"+typeKey(from.Underlying()), to, x)
}

func (st *State) nonNegSmall(x *Term) bool {
	b, _, ok := x.lin()
	if !ok || b == nil {
		return false
	}
	// bounded between 0 and some len
	if !st.isFalse(mkLt(x, mkInt(0))) {
		return false
	}
	for d := range st.dbm {
		if d.y.op == "app" && d.y.aux == "len" {
			if u, ok := st.upper(b, d.y); ok && u <= 1 {
				return true
			}
		}
	}
	return false
}

// ---- calls

func (a *Analysis) call(st *State, in *ssa.Call, c *ssa.CallCommon) bool {
	ev := &Call{Instr: in, Sig: c.Signature()}
	var bindings []*Term
	if c.IsInvoke() {
		recv := a.val(st, c.Value)
		ev.Method = c.Method
		if recv.op == "iface" {
			if fn := a.P.lookupMethod(recv.dyn(), c.Method); fn != nil {
				ev.Fn = fn
				ev.Method = nil
				ev.Args = append(ev.Args, recv.args[0])
			}
		}
		if ev.Fn == nil {
			if a.H.Deref != nil && !st.nonNil(recv) {
				a.H.Deref(a, st, recv, in)
			}
			if !st.assume(mkEq(recv, mkNil(recv.typ)), false) {
				return false
			}
			recv = a.val(st, c.Value)
			ev.Args = append(ev.Args, recv)
		}
		for _, x := range c.Args {
			ev.Args = append(ev.Args, a.val(st, x))
		}
	} else {
		if b, ok := c.Value.(*ssa.Builtin); ok {
			return a.builtin(st, in, b, c)
		}
		fv := a.val(st, c.Value)
		ev.Fn, bindings = calleeOf(fv)
		if ev.Fn == nil {
			ev.Value = fv
		}
		for _, x := range c.Args {
			ev.Args = append(ev.Args, a.val(st, x))
		}
	}
	return a.dispatch(st, ev, bindings, in)
}

func calleeOf(fv *Term) (*ssa.Function, []*Term) {
	switch fv.op {
	case "fn":
		if fn, ok := fv.val.(*ssa.Function); ok {
			return fn, nil
		}
	case "clos":
		return fv.args[0].val.(*ssa.Function), fv.args[1:]
	}
	return nil, nil
}

// bind stores the result of a call in the frame on top and advances.
func (a *Analysis) bind(st *State, in ssa.Instruction, ret *Term) {
	f := st.top()
	if f.fn == nil {
		return
	}
	if v, ok := in.(ssa.Value); ok && ret != nil {
		f.env[v] = ret
	}
	if _, ok := in.(*ssa.RunDefers); !ok {
		f.pc++
	}
}

func (a *Analysis) dispatch(st *State, ev *Call, bindings []*Term, in ssa.Instruction) bool {
	outs, ok := []Out(nil), false
	if a.H.Call != nil {
		outs, ok = a.H.Call(a, st, ev)
	}
	if !ok {
		outs, ok = stdModel(a, st, ev)
	}
	if ok {
		return a.finish(outs, in)
	}
	if ev.Fn != nil && len(ev.Fn.Blocks) > 0 && a.inlinable(ev.Fn) {
		rec := 0
		for _, f := range st.frames {
			if f.fn == ev.Fn {
				rec++
			}
		}
		if rec <= a.MaxRec-1 || rec == 0 {
			a.pruneAt(st.top())
			a.pushFrame(st, ev.Fn, ev.Args, bindings, in)
			return true
		}
	}
	a.R.Opaque(ev.Name())
	outs = a.opaque(st, ev)
	return a.finish(outs, in)
}

// smallStd names the library's searches, whose bodies are followed.
var smallStd = map[string]bool{
	"slices.Index": true, "slices.IndexFunc": true, "slices.Contains": true, "slices.ContainsFunc": true,
}

func (a *Analysis) inlinable(fn *ssa.Function) bool {
	if smallStd[fnName(fn)] {
		return true
	}
	if o := fn.Parent(); o != nil && smallStd[fnName(o)] {
		return true
	}
	if a.H.Inline != nil {
		return a.H.Inline(fn)
	}
	return a.P.IsRepo(fn)
}

func (a *Analysis) finish(outs []Out, in ssa.Instruction) bool {
	for i := len(outs) - 1; i >= 0; i-- {
		o := outs[i]
		if o.St.dead {
			continue
		}
		if o.Panic != nil {
			if a.startPanic(o.St, o.Panic) {
				a.push(o.St)
			}
			continue
		}
		if !o.Again {
			a.bind(o.St, in, o.Ret)
		}
		a.push(o.St)
	}
	return false
}

// opaque models an unknown callee: fresh results, reachable memory forgotten.
func (a *Analysis) opaque(st *State, ev *Call) []Out {
	if ev.Fn != nil && a.P.readOnly(ev.Fn) {
		return []Out{{St: st, Ret: freshResult(ev.Sig, ev.Name())}}
	}
	wild := ev.Fn == nil || a.P.IsRepo(ev.Fn)
	st.havoc(ev.Args, wild)
	return []Out{{St: st, Ret: freshResult(ev.Sig, ev.Name())}}
}

func freshResult(sig *types.Signature, hint string) *Term {
	if i := strings.LastIndex(hint, "."); i >= 0 {
		hint = hint[i+1:]
	}
	r := sig.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return mkSym(r.At(0).Type(), hint)
	}
	var ts []*Term
	for i := 0; i < r.Len(); i++ {
		ts = append(ts, mkSym(r.At(i).Type(), hint))
	}
	return mkTuple(ts...)
}

func (a *Analysis) doReturn(st *State, res []*Term, in ssa.Instruction) bool {
	f := st.top()
	var ret *Term
	switch len(res) {
	case 0:
	case 1:
		ret = res[0]
	default:
		ret = mkTuple(res...)
	}
	if a.H.FnRet != nil && f.fn != nil {
		a.H.FnRet(a, st, f.fn, ret)
		if st.dead {
			return false
		}
	}
	st.frames = st.frames[:len(st.frames)-1]
	for k := range st.snaps {
		if k.frame == f.id {
			delete(st.snaps, k)
		}
	}
	if len(st.frames) == 0 {
		a.Paths++
		if a.H.Return != nil {
			st.frames = append(st.frames, f)
			a.H.Return(a, st, res)
		}
		return false
	}
	up := st.top()
	if f.isDefer {
		if f.unwind {
			if st.panicV == nil {
				// recovered: the panicking function returns normally
				return a.resumeRecovered(st)
			}
			return a.unwind(st)
		}
		return a.memo(st) // continue RunDefers
	}
	if up.iter != nil {
		up.iter.phase = 2
		up.env[nil] = ret
		return true
	}
	a.bind(st, f.retTo, ret)
	return a.memo(st)
}

// ---- panics and defers

func (a *Analysis) startPanic(st *State, v *Term) bool {
	st.panicV = v
	return a.unwind(st)
}

func (a *Analysis) unwind(st *State) bool {
	for {
		if len(st.frames) == 0 {
			a.Paths++
			if a.H.Panic != nil {
				a.H.Panic(a, st, st.panicV)
			}
			return false
		}
		f := st.top()
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			return a.runDeferred(st, d, true)
		}
		if len(st.frames) == 1 {
			a.Paths++
			if a.H.Panic != nil {
				a.H.Panic(a, st, st.panicV)
			}
			return false
		}
		st.frames = st.frames[:len(st.frames)-1]
		for k := range st.snaps {
			if k.frame == f.id {
				delete(st.snaps, k)
			}
		}
		if f.isDefer {
			// a deferred call itself panicked: keep unwinding its parent
			continue
		}
	}
}

func (a *Analysis) resumeRecovered(st *State) bool {
	f := st.top()
	if len(f.defers) > 0 {
		// remaining defers run, then return
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		return a.runDeferred(st, d, true)
	}
	if f.fn.Recover != nil {
		f.prev = f.block
		f.block = f.fn.Recover
		f.pc = 0
		return true
	}
	var res []*Term
	r := f.fn.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		res = append(res, zeroOf(r.At(i).Type()))
	}
	return a.doReturn(st, res, nil)
}

func (a *Analysis) runDeferred(st *State, d *deferred, unwinding bool) bool {
	if d.bi != nil {
		if d.bi.Name() == "recover" {
			st.panicV = nil
		}
		if unwinding {
			return a.afterDeferred(st)
		}
		return true
	}
	ev := &Call{Instr: d.in, Sig: d.in.Call.Signature(), Args: d.args, Defer: true}
	var bindings []*Term
	if d.meth != nil {
		ev.Method = d.meth
		if d.args[0].op == "iface" {
			if fn := a.P.lookupMethod(d.args[0].dyn(), d.meth); fn != nil {
				ev.Fn = fn
				ev.Method = nil
				ev.Args = append([]*Term{d.args[0].args[0]}, d.args[1:]...)
			}
		}
	} else {
		ev.Fn, bindings = calleeOf(d.fn)
		if ev.Fn == nil {
			ev.Value = d.fn
		}
	}
	outs, ok := []Out(nil), false
	if a.H.Call != nil {
		outs, ok = a.H.Call(a, st, ev)
	}
	if !ok {
		outs, ok = stdModel(a, st, ev)
	}
	if !ok && ev.Fn != nil && len(ev.Fn.Blocks) > 0 && a.inlinable(ev.Fn) {
		f := a.pushFrame(st, ev.Fn, ev.Args, bindings, nil)
		f.isDefer = true
		f.unwind = unwinding
		return true
	}
	if !ok {
		a.R.Opaque(ev.Name())
		outs = a.opaque(st, ev)
	}
	for _, o := range outs {
		if o.St.dead {
			continue
		}
		if o.Panic != nil {
			if a.startPanic(o.St, o.Panic) {
				a.push(o.St)
			}
			continue
		}
		if unwinding {
			if a.afterDeferred(o.St) {
				a.push(o.St)
			}
		} else {
			a.push(o.St)
		}
	}
	return false
}

func (a *Analysis) afterDeferred(st *State) bool {
	if st.panicV == nil {
		return a.resumeRecovered(st)
	}
	return a.unwind(st)
}

// ---- synthetic iterators

// PushIter makes the analysis call fn any number of times (until it returns false when it
// has a result), as the body of the call instruction in.
func (a *Analysis) PushIter(st *State, name string, fn *Term, in ssa.Instruction, mkArgs func(a *Analysis, st *State) []*Term) {
	a.pruneAt(st.top())
	st.nframes++
	st.frames = append(st.frames, &Frame{id: st.nframes, env: map[ssa.Value]*Term{}, retTo: in,
		iter: &iterFrame{name: name, fn: fn, mkArgs: mkArgs}})
}

func (a *Analysis) stepIter(st *State) bool {
	f := st.top()
	it := f.iter
	end := func(s *State) bool {
		fr := s.top()
		s.frames = s.frames[:len(s.frames)-1]
		for k := range s.snaps {
			if k.frame == fr.id {
				delete(s.snaps, k)
			}
		}
		a.bind(s, fr.retTo, nil)
		return true
	}
	switch it.phase {
	case 0:
		if !a.atHeader(st, nil, f.id) {
			return false
		}
		done := st.clone()
		done.note(f.retTo.Pos(), "%s: no more items", it.name)
		end(done)
		a.push(done)
		st.note(f.retTo.Pos(), "%s: next item", it.name)
		args := it.mkArgs(a, st)
		if st.dead {
			return false
		}
		f = st.top()
		f.iter.phase = 1
		fn, bindings := calleeOf(f.iter.fn)
		if fn == nil {
			a.Undecided(st, "iterator callback unknown")
			return false
		}
		a.pushFrame(st, fn, args, bindings, nil)
		return true
	case 2:
		ret := f.env[nil]
		delete(f.env, nil)
		it.phase = 0
		if ret == nil {
			return true
		}
		r := st.eval(ret)
		if r.isTrue() {
			return true
		}
		if r.isFalse() {
			return end(st)
		}
		other := st.clone()
		if other.assume(r, false) {
			end(other)
			a.push(other)
		}
		return st.assume(r, true)
	}
	a.Undecided(st, "iterator state")
	return false
}

// ---- builtins

func (a *Analysis) builtin(st *State, in *ssa.Call, b *ssa.Builtin, c *ssa.CallCommon) bool {
	f := st.top()
	var args []*Term
	for _, x := range c.Args {
		args = append(args, a.val(st, x))
	}
	I := types.Typ[types.Int]
	var r *Term
	switch b.Name() {
	case "len":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			ver := st.mapVer(args[0])
			if ver == nil {
				ver = mkInt(0)
			}
			r = mkApp("maplen", types.Typ[types.Uint], args[0], ver)
		} else if at, ok := derefType(c.Args[0].Type()).Underlying().(*types.Array); ok {
			r = mkInt(at.Len())
		} else {
			r = mkLen(args[0])
		}
	case "cap":
		r = mkApp("cap", I, args[0])
		st.assume(mkLt(r, mkLen(args[0])), false)
	case "append":
		r = a.appendTo(st, args[0], args[1], c.Args[1].Type(), in)
	case "copy":
		dst, src := args[0], args[1]
		n := mkLen(src)
		ld := mkLen(dst)
		if st.isTrue(mkLt(ld, n)) {
			n = ld
		} else if !st.isFalse(mkLt(ld, n)) {
			// unknown which is shorter: fork
			other := st.clone()
			if other.assume(mkLt(ld, n), true) {
				a.doCopy(other, dst, src, ld, in)
				other.top().env[in] = ld
				other.top().pc++
				a.push(other)
			}
			if !st.assume(mkLt(ld, n), false) {
				return false
			}
			dst, src = a.val(st, c.Args[0]), a.val(st, c.Args[1])
			n = mkLen(src)
		}
		a.doCopy(st, dst, src, n, in)
		r = n
		f = st.top()
	case "delete":
		if a.H.MapUpd != nil {
			a.H.MapUpd(a, st, args[0], args[1], nil, in)
		}
		st.heap[intern("mapver", "", nil, nil, args[0])] = mkSym(I, "mapver")
	case "clear":
		st.havoc(args, false)
	case "recover":
		// recover() returns the current panic value when called by a deferred function
		if f.isDefer && f.unwind && st.panicV != nil {
			r = st.panicV
			st.panicV = nil
			if r.op != "iface" {
				st.assume(mkEq(r, mkNil(r.typ)), false)
			}
		} else {
			r = mkNil(c.Signature().Results().At(0).Type())
		}
	case "print", "println":
	case "ssa:wrapnilchk":
		r = args[0]
	case "min", "max":
		r = mkApp(b.Name(), in.Type(), args...)
		if isInt(in.Type()) {
			for _, x := range args {
				if b.Name() == "min" {
					st.assume(mkLt(x, r), false)
				} else {
					st.assume(mkLt(r, x), false)
				}
			}
		}
	default:
		a.Undecided(st, "builtin %s not modelled", b.Name())
		return false
	}
	if r != nil {
		f.env[in] = r
	}
	f.pc++
	return !st.dead
}

func (a *Analysis) doCopy(st *State, dst, src, n *Term, in ssa.Instruction) {
	if dst.isNil() {
		return
	}
	sq := st.seqOfSlice(src)
	b, lo := sliceParts(dst)
	c := st.content(b)
	I := types.Typ[types.Int]
	mid := mkSubSeq(sq, mkInt(0), n)
	pre := mkSubSeq(c, mkInt(0), lo)
	total := mkLen(b)
	if dst.op == "sl" {
		total = mkAdd(lo, mkLen(dst), I)
	}
	end := mkAdd(lo, n, I)
	var nc *Term
	if l0, ok := lo.constInt(); ok && l0 == 0 && (total == n || st.isTrue(mkEq(total, n))) {
		nc = mid
	} else {
		nc = mkCat(c.typ, pre, mid, intern("sub", "", c.typ, nil, c, end, mkSub(total, end, I)))
	}
	if a.H.Store != nil {
		a.H.Store(a, st, mkIaddr(b, mkApp("copied", I, sq), types.NewPointer(elemType(dst.typ))), sq, in)
	}
	st.setContent(b, nc)
}

func (a *Analysis) appendTo(st *State, s, xs *Term, xt types.Type, in *ssa.Call) *Term {
	I := types.Typ[types.Int]
	styp := in.Type()
	var add *Term
	if isString(xt) {
		add = intern("seqof", "", xt, nil, xs)
		if xs.isConst() {
			var parts []*Term
			for _, c := range []byte(constant.StringVal(xs.val.(constant.Value))) {
				parts = append(parts, mkUnit(mkInt(int64(c)), xt))
			}
			add = mkCat(xt, parts...)
		}
	} else {
		add = st.seqOfSlice(xs)
		// a short known slice becomes units
		if n, ok := mkLen(xs).constInt(); ok && n <= 16 && xs.op == "sl" {
			var parts []*Term
			for i := int64(0); i < n; i++ {
				parts = append(parts, mkUnit(mkSelect(add, mkInt(i), elemType(styp), st), styp))
			}
			if len(parts) == 0 {
				add = intern("cat", "", styp, nil)
			} else {
				add = mkCat(styp, parts...)
			}
		}
	}
	n := seqLen(add)
	var res *Term
	if c, ok := n.constInt(); ok && c == 0 && !s.isNil() {
		res = s
	} else {
		o := mkObj(styp, "app")
		old := st.seqOfSlice(s)
		cat := mkCat(styp, old, add)
		st.heap[contentKey(o)] = cat
		ln := mkAdd(mkLen(s), n, I)
		res = intern("sl", "", styp, nil, o, mkInt(0), ln)
		if s.isNil() && !(func() bool { c, ok := n.constInt(); return ok && c > 0 })() {
			// append(nil, xs...) of unknown length may be nil
			res = intern("sl", "", styp, nil, o, mkInt(0), ln)
		}
		// the result may share memory with s
		if !s.isNil() {
			b, _ := sliceParts(s)
			if !isFresh(rootOf(b)) || st.esc[rootOf(b)] {
				st.esc[o] = true
			}
		}
		// elements become reachable from the result
		if st.esc[o] {
			st.escape(add)
		}
	}
	if a.H.Append != nil {
		a.H.Append(a, st, s, xs, res, in)
	}
	return res
}

func sortedStrings(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

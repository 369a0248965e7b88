package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type dkey struct{ x, y *Term }

type deferred struct {
	fn   *Term // function value (fn/clos/sym) or nil
	bi   *ssa.Builtin
	meth *types.Func
	args []*Term
	in   *ssa.Defer
}

// Frame is one activation.
type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	defers []*deferred
	id     int
	// how to return
	retTo    ssa.Instruction // instruction in the caller frame that awaits the result (nil: ignore)
	isDefer  bool            // this frame runs a deferred call of the frame below
	unwind   bool            // ... while the frame below is panicking
	iter     *iterFrame      // synthetic iterator frame
	onReturn string          // property hook tag
}

// iterFrame models a callee that calls a closure any number of times.
type iterFrame struct {
	name   string
	fn     *Term // callback
	mkArgs func(a *Analysis, st *State) []*Term
	result types.Type // nil none
	phase  int
}

type Trace struct {
	up  *Trace
	pos token.Pos
	msg string
}

type snapKey struct {
	frame  int
	header *ssa.BasicBlock
	sig    string
}

type State struct {
	frames  []*Frame
	heap    map[*Term]*Term // address (obj/faddr chain/global) -> value; base -> content via contentKey
	bools   map[*Term]bool
	dbm     map[dkey]int64
	P       map[string]*Term
	trace   *Trace
	snaps   map[snapKey]*State
	panicV  *Term
	esc     map[*Term]bool // fresh objects that may be known outside
	nframes int
	dead    bool
	visits  map[snapKey]int // loop heads passed without generalising
	inSubst bool            // a substitution is going on
	pend    []pending       // facts to be assumed again after it
}

func newState() *State {
	return &State{heap: map[*Term]*Term{}, bools: map[*Term]bool{}, dbm: map[dkey]int64{},
		P: map[string]*Term{}, snaps: map[snapKey]*State{}, esc: map[*Term]bool{}, visits: map[snapKey]int{}}
}

func (st *State) clone() *State {
	n := &State{panicV: st.panicV, trace: st.trace, nframes: st.nframes}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		c := *f
		c.env = make(map[ssa.Value]*Term, len(f.env))
		for k, v := range f.env {
			c.env[k] = v
		}
		c.defers = append([]*deferred(nil), f.defers...)
		if f.iter != nil {
			it := *f.iter
			c.iter = &it
		}
		n.frames[i] = &c
	}
	n.heap = make(map[*Term]*Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.bools = make(map[*Term]bool, len(st.bools))
	for k, v := range st.bools {
		n.bools[k] = v
	}
	n.dbm = make(map[dkey]int64, len(st.dbm))
	for k, v := range st.dbm {
		n.dbm[k] = v
	}
	n.P = make(map[string]*Term, len(st.P))
	for k, v := range st.P {
		n.P[k] = v
	}
	n.snaps = make(map[snapKey]*State, len(st.snaps))
	for k, v := range st.snaps {
		n.snaps[k] = v
	}
	n.visits = make(map[snapKey]int, len(st.visits))
	for k, v := range st.visits {
		n.visits[k] = v
	}
	n.esc = make(map[*Term]bool, len(st.esc))
	for k, v := range st.esc {
		n.esc[k] = v
	}
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) note(pos token.Pos, format string, args ...any) {
	st.trace = &Trace{up: st.trace, pos: pos, msg: fmt.Sprintf(format, args...)}
}

// ---- facts

func intrinsicNonNeg(t *Term) bool {
	if t == nil {
		return false
	}
	if t.op == "app" && (t.aux == "len" || t.aux == "seqlen" || t.aux == "cap") {
		return true
	}
	return isUnsigned(t.typ)
}

// upper returns the least known k with x - y <= k.
func (st *State) upper(x, y *Term) (int64, bool) { return st.upper1(x, y, true) }

func sameBase(b, t *Term) bool {
	c, _, ok := t.lin()
	return ok && c == b
}

func (st *State) dbmHas(t *Term) bool {
	for d := range st.dbm {
		if d.x == t || d.y == t {
			return true
		}
	}
	return false
}

// sums is false when sums and differences are opaque.
func (st *State) upper1(x, y *Term, sums bool) (int64, bool) {
	if x == y {
		return 0, true
	}
	z := mkInt(0)
	// Bellman-Ford from x following edges u - v <= k (dist to v = bound on x - v).
	dist := map[*Term]int64{x: 0}
	nodes := map[*Term]bool{x: true, y: true, z: true}
	type edge struct {
		u, v *Term
		k    int64
	}
	var edges []edge
	for d, k := range st.dbm {
		edges = append(edges, edge{d.x, d.y, k})
		nodes[d.x] = true
		nodes[d.y] = true
	}
	for n := range nodes {
		if intrinsicNonNeg(n) {
			edges = append(edges, edge{z, n, 0})
		}
		if n.op == "app" && n.aux == "conv:int" || n.op == "app" && n.aux == "conv:uint32" {
			// value preserved only when known to fit; no fact here
			_ = n
		}
	}
	// sums and differences that share a term differ as the rest does
	var ps, ms, ns []*Term
	if sums {
		for n := range nodes {
			if n.isApp("neg") && len(n.args) == 1 && n.args[0].isApp("len") {
				ns = append(ns, n)
			} else if n.isApp("+") && len(n.args) == 2 {
				ps = append(ps, n)
			} else if n.isApp("-") && len(n.args) == 2 {
				ms = append(ms, n)
			}
		}
	}
	if len(ps)+len(ms)+len(ns) > 0 {
		rel := func(u, v, a, b *Term) { // u - v = a - b
			if u == v {
				return
			}
			ba, ca, o1 := a.lin()
			bb, cb, o2 := b.lin()
			if !o1 || !o2 {
				return
			}
			if ba == nil {
				ba = z
			}
			if bb == nil {
				bb = z
			}
			if k, ok := st.upper1(ba, bb, false); ok {
				edges = append(edges, edge{u, v, k + ca - cb})
			}
			if k, ok := st.upper1(bb, ba, false); ok {
				edges = append(edges, edge{v, u, k + cb - ca})
			}
		}
		for i, n := range ps {
			for j, p := range n.args {
				q := n.args[1-j]
				rel(n, p, q, z)
				for _, m := range ps[i+1:] {
					for k := range m.args {
						if m.args[k] == p {
							rel(n, m, q, m.args[1-k])
						}
					}
				}
				for _, m := range ms {
					if m.args[1] == p {
						rel(n, m.args[0], q, m)
					}
				}
			}
		}
		for _, n := range ns {
			rel(n, z, z, n.args[0])
		}
		for i, n := range ms {
			rel(n, z, n.args[0], n.args[1])
			rel(n.args[0], n.args[1], n, z)
			for _, m := range ms[i+1:] {
				if n.args[1] == m.args[1] {
					rel(n, m, n.args[0], m.args[0])
				}
			}
		}
	}
	for i := 0; i <= len(nodes); i++ {
		changed := false
		for _, e := range edges {
			if d, ok := dist[e.u]; ok {
				if c, ok2 := dist[e.v]; !ok2 || d+e.k < c {
					dist[e.v] = d + e.k
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	k, ok := dist[y]
	if ok {
		// strengthen with disequality
		for {
			eq := mkEq(x, mkAddConst(y, k))
			if v, has := st.bools[eq]; has && !v {
				k--
				continue
			}
			break
		}
	}
	return k, ok
}

func (st *State) eval(t *Term) *Term {
	switch t.op {
	case "const":
		return t
	case "not":
		return mkNot(st.eval(t.args[0]))
	case "and":
		return mkAnd(st.eval(t.args[0]), st.eval(t.args[1]))
	case "diff":
		k, _ := strconv.ParseInt(t.aux, 10, 64)
		x, y := t.args[0], t.args[1]
		if u, ok := st.upper(x, y); ok && u < k {
			return mkBool(true)
		}
		if u, ok := st.upper(y, x); ok && u <= -k {
			return mkBool(false)
		}
		return t
	case "eq":
		if v, ok := st.bools[t]; ok {
			return mkBool(v)
		}
		a, b := t.args[0], t.args[1]
		if isInt(a.typ) && isInt(b.typ) {
			ba, ca, ok1 := a.lin()
			bb, cb, ok2 := b.lin()
			if ok1 && ok2 {
				if ba == nil {
					ba = mkInt(0)
				}
				if bb == nil {
					bb = mkInt(0)
				}
				// a==b <=> ba - bb == cb - ca
				d := cb - ca
				u1, o1 := st.upper(ba, bb)
				u2, o2 := st.upper(bb, ba)
				if o1 && u1 < d || o2 && u2 < -d {
					return mkBool(false)
				}
				if o1 && o2 && u1 == d && u2 == -d {
					return mkBool(true)
				}
			}
			if a.op == "select" || b.op == "select" {
				// known to differ under other names
				same := func(x, y *Term) bool {
					if x == y {
						return true
					}
					if x.op != "select" && y.op != "select" {
						return false
					}
					u, ok := st.upper(x, y)
					if !ok || u > 0 {
						return false
					}
					l, ok := st.upper(y, x)
					return ok && l <= 0
				}
				for k, v := range st.bools {
					if !v && k.op == "eq" && k != t && (k.args[0].op == "select" || k.args[1].op == "select") && isInt(k.args[0].typ) {
						if same(a, k.args[0]) && same(b, k.args[1]) || same(a, k.args[1]) && same(b, k.args[0]) {
							return mkBool(false)
						}
					}
				}
			}
			return t
		}
		if a.isNil() {
			a, b = b, a
		}
		if b.isNil() {
			if isIface(a.typ) {
				if impls := sealedImpls(a.typ); impls != nil {
					all := true
					for _, T := range impls {
						if v, ok := st.bools[mkTypeIs(a, T)]; !ok || v {
							all = false
						}
					}
					if all {
						return mkBool(true)
					}
				}
			}
			if a.op == "sl" {
				return st.eval(mkEq(a.args[0], b))
			}
			// a slice, map or string with positive length is not nil
			if a.typ != nil {
				switch a.typ.Underlying().(type) {
				case *types.Slice, *types.Map:
					if st.eval(mkLt(mkInt(0), mkLen(a))).isTrue() {
						return mkBool(false)
					}
				}
			}
		}
		// fresh, unescaped objects are distinct from anything not derived from them
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			o, other := p[0], p[1]
			if o.op == "obj" && !st.esc[o] && (other.op == "sym" || other.op == "select" || other.op == "field" || other.op == "app") {
				return mkBool(false)
			}
		}
		return t
	}
	if v, ok := st.bools[t]; ok {
		return mkBool(v)
	}
	if t.op == "app" && strings.HasPrefix(t.aux, "typeis:") {
		x := t.args[0]
		if x.op == "iface" {
			return mkBool("typeis:"+x.aux == t.aux)
		}
		if x.op != "sym" {
			for k, v := range st.bools {
				if v && k != t && k.op == "app" && k.args[0] == x && strings.HasPrefix(k.aux, "typeis:") {
					return mkBool(false)
				}
			}
		}
		if x.isNil() {
			return mkBool(false)
		}
	}
	return t
}

func mkTypeIs(x *Term, T types.Type) *Term {
	if x.op == "iface" {
		return mkBool(x.aux == typeKey(T))
	}
	if x.isNil() {
		return mkBool(false)
	}
	return intern("app", "typeis:"+typeKey(T), types.Typ[types.Bool], T, x)
}

// assume adds a fact; false when it contradicts what is known.
func (st *State) assume(t *Term, val bool) bool {
	if st.dead {
		return false
	}
	t = st.eval(t)
	if t.isTrue() {
		return val
	}
	if t.isFalse() {
		return !val
	}
	switch t.op {
	case "not":
		return st.assume(t.args[0], !val)
	case "and":
		if val {
			return st.assume(t.args[0], true) && st.assume(st.eval(t.args[1]), true)
		}
		st.bools[t] = false
		return true
	case "diff":
		k, _ := strconv.ParseInt(t.aux, 10, 64)
		x, y := t.args[0], t.args[1]
		if val {
			return st.addDiff(x, y, k-1)
		}
		return st.addDiff(y, x, -k)
	case "eq":
		if val {
			return st.unify(t.args[0], t.args[1], t)
		}
		st.bools[t] = false
		a, b := t.args[0], t.args[1]
		if isInt(a.typ) && isInt(b.typ) {
			return true
		}
		if a.isNil() || b.isNil() {
			x := a
			if a.isNil() {
				x = b
			}
			return st.checkSealed(x)
		}
		return true
	}
	if t.op == "app" && strings.HasPrefix(t.aux, "typeis:") {
		x := t.args[0]
		if val {
			T := t.val.(types.Type)
			if x.op == "sym" {
				return st.substAll(x, mkIface(T, mkSym(T, symHint(x)), x.typ))
			}
			// not a symbol: its value is named by a function of the term
			if !st.assume(mkEq(x, mkNil(x.typ)), false) {
				return false
			}
			st.bools[t] = true
			return true
		}
		st.bools[t] = false
		return st.checkSealed(x)
	}
	st.bools[t] = val
	return true
}

func symHint(x *Term) string {
	if x.op == "sym" {
		return x.hint()
	}
	return ""
}

func (st *State) checkSealed(x *Term) bool {
	if !isIface(x.typ) {
		return true
	}
	impls := sealedImpls(x.typ)
	if impls == nil {
		return true
	}
	if v, ok := st.bools[mkEq(x, mkNil(x.typ))]; !ok || v {
		return true
	}
	for _, T := range impls {
		if v, ok := st.bools[mkTypeIs(x, T)]; !ok || v {
			return true
		}
	}
	return false
}

func (st *State) addDiff(x, y *Term, k int64) bool {
	if u, ok := st.upper(y, x); ok && u+k < 0 {
		return false
	}
	d := dkey{x, y}
	if o, ok := st.dbm[d]; !ok || k < o {
		st.dbm[d] = k
	}
	// forced equality?
	if u2, ok := st.upper(y, x); ok {
		if u1, ok := st.upper(x, y); ok && u1 == -u2 {
			return st.unify(x, mkAddConst(y, u1), nil)
		}
	}
	return true
}

// unify makes a and b equal by substitution.
func (st *State) unify(a, b *Term, atom *Term) bool {
	if a == b {
		return true
	}
	score := func(t *Term) int {
		switch t.op {
		case "sym":
			return 10
		case "select", "field":
			return 8
		case "app":
			if strings.HasPrefix(t.aux, "rowfield:") {
				return 7
			}
			return 6
		case "lin":
			return 4
		case "sl":
			return 3
		}
		return 0
	}
	if isInt(a.typ) {
		if a.op == "lin" {
			c, _ := strconv.ParseInt(a.aux, 10, 64)
			return st.unify(a.args[0], mkAddConst(b, -c), atom)
		}
		if b.op == "lin" && b.args[0].op == "sym" && a.op != "sym" {
			c, _ := strconv.ParseInt(b.aux, 10, 64)
			return st.unify(b.args[0], mkAddConst(a, -c), atom)
		}
	}
	sa, sb := score(a), score(b)
	if sa < sb || (sa == sb && a.op == "sym" && a.id < b.id) {
		a, b = b, a
		sa, sb = sb, sa
	}
	if sa == 0 || contains(b, a) {
		if sb > 0 && !contains(a, b) {
			a, b = b, a
		} else {
			if atom != nil {
				st.bools[atom] = true
			}
			return true
		}
	}
	if !st.substAll(a, b) {
		return false
	}
	if a.op != "sym" {
		// the term may be built again: keep what it equals
		if isInt(a.typ) && isInt(b.typ) {
			ba, ca, ok1 := a.lin()
			bb, cb, ok2 := b.lin()
			if ok1 && ok2 && ba != nil && ba != bb {
				if bb == nil {
					bb = mkInt(0)
				}
				st.dbm[dkey{ba, bb}] = cb - ca
				st.dbm[dkey{bb, ba}] = ca - cb
			}
		} else if e := mkEq(a, b); !e.isConst() {
			st.bools[e] = true
		}
	}
	return true
}

// pending is a fact to be assumed again after a substitution.
type pending struct {
	t   *Term
	val bool
}

// substAll replaces a by b everywhere.
func (st *State) substAll(a, b *Term) bool {
	m := map[*Term]*Term{a: b}
	memo := map[*Term]*Term{}
	s := func(t *Term) *Term { return subst(t, m, memo, nil) }
	for _, f := range st.frames {
		for _, k := range f.order() {
			f.env[k] = s(f.env[k])
		}
		for i, d := range f.defers {
			nd := *d
			nd.fn = s(d.fn)
			nd.args = nil
			for _, x := range d.args {
				nd.args = append(nd.args, s(x))
			}
			f.defers[i] = &nd
		}
		if f.iter != nil {
			f.iter.fn = s(f.iter.fn)
		}
	}
	nh := make(map[*Term]*Term, len(st.heap))
	ks := sortedKeys(st.heap)
	for _, k := range ks {
		nk := s(k)
		v := s(st.heap[k])
		if nk != k {
			if o, ok := st.heap[nk]; ok {
				// two names of one cell: both values hold
				_ = o
				v = s(o)
			}
		} else if _, dup := nh[nk]; dup {
			v = s(st.heap[k])
		}
		nh[nk] = v
	}
	st.heap = nh
	for _, k := range sortedP(st.P) {
		st.P[k] = s(st.P[k])
	}
	if st.panicV != nil {
		st.panicV = s(st.panicV)
	}
	ne := make(map[*Term]bool, len(st.esc))
	for _, k := range sortedBoolKeys(st.esc) {
		ne[s(k)] = true
	}
	st.esc = ne
	ob, od := st.bools, st.dbm
	st.bools = map[*Term]bool{}
	st.dbm = map[dkey]int64{}
	for _, k := range sortedBoolKeys(ob) {
		n := s(k)
		if n == k {
			st.bools[k] = ob[k]
		}
	}
	for i := range st.pend {
		st.pend[i].t = s(st.pend[i].t)
	}
	for _, k := range sortedBoolKeys(ob) {
		if n := s(k); n != k {
			st.pend = append(st.pend, pending{n, ob[k]})
		}
	}
	for _, d := range sortedDiffs(od) {
		k := od[d]
		nx, ny := s(d.x), s(d.y)
		if nx == d.x && ny == d.y {
			if o, has := st.dbm[d]; !has || k < o {
				st.dbm[d] = k
			}
		} else {
			// x - y <= k
			st.pend = append(st.pend, pending{mkLt(nx, mkAddConst(ny, k+1)), true})
		}
	}
	if st.inSubst {
		return true // the outer call goes on with what is pending
	}
	st.inSubst = true
	ok := true
	for len(st.pend) > 0 {
		f := st.pend[0]
		st.pend = st.pend[1:]
		if !st.assume(f.t, f.val) {
			ok = false
		}
	}
	st.inSubst, st.pend = false, nil
	if !ok {
		st.dead = true
	}
	return ok
}

func sortedKeys(m map[*Term]*Term) []*Term {
	ks := make([]*Term, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sortTerms(ks)
	return ks
}

func sortedBoolKeys(m map[*Term]bool) []*Term {
	ks := make([]*Term, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sortTerms(ks)
	return ks
}

func sortedDiffs(m map[dkey]int64) []dkey {
	ks := make([]dkey, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].x != ks[j].x {
			return ks[i].x.id < ks[j].x.id
		}
		return ks[i].y.id < ks[j].y.id
	})
	if shuffle != nil {
		shuffle.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	}
	return ks
}

func sortedP(m map[string]*Term) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if shuffle != nil {
		shuffle.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	}
	return ks
}

// order lists the values known in a frame, in the order of the code.
func (f *Frame) order() []ssa.Value {
	if f.fn == nil {
		return nil
	}
	pos := valuePos(f.fn)
	out := make([]ssa.Value, 0, len(f.env))
	for v := range f.env {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return pos[out[i]] < pos[out[j]] })
	if shuffle != nil {
		shuffle.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	}
	return out
}

// shuffle, when debugging, varies orders that must not matter.
var shuffle = func() *rand.Rand {
	if s, err := strconv.Atoi(os.Getenv("ABSSHUFFLE")); err == nil {
		return rand.New(rand.NewSource(int64(s)))
	}
	return nil
}()

var valuePosOf = map[*ssa.Function]map[ssa.Value]int{}

func valuePos(fn *ssa.Function) map[ssa.Value]int {
	if m, ok := valuePosOf[fn]; ok {
		return m
	}
	m := map[ssa.Value]int{}
	for _, p := range fn.Params {
		m[p] = len(m)
	}
	for _, p := range fn.FreeVars {
		m[p] = len(m)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				m[v] = len(m)
			}
		}
	}
	valuePosOf[fn] = m
	return m
}

// provably reports that t is known to be val.
func (st *State) isTrue(t *Term) bool  { return st.eval(t).isTrue() }
func (st *State) isFalse(t *Term) bool { return st.eval(t).isFalse() }
func (st *State) nonNil(t *Term) bool {
	return st.isFalse(mkEq(t, mkNil(t.typ)))
}

// ---- memory

func contentKey(base *Term) *Term { return intern("content", "", nil, nil, base) }

// rootOf returns the root of an address term.
func rootOf(addr *Term) *Term {
	for addr.op == "faddr" || addr.op == "iaddr" || addr.op == "content" || addr.op == "treever" || addr.op == "mapver" || addr.op == "sharesWith" || addr.op == "bufval" || addr.op == "havoced" || addr.op == "ghost" {
		addr = addr.args[0]
	}
	return addr
}

// isFresh: memory made by the analysed code (a "~fresh" unknown is such an object or nil).
func isFresh(root *Term) bool {
	return root.op == "obj" || root.op == "sym" && root.val == freshMark
}

const freshMark = "~fresh"

// privateBase returns the memory of a pointer or slice that only this state knows.
func (st *State) privateBase(t *Term) (base *Term, ok bool) {
	if t.isNil() {
		return nil, true
	}
	if t.op == "sl" {
		t = t.args[0]
	}
	if isFresh(t) && !st.esc[t] {
		return t, true
	}
	return nil, false
}

func (st *State) isHavoced(root *Term) bool {
	_, ok := st.heap[intern("havoced", "", nil, nil, root)]
	return ok
}

// seqBase gives the content cell base and offset of a slice/array value.
func sliceParts(s *Term) (base, lo *Term) {
	if s.op == "sl" {
		return s.args[0], s.args[1]
	}
	return s, mkInt(0)
}

func (st *State) content(base *Term) *Term {
	k := contentKey(base)
	if c, ok := st.heap[k]; ok {
		return c
	}
	var c *Term
	r := rootOf(base)
	if isFresh(r) && !st.isHavoced(r) {
		c = intern("zeros", "", base.typ, nil)
	} else if r.op == "app" || r.op == "select" || r.op == "sym" || r.op == "field" || r.op == "global" || r.op == "const" || r.op == "obj" {
		if st.isHavoced(r) {
			c = mkSym(base.typ, "content")
		} else {
			c = intern("seqof", "", base.typ, nil, base)
		}
	} else {
		c = mkSym(base.typ, "content")
	}
	st.heap[k] = c
	return c
}

// seqOfSlice returns the current contents of a slice value as a sequence.
func (st *State) seqOfSlice(s *Term) *Term {
	if s.isNil() {
		return intern("cat", "", s.typ, nil)
	}
	if isString(s.typ) {
		return intern("seqof", "", s.typ, nil, s)
	}
	b, lo := sliceParts(s)
	return mkSubSeq(st.content(b), lo, mkLen(s))
}

// metaKey: heap keys that describe an object as a whole rather than a memory cell.
func metaKey(k *Term) bool {
	switch k.op {
	case "havoced", "mapver", "sharesWith", "treever", "bufval", "ghost":
		return true
	}
	return false
}

// mapVer is the version of a map's contents (nil: as at entry).
func (st *State) mapVer(m *Term) *Term {
	k := intern("mapver", "", nil, nil, m)
	if v, ok := st.heap[k]; ok {
		return v
	}
	if st.isHavoced(rootOf(m)) {
		v := mkSym(types.Typ[types.Int], "mapver")
		st.heap[k] = v
		return v
	}
	return nil
}

// hasIaddr reports whether an address goes through an element address.
func hasIaddr(addr *Term) bool {
	for addr.op == "faddr" || addr.op == "iaddr" {
		if addr.op == "iaddr" {
			return true
		}
		addr = addr.args[0]
	}
	return false
}

func (st *State) load(addr *Term, typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		if !hasIaddr(addr) {
			if v, ok := st.heap[addr]; ok {
				return v
			}
			fs := make([]*Term, u.NumFields())
			for i := range fs {
				fs[i] = st.load(mkFaddr(addr, i, types.NewPointer(u.Field(i).Type())), u.Field(i).Type())
			}
			return mkStruct(typ, fs...)
		}
	case *types.Array:
		// whole-array value: snapshot of contents
		return intern("arrval", "", typ, nil, st.content(addr))
	}
	if addr.op == "iaddr" {
		return mkSelect(st.content(addr.args[0]), addr.args[1], typ, st)
	}
	if addr.op == "faddr" && hasIaddr(addr) {
		base := addr.args[0]
		bt := derefType(base.typ)
		v := st.load(base, bt)
		return mkField(v, addr.val.(int))
	}
	if v, ok := st.heap[addr]; ok {
		return v
	}
	r := rootOf(addr)
	var v *Term
	if isFresh(r) && !st.isHavoced(r) {
		v = zeroOf(typ)
	} else if addr.op == "global" {
		v = globalInit(addr, typ)
	} else if fv := globalFieldInit(addr, typ); fv != nil {
		v = fv
	} else {
		v = mkSym(typ, addrHint(addr))
	}
	st.heap[addr] = v
	return v
}

func addrHint(addr *Term) string {
	if addr.op == "faddr" {
		if st, ok := derefType(addr.args[0].typ).Underlying().(*types.Struct); ok {
			return st.Field(addr.val.(int)).Name()
		}
	}
	return symHint(addr)
}

func (st *State) mayAliasRoot(a, b *Term) bool {
	if a == b {
		return true
	}
	if definitelyDistinct(a, b) {
		return false
	}
	if isFresh(a) && isFresh(b) {
		return false
	}
	if isFresh(a) && !st.esc[a] || isFresh(b) && !st.esc[b] {
		return false
	}
	if a.op == "global" && b.op == "global" {
		return false
	}
	if st.isFalse(mkEq(a, b)) {
		return false
	}
	return true
}

// shape of an address below its root, to compare fields.
func fieldPath(addr *Term) string {
	s := ""
	for addr.op == "faddr" || addr.op == "iaddr" || addr.op == "content" || metaKey(addr) {
		if addr.op == "faddr" {
			s = addr.aux + "/" + s
		} else {
			s = addr.op + "/" + s
		}
		addr = addr.args[0]
	}
	return s
}

func (st *State) store(addr, val *Term, typ types.Type) {
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		if !hasIaddr(addr) {
			delete(st.heap, addr)
			for i := 0; i < u.NumFields(); i++ {
				st.store(mkFaddr(addr, i, types.NewPointer(u.Field(i).Type())), mkField(val, i), u.Field(i).Type())
			}
			return
		}
	case *types.Array:
		if val.op == "arrval" {
			st.setContent(addr, val.args[0])
		} else if val.op == "app" && strings.HasPrefix(val.aux, "zeroarray:") {
			st.setContent(addr, intern("zeros", "", typ, nil))
		} else {
			st.setContent(addr, mkSym(typ, "arr"))
		}
		return
	}
	if addr.op == "iaddr" {
		b := addr.args[0]
		c := st.content(b)
		// overwrite of the same index
		for c.op == "store" && c.args[1] == addr.args[1] {
			c = c.args[0]
		}
		st.setContent(b, intern("store", "", c.typ, nil, c, addr.args[1], val))
		return
	}
	if addr.op == "faddr" && hasIaddr(addr) {
		base := addr.args[0]
		bt := derefType(base.typ)
		v := st.load(base, bt)
		sty := bt.Underlying().(*types.Struct)
		fs := make([]*Term, sty.NumFields())
		for i := range fs {
			fs[i] = mkField(v, i)
		}
		fs[addr.val.(int)] = val
		st.store(base, mkStruct(bt, fs...), bt)
		return
	}
	st.invalidate(addr)
	st.heap[addr] = val
	st.escapeVia(addr, val)
}

func (st *State) setContent(base, c *Term) {
	k := contentKey(base)
	st.invalidate(k)
	st.heap[k] = c
	st.escapeVia(base, c)
}

// invalidate forgets cells that may be the same as addr.
func (st *State) invalidate(addr *Term) {
	r := rootOf(addr)
	path := fieldPath(addr)
	for _, k := range sortedKeys(st.heap) {
		if k == addr || metaKey(k) {
			continue
		}
		kr := rootOf(k)
		if kr == r && !strings.Contains(path, "iaddr") {
			continue // same root, different path
		}
		if fieldPath(k) != path && !(addr.op == "content" && k.op == "content") && !pointerRootAlias(addr, k) {
			continue
		}
		if kr == r {
			continue
		}
		if addr.op == "content" && k.op == "content" {
			if !sameElem(addr.args[0], k.args[0]) {
				continue
			}
		}
		if st.mayAliasRoot(r, kr) {
			st.heap[k] = mkSym(st.heap[k].typ, "alias")
		}
	}
}

// a store through a bare pointer (*p = v) may hit a field cell of the same type and vice versa.
func pointerRootAlias(a, k *Term) bool {
	bare := func(t *Term) bool {
		return t.op != "faddr" && t.op != "iaddr" && t.op != "content"
	}
	if bare(a) == bare(k) {
		return bare(a) && types.Identical(a.typ, k.typ)
	}
	if a.typ == nil || k.typ == nil {
		return false
	}
	if isFresh(rootOf(a)) && bare(a) || isFresh(rootOf(k)) && bare(k) {
		return false
	}
	return types.Identical(a.typ, k.typ) && !(a.op == "global" || k.op == "global")
}

func sameElem(a, b *Term) bool {
	ea, eb := elemType(a.typ), elemType(b.typ)
	if ea == nil || eb == nil {
		return true
	}
	return types.Identical(ea, eb)
}

// escapeVia marks objects reachable from val as known outside when addr is.
func (st *State) escapeVia(addr, val *Term) {
	r := rootOf(addr)
	if isFresh(r) && !st.esc[r] {
		return
	}
	st.escape(val)
}

func (st *State) escape(val *Term) {
	work := []*Term{val}
	seen := map[*Term]bool{}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		walkTerm(v, seen, func(t *Term) {
			if isFresh(t) && !st.esc[t] {
				st.esc[t] = true
				for k, hv := range st.heap {
					if rootOf(k) == t {
						work = append(work, hv)
					}
				}
			}
		})
	}
}

// reach collects the memory roots reachable from the terms.
func (st *State) reach(ts []*Term, deep bool) map[*Term]bool {
	roots := map[*Term]bool{}
	seen := map[*Term]bool{}
	work := append([]*Term(nil), ts...)
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		walkTerm(v, seen, func(t *Term) {
			switch t.op {
			case "obj", "sym", "global", "select", "field", "app":
				if !roots[t] {
					roots[t] = true
					if deep {
						for k, hv := range st.heap {
							if rootOf(k) == t {
								work = append(work, hv)
							}
						}
					}
				}
			}
		})
	}
	return roots
}

// havoc forgets everything an unknown callee could change through the arguments.
func (st *State) havoc(args []*Term, wild bool) {
	roots := st.reach(args, true)
	for _, a := range args {
		st.escape(a)
	}
	for _, k := range sortedKeys(st.heap) {
		if k.op == "havoced" || k.op == "ghost" {
			continue
		}
		r := rootOf(k)
		hit := roots[r]
		if !hit && wild {
			hit = !isFresh(r) || st.esc[r]
		}
		if !hit {
			// unknown pointers may alias reachable unknown ones
			if !isFresh(r) && r.op != "global" {
				for x := range roots {
					if !isFresh(x) && x.op != "global" && x.typ != nil && r.typ != nil && types.Identical(x.typ, r.typ) && !st.isFalse(mkEq(x, r)) {
						hit = true
						break
					}
				}
			}
		}
		if hit {
			if immutableGlobal(k) {
				continue
			}
			delete(st.heap, k)
			st.heap[intern("havoced", "", nil, nil, r)] = mkBool(true)
		}
	}
	for _, x := range sortedBoolKeys(roots) {
		if x.op != "global" {
			st.heap[intern("havoced", "", nil, nil, x)] = mkBool(true)
		}
	}
}

// ---- canonical key

func (a *Analysis) stateKey(st *State) string {
	var sb strings.Builder
	num := map[*Term]int{}
	memo := map[*Term]string{}
	var ts func(t *Term) string
	ts = func(t *Term) string {
		if t == nil {
			return "_"
		}
		switch t.op {
		case "sym", "obj":
			n, ok := num[t]
			if !ok {
				n = len(num) + 1
				num[t] = n
			}
			e := ""
			if isFresh(t) && st.esc[t] {
				e = "!"
			}
			if t.val == freshMark {
				e += "f"
			}
			return t.op[:1] + strconv.Itoa(n) + e
		case "const", "global", "fn":
			return "#" + strconv.Itoa(t.id)
		}
		if s, ok := memo[t]; ok {
			return s
		}
		var b strings.Builder
		b.WriteString(t.op)
		if t.aux != "" {
			b.WriteByte(':')
			b.WriteString(t.aux)
		}
		b.WriteByte('(')
		for i, x := range t.args {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(ts(x))
		}
		b.WriteByte(')')
		s := b.String()
		memo[t] = s
		return s
	}
	for _, f := range st.frames {
		if f.fn != nil {
			fmt.Fprintf(&sb, "[%s b%d pc%d %v%v", a.fnID(f.fn), f.block.Index, f.pc, f.isDefer, f.unwind)
			if f.retTo != nil {
				fmt.Fprintf(&sb, " r%d", f.retTo.Pos())
			}
			for _, v := range a.valueOrder(f.fn) {
				if t, ok := f.env[v]; ok {
					sb.WriteByte(' ')
					sb.WriteString(v.Name())
					sb.WriteByte('=')
					sb.WriteString(ts(t))
				}
			}
			for _, d := range f.defers {
				sb.WriteString(" D")
				sb.WriteString(ts(d.fn))
				for _, x := range d.args {
					sb.WriteByte(',')
					sb.WriteString(ts(x))
				}
			}
		} else if f.iter != nil {
			fmt.Fprintf(&sb, "[iter %s %d %s", f.iter.name, f.iter.phase, ts(f.iter.fn))
		}
		sb.WriteByte(']')
	}
	pk := make([]string, 0, len(st.P))
	for k := range st.P {
		pk = append(pk, k)
	}
	sort.Strings(pk)
	for _, k := range pk {
		sb.WriteString(" P:" + k + "=" + ts(st.P[k]))
	}
	if st.panicV != nil {
		sb.WriteString(" panic=" + ts(st.panicV))
	}
	// reachable heap
	done := map[*Term]bool{}
	for {
		type ent struct {
			s string
			k *Term
		}
		var ready []ent
		for k := range st.heap {
			if done[k] {
				continue
			}
			if k.op == "global" || a.keyKnown(k, num) {
				ready = append(ready, ent{ts(k), k})
			}
		}
		if len(ready) == 0 {
			break
		}
		sort.Slice(ready, func(i, j int) bool { return ready[i].s < ready[j].s })
		for _, e := range ready {
			done[e.k] = true
			sb.WriteString(" H:" + e.s + "=" + ts(st.heap[e.k]))
		}
	}
	var fs []string
	for k, v := range st.bools {
		if a.keyKnown(k, num) {
			fs = append(fs, fmt.Sprintf("%s:%v", ts(k), v))
		}
	}
	for d, k := range st.dbm {
		if a.keyKnown(d.x, num) && a.keyKnown(d.y, num) {
			fs = append(fs, fmt.Sprintf("%s-%s<=%d", ts(d.x), ts(d.y), k))
		}
	}
	sort.Strings(fs)
	for _, f := range fs {
		sb.WriteString(" F:" + f)
	}
	return sb.String()
}

// keyKnown reports whether all unknowns of t are numbered.
func (a *Analysis) keyKnown(t *Term, num map[*Term]int) bool {
	ok := true
	walkTerm(t, map[*Term]bool{}, func(x *Term) {
		if x.op == "sym" || x.op == "obj" {
			if _, has := num[x]; !has {
				ok = false
			}
		}
	})
	return ok
}

// reach finds the symbols a state can still mention and the heap cells reachable from them.
func (a *Analysis) reach(st *State) (known func(*Term) bool, done, live map[*Term]bool) {
	live = map[*Term]bool{}
	seen := map[*Term]bool{}
	mark := func(t *Term) {
		walkTerm(t, seen, func(x *Term) {
			if x.op == "sym" || x.op == "obj" {
				live[x] = true
			}
		})
	}
	for _, f := range st.frames {
		for _, v := range f.env {
			mark(v)
		}
		for _, d := range f.defers {
			mark(d.fn)
			for _, x := range d.args {
				mark(x)
			}
		}
		if f.iter != nil {
			mark(f.iter.fn)
		}
	}
	for _, v := range st.P {
		mark(v)
	}
	mark(st.panicV)
	known = func(t *Term) bool {
		ok := true
		walkTerm(t, map[*Term]bool{}, func(x *Term) {
			if (x.op == "sym" || x.op == "obj") && !live[x] {
				ok = false
			}
		})
		return ok
	}
	done = map[*Term]bool{}
	for {
		n := 0
		for k, v := range st.heap {
			if !done[k] && known(k) {
				done[k] = true
				mark(v)
				n++
			}
		}
		if n == 0 {
			break
		}
	}
	return known, done, live
}

// gc drops heap cells and facts about values no longer referenced.
func (a *Analysis) gc(st *State) {
	known, done, live := a.reach(st)
	for k := range st.heap {
		if !done[k] {
			delete(st.heap, k)
		}
	}
	for k := range st.esc {
		if !live[k] {
			delete(st.esc, k)
		}
	}
	for k := range st.bools {
		if !known(k) {
			delete(st.bools, k)
		}
	}
	// close the difference bounds over dead nodes before dropping them
	dead := map[*Term]bool{}
	for d := range st.dbm {
		if !known(d.x) {
			dead[d.x] = true
		}
		if !known(d.y) {
			dead[d.y] = true
		}
	}
	if len(dead) > 0 {
		var nodes []*Term
		ns := map[*Term]bool{mkInt(0): true}
		for d := range st.dbm {
			ns[d.x] = true
			ns[d.y] = true
		}
		for n := range ns {
			if !dead[n] {
				nodes = append(nodes, n)
			}
		}
		sortTerms(nodes)
		nd := map[dkey]int64{}
		for _, x := range nodes {
			for _, y := range nodes {
				if x != y {
					if k, ok := st.upper(x, y); ok && !(intrinsicNonNeg(y) && x == mkInt(0) && k == 0) {
						nd[dkey{x, y}] = k
					}
				}
			}
		}
		st.dbm = nd
	}
}

// ---- generalisation at loop heads

type auCtx struct {
	old, new *State
	wits     []string
	classes  map[string]*auClass
	order    []*auClass
	elems    [][3]*Term // elements of one sequence at different indexes
}

type auClass struct {
	t1, t2 *Term // representative terms (offset removed for integers)
	w      *Term
	ref    int64 // integer classes: w stands for base1 + ref
	isInt  bool
	b1, b2 *Term
	d      int64
	fresh  bool
	p1, p2 *Term // private memory merged by a fresh class
}

func (c *auCtx) au(t1, t2 *Term) *Term {
	if t1 == t2 {
		return t1
	}
	if t1 == nil || t2 == nil {
		return nil
	}
	if isInt(t1.typ) && isInt(t2.typ) {
		b1, c1, ok1 := t1.lin()
		b2, c2, ok2 := t2.lin()
		if ok1 && ok2 {
			id := func(t *Term) int {
				if t == nil {
					return 0
				}
				return t.id
			}
			if b1 != nil && b2 != nil && b1.op == "select" && b2.op == "select" && c1 == c2 && b1.args[0] == b2.args[0] {
				// elements of one sequence: the index is generalised
				w := rebuild(b1, []*Term{b1.args[0], c.au(b1.args[1], b2.args[1])}, nil)
				c.elems = append(c.elems, [3]*Term{b1, b2, w})
				return mkAddConst(w, c1)
			}
			if w := c.offset(b1, b2, c1, c2, t1.typ); w != nil {
				return w
			}
			k := fmt.Sprintf("i%d,%d,%d", id(b1), id(b2), c2-c1)
			cl := c.classes[k]
			if cl == nil {
				cl = &auClass{t1: t1, t2: t2, w: mkSym(t1.typ, "w"), ref: c1, isInt: true, b1: b1, b2: b2, d: c2 - c1}
				c.classes[k] = cl
				c.order = append(c.order, cl)
			}
			return mkAddConst(cl.w, c1-cl.ref)
		}
	}
	if t1.op == t2.op && t1.aux == t2.aux && len(t1.args) == len(t2.args) && len(t1.args) > 0 {
		switch t1.op {
		case "struct", "iface", "tuple", "field", "app", "select", "clos", "unit", "content", "iaddr", "faddr", "seqof", "havoced", "rec":
			args := make([]*Term, len(t1.args))
			for i := range args {
				args[i] = c.au(t1.args[i], t2.args[i])
			}
			if t1.op == "faddr" || t1.op == "iaddr" || t1.op == "content" || t1.op == "havoced" {
				return intern(t1.op, t1.aux, t1.typ, t1.val, args...)
			}
			return rebuild(t1, args, nil)
		}
	}
	k := fmt.Sprintf("t%d,%d", t1.id, t2.id)
	cl := c.classes[k]
	if cl == nil {
		typ := t1.typ
		if t1.isNil() || typ == nil {
			typ = t2.typ
		}
		cl = &auClass{t1: t1, t2: t2}
		if typ != nil && isPointerLike(typ) && !(t1.isNil() && t2.isNil()) {
			p1, ok1 := c.old.privateBase(t1)
			p2, ok2 := c.new.privateBase(t2)
			if ok1 && ok2 && (p1 != nil || p2 != nil) {
				cl.fresh, cl.p1, cl.p2 = true, p1, p2
				if t1.op == "obj" && t2.op == "obj" {
					cl.w = mkObj(typ, "w")
				} else {
					cl.w = intern("sym", strconv.Itoa(mkSym(typ, "").id)+"f", typ, freshMark)
				}
			}
		}
		if cl.w == nil {
			cl.w = mkSym(typ, "w")
		}
		c.classes[k] = cl
		c.order = append(c.order, cl)
	}
	return cl.w
}

// offset generalises witness positions given as distances from one place to such a distance.
func (c *auCtx) offset(b1, b2 *Term, c1, c2 int64, typ types.Type) *Term {
	if b1 == nil || b2 == nil || b1 == b2 || !b1.isApp("+") && !b2.isApp("+") {
		return nil
	}
	for _, n := range c.wits {
		w1, w2 := c.old.P[n], c.new.P[n]
		if w1 == nil || w2 == nil {
			continue
		}
		d1, k1, ok1 := w1.lin()
		d2, k2, ok2 := w2.lin()
		if !ok1 || !ok2 || d1 != b1 || d2 != b2 || k2-k1 != c2-c1 {
			continue
		}
		parts := func(t *Term) [][2]*Term { // a part and the rest
			r := [][2]*Term{{t, mkInt(0)}}
			if t.isApp("+") && len(t.args) == 2 {
				r = append(r, [2]*Term{t.args[0], t.args[1]}, [2]*Term{t.args[1], t.args[0]})
			}
			return r
		}
		for _, p := range parts(b1) {
			for _, q := range parts(b2) {
				if p[0] == q[0] {
					return mkAddConst(mkAdd(p[0], c.au(mkAddConst(p[1], k1), mkAddConst(q[1], k2)), typ), c1-k1)
				}
			}
		}
	}
	return nil
}

// auContent generalises contents, keeping the elements at witness indexes.
func (c *auCtx) auContent(t1, t2 *Term) *Term {
	if t1 == t2 {
		return t1
	}
	r := c.au(t1, t2)
	if t1 == nil || t2 == nil || t1.typ == nil {
		return r
	}
	et := elemType(t1.typ)
	if et == nil {
		return r
	}
	for _, n := range c.wits {
		w1, w2 := c.old.P[n], c.new.P[n]
		if w1 == nil || w2 == nil {
			continue
		}
		v := c.au(mkSelect(t1, w1, et, c.old), mkSelect(t2, w2, et, c.new))
		r = intern("store", "", r.typ, nil, r, c.au(w1, w2), v)
	}
	return r
}

// mergeFresh gives the memory of a merged private object its cells.
func (c *auCtx) mergeFresh(cl *auClass, nh map[*Term]*Term) {
	hav := intern("havoced", "", nil, nil, cl.w)
	if cl.p1 != nil && c.old.isHavoced(cl.p1) || cl.p2 != nil && c.new.isHavoced(cl.p2) {
		nh[hav] = mkBool(true)
	}
	if cl.w.typ == nil {
		return
	}
	switch cl.w.typ.Underlying().(type) {
	case *types.Slice:
		nh[contentKey(cl.w)] = c.auContent(c.old.seqOfSlice(cl.t1), c.new.seqOfSlice(cl.t2))
		return
	}
	keys := map[*Term][2]*Term{}
	add := func(s *State, p *Term, i int) {
		if p == nil {
			return
		}
		for _, k := range sortedKeys(s.heap) {
			v := s.heap[k]
			if k.op == "havoced" || rootOf(k) != p {
				continue
			}
			kw := subst(k, map[*Term]*Term{p: cl.w}, map[*Term]*Term{}, nil)
			e := keys[kw]
			e[i] = v
			keys[kw] = e
		}
	}
	add(c.old, cl.p1, 0)
	add(c.new, cl.p2, 1)
	var ks []*Term
	for k := range keys {
		ks = append(ks, k)
	}
	sortTerms(ks)
	for _, k := range ks {
		e := keys[k]
		for i, p := range []*Term{cl.p1, cl.p2} {
			if e[i] != nil {
				continue
			}
			s := []*State{c.old, c.new}[i]
			if p == nil {
				e[i] = e[1-i] // nil on this side: the cell does not exist
			} else if k.op == "faddr" && k.typ != nil && !s.isHavoced(p) {
				e[i] = zeroOf(derefType(k.typ))
			} else {
				e[i] = mkSym(e[1-i].typ, "j")
			}
		}
		nh[k] = c.au(e[0], e[1])
	}
}

// demote turns merged private objects that are still reachable another way into unknowns.
func (c *auCtx) demote(a *Analysis, j *State) {
	use1, use2 := map[*Term]int{}, map[*Term]int{}
	any := false
	for _, cl := range c.order {
		if cl.fresh {
			any = true
			if cl.p1 != nil {
				use1[cl.p1]++
			}
			if cl.p2 != nil {
				use2[cl.p2]++
			}
		}
	}
	if !any {
		return
	}
	a.gc(j)
	left := map[*Term]bool{}
	seen := map[*Term]bool{}
	look := func(t *Term) {
		walkTerm(t, seen, func(x *Term) {
			if isFresh(x) {
				left[x] = true
			}
		})
	}
	for _, f := range j.frames {
		for _, v := range f.env {
			look(v)
		}
		for _, d := range f.defers {
			look(d.fn)
			for _, x := range d.args {
				look(x)
			}
		}
		if f.iter != nil {
			look(f.iter.fn)
		}
	}
	for _, v := range j.P {
		look(v)
	}
	for _, v := range j.heap {
		look(v)
	}
	look(j.panicV)
	for _, cl := range c.order {
		if !cl.fresh {
			continue
		}
		bad := false
		for i, p := range []*Term{cl.p1, cl.p2} {
			if p == nil || p == cl.w {
				continue
			}
			u := use1
			if i == 1 {
				u = use2
			}
			if left[p] || u[p] > 1 {
				bad = true
			}
		}
		if !bad {
			continue
		}
		cl.fresh = false
		j.esc[cl.w] = true
		w := mkSym(cl.w.typ, "w")
		j.substAll(cl.w, w)
		cl.w = w
		delete(j.esc, cl.w)
	}
}

// sig gives the discrete part of a state that is never merged.
func (a *Analysis) sig(st *State) string {
	var sb strings.Builder
	for _, f := range st.frames {
		if f.fn != nil {
			fmt.Fprintf(&sb, "%d/%d/%d;", f.id, f.block.Index, len(f.defers))
			for _, v := range a.valueOrder(f.fn) {
				if t, ok := f.env[v]; ok && t.isBoolConst() {
					sb.WriteString(v.Name() + "=" + t.String() + " ")
				}
			}
		} else if f.iter != nil {
			fmt.Fprintf(&sb, "%d/it%d;", f.id, f.iter.phase)
		}
	}
	var ps []string
	for k, v := range st.P {
		if strings.HasPrefix(k, "#") || v.isBoolConst() {
			ps = append(ps, k+"="+v.String())
		} else {
			ps = append(ps, k)
		}
	}
	sort.Strings(ps)
	sb.WriteString(strings.Join(ps, ","))
	alike := map[string]bool{}
	for _, k := range sortedKeys(st.heap) {
		if k.op != "havoced" {
			if v := st.heap[k]; v.isBoolConst() {
				if r := rootOf(k); isFresh(r) {
					// allocations of the same place are alike
					if s := fmt.Sprintf("|%s.%s=%v", r.hint(), fieldPath(k), v.isTrue()); !alike[s] {
						alike[s] = true
						sb.WriteString(s)
					}
				} else {
					fmt.Fprintf(&sb, "|%d=%v", k.id, v.isTrue())
				}
			}
		}
	}
	if st.panicV != nil {
		sb.WriteString("!p")
	}
	return sb.String()
}

func (a *Analysis) join(old, nw *State) *State {
	c := &auCtx{old: old, new: nw, wits: a.Wits, classes: map[string]*auClass{}}
	j := nw.clone()
	for i, f := range j.frames {
		of := old.frames[i]
		for _, v := range f.order() {
			t := f.env[v]
			o, ok := of.env[v]
			if !ok {
				delete(f.env, v)
				continue
			}
			f.env[v] = c.au(o, t)
		}
		for k, d := range f.defers {
			nd := *d
			if k < len(of.defers) && of.defers[k].in == d.in && len(of.defers[k].args) == len(d.args) {
				nd.fn = c.au(of.defers[k].fn, d.fn)
				nd.args = nil
				for x := range d.args {
					nd.args = append(nd.args, c.au(of.defers[k].args[x], d.args[x]))
				}
			}
			f.defers[k] = &nd
		}
		if f.iter != nil && of.iter != nil {
			f.iter.fn = c.au(of.iter.fn, f.iter.fn)
		}
	}
	for _, k := range sortedP(j.P) {
		v := j.P[k]
		if o, ok := old.P[k]; ok {
			j.P[k] = c.au(o, v)
		} else {
			delete(j.P, k)
		}
	}
	if j.panicV != nil && old.panicV != nil {
		j.panicV = c.au(old.panicV, j.panicV)
	}
	nh := map[*Term]*Term{}
	for _, k := range sortedKeys(nw.heap) {
		if k.op == "havoced" {
			nh[k] = nw.heap[k]
			continue
		}
		if o, ok := old.heap[k]; ok {
			if k.op == "content" {
				nh[k] = c.auContent(o, nw.heap[k])
			} else {
				nh[k] = c.au(o, nw.heap[k])
			}
		}
	}
	for k := range old.heap {
		if k.op == "havoced" {
			nh[k] = mkBool(true)
		}
	}
	// a cell of a fresh object known only on one side: the other side holds the zero value
	for _, k := range sortedKeys(nw.heap) {
		if _, ok := nh[k]; ok || k.op == "havoced" {
			continue
		}
		r := rootOf(k)
		if isFresh(r) && !old.isHavoced(r) && k.op != "content" && k.typ != nil && a.objKnown(old, r) {
			nh[k] = c.au(zeroOf(derefType(k.typ)), nw.heap[k])
		} else if isFresh(r) {
			nh[k] = mkSym(nw.heap[k].typ, "j")
		}
	}
	for _, k := range sortedKeys(old.heap) {
		if _, ok := nh[k]; ok || k.op == "havoced" {
			continue
		}
		r := rootOf(k)
		if isFresh(r) {
			if !nw.isHavoced(r) && k.op != "content" && k.typ != nil {
				nh[k] = c.au(old.heap[k], zeroOf(derefType(k.typ)))
			} else {
				nh[k] = mkSym(old.heap[k].typ, "j")
			}
		}
	}
	// fields of pointers merged into one unknown
	for i := 0; i < len(c.order); i++ {
		cl := c.order[i]
		if cl.isInt || cl.t1.typ == nil {
			continue
		}
		if cl.fresh {
			c.mergeFresh(cl, nh)
			continue
		}
		if cl.t1.op != "sym" && cl.t1.op != "obj" {
			continue
		}
		for _, k1 := range sortedKeys(old.heap) {
			if k1.op == "havoced" || !contains(k1, cl.t1) || rootOf(k1) != cl.t1 {
				continue
			}
			k2 := subst(k1, map[*Term]*Term{cl.t1: cl.t2}, map[*Term]*Term{}, nil)
			if v2, ok := nw.heap[k2]; ok {
				kw := subst(k1, map[*Term]*Term{cl.t1: cl.w}, map[*Term]*Term{}, nil)
				nh[kw] = c.au(old.heap[k1], v2)
			}
		}
		if old.isHavoced(cl.t1) || nw.isHavoced(cl.t2) {
			nh[intern("havoced", "", nil, nil, cl.w)] = mkBool(true)
		}
	}
	j.heap = nh
	for k := range old.esc {
		j.esc[k] = true
	}
	// merged fresh objects are no longer known to be private
	c.demote(a, j)
	for _, cl := range c.order {
		if cl.fresh {
			continue
		}
		for _, t := range []*Term{cl.t1, cl.t2} {
			walkTerm(t, map[*Term]bool{}, func(x *Term) {
				if isFresh(x) {
					j.escape(x)
				}
			})
		}
	}
	// facts that hold on both sides
	j.bools = map[*Term]bool{}
	j.dbm = map[dkey]int64{}
	cand := func(t *Term) [][2]*Term { // (t2, w)
		out := [][2]*Term{{t, t}}
		for _, cl := range c.order {
			if !cl.isInt && cl.t1 == t {
				out = append(out, [2]*Term{cl.t2, cl.w})
			}
		}
		return out
	}
	syms := func(t *Term) []*Term {
		var out []*Term
		walkTerm(t, map[*Term]bool{}, func(x *Term) {
			for _, cl := range c.order {
				if !cl.isInt && cl.t1 == x {
					out = append(out, x)
					return
				}
			}
		})
		return out
	}
	for _, k := range sortedBoolKeys(old.bools) {
		v := old.bools[k]
		if e := nw.eval(k); e == mkBool(v) {
			j.bools[k] = v
		}
		ss := syms(k)
		if len(ss) == 0 || len(ss) > 2 {
			continue
		}
		for _, s := range ss {
			for _, p := range cand(s)[1:] {
				k2 := subst(k, map[*Term]*Term{s: p[0]}, map[*Term]*Term{}, nil)
				if nw.eval(k2) == mkBool(v) {
					kw := subst(k, map[*Term]*Term{s: p[1]}, map[*Term]*Term{}, nil)
					if !kw.isConst() {
						j.bools[kw] = v
					}
				}
			}
		}
	}
	// nilness
	for _, cl := range c.order {
		if cl.isInt || cl.w.typ == nil {
			continue
		}
		if isIface(cl.w.typ) || isPointerLike(cl.w.typ) {
			n := mkNil(cl.w.typ)
			if old.isFalse(mkEq(cl.t1, n)) && nw.isFalse(mkEq(cl.t2, n)) {
				j.bools[mkEq(cl.w, n)] = false
			}
		}
	}
	// integer bounds between old nodes, classes and zero
	type node struct{ t1, t2, w *Term } // value old: t1, new: t2
	var nodes []node
	nset := map[*Term]bool{}
	addNode := func(t *Term) {
		if !nset[t] {
			nset[t] = true
			nodes = append(nodes, node{t, t, t})
		}
	}
	addNode(mkInt(0))
	for d := range old.dbm {
		addNode(d.x)
		addNode(d.y)
	}
	for d := range nw.dbm {
		addNode(d.x)
		addNode(d.y)
	}
	for _, cl := range c.order {
		if cl.isInt {
			// w = base1 + ref in old; base2 + ref + d in new
			nodes = append(nodes, node{mkLin(cl.b1, cl.ref, cl.w.typ), mkLin(cl.b2, cl.ref+cl.d, cl.w.typ), cl.w})
			// lengths that may bound it
		} else if cl.w.typ != nil {
			switch cl.w.typ.Underlying().(type) {
			case *types.Slice:
				nodes = append(nodes, node{mkLen(cl.t1), mkLen(cl.t2), mkLen(cl.w)})
			}
		}
	}
	for _, e := range c.elems {
		if b, k, ok := e[2].lin(); ok && b == e[2] && k == 0 && !nset[e[2]] {
			nset[e[2]] = true
			nodes = append(nodes, node{e[0], e[1], e[2]})
		}
	}
	dist := map[*Term]bool{}
	// bounds of witness positions, which may be offsets of other nodes
	for _, wk := range a.Wits {
		x, y, w := old.P[wk], nw.P[wk], j.P[wk]
		if x == nil || y == nil || w == nil || nset[w] {
			continue
		}
		if b, k, ok := w.lin(); ok && b != nil && k != 0 {
			nset[w] = true
			nodes = append(nodes, node{x, y, w})
		}
		// and their distances from other nodes
		if b, _, ok := w.lin(); ok && b != nil {
			dist[b] = true
		}
		yb, _, ok := y.lin()
		if !ok || yb == nil {
			continue
		}
		for _, n := range append([]node{}, nodes...) {
			if nb, _, ok := n.t2.lin(); ok && nb != nil && isInt(n.w.typ) {
				if nw.dbmHas(mkApp("-", yb.typ, yb, nb)) {
					if r := mkSub(w, n.w, w.typ); !nset[r] && !r.isConst() {
						nset[r] = true
						nodes = append(nodes, node{mkSub(x, n.t1, x.typ), mkSub(y, n.t2, y.typ), r})
					}
				}
			}
		}
	}
	// symbols of the last iteration only are not related, so that bounds do not creep
	known, _, _ := a.reach(j)
	live := nodes[:0]
	for _, n := range nodes {
		if known(n.w) {
			live = append(live, n)
		}
	}
	nodes = live
	sort.SliceStable(nodes, func(i, k int) bool { return nodes[i].w.id < nodes[k].w.id })
	bound := func(s *State, x, y *Term) (int64, bool) {
		bx, cx, ok1 := x.lin()
		by, cy, ok2 := y.lin()
		if !ok1 || !ok2 {
			return 0, false
		}
		if bx == nil {
			bx = mkInt(0)
		}
		if by == nil {
			by = mkInt(0)
		}
		u, ok := s.upper(bx, by)
		return u + cx - cy, ok
	}
	// bounds are weakened as far as witnesses whose place is known
	weaker := func(x, y *Term, k int64) (int64, bool) {
		for _, wk := range append(append([]string{}, a.Wits...), a.Marks...) {
			w := j.P[wk]
			if w == nil {
				continue
			}
			b, c, ok := w.lin()
			if !ok {
				continue
			}
			if b == nil {
				b = mkInt(0)
			}
			for _, t := range []struct {
				n *Term
				k int64
			}{{y, c - 1}, {y, c}, {x, -c - 1}, {x, -c}} {
				if t.n == b && k <= t.k {
					return t.k, true
				}
			}
		}
		return 0, false
	}
	for _, x := range nodes {
		for _, y := range nodes {
			if bx, _, o := x.w.lin(); x.w == y.w || o && bx != nil && sameBase(bx, y.w) {
				continue
			}
			k1, ok1 := bound(old, x.t1, y.t1)
			if !ok1 {
				continue
			}
			k2, ok2 := bound(nw, x.t2, y.t2)
			if t, ok := weaker(x.w, y.w, k2); ok2 && k2 > k1 && ok {
				k1 = t
			} else if ok2 && k2 > k1 && k2 <= 0 {
				// a weaker bound: -1 and 0 are the only steps taken before giving it up
				k1 = 0
				if k2 < 0 {
					k1 = -1
				}
				if b, _, _ := y.w.lin(); b != nil && b.isApp("-") && dist[b.args[0]] && k2 >= -8 {
					k1 = k2
				}
			}
			if intrinsicNonNeg(y.w) && x.w == mkInt(0) && k1 >= 0 {
				continue
			}
			if ok2 && k2 <= k1 {
				bx, cx, o1 := x.w.lin()
				by, cy, o2 := y.w.lin()
				if !o1 || !o2 {
					continue
				}
				if bx == nil {
					bx = mkInt(0)
				}
				if by == nil {
					by = mkInt(0)
				}
				if o, ok := j.dbm[dkey{bx, by}]; !ok || k1-cx+cy < o {
					j.dbm[dkey{bx, by}] = k1 - cx + cy
				}
			}
		}
	}
	// facts about witnesses, which pairwise generalisation need not find again
	for _, f := range a.Keep {
		x, y := f(old), f(nw)
		if x != nil && y != nil && old.isTrue(x) && nw.isTrue(y) {
			j.assume(f(j), true)
		}
	}
	a.gc(j)
	return j
}

// objKnown reports whether an object exists in a state.
func (a *Analysis) objKnown(st *State, r *Term) bool {
	seen := map[*Term]bool{}
	found := false
	look := func(t *Term) {
		if found || t == nil {
			return
		}
		walkTerm(t, seen, func(x *Term) {
			if x == r {
				found = true
			}
		})
	}
	for _, f := range st.frames {
		for _, v := range f.env {
			look(v)
		}
		for _, d := range f.defers {
			look(d.fn)
			for _, x := range d.args {
				look(x)
			}
		}
		if f.iter != nil {
			look(f.iter.fn)
		}
	}
	for _, v := range st.P {
		look(v)
	}
	look(st.panicV)
	for k, v := range st.heap {
		look(k)
		look(v)
	}
	return found
}

var _ = constant.MakeInt64

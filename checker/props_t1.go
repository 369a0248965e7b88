package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["I01"] = checkI01
	checks["I02"] = checkI02
}

// ---- package-level state and locks

// isInitFn reports whether a function runs only while the package is initialised: an
// initialiser, or an unexported function only ever called by initialisers.
func isInitFn(fn *ssa.Function) bool { return isInitOnly(fn, 0) }

func isInitOnly(fn *ssa.Function, depth int) bool {
	if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
		return true
	}
	if depth > 4 || fn.Object() != nil && fn.Object().Exported() || fn.Signature.Recv() != nil || fn.Pkg == nil {
		return false
	}
	if fn.Parent() != nil {
		return isInitOnly(fn.Parent(), depth+1)
	}
	n := 0
	for _, g := range theProgram.Funcs(relPkg(fn.Pkg.Pkg.Path())) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(fn) {
						continue
					}
					c, ok := in.(*ssa.Call)
					if !ok || c.Call.StaticCallee() != fn || !isInitOnly(g, depth+1) {
						return false
					}
					n++
				}
			}
		}
	}
	return n > 0
}

// paramWritten reports whether a function may change the map given as its i-th argument.
func paramWritten(fn *ssa.Function, i, depth int) bool {
	if fn == nil || len(fn.Blocks) == 0 || i >= len(fn.Params) || depth > 4 {
		return true
	}
	for _, in := range *fn.Params[i].Referrers() {
		switch x := in.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
		case *ssa.MapUpdate:
			return true
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
				if bi.Name() != "len" {
					return true
				}
				continue
			}
			for j, y := range x.Call.Args {
				if y == ssa.Value(fn.Params[i]) && paramWritten(x.Call.StaticCallee(), j, depth+1) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

// globalUsers are the exported functions and methods of a package from which a function that
// refers to one of its package-level variables can be reached.
func globalUsers(p *Program, pkg string) []*ssa.Function {
	uses := map[*ssa.Function]bool{}
	fns := p.Funcs(relPkg(pkg))
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg == fn.Pkg {
						uses[fn] = true
						for q := fn.Parent(); q != nil; q = q.Parent() {
							uses[q] = true
						}
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range fns {
			if uses[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok && uses[g] {
							uses[fn] = true
							changed = true
						}
					}
				}
			}
		}
	}
	var out []*ssa.Function
	for _, fn := range fns {
		if uses[fn] && fn.Object() != nil && fn.Object().Exported() && !isInitFn(fn) {
			out = append(out, fn)
		}
	}
	return out
}

// globalAccess is one access to the contents of a package-level variable.
type globalAccess struct {
	g, entry, what string
	write          bool
	held           map[string]string // lock -> R or W
	pos            token.Position
	trace          []string
}

// globalOf names the package-level variable a value was read from.
func globalOf(st *State, t *Term) string {
	if t == nil {
		return ""
	}
	if v, ok := st.P["from:"+itoa(t.id)]; ok {
		return v.aux
	}
	r := rootOf(t)
	switch {
	case r.op == "global":
		return r.aux
	case r.op == "app" && strings.HasPrefix(r.aux, "gval:"):
		return r.aux[5:]
	}
	if v, ok := st.P["from:"+itoa(r.id)]; ok {
		return v.aux
	}
	return ""
}

func heldLocks(st *State) map[string]string {
	m := map[string]string{}
	for k, v := range st.P {
		if strings.HasPrefix(k, "#held:") && v.isConst() && !v.isNil() {
			if s := constant.StringVal(v.val.(constant.Value)); s != "" {
				m[k[6:]] = s
			}
		}
	}
	return m
}

func lockName(t *Term) string {
	r := rootOf(t)
	n := r.aux
	if r.op != "global" {
		n = r.String()
	}
	for x := t; x.op == "faddr"; x = x.args[0] {
		n += fmt.Sprintf(".%d", x.val)
	}
	return n[strings.LastIndex(n, "/")+1:]
}

// lockEvent models the operations of sync.Mutex and sync.RWMutex; op is "" for other calls.
func lockEvent(c *Call) (mu *Term, op string) {
	n := c.Name()
	if !strings.HasPrefix(n, "sync.Mutex.") && !strings.HasPrefix(n, "sync.RWMutex.") || len(c.Args) == 0 {
		return nil, ""
	}
	switch op = lastDot(n); op {
	case "Lock", "Unlock", "RLock", "RUnlock":
		return c.Args[0], op
	}
	return nil, "?" + op
}

// lockset tracks which locks are held, reports misuse, and records accesses to package-level
// variables with the locks held.
type lockset struct {
	pkg      string
	accesses []globalAccess
	sections int
	acquire  func(a *Analysis, st *State)
	release  func(a *Analysis, st *State, exclusive bool)
	mapget   func(a *Analysis, st *State, g string, m, k *Term, vt types.Type) (*Term, *Term, bool)
	mapupd   func(a *Analysis, st *State, g string, m, k, v *Term)
	quiet    bool
}

func (l *lockset) access(a *Analysis, st *State, g, what string, write bool) {
	if g == "" || !strings.HasPrefix(g, l.pkg+".") {
		return
	}
	l.accesses = append(l.accesses, globalAccess{g: g, entry: a.Entry, what: what, write: write, held: heldLocks(st), pos: a.posOf(st), trace: a.traceOf(st)})
}

func (l *lockset) hooks() *Hooks {
	h := &Hooks{}
	h.Call = func(a *Analysis, st *State, c *Call) ([]Out, bool) {
		mu, op := lockEvent(c)
		if op == "" {
			return nil, false
		}
		if op[0] == '?' {
			a.Undecided(st, "lock operation %s not modelled", op[1:])
			return []Out{{St: st, Ret: freshResult(c.Sig, op)}}, true
		}
		k := "#held:" + lockName(mu)
		held := ""
		if v := st.P[k]; v != nil {
			held = constant.StringVal(v.val.(constant.Value))
		}
		switch op {
		case "Lock", "RLock":
			if held != "" && !l.quiet {
				a.Violate(st, "deadlock:"+a.Entry, "%s is called on a lock this goroutine already holds", op)
				return nil, true
			}
			if hs := heldLocks(st); len(hs) > 0 && held == "" && !l.quiet {
				a.Undecided(st, "two locks held at once")
			}
			st.P[k] = mkStr(map[string]string{"Lock": "W", "RLock": "R"}[op])
			l.sections++
			st.P["sec"] = mkSym(types.Typ[types.Int], "section")
			// other goroutines may have changed everything since
			for _, ck := range sortedKeys(st.heap) {
				if r := rootOf(ck); r.op == "global" && r != rootOf(mu) && strings.HasPrefix(r.aux, l.pkg+".") {
					delete(st.heap, ck)
				}
			}
			for pk := range st.P {
				if strings.HasPrefix(pk, "cur:") {
					delete(st.P, pk)
				}
			}
			if l.acquire != nil {
				l.acquire(a, st)
			}
		case "Unlock", "RUnlock":
			want := map[string]string{"Unlock": "W", "RUnlock": "R"}[op]
			if held != want {
				if !l.quiet {
					a.Violate(st, "unlock:"+a.Entry, "%s is called without the lock being held that way", op)
				}
				return nil, true
			}
			if l.release != nil {
				l.release(a, st, op == "Unlock")
			}
			delete(st.P, k)
			st.P["sec"] = mkSym(types.Typ[types.Int], "section")
		}
		return []Out{{St: st}}, true
	}
	h.Load = func(a *Analysis, st *State, addr, val *Term, in ssa.Instruction) {
		r := rootOf(addr)
		if r.op != "global" {
			l.access(a, st, globalOf(st, addr), "read", false)
			return
		}
		if !isLockType(derefType(addr.typ)) {
			l.access(a, st, r.aux+"#", "read", false)
		}
		switch val.typ.Underlying().(type) {
		case *types.Map, *types.Slice, *types.Pointer:
			if globalOf(st, val) != r.aux {
				st.P["from:"+itoa(val.id)] = r
			}
		}
	}
	h.Store = func(a *Analysis, st *State, addr, val *Term, in ssa.Instruction) {
		if r := rootOf(addr); r.op == "global" {
			l.access(a, st, r.aux+"#", "write", true)
		} else {
			l.access(a, st, globalOf(st, addr), "write", true)
		}
	}
	h.MapUpd = func(a *Analysis, st *State, m, k, v *Term, in ssa.Instruction) {
		g := globalOf(st, m)
		l.access(a, st, g, "write", true)
		if l.mapupd != nil && g != "" {
			l.mapupd(a, st, g, m, k, v)
		}
	}
	h.LookupMap = func(a *Analysis, st *State, m, k *Term, in *ssa.Lookup) (*Term, *Term, bool) {
		g := globalOf(st, m)
		if g == "" {
			return nil, nil, false
		}
		l.access(a, st, g, "read", false)
		vt := in.X.Type().Underlying().(*types.Map).Elem()
		if l.mapget != nil {
			if v, ok, done := l.mapget(a, st, g, m, k, vt); done {
				return v, ok, true
			}
		}
		if !l.mutable(a.P, g) {
			return nil, nil, false
		}
		if w := st.P["cur:"+itoa(m.id)+":"+itoa(k.id)]; w != nil {
			return w, mkBool(true), true
		}
		args := []*Term{m, k}
		if s := st.P["sec"]; s != nil {
			args = append(args, s)
		}
		return mkApp("mapget", vt, args...), mkApp("maphas", types.Typ[types.Bool], args...), true
	}
	h.Instr = func(a *Analysis, st *State, in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Range:
			l.access(a, st, globalOf(st, a.val(st, x.X)), "read", false)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "clear") {
				if _, ok := x.Call.Args[0].Type().Underlying().(*types.Map); ok {
					l.access(a, st, globalOf(st, a.val(st, x.Call.Args[0])), b.Name(), b.Name() == "clear")
				}
			}
		case *ssa.Go:
			a.Undecided(st, "goroutine started")
		}
		return true
	}
	end := func(a *Analysis, st *State, how string) {
		if len(heldLocks(st)) > 0 && !l.quiet {
			a.Violate(st, "held:"+a.Entry+":"+how, "%s ends (%s) while still holding the lock: every later operation blocks", a.Entry, how)
		} else {
			a.R.OK("locks released on exit")
		}
	}
	h.Return = func(a *Analysis, st *State, res []*Term) { end(a, st, "return") }
	h.Panic = func(a *Analysis, st *State, v *Term) { end(a, st, "panic") }
	return h
}

func isLockType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "sync")
}

// mutable reports whether the contents of a package-level variable are written outside
// initialisation, by any function of its package.
func (l *lockset) mutable(p *Program, g string) bool {
	for _, w := range globalWrites(p, l.pkg) {
		if w == g || w == g+"#" {
			return true
		}
	}
	return false
}

var gwCache = map[string][]string{}

// globalWrites lists package-level variables written outside initialisation ("name" for the
// contents of a map, slice or pointee, "name#" for the variable itself).
func globalWrites(p *Program, pkg string) []string {
	if w, ok := gwCache[pkg]; ok {
		return w
	}
	set := map[string]bool{}
	var root func(v ssa.Value, depth int) string
	root = func(v ssa.Value, depth int) string {
		switch x := v.(type) {
		case *ssa.Global:
			return x.Pkg.Pkg.Path() + "." + x.Name() + "#"
		case *ssa.FieldAddr:
			return root(x.X, depth)
		case *ssa.IndexAddr:
			return root(x.X, depth)
		case *ssa.UnOp:
			return strings.TrimSuffix(root(x.X, depth), "#")
		case *ssa.ChangeType:
			return root(x.X, depth)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if depth < 4 {
					if g := root(e, depth+1); g != "" {
						return g
					}
				}
			}
		}
		return ""
	}
	for _, fn := range p.Funcs(relPkg(pkg)) {
		if isInitFn(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					set[root(x.Addr, 0)] = true
				case *ssa.MapUpdate:
					set[root(x.Map, 0)] = true
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						set[root(x.Call.Args[0], 0)] = true
					} else {
						// handed to another function: assume it may be written there
						for i, y := range x.Call.Args {
							if g := root(y, 0); g != "" && !strings.HasSuffix(g, "#") {
								if _, ok := y.Type().Underlying().(*types.Map); ok && paramWritten(x.Call.StaticCallee(), i, 0) {
									set[g] = true
								}
							}
						}
					}
				}
			}
		}
	}
	delete(set, "")
	out := sortedStrings(set)
	gwCache[pkg] = out
	return out
}

// judge decides the accesses recorded: every variable written after initialisation needs one
// lock held at all its accesses, exclusively at the writes.
func (l *lockset) judge(r *Report) {
	byG := map[string][]globalAccess{}
	for _, x := range l.accesses {
		byG[x.g] = append(byG[x.g], x)
	}
	var names []string
	for g := range byG {
		names = append(names, g)
	}
	sort.Strings(names)
	for _, g := range names {
		xs := byG[g]
		written := false
		votes := map[string]int{}
		for _, x := range xs {
			written = written || x.write
			for k := range x.held {
				votes[k]++
			}
		}
		if !written {
			continue
		}
		best := ""
		for _, k := range sortedKeysInt(votes) {
			if votes[k] > votes[best] {
				best = k
			}
		}
		short := strings.TrimSuffix(g[strings.LastIndex(g, ".")+1:], "#")
		for _, x := range xs {
			h := x.held[best]
			if h == "" || best == "" {
				r.Violate("unlocked:"+short+":"+x.entry+":"+x.what, x.pos, x.trace, "%s (reached from %s) of %s, which is changed at run time, without holding the lock that protects it", x.what, x.entry, short)
			} else if x.write && h != "W" {
				r.Violate("shared-write:"+short+":"+x.entry, x.pos, x.trace, "write (reached from %s) to %s while holding its lock only for reading", x.entry, short)
			} else {
				r.OK("access to " + short + " under its lock")
			}
		}
	}
}

func sortedKeysInt(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func typesPkg(p *Program) string {
	if t := p.TypeOf("types", "Identifier"); t != nil {
		return namedOf(t).Obj().Pkg().Path()
	}
	return ""
}

// plainEntry builds the initial state for a function called on unknown data.
func plainEntry(fn *ssa.Function) (*State, []*Term) {
	st := newState()
	args := paramSyms(fn)
	for i, x := range args {
		st.P[fmt.Sprintf("arg%d", i)] = x
	}
	if len(args) > 0 && fn.Signature.Recv() != nil {
		if _, ok := args[0].typ.Underlying().(*types.Pointer); ok {
			st.assume(mkEq(args[0], mkNil(args[0].typ)), false)
		}
	}
	return st, args
}

func checkI01(p *Program, r *Report) {
	r.Rule = "lockset: every access to a package-level variable of package types that is written after initialisation holds one common lock, exclusively for writes, on every path from every exported function; a lock is never acquired twice, released unheld, or left held; a spelling is entered in an identifier table only when it was found absent under the same exclusive hold of the lock"
	r.Assume = []string{"package initialisation runs before any other goroutine", "sync.Mutex and sync.RWMutex provide mutual exclusion"}
	pkg := typesPkg(p)
	if pkg == "" {
		r.Violate("anchor:Identifier", posZero, nil, "types.Identifier not found")
		return
	}
	l := &lockset{pkg: pkg}
	l.mapupd = func(a *Analysis, st *State, g string, m, k, v *Term) {
		mt, ok := m.typ.Underlying().(*types.Map)
		if !ok || !isString(mt.Key()) || !isInt(mt.Elem()) || v == nil {
			return
		}
		args := []*Term{m, k}
		if s := st.P["sec"]; s != nil {
			args = append(args, s)
		}
		if !st.isFalse(mkApp("maphas", types.Typ[types.Bool], args...)) && !st.isTrue(mkEq(v, mkApp("mapget", mt.Elem(), args...))) {
			a.Violate(st, "twice:"+a.Entry, "a spelling is given an identifier without having been found absent while the lock was held exclusively: another goroutine may have entered it")
		} else {
			a.R.OK("spelling entered only when absent")
		}
		st.P["cur:"+itoa(m.id)+":"+itoa(k.id)] = v
	}
	for _, fn := range globalUsers(p, pkg) {
		a := NewAnalysis(p, r, l.hooks(), shortFn(fn))
		r.entries = append(r.entries, a.Entry)
		st, args := plainEntry(fn)
		a.Start(st, fn, args)
		a.Run()
	}
	l.judge(r)
	r.Counts["lock sections"] = l.sections
	r.AtLeast("spelling entered only when absent", 1)
	r.AtLeast("locks released on exit", 4)
	n := 0
	for k := range r.oblig {
		if strings.HasPrefix(k, "access to ") {
			n += r.oblig[k]
		}
	}
	if n < 6 {
		r.Violate("count:accesses", posZero, nil, "only %d accesses to shared identifier tables were analysed", n)
	}
}

func relPkg(pkg string) string { return strings.TrimPrefix(pkg, modulePath+"/") }

func shortFn(fn *ssa.Function) string {
	n := fnName(fn)
	return n[strings.LastIndex(n, "/")+1:]
}

// ---- I02: tables and encoding

// constTable is a map literal with constant keys and values.
type constTable struct {
	g    *ssa.Global
	keys []constant.Value
	vals []constant.Value
	pos  []token.Pos
	done bool // only constants
}

// constTables finds the package-level maps filled by the package initialiser.
func constTables(p *Program, pkg string) map[string]*constTable {
	out := map[string]*constTable{}
	sp := p.SSA[pkg]
	if sp == nil || sp.Func("init") == nil {
		return out
	}
	byMap := map[ssa.Value]*constTable{}
	for _, b := range sp.Func("init").Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				g, ok := x.Addr.(*ssa.Global)
				if m, isMap := x.Val.(*ssa.MakeMap); ok && isMap {
					t := byMap[m]
					if t == nil {
						t = &constTable{done: true}
					}
					t.g = g
					out[g.Pkg.Pkg.Path()+"."+g.Name()] = t
				}
			case *ssa.MapUpdate:
				m, ok := x.Map.(*ssa.MakeMap)
				if !ok {
					continue
				}
				t := byMap[m]
				if t == nil {
					t = &constTable{done: true}
					byMap[m] = t
				}
				k, ok1 := x.Key.(*ssa.Const)
				v, ok2 := x.Value.(*ssa.Const)
				if !ok1 || !ok2 || k.Value == nil || v.Value == nil {
					t.done = false
					continue
				}
				t.keys = append(t.keys, k.Value)
				t.vals = append(t.vals, v.Value)
				t.pos = append(t.pos, x.Pos())
			}
		}
	}
	for _, b := range sp.Func("init").Blocks { // literals stored before they were filled
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.Store); ok {
				if g, ok := x.Addr.(*ssa.Global); ok && byMap[x.Val] != nil {
					byMap[x.Val].g = g
					out[g.Pkg.Pkg.Path()+"."+g.Name()] = byMap[x.Val]
				}
			}
		}
	}
	return out
}

// idTables are the roles of the identifier tables.
type idTables struct {
	pkg      string
	idT      types.Type
	keywords string // spelling -> id, fixed
	ids      string // spelling -> id, grows
	names    string // id -> spelling, grows
	last     string // greatest id handed out
	kw, pre  *constTable
	max      int64
	lemmas   bool
}

func findIDTables(p *Program, r *Report) *idTables {
	t := &idTables{pkg: typesPkg(p), idT: p.TypeOf("types", "Identifier")}
	if t.pkg == "" {
		r.Violate("anchor:Identifier", posZero, nil, "types.Identifier not found")
		return nil
	}
	tabs := constTables(p, t.pkg)
	l := &lockset{pkg: t.pkg}
	names := []string{}
	scope := p.Pkgs[t.pkg].Types.Scope()
	for _, n := range scope.Names() {
		names = append(names, n)
	}
	for _, n := range names {
		v, ok := scope.Lookup(n).(*types.Var)
		if !ok {
			continue
		}
		g := t.pkg + "." + n
		if m, ok := v.Type().Underlying().(*types.Map); ok {
			switch {
			case isString(m.Key()) && types.Identical(m.Elem(), t.idT):
				if l.mutable(p, g) {
					t.ids, t.pre = g, tabs[g]
				} else {
					t.keywords, t.kw = g, tabs[g]
				}
			case types.Identical(m.Key(), t.idT) && isString(m.Elem()):
				t.names = g
			}
		} else if types.Identical(v.Type(), t.idT) && l.mutable(p, g) {
			t.last = g
		}
	}
	if t.ids == "" || t.keywords == "" || t.names == "" || t.kw == nil || t.pre == nil || t.last == "" {
		r.Violate("anchor:tables", posZero, nil, "the identifier tables were not recognised (spellings %q, keywords %q, names %q, last %q)", t.ids, t.keywords, t.names, t.last)
		return nil
	}
	return t
}

func checkI02(p *Program, r *Report) {
	r.Rule = "the predefined identifier and keyword tables are constant, one-to-one, upper case for keywords and normalised for identifiers, and contain every identifier constant; initialisation enters the spelling of every entry and raises the last identifier to the greatest; a new identifier is the successor of the last, entered in both directions in one lock section; ID looks up keywords by upper case only when unquoted and identifiers by the spelling; String gives the spelling; decoding what GobEncode gives for an arbitrary identifier, interpreted over those invariants, gives that identifier"
	r.Assume = []string{"package initialisation runs before any other goroutine; I01 for atomicity of lock sections"}
	t := findIDTables(p, r)
	if t == nil {
		return
	}
	t.checkTables(p, r)
	t.checkInit(p, r)
	t.checkID(p, r)
	t.checkString(p, r)
	t.checkGob(p, r)
	r.AtLeast("predefined entry", 100)
	r.AtLeast("identifier constant in a table", 100)
	r.AtLeast("initial spelling entered", 2)
	r.AtLeast("spelling looked up in the right table", 4)
	r.AtLeast("identifier survives encoding", 2)
	r.AtLeast("String gives the spelling", 1)
	r.AtLeast("new identifier entered in both directions", 1)
}

func (t *idTables) checkTables(p *Program, r *Report) {
	byID := map[string]string{}
	bySp := map[string]bool{}
	maxLen := int64(-1)
	if c, ok := p.Lookup("types", "MaxIdentifier").(*types.Const); ok {
		maxLen, _ = constant.Int64Val(c.Val())
	}
	for _, tab := range []*constTable{t.kw, t.pre} {
		if !tab.done {
			r.ViolateAt("table:constant", tab.g.Pos(), "table %s has entries that are not constants", tab.g.Name())
			return
		}
		for i, k := range tab.keys {
			s, id := constant.StringVal(k), tab.vals[i].ExactString()
			n, _ := constant.Int64Val(tab.vals[i])
			if n > t.max {
				t.max = n
			}
			bad := false
			if o, dup := byID[id]; dup {
				r.ViolateAt("table:id:"+s, tab.pos[i], "predefined identifiers %q and %q have the same number %s", o, s, id)
				bad = true
			}
			if n == 0 && s != "" {
				r.ViolateAt("table:zero:"+s, tab.pos[i], "predefined identifier %q has the number meaning none", s)
				bad = true
			}
			if bySp[s] {
				r.ViolateAt("table:spelling:"+s, tab.pos[i], "two predefined identifiers are spelled %q", s)
				bad = true
			}
			if tab == t.kw && s != strings.ToUpper(s) {
				r.ViolateAt("table:case:"+s, tab.pos[i], "keyword %q is not in upper case and can never be found", s)
				bad = true
			}
			if tab == t.pre && s != strings.ToLower(s) {
				r.ViolateAt("table:case:"+s, tab.pos[i], "predefined identifier %q is not in lower case and can never be found unquoted", s)
				bad = true
			}
			if maxLen >= 0 && int64(len(s)) > maxLen {
				r.ViolateAt("table:length:"+s, tab.pos[i], "predefined identifier %q is longer than identifiers may be", s)
				bad = true
			}
			byID[id], bySp[s] = s, true
			if !bad {
				r.OK("predefined entry")
			}
		}
	}
	// every constant of the identifier type is predefined, and the negative ones are keywords
	scope := p.Pkgs[t.pkg].Types.Scope()
	kwIDs := map[string]bool{}
	for _, v := range t.kw.vals {
		kwIDs[v.ExactString()] = true
	}
	for _, n := range scope.Names() {
		c, ok := scope.Lookup(n).(*types.Const)
		if !ok || !types.Identical(c.Type(), t.idT) {
			continue
		}
		id := c.Val().ExactString()
		v, _ := constant.Int64Val(c.Val())
		switch {
		case c.Exported() && byID[id] == "":
			r.ViolateAt("const:"+n, c.Pos(), "identifier %s has no spelling: it prints as an empty string", n)
		case v < 0 && byID[id] != "" && !kwIDs[id]:
			r.ViolateAt("const:"+n, c.Pos(), "reserved identifier %s is not a keyword", n)
		default:
			r.OK("identifier constant in a table")
		}
	}
}

// checkInit shows that initialisation enters every table entry in names, and that the last
// identifier is at least every one of them.
func (t *idTables) checkInit(p *Program, r *Report) {
	entered := map[string]bool{}
	if nt := constTables(p, t.pkg)[t.names]; nt != nil {
		have := map[string]string{}
		for i, k := range nt.keys {
			have[k.ExactString()] = constant.StringVal(nt.vals[i])
		}
		for g, tab := range map[string]*constTable{t.ids: t.pre, t.keywords: t.kw} {
			all := len(have) > 0
			for i, v := range tab.vals {
				all = all && have[v.ExactString()] == constant.StringVal(tab.keys[i])
			}
			if all {
				entered[g] = true
				r.OK("initial spelling entered")
			}
		}
	}
	var inits []*ssa.Function
	for _, fn := range p.Funcs(relPkg(t.pkg)) {
		if strings.HasPrefix(fn.Name(), "init#") {
			inits = append(inits, fn)
		}
	}
	for _, fn := range inits {
		l := &lockset{pkg: t.pkg, quiet: true}
		h := l.hooks()
		base := *h
		idOf := func(m *Term, k *Term) *Term {
			return mkApp("mapval", m.typ.Underlying().(*types.Map).Elem(), m, k)
		}
		lastCell := func(st *State) *Term {
			for _, k := range sortedKeys(st.heap) {
				if k.op == "global" && k.aux == t.last {
					return st.heap[k]
				}
			}
			return nil
		}
		finish := func(a *Analysis, st *State) {
			k, v := st.P["key"], st.P["val"]
			if k == nil {
				return
			}
			g := st.P["src"].aux
			if st.P["#named"] == nil {
				a.Violate(st, "init:names:"+lastDot(g), "initialisation leaves an entry of %s without its spelling", lastDot(g))
			} else if last := lastCell(st); last == nil || !st.isFalse(mkLt(last, v)) {
				a.Violate(st, "init:last:"+lastDot(g), "after initialisation the last identifier can be smaller than an entry of %s: a new identifier would get its number", lastDot(g))
			} else {
				a.R.OK("initial spelling entered")
				entered[g] = true
			}
			delete(st.P, "key")
			delete(st.P, "val")
			delete(st.P, "src")
			delete(st.P, "#named")
		}
		h.Instr = func(a *Analysis, st *State, in ssa.Instruction) bool {
			if nx, ok := in.(*ssa.Next); ok {
				g := globalOf(st, a.val(st, nx.Iter).args[0])
				if g == t.ids || g == t.keywords {
					finish(a, st)
				}
			}
			if ex, ok := in.(*ssa.Extract); ok && ex.Index > 0 {
				if nx, ok := ex.Tuple.(*ssa.Next); ok {
					it := a.val(st, nx.Iter)
					g := globalOf(st, it.args[0])
					tup := st.top().env[nx]
					if (g == t.ids || g == t.keywords) && tup != nil && st.isTrue(tup.args[0]) {
						st.P["key"], st.P["val"] = tup.args[1], tup.args[2]
						st.P["src"] = intern("app", g, nil, nil)
					}
				}
			}
			return base.Instr(a, st, in)
		}
		h.MapUpd = func(a *Analysis, st *State, m, k, v *Term, in ssa.Instruction) {
			if globalOf(st, m) == t.names && st.P["key"] != nil && v == st.P["key"] {
				if k == st.P["val"] {
					st.P["#named"] = mkBool(true)
				}
			} else if g := globalOf(st, m); g == t.names || g == t.ids {
				a.Undecided(st, "initialisation changes %s in a way that is not understood", lastDot(g))
			}
		}
		h.Store = func(a *Analysis, st *State, addr, val *Term, in ssa.Instruction) {
			if addr.op == "global" && addr.aux == t.last {
				old := st.load(addr, t.idT)
				if !st.isFalse(mkLt(val, old)) {
					a.Violate(st, "init:lower", "initialisation can lower the last identifier")
				}
			}
		}
		h.Return = func(a *Analysis, st *State, res []*Term) { finish(a, st) }
		_ = idOf
		a := NewAnalysis(p, r, h, shortFn(fn))
		a.Start(newState(), fn, nil)
		a.Run()
	}
	for _, g := range []string{t.ids, t.keywords} {
		if !entered[g] {
			r.Violate("init:names:"+lastDot(g), posZero, nil, "nothing enters the spellings of %s", lastDot(g))
		}
	}
}

// is tests whether the normalised spelling that was looked up is what is required.
func normalised(st *State, k, s *Term, lower bool) bool {
	want := s
	if lower {
		want = mkApp("strings.ToLower", types.Typ[types.String], s)
	}
	return prefixOf(k, want)
}

// prefixOf accepts the string itself or a leading part of it.
func prefixOf(k, want *Term) bool {
	if k == want {
		return true
	}
	if k.isApp("tostring") {
		k = k.args[0]
	}
	if k.op == "snap" {
		k = k.args[1]
	}
	switch k.op {
	case "sl":
		n, ok := k.args[1].constInt()
		return ok && n == 0 && k.args[0] == want
	case "seqof":
		return k.args[0] == want
	case "sub":
		n, ok := k.args[1].constInt()
		return ok && n == 0 && k.args[0].op == "seqof" && k.args[0].args[0] == want
	}
	return false
}

// checkID follows ID for an arbitrary spelling.
func (t *idTables) checkID(p *Program, r *Report) {
	fn := p.Func("types", "ID")
	if fn == nil || len(fn.Params) != 2 {
		r.Violate("anchor:ID", posZero, nil, "types.ID not found")
		return
	}
	l := &lockset{pkg: t.pkg}
	l.acquire = func(a *Analysis, st *State) {
		st.P["#miss"] = mkBool(false)
		cell := intern("global", t.last, nil, nil)
		_ = cell
		for _, k := range []string{"new", "newkey", "#fwd", "#back", "last0"} {
			delete(st.P, k)
		}
	}
	l.mapget = func(a *Analysis, st *State, g string, m, k *Term, vt types.Type) (*Term, *Term, bool) {
		s, q := st.P["arg0"], st.P["arg1"]
		upper := mkApp("strings.ToUpper", types.Typ[types.String], s)
		switch g {
		case t.keywords:
			if k != upper && !(k.isApp("strings.ToUpper") && prefixOf(k.args[0], s)) {
				a.Violate(st, "id:keyword-key", "keywords are looked up under something other than the upper case spelling")
			} else if !st.isFalse(q) {
				x := st.clone()
				if x.assume(st.eval(q), true) {
					// harmless unless the result is used; judged on return
					_ = x
				}
			}
			st.P["#kw"] = mkBool(true)
		case t.ids:
			if st.P["cur:"+itoa(m.id)+":"+itoa(k.id)] == nil {
				st.P["key"] = k
			}
		}
		return nil, nil, false
	}
	lastVal := func(st *State) *Term {
		for _, k := range sortedKeys(st.heap) {
			if k.op == "global" && k.aux == t.last {
				return st.heap[k]
			}
		}
		return nil
	}
	l.mapupd = func(a *Analysis, st *State, g string, m, k, v *Term) {
		switch g {
		case t.ids:
			st.P["new"], st.P["newkey"] = v, k
			st.P["cur:"+itoa(m.id)+":"+itoa(k.id)] = v
		case t.names:
			st.P["named"], st.P["namedkey"] = v, k
		case t.keywords:
			a.Violate(st, "id:keywords", "the keyword table is changed")
		}
	}
	l.release = func(a *Analysis, st *State, exclusive bool) {
		n := st.P["new"]
		if n == nil {
			if st.P["named"] != nil {
				a.Violate(st, "id:names-only", "a spelling is entered for a number that no spelling maps to")
			}
			return
		}
		ok := true
		if st.P["namedkey"] != n || st.P["named"] != st.P["newkey"] {
			a.Violate(st, "id:both", "a new identifier is not entered under its number with the spelling it was created for")
			ok = false
		}
		base, c, isLin := n.lin()
		last := lastVal(st)
		if !isLin || base == nil || c < 1 || base != st.P["last0"] {
			a.Violate(st, "id:fresh", "a new identifier's number (%s) is not beyond the last one handed out", n)
			ok = false
		}
		if last == nil || !st.isFalse(mkLt(last, n)) {
			a.Violate(st, "id:last", "the last identifier is not advanced to the new one: the next would get the same number")
			ok = false
		}
		if ok {
			a.R.OK("new identifier entered in both directions")
		}
	}
	h := l.hooks()
	load := h.Load
	h.Load = func(a *Analysis, st *State, addr, val *Term, in ssa.Instruction) {
		if addr.op == "global" && addr.aux == t.last && st.P["last0"] == nil && st.P["new"] == nil {
			st.P["last0"] = val
		}
		load(a, st, addr, val, in)
	}
	h.Return = func(a *Analysis, st *State, res []*Term) {
		s, q := st.P["arg0"], st.P["arg1"]
		v := st.eval(res[0])
		check := func(st *State, quoted bool) {
			v := st.eval(v)
			ok := false
			switch {
			case v.isApp("mapget") && globalOf(st, v.args[0]) == t.keywords:
				ok = !quoted
				if !ok {
					a.Violate(st, "id:quoted-keyword", "a quoted identifier is taken for a keyword")
				}
			default:
				k := st.P["key"]
				if v.isApp("mapget") && globalOf(st, v.args[0]) == t.ids {
					k = v.args[1]
				} else if v == st.P["new"] {
					k = st.P["newkey"]
				} else {
					a.Violate(st, "id:result", "the identifier returned (%s) was neither found nor entered under the spelling", v)
					return
				}
				if !quoted {
					up := st.P["#kw"]
					if up == nil {
						a.Violate(st, "id:keyword-missed", "an unquoted keyword is not recognised")
						return
					}
				}
				if !normalised(st, k, s, !quoted) {
					a.Violate(st, "id:spelling:"+map[bool]string{true: "quoted", false: "unquoted"}[quoted], "the spelling looked up for %s identifiers is %s", map[bool]string{true: "quoted", false: "unquoted"}[quoted], k)
					return
				}
				if max := t.maxLen(p); max >= 0 && !st.isFalse(mkLt(mkInt(max), mkLen(k))) {
					a.Violate(st, "id:length", "a spelling longer than %d bytes is entered: it does not survive encoding", max)
					return
				}
				ok = true
			}
			if ok {
				a.R.OK("spelling looked up in the right table")
			}
		}
		for _, b := range []bool{true, false} {
			x := st.clone()
			if x.assume(x.eval(q), b) {
				check(x, b)
			}
		}
	}
	a := NewAnalysis(p, r, h, "types.ID")
	r.entries = append(r.entries, a.Entry)
	st, args := plainEntry(fn)
	a.Start(st, fn, args)
	a.Run()
}

func (t *idTables) maxLen(p *Program) int64 {
	if c, ok := p.Lookup("types", "MaxIdentifier").(*types.Const); ok {
		n, _ := constant.Int64Val(c.Val())
		return n
	}
	return -1
}

// spell is the spelling of the identifier under study; its entry in names never changes.
func (t *idTables) spell(id *Term) *Term { return mkApp("spelling", types.Typ[types.String], id) }

// invariant answers lookups about the identifier under study.
func (t *idTables) invariant(a *Analysis, st *State, g string, m, k *Term, vt types.Type) (*Term, *Term, bool) {
	id := st.P["id"]
	s := t.spell(id)
	yes := mkBool(true)
	if k.isApp("strings.ToUpper") && st.isTrue(t.isKeyword(id)) && k.args[0] == s {
		k = s // keyword spellings are in upper case
	}
	isKW := t.isKeyword(id)
	switch {
	case g == t.names && k == id:
		return s, yes, true
	case g == t.keywords && k == s:
		// some keyword may have the spelling of an ordinary identifier, but then not its number
		if st.isTrue(isKW) {
			return id, yes, true
		}
		if st.isFalse(isKW) {
			return t.otherKW(id), mkApp("kwspelled", types.Typ[types.Bool], id), true
		}
		return mkApp("kwof", t.idT, id), mkApp("kwspelled", types.Typ[types.Bool], id), true
	case g == t.ids && k == s && st.isFalse(isKW):
		return id, yes, true
	}
	return nil, nil, false
}

func (t *idTables) isKeyword(id *Term) *Term {
	return mkApp("iskeyword", types.Typ[types.Bool], id)
}
func (t *idTables) otherKW(id *Term) *Term { return mkApp("otherkw", t.idT, id) }

// idEntry is the state for an arbitrary valid identifier, a keyword or not.
func (t *idTables) idEntry(p *Program, id *Term, kw bool) *State {
	st := newState()
	st.P["id"] = id
	st.bools[t.isKeyword(id)] = kw
	if kw {
		st.bools[mkApp("kwspelled", types.Typ[types.Bool], id)] = true
	} else {
		// reserved (negative) identifiers are keywords
		st.assume(mkLt(id, mkInt(0)), false)
		st.assume(mkEq(t.otherKW(id), id), false)
	}
	if max := t.maxLen(p); max >= 0 {
		st.assume(mkLt(mkInt(max), mkLen(t.spell(id))), false)
	}
	return st
}

func (t *idTables) checkString(p *Program, r *Report) {
	fn := p.Method(t.idT, "String")
	if fn == nil {
		r.Violate("anchor:String", posZero, nil, "Identifier.String not found")
		return
	}
	for _, kw := range []bool{true, false} {
		l := &lockset{pkg: t.pkg, mapget: t.invariant}
		h := l.hooks()
		id := mkSym(t.idT, "id")
		h.Return = func(a *Analysis, st *State, res []*Term) {
			if v := st.eval(res[0]); v != t.spell(st.P["id"]) {
				a.Violate(st, "string", "String gives %s rather than the spelling of the identifier", v)
			} else {
				a.R.OK("String gives the spelling")
			}
		}
		a := NewAnalysis(p, r, h, "types.Identifier.String")
		a.Start(t.idEntry(p, id, kw), fn, []*Term{id})
		a.Run()
	}
}

func (t *idTables) checkGob(p *Program, r *Report) {
	enc, dec := p.Method(t.idT, "GobEncode"), p.Method(t.idT, "GobDecode")
	if enc == nil || dec == nil {
		r.Violate("anchor:Gob", posZero, nil, "Identifier.GobEncode or GobDecode not found")
		return
	}
	for _, kw := range []bool{true, false} {
		kind := map[bool]string{true: "keyword", false: "ordinary"}[kw]
		id := mkSym(t.idT, "id")
		l := &lockset{pkg: t.pkg, mapget: t.invariant}
		h := l.hooks()
		h.Return = func(a *Analysis, st *State, res []*Term) {
			split(st, res, func(st *State) {
				bytes := res[0]
				seq := st.seqOfSlice(bytes)
				l2 := &lockset{pkg: t.pkg, mapget: t.invariant}
				h2 := l2.hooks()
				val := mkObj(res[0].typ, "val")
				s2 := t.idEntry(p, id, kw)
				for k, v := range st.bools {
					s2.bools[k] = v
				}
				cell := mkObj(types.NewPointer(t.idT), "cell")
				s2.P["cell"] = cell
				s2.heap[contentKey(val)] = seq
				val = intern("sl", "", res[0].typ, nil, val, mkInt(0), seqLen(seq))
				s2.P["val"] = val
				h2.Return = func(a *Analysis, st *State, res []*Term) {
					split(st, res, func(st *State) {
						if v := st.eval(st.load(st.P["cell"], t.idT)); v != st.P["id"] && !st.isTrue(mkEq(v, st.P["id"])) {
							a.Violate(st, "gob:other:"+kind, "the encoding of %s %s identifier decodes to another identifier (%s)", map[bool]string{true: "a", false: "an"}[kw], kind, v)
						} else {
							a.R.OK("identifier survives encoding")
						}
					}, func(st *State) {
						a.Violate(st, "gob:refused:"+kind, "the encoding of %s %s identifier can be refused by the decoder", map[bool]string{true: "a", false: "an"}[kw], kind)
					})
				}
				a2 := NewAnalysis(p, r, h2, "types.Identifier.GobDecode")
				a2.Start(s2, dec, []*Term{cell, val})
				a2.Run()
			}, func(st *State) {
				a.Violate(st, "gob:encode", "encoding an identifier can fail")
			})
		}
		a := NewAnalysis(p, r, h, "types.Identifier.GobEncode")
		r.entries = append(r.entries, a.Entry)
		a.Start(t.idEntry(p, id, kw), enc, []*Term{id})
		a.Run()
	}
}

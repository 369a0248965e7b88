package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["Q03"] = checkQ03
}

func checkQ03(p *Program, r *Report) {
	r.Rule = "name resolution: the session's completion of names is followed for every combination of given and omitted parts; every kind of statement is followed through its own resolution, which must replace each table and schema name it holds by the completed one and nothing else; a session gives the engine only completed names; the defaults change exactly as SET says"
	s := findSession(p, r)
	if s == nil {
		return
	}
	n := &resolving{session: s}
	if !n.find() {
		return
	}
	n.completion()
	for _, k := range s.kinds {
		n.statement(k)
	}
	n.newSession()
	seen := false
	for _, fn := range s.entries() {
		if stmtParam(s, fn) < 0 {
			n.keeps(fn, nil, nil)
			continue
		}
		seen = true
		for _, k := range s.kinds {
			if k.Obj().Name() == "Set" {
				n.keeps(fn, k, n.database)
				n.keeps(fn, k, n.schema)
			}
			n.keeps(fn, k, nil)
		}
	}
	if !seen {
		r.Violate("anchor:Session.Evaluate", posZero, nil, "no operation of a session takes a statement")
	}
	r.AtLeast("name completed", 5)
	r.AtLeast("name of a statement resolved", 9)
	r.AtLeast("names of a statement resolved", 1)
	r.AtLeast("engine given a resolved name", 5)
	r.AtLeast("default set", 2)
	r.AtLeast("defaults kept", 20)
	r.AtLeast("session starts with the defaults given", 1)
}

type resolving struct {
	*session
	tnT, snT, idT    *types.Named
	resolver         *types.Interface
	fDb, fSc         int   // the session's defaults
	database, schema *Term // the variables
}

func (n *resolving) find() bool {
	n.tnT, _ = n.p.TypeOf("types", "TableName").(*types.Named)
	n.snT, _ = n.p.TypeOf("types", "SchemaName").(*types.Named)
	n.idT, _ = n.p.TypeOf("types", "Identifier").(*types.Named)
	if t, ok := n.p.TypeOf("parser/sql", "Resolver").(*types.Named); ok {
		n.resolver, _ = t.Underlying().(*types.Interface)
	}
	sp := n.p.SSA[modulePath+"/types"]
	get := func(name string) *Term {
		if sp == nil {
			return nil
		}
		if c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const); ok {
			return mkConst(c.Val(), c.Type())
		}
		return nil
	}
	n.database, n.schema = get("DATABASE"), get("SCHEMA")
	if n.tnT == nil || n.snT == nil || n.idT == nil || n.resolver == nil || n.database == nil || n.schema == nil {
		n.r.Violate("anchor:names", posZero, nil, "types.TableName, SchemaName or Identifier, sql.Resolver, or the variables DATABASE and SCHEMA not found")
		return false
	}
	return true
}

// completes names the methods of a resolver by the type of name they complete.
func (n *resolving) completes(m *types.Func) *types.Named {
	sig := m.Type().(*types.Signature)
	if sig.Params().Len() != 1 || sig.Results().Len() != 1 || !types.Identical(sig.Params().At(0).Type(), sig.Results().At(0).Type()) {
		return nil
	}
	for _, t := range []*types.Named{n.tnT, n.snT} {
		if types.Identical(sig.Params().At(0).Type(), t) {
			return t
		}
	}
	return nil
}

// completion checks how a session completes names.
func (n *resolving) completion() {
	r := n.r
	n.fDb, n.fSc = -1, -1
	sst := n.sesT.Underlying().(*types.Struct)
	for pass := 0; pass < 2; pass++ {
		for i := 0; i < n.resolver.NumMethods(); i++ {
			m := n.resolver.Method(i)
			t := n.completes(m)
			if t == nil {
				if pass == 0 {
					r.Violate("anchor:Resolver", posZero, nil, "sql.Resolver has a method that completes no name: %s", m.Name())
				}
				continue
			}
			if (pass == 0) != (t == n.tnT) {
				continue
			}
			fn := n.p.Method(types.NewPointer(n.sesT), m.Name())
			if fn == nil {
				r.Violate("anchor:"+m.Name(), posZero, nil, "a session does not implement %s", m.Name())
				continue
			}
			name := shortFn(fn)
			type pc struct{ db, sc bool } // given
			for _, c := range []pc{{false, false}, {false, true}, {true, true}} {
				if t == n.snT && !c.sc {
					continue
				}
				c := c
				var ses, in *Term
				h := &Hooks{Inline: n.inline}
				h.Return = func(a *Analysis, st *State, res []*Term) {
					def := func(i int) *Term { return st.eval(st.load(fieldAddr(ses, i), n.idT)) }
					for i := 0; i < sst.NumFields(); i++ {
						if types.Identical(sst.Field(i).Type(), n.idT) && st.P["f"+itoa(i)] != def(i) {
							a.Violate(st, "defaults:"+name, "completing a name changes the session")
							return
						}
					}
					out := func(f string) *Term { return st.eval(part(t, res[0], f)) }
					given := func(f string) *Term { return st.eval(part(t, in, f)) }
					fail := func(f string) {
						what := "an omitted"
						if f == "Table" || f == "Schema" && c.sc || f == "Database" && c.db {
							what = "a given"
						}
						a.Violate(st, "completed:"+name+":"+f, "%s %s becomes %s", what, strings.ToLower(f), out(f))
					}
					if t == n.tnT && out("Table") != given("Table") {
						fail("Table")
					}
					if c.db && out("Database") != given("Database") {
						fail("Database")
					}
					if c.sc && out("Schema") != given("Schema") {
						fail("Schema")
					}
					find := func(f string, fld *int) {
						for i := 0; i < sst.NumFields(); i++ {
							if types.Identical(sst.Field(i).Type(), n.idT) && out(f) == st.P["f"+itoa(i)] {
								if *fld < 0 {
									*fld = i
								}
								if *fld == i {
									return
								}
							}
						}
						fail(f)
					}
					if !c.db {
						find("Database", &n.fDb)
					}
					if !c.sc {
						find("Schema", &n.fSc)
						if n.fSc == n.fDb {
							fail("Schema")
						}
					}
					r.OK("name completed")
				}
				h.Panic = func(a *Analysis, st *State, v *Term) {
					a.Violate(st, "panic:"+name, "completing a name panics")
				}
				n.run(r, fn, h, func(a *Analysis, st *State, args []*Term) {
					ses = args[0]
					for i := 0; i < sst.NumFields(); i++ {
						if types.Identical(sst.Field(i).Type(), n.idT) {
							st.P["f"+itoa(i)] = st.load(fieldAddr(ses, i), n.idT)
						}
					}
					in = args[1]
					cond := func(f string, given bool) *Term {
						if !given {
							return mkInt(0)
						}
						x := mkSym(n.idT, f)
						st.assume(mkEq(x, mkInt(0)), false)
						return x
					}
					var fs []*Term
					ts := t.Underlying().(*types.Struct)
					for i := 0; i < ts.NumFields(); i++ {
						switch ts.Field(i).Name() {
						case "Database":
							fs = append(fs, cond("db", c.db))
						case "Schema":
							fs = append(fs, cond("schema", c.sc))
						default:
							fs = append(fs, mkField(in, i))
						}
					}
					in = mkStruct(t, fs...)
					args[1] = in
				})
			}
		}
	}
	if n.fDb < 0 || n.fSc < 0 {
		r.Violate("anchor:defaults", posZero, nil, "the session's default database and schema were not found")
	}
}

// nameFields lists the fields of a statement that hold names; list: several of them.
func (n *resolving) nameFields(k *types.Named) map[int]string {
	out := map[int]string{}
	st, ok := k.Underlying().(*types.Struct)
	if !ok {
		return out
	}
	for i := 0; i < st.NumFields(); i++ {
		t := st.Field(i).Type()
		s, isS := t.Underlying().(*types.Slice)
		switch {
		case types.Identical(t, n.tnT), types.Identical(t, n.snT):
			out[i] = "name"
		case isS && (types.Identical(s.Elem(), n.tnT) || types.Identical(s.Elem(), n.snT)):
			out[i] = "names"
		case types.Identical(t, n.stmtT):
			out[i] = "stmt"
		}
	}
	return out
}

// statement checks how a kind of statement resolves its names.
func (n *resolving) statement(k *types.Named) {
	r := n.r
	fn := n.p.Method(types.NewPointer(k), "Resolve")
	if fn == nil || len(fn.Params) != 2 {
		r.Violate("anchor:Resolve:"+k.Obj().Name(), posZero, nil, "%s has no Resolve", k.Obj().Name())
		return
	}
	name := shortFn(fn)
	flds := n.nameFields(k)
	sty, isStruct := k.Underlying().(*types.Struct)
	if !isStruct {
		r.Violate("anchor:Resolve:"+k.Obj().Name(), posZero, nil, "%s is not a structure", k.Obj().Name())
		return
	}
	var o, rsv *Term
	var wits []*witness
	for i, what := range flds {
		if what == "names" {
			wits = append(wits, &witness{name: "el" + itoa(i), match: onBase("f" + itoa(i))})
		}
	}
	h := &Hooks{}
	h.Inline = func(f *ssa.Function) bool { return n.p.IsRepo(f) }
	h.Instr = steps(wits...)
	h.Call = func(a *Analysis, st *State, c *Call) ([]Out, bool) {
		if c.Fn != nil || c.Method == nil {
			return nil, false
		}
		if n.isResolve(c) {
			if st.eval(c.Args[1]) != st.eval(rsv) {
				a.Violate(st, "resolver:"+name, "the names inside are resolved with something else")
			}
			st.P["inner"] = c.Args[0]
			return []Out{{St: st}}, true
		}
		if t := n.completes(c.Method); t != nil && st.eval(c.Args[0]) == st.eval(rsv) {
			return []Out{{St: st, Ret: mkApp("resolved", t, c.Args[1])}}, true
		}
		return nil, false
	}
	h.Return = func(a *Analysis, st *State, res []*Term) {
		for i := 0; i < sty.NumFields(); i++ {
			f := sty.Field(i)
			was, is := st.P["f"+itoa(i)], st.eval(st.load(fieldAddr(o, i), f.Type()))
			bad := ""
			switch flds[i] {
			case "name":
				if is != mkApp("resolved", f.Type(), was) {
					bad = "is not completed exactly once"
				} else {
					r.OK("name of a statement resolved")
				}
			case "names":
				w := st.P["wit:el"+itoa(i)]
				el, old := st.eval(elemAt(st, is, w)), st.P["old"+itoa(i)]
				if is != was && !st.isTrue(mkEq(mkLen(is), mkLen(was))) || el != mkApp("resolved", elemType(f.Type()), old) {
					bad = "does not have every name completed exactly once"
				} else {
					r.OK("names of a statement resolved")
				}
			case "stmt":
				if is != was || st.P["inner"] != was {
					bad = "is not resolved"
				}
			default:
				if is != was {
					bad = "is changed"
				}
			}
			if bad != "" {
				a.Violate(st, "resolve:"+name+":"+f.Name(), "%s of %s %s", f.Name(), k.Obj().Name(), bad)
			}
		}
	}
	h.Panic = func(a *Analysis, st *State, v *Term) { a.Violate(st, "panic:"+name, "%s panics", name) }
	n.run(r, fn, h, func(a *Analysis, st *State, args []*Term) {
		o, rsv = args[0], args[1]
		st.assume(mkEq(rsv, mkNil(rsv.typ)), false)
		j := 0
		for i := 0; i < sty.NumFields(); i++ {
			v := st.load(fieldAddr(o, i), sty.Field(i).Type())
			st.P["f"+itoa(i)] = v
			if flds[i] == "stmt" {
				st.assume(mkEq(v, mkNil(v.typ)), false)
			}
		}
		for i, what := range flds {
			if what != "names" {
				continue
			}
			for _, w := range wits {
				if w.name == "el"+itoa(i) {
					v := st.P["f"+itoa(i)]
					k := w.setup(a, st, mkLen(v))
					st.P["old"+itoa(i)] = elemAt(st, v, k)
				}
			}
			j++
		}
	})
}

// newSession checks the defaults a session starts with.
func (n *resolving) newSession() {
	r := n.r
	for _, fn := range n.p.Funcs("evaluate") {
		fn := fn
		if fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Recv() != nil {
			continue
		}
		res := fn.Signature.Results()
		if res.Len() == 0 || namedOf(derefType(res.At(0).Type())) != n.sesT {
			continue
		}
		var ids []int
		for i, p := range fn.Params {
			if types.Identical(p.Type(), n.idT) {
				ids = append(ids, i)
			}
		}
		if len(ids) != 2 || n.fDb < 0 || n.fSc < 0 {
			r.Violate("anchor:"+shortFn(fn), posZero, nil, "%s does not take a default database and schema", shortFn(fn))
			continue
		}
		h := &upHooks{}
		h.Return = func(a *Analysis, st *State, res []*Term) {
			o := st.eval(res[0])
			for j, f := range []int{n.fDb, n.fSc} {
				if st.eval(st.load(fieldAddr(o, f), n.idT)) != st.P["arg"+itoa(ids[j])] {
					a.Violate(st, "new:"+shortFn(fn), "a session does not start with the defaults given")
					return
				}
			}
			r.OK("session starts with the defaults given")
		}
		n.run(r, fn, n.hooks(h), nil)
	}
}

// keeps checks what an operation of a session does to the defaults, and that statements reach
// the engine with their names resolved.
func (n *resolving) keeps(fn *ssa.Function, kind *types.Named, variable *Term) {
	r := n.r
	if n.fDb < 0 || n.fSc < 0 {
		return
	}
	kn := ""
	var flds map[int]string
	if kind != nil {
		kn = kind.Obj().Name()
		flds = n.nameFields(kind)
	}
	where := shortFn(fn) + ":" + kn
	var ses, o, x *Term
	value := fieldNo2(kind, "Value")
	vari := fieldNo2(kind, "Variable")
	if kn == "Set" && (value < 0 || vari < 0) {
		r.Violate("anchor:Set", posZero, nil, "sql.Set has no variable or no value")
		return
	}
	h := &upHooks{}
	h.extra = func(a *Analysis, st *State, c *Call) ([]Out, bool) {
		if n.isResolve(c) && kind != nil {
			to := st.eval(c.Args[1])
			if c.Args[1].op != "iface" || to.args[0] != ses {
				a.Violate(st, "resolver:"+where, "the names of a statement are not resolved by the session")
				return []Out{{St: st}}, true
			}
			if rc := st.eval(c.Args[0]); rc != x && rc != o {
				return []Out{{St: st}}, true
			}
			if gstr(st, "#resolved") == "" {
				setG(st, "#resolved", "yes")
				for i, what := range flds {
					ft := kind.Underlying().(*types.Struct).Field(i).Type()
					switch what {
					case "name":
						st.store(fieldAddr(o, i), mkApp("resolved", ft, st.load(fieldAddr(o, i), ft)), ft)
					case "names":
						l := st.load(fieldAddr(o, i), ft)
						b, _ := sliceParts(l)
						st.setContent(b, mkSym(b.typ, "resolved"))
					}
				}
			}
			return []Out{{St: st}}, true
		}
		if c.Fn != nil && c.Fn.Pkg == n.p.SSA[modulePath+"/types"] && c.Sig.Results().Len() == 1 && types.Identical(c.Sig.Results().At(0).Type(), n.idT) && len(c.Args) == 2 {
			return []Out{{St: st, Ret: mkApp("ID", n.idT, c.Args...)}}, true
		}
		return n.valueCall(st, c)
	}
	h.before = func(a *Analysis, st *State, ev string, c *Call) {
		if kn == "Set" {
			a.Violate(st, "engine:"+where, "SET calls %s", ev)
			return
		}
		if kind == nil || !strings.HasPrefix(ev, "engine.Transaction") {
			return
		}
		for _, y := range c.Args[1:] {
			y = st.eval(y)
			if y.typ == nil || !types.Identical(y.typ, n.tnT) && !types.Identical(y.typ, n.snT) {
				continue
			}
			if gstr(st, "#resolved") == "" || !resolvedTerm(y) {
				a.Violate(st, "unresolved:"+where, "%s is given a name that was not resolved: %s", ev, y)
				return
			}
			r.OK("engine given a resolved name")
		}
	}
	h.Return = func(a *Analysis, st *State, res []*Term) {
		is := func(i int) *Term { return st.eval(st.load(fieldAddr(ses, i), n.idT)) }
		db, sc := st.P["db"], st.P["sc"]
		okErr := true
		if e := resultError(fn, res); e != nil && kn == "Set" {
			c := st.eval(mkEq(e, mkNil(errType)))
			okErr = variable != nil && c.isTrue() || variable == nil && c.isFalse()
		}
		if variable != nil {
			want := mkApp("ID", n.idT, st.P["value"], mkBool(false))
			if variable == n.database {
				db = want
			} else {
				sc = want
			}
		}
		switch {
		case is(n.fDb) != db || is(n.fSc) != sc:
			a.Violate(st, "defaults:"+where, "the session's default database and schema are not what they should be: %s, %s", is(n.fDb), is(n.fSc))
		case !okErr:
			a.Violate(st, "outcome:"+where, "SET does not report whether there is such a variable")
		case variable != nil:
			r.OK("default set")
		default:
			r.OK("defaults kept")
		}
	}
	n.run(r, fn, n.hooks(h), func(a *Analysis, st *State, args []*Term) {
		ses = args[0]
		st.P["db"] = st.load(fieldAddr(ses, n.fDb), n.idT)
		st.P["sc"] = st.load(fieldAddr(ses, n.fSc), n.idT)
		if kind == nil {
			return
		}
		x, o = n.stmt(st, kind)
		args[stmtParam(n.session, fn)] = x
		if kn != "Set" {
			return
		}
		st.P["value"] = st.load(fieldAddr(o, value), types.Typ[types.String])
		if variable != nil {
			st.store(fieldAddr(o, vari), variable, n.idT)
		} else {
			v := st.load(fieldAddr(o, vari), n.idT)
			st.assume(mkEq(v, n.database), false)
			st.assume(mkEq(v, n.schema), false)
		}
	})
}

func fieldNo2(n *types.Named, name string) int {
	if n == nil {
		return -1
	}
	return fieldNo(n, name)
}

// resolvedTerm reports whether a name is one that was completed.
func resolvedTerm(x *Term) bool {
	hit := false
	walkTerm(x, map[*Term]bool{}, func(y *Term) {
		if y.isApp("resolved") || y.op == "sym" && y.hint() == "resolved" {
			hit = true
		}
	})
	return hit
}

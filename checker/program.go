package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modulePath = "github.com/leftmike/maho"

// Program is the loaded repository.
type Program struct {
	Dir   string
	Fset  *token.FileSet
	Pkgs  map[string]*packages.Package // repo packages by import path
	Prog  *ssa.Program
	SSA   map[string]*ssa.Package
	named []*types.Named // all named types declared in repo packages
	mutG  map[string]bool
	fns   []*ssa.Function
}

var theProgram *Program

func LoadProgram(dir string) (*Program, error) {
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0", "GOSUMDB=off")
	if os.Getenv("GOMODCACHE") == "" {
		env = append(env, "GOMODCACHE=/root/go/pkg/mod")
	}
	if os.Getenv("GOCACHE") == "" {
		env = append(env, "GOCACHE=/root/.cache/go-build")
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env, Fset: fset, Tests: false}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages found in %s", dir)
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modulePath) || p.IllTyped {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{Dir: dir, Fset: fset, Pkgs: map[string]*packages.Package{}, Prog: prog, SSA: map[string]*ssa.Package{}, mutG: map[string]bool{}}
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		sp := prog.Package(pk.Types)
		if sp == nil {
			return
		}
		repo := pk.PkgPath == modulePath || strings.HasPrefix(pk.PkgPath, modulePath+"/")
		switch {
		case repo:
			p.Pkgs[pk.PkgPath] = pk
			p.SSA[pk.PkgPath] = sp
			sp.Build()
		case pk.PkgPath == "slices" || pk.PkgPath == "cmp" || pk.PkgPath == "encoding/binary" || pk.PkgPath == "maps":
			p.SSA[pk.PkgPath] = sp
			sp.Build()
		}
	})
	var paths []string
	for k := range p.Pkgs {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		sc := p.Pkgs[k].Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nm, ok := tn.Type().(*types.Named); ok && nm.TypeParams().Len() == 0 {
					p.named = append(p.named, nm)
				}
			}
		}
	}
	p.findMutableGlobals()
	theProgram = p
	return p, nil
}

func (p *Program) rel(f string) string {
	if r, err := filepath.Rel(p.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		return r
	}
	return f
}

func (p *Program) posStr(pos token.Pos) string {
	q := p.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", p.rel(q.Filename), q.Line)
}

func (p *Program) IsRepo(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return p.Pkgs[fn.Pkg.Pkg.Path()] != nil
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return p.Pkgs[o.Pkg.Pkg.Path()] != nil
	}
	// synthetic wrappers and thunks
	if fn.Synthetic != "" {
		if obj := fn.Object(); obj != nil && obj.Pkg() != nil {
			return p.Pkgs[obj.Pkg().Path()] != nil
		}
	}
	return false
}

// Funcs lists every function of a repo package, with methods and closures.
func (p *Program) Funcs(pkg string) []*ssa.Function {
	sp := p.SSA[modulePath+"/"+pkg]
	if sp == nil {
		return nil
	}
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(p.Prog) {
		if fn.Pkg == sp && len(fn.Blocks) > 0 && (fn.Synthetic == "" || fn.Name() == "init") {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		return out[i].Pos() < out[j].Pos() || out[i].Pos() == out[j].Pos() && out[i].String() < out[j].String()
	})
	return out
}

func (p *Program) Func(pkg, name string) *ssa.Function {
	sp := p.SSA[modulePath+"/"+pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// Method finds the method of a concrete named type (pointer receiver set).
func (p *Program) Method(T types.Type, name string) *ssa.Function {
	for _, t := range []types.Type{T, types.NewPointer(T)} {
		ms := p.Prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return p.Prog.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

// Lookup finds a package-level object.
func (p *Program) Lookup(pkg, name string) types.Object {
	pk := p.Pkgs[modulePath+"/"+pkg]
	if pk == nil {
		return nil
	}
	return pk.Types.Scope().Lookup(name)
}

func (p *Program) TypeOf(pkg, name string) types.Type {
	o := p.Lookup(pkg, name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// Impl returns the concrete type of pkg that implements the interface, preferring pointers.
func (p *Program) Impls(pkg string, iface types.Type) []types.Type {
	it := iface.Underlying().(*types.Interface)
	var out []types.Type
	for _, n := range p.named {
		if n.Obj().Pkg().Path() != modulePath+"/"+pkg {
			continue
		}
		if _, ok := n.Underlying().(*types.Interface); ok {
			continue
		}
		if types.Implements(n, it) {
			out = append(out, n)
		} else if types.Implements(types.NewPointer(n), it) {
			out = append(out, types.NewPointer(n))
		}
	}
	return out
}

var sealedCache = map[string][]types.Type{}

// sealedImpls lists the implementations of a repo interface with unexported methods.
func sealedImpls(t types.Type) []types.Type {
	k := typeKey(t)
	if r, ok := sealedCache[k]; ok {
		return r
	}
	var out []types.Type
	it := t.Underlying().(*types.Interface)
	sealed := false
	for i := 0; i < it.NumMethods(); i++ {
		if !it.Method(i).Exported() {
			sealed = true
		}
	}
	if sealed && theProgram != nil {
		for _, n := range theProgram.named {
			if _, ok := n.Underlying().(*types.Interface); ok {
				continue
			}
			if types.Implements(n, it) {
				out = append(out, n)
				// the pointer type implements it too, but no pointers are made: see checkNoPointerValues
			} else if types.Implements(types.NewPointer(n), it) {
				out = append(out, types.NewPointer(n))
			}
		}
	}
	sealedCache[k] = out
	return out
}

// findMutableGlobals finds package-level variables of the repo stored to, or whose address
// is used other than for loading, outside initialisers.
func (p *Program) findMutableGlobals() {
	for fn := range ssautil.AllFunctions(p.Prog) {
		if !p.IsRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if x.Addr == g && fn.Synthetic != "" && fn.Name() == "init" {
							continue
						}
					case *ssa.FieldAddr, *ssa.IndexAddr:
						// reading a field or element: check its uses
						onlyLoads := true
						for _, r := range *in.(ssa.Value).Referrers() {
							if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
								if st, ok := r.(*ssa.Store); ok && st.Addr == in.(ssa.Value) && fn.Synthetic != "" && fn.Name() == "init" {
									continue
								}
								onlyLoads = false
							}
						}
						if onlyLoads {
							continue
						}
					}
					if fn.Synthetic != "" && fn.Name() == "init" {
						continue
					}
					p.mutG[g.Pkg.Pkg.Path()+"."+g.Name()] = true
				}
			}
		}
	}
}

func globalMutable(addr *Term) bool {
	return theProgram.mutG[addr.aux]
}

// globalInit gives the initial value of a package-level variable.
func globalInit(addr *Term, typ types.Type) *Term {
	g, _ := addr.val.(*ssa.Global)
	if g == nil || globalMutable(addr) {
		return mkSym(typ, addr.aux[strings.LastIndex(addr.aux, ".")+1:])
	}
	if isIface(typ) && types.Identical(typ, types.Universe.Lookup("error").Type()) {
		return mkIface(types.NewPointer(types.Typ[types.Int]), intern("global", "errobj:"+addr.aux, nil, nil), typ)
	}
	return intern("app", "gval:"+addr.aux, typ, g)
}

// globalFieldInit gives the initial value of a field of an unchanging package-level variable.
func globalFieldInit(addr *Term, typ types.Type) *Term {
	if addr.op != "faddr" || addr.args[0].op != "global" || globalMutable(addr.args[0]) {
		return nil
	}
	g, _ := addr.args[0].val.(*ssa.Global)
	i, ok := addr.val.(int)
	if g == nil || !ok {
		return nil
	}
	var init *ssa.Function
	if g.Pkg != nil {
		init = g.Pkg.Func("init")
	}
	if init != nil {
		n, whole := 0, false
		var c *ssa.Const
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				w, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if w.Addr == ssa.Value(g) {
					whole = true
				}
				if fa, ok := w.Addr.(*ssa.FieldAddr); ok && fa.X == ssa.Value(g) && fa.Field == i {
					n++
					c, _ = w.Val.(*ssa.Const)
				}
			}
		}
		if !whole && n == 0 {
			return zeroOf(typ)
		}
		if !whole && n == 1 && c != nil && c.Value != nil {
			return mkConst(c.Value, c.Type())
		}
	}
	return mkField(globalInit(addr.args[0], derefType(addr.args[0].typ)), i)
}

func immutableGlobal(k *Term) bool {
	r := rootOf(k)
	if r.op == "global" {
		return !globalMutable(r)
	}
	if r.op == "app" && strings.HasPrefix(r.aux, "gval:") {
		return true
	}
	return false
}

// DeclOf finds the syntax of a function.
func (p *Program) DeclOf(fn *ssa.Function) ast.Node { return fn.Syntax() }

// lookupMethod finds the method of a dynamic type; nil when it has none.
func (p *Program) lookupMethod(T types.Type, m *types.Func) *ssa.Function {
	if p.Prog.MethodSets.MethodSet(T).Lookup(m.Pkg(), m.Name()) == nil {
		return nil
	}
	return p.Prog.LookupMethod(T, m.Pkg(), m.Name())
}

var readOnlyMemo = map[*ssa.Function]bool{}

// readOnly reports whether a function certainly changes no memory that existed before it was
// called: it stores only into its own variables and calls only functions like itself.
func (p *Program) readOnly(fn *ssa.Function) bool {
	if r, ok := readOnlyMemo[fn]; ok {
		return r
	}
	readOnlyMemo[fn] = false // recursion
	r := len(fn.Blocks) > 0
	own := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.Slice:
				v = x.X
			case *ssa.Alloc, *ssa.MakeSlice:
				return true
			default:
				return false
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !own(x.Addr) {
					r = false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.MakeClosure, *ssa.Select:
				r = false
			case *ssa.Call:
				cc := x.Common()
				if b, ok := cc.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "copy", "delete", "clear", "close", "recover":
						r = false
					case "append":
						switch cc.Args[0].(type) {
						case *ssa.Parameter, *ssa.UnOp, *ssa.Field, *ssa.Slice:
							r = false // may write into the spare capacity
						}
					}
					continue
				}
				f := cc.StaticCallee()
				if f == nil || !(pureStd[fnName(f)] || fnName(f) == "fmt.Errorf" || fnName(f) == "errors.New" || p.readOnly(f)) {
					r = false
				}
			}
		}
	}
	readOnlyMemo[fn] = r
	return r
}

package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// tabEnt is an entry of a constant table.
type tabEnt struct {
	key    constant.Value
	val    constant.Value         // nil for structures
	fields map[int]constant.Value // of a structure
}

// fixedTable finds the entries of a package-level map, slice or array that never changes after the
// initialisation of its package. The second result says why there is none.
func fixedTable(p *Program, g *ssa.Global) ([]tabEnt, string) {
	return fixedTab(p, g, map[*ssa.Global]bool{})
}

func constOf(v ssa.Value) constant.Value {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return constant.MakeInt64(0)
			}
			return nil
		}
		return v.Value
	case *ssa.Convert:
		return constOf(v.X)
	case *ssa.ChangeType:
		return constOf(v.X)
	}
	return nil
}

// structOf gives the constant fields of a structure stored in a temporary.
func structOf(v ssa.Value) map[int]constant.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	return structAt(u.X)
}

func structAt(addr ssa.Value) map[int]constant.Value {
	st, ok := derefType(addr.Type()).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	m := map[int]constant.Value{}
	for i := 0; i < st.NumFields(); i++ {
		switch b, ok := st.Field(i).Type().Underlying().(*types.Basic); {
		case !ok:
		case b.Info()&types.IsBoolean != 0:
			m[i] = constant.MakeBool(false)
		case b.Info()&types.IsString != 0:
			m[i] = constant.MakeString("")
		case b.Info()&types.IsNumeric != 0:
			m[i] = constant.MakeInt64(0)
		}
	}
	for _, r := range *addr.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		for _, w := range *fa.Referrers() {
			if s, ok := w.(*ssa.Store); ok && s.Addr == ssa.Value(fa) {
				if c := constOf(s.Val); c != nil {
					m[fa.Field] = c
				} else {
					delete(m, fa.Field)
				}
			}
		}
	}
	return m
}

func fixedTab(p *Program, g *ssa.Global, busy map[*ssa.Global]bool) ([]tabEnt, string) {
	if busy[g] {
		return nil, "its initialisation is circular"
	}
	busy[g] = true
	defer delete(busy, g)
	var out []tabEnt
	add := func(k constant.Value, v ssa.Value) string {
		e := tabEnt{key: k, val: constOf(v)}
		if e.val == nil {
			if e.fields = structOf(v); e.fields == nil {
				return "an entry is not constant"
			}
		}
		for i := range out {
			if out[i].key.ExactString() == k.ExactString() {
				out[i] = e
				return ""
			}
		}
		out = append(out, e)
		return ""
	}
	// index looks at what is done to an element
	index := func(r *ssa.IndexAddr, inInit bool) string {
		for _, q := range *r.Referrers() {
			if s, ok := q.(*ssa.Store); ok && s.Addr == ssa.Value(r) {
				k := constOf(r.Index)
				if !inInit || k == nil {
					return "an element is written"
				}
				if w := add(k, s.Val); w != "" {
					return w
				}
			} else if u, ok := q.(*ssa.UnOp); ok && u.Op == token.MUL {
			} else if fa, ok := q.(*ssa.FieldAddr); ok && inInit && constOf(r.Index) != nil {
				_ = fa
				out = append(out, tabEnt{key: constOf(r.Index), fields: structAt(r)})
			} else if _, ok := q.(*ssa.DebugRef); !ok {
				return "the address of an element is taken"
			}
		}
		return ""
	}
	// uses looks at what is done to a value holding the table
	var uses func(v ssa.Value, inInit bool) string
	uses = func(v ssa.Value, inInit bool) string {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
			case *ssa.Store:
				if r.Val == v && r.Addr != ssa.Value(g) {
					return "it is stored elsewhere"
				}
			case *ssa.Slice:
				if w := uses(r, inInit); w != "" {
					return w
				}
			case *ssa.Call:
				if b, ok := r.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "cap" {
					return "it is passed on"
				}
			case *ssa.IndexAddr:
				if w := index(r, inInit); w != "" {
					return w
				}
			case *ssa.Index:
			case *ssa.MapUpdate:
				if !inInit {
					return "it is updated outside of the initialisation"
				}
				if k := constOf(r.Key); k != nil {
					if w := add(k, r.Value); w != "" {
						return w
					}
					break
				}
				// a loop over another table
				from := func(x ssa.Value) (*ssa.Global, int, *ssa.Next) {
					e, ok := x.(*ssa.Extract)
					if !ok {
						return nil, 0, nil
					}
					n, ok := e.Tuple.(*ssa.Next)
					if !ok {
						return nil, 0, nil
					}
					rg, ok := n.Iter.(*ssa.Range)
					if !ok {
						return nil, 0, nil
					}
					u, ok := rg.X.(*ssa.UnOp)
					if !ok || u.Op != token.MUL {
						return nil, 0, nil
					}
					og, _ := u.X.(*ssa.Global)
					return og, e.Index, n
				}
				kg, ki, kn := from(r.Key)
				vg, vi, _ := from(r.Value)
				vc := constOf(r.Value)
				if kg == nil || vc == nil && vg != kg || len(r.Block().Preds) != 1 || r.Block().Preds[0] != kn.Block() {
					return "an entry is made of something that is not constant"
				}
				src, w := fixedTab(p, kg, busy)
				if w != "" {
					return "it is made of a table that is not constant: " + w
				}
				pick := func(e tabEnt, i int) constant.Value {
					if i == 1 {
						return e.key
					}
					return e.val
				}
				for _, e := range src {
					n := tabEnt{key: pick(e, ki), val: vc}
					if vc == nil {
						n.val = pick(e, vi)
					}
					if n.key == nil || n.val == nil {
						return "an entry is made of something that is not constant"
					}
					for _, o := range out {
						if o.key.ExactString() == n.key.ExactString() {
							return fmt.Sprintf("there are two entries for %s", n.key)
						}
					}
					out = append(out, n)
				}
			default:
				return fmt.Sprintf("it is used in a way that is not understood (%T)", r)
			}
		}
		return ""
	}
	var why string
	stores := 0
	for _, fn := range p.repoFns() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op != ssa.Value(g) {
						continue
					}
					switch in := in.(type) {
					case *ssa.UnOp:
						if w := uses(in, isInitFn(fn)); w != "" && why == "" {
							why = w
						}
					case *ssa.Store:
						stores++
						if !isInitFn(fn) || in.Addr != ssa.Value(g) {
							why = "it is assigned outside of the initialisation"
							break
						}
						switch v := in.Val.(type) {
						case *ssa.MakeMap:
							if w := uses(v, true); w != "" && why == "" {
								why = w
							}
						case *ssa.Slice:
							if w := uses(v.X, true); w != "" && why == "" {
								why = w
							}
						default:
							why = "its initial value is not understood"
						}
					case *ssa.IndexAddr:
						// an array
						if w := index(in, isInitFn(fn)); w != "" && why == "" {
							why = w
						}
					case *ssa.DebugRef:
					default:
						why = fmt.Sprintf("it is used in a way that is not understood (%T)", in)
					}
				}
			}
		}
	}
	if why == "" && stores > 1 {
		why = "it is assigned more than once"
	}
	if why != "" {
		return nil, why
	}
	sort.Slice(out, func(i, j int) bool { return constant.Compare(out[i].key, token.LSS, out[j].key) })
	return out, ""
}

// repoFns lists all functions of the repository, in a fixed order.
func (p *Program) repoFns() []*ssa.Function {
	if p.fns == nil {
		for fn := range ssautil.AllFunctions(p.Prog) {
			if p.IsRepo(fn) {
				p.fns = append(p.fns, fn)
			}
		}
		sort.Slice(p.fns, func(i, j int) bool {
			if p.fns[i].Pos() != p.fns[j].Pos() {
				return p.fns[i].Pos() < p.fns[j].Pos()
			}
			return p.fns[i].String() < p.fns[j].String()
		})
	}
	return p.fns
}

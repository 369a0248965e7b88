package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var errType = types.Universe.Lookup("error").Type()

// mkError makes a new error value distinct from every other.
func mkError(hint string) *Term {
	o := mkObj(types.NewPointer(types.Typ[types.Int]), hint)
	return mkIface(types.NewPointer(types.Typ[types.Int]), o, errType)
}

var pureStd = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true,
	"strings.Compare": true, "strings.ToUpper": true, "strings.ToLower": true, "strings.Split": true, "strings.Trim": true,
	"strings.TrimSpace": true, "strings.HasPrefix": true, "strings.HasSuffix": true, "strings.Contains": true, "strings.EqualFold": true,
	"strings.NewReader": false,
	"bytes.Compare":     true, "bytes.Equal": true,
	"math.IsNaN": true, "math.Float64bits": true, "math.Float64frombits": true, "math.IsInf": true, "math.Signbit": true, "math.Trunc": true,
	"math.NaN": true, "math.Inf": true, "math.Abs": true, "math.Floor": true,
	"cmp.Compare": true, "cmp.Less": true,
	"strconv.FormatInt": true, "strconv.FormatFloat": true, "strconv.Quote": true, "strconv.Itoa": true,
	"strconv.ParseInt": true, "strconv.ParseFloat": true, "strconv.Atoi": true, "strconv.ParseUint": true,
	"unicode.IsUpper": true, "unicode.IsLower": true, "unicode.ToLower": true, "unicode.ToUpper": true, "unicode.IsDigit": true,
	"unicode.IsLetter": true, "unicode.IsSpace": true, "unicode.IsPunct": true,
	"unicode/utf8.Valid": true, "unicode/utf8.ValidString": true, "unicode/utf8.ValidRune": true, "unicode/utf8.RuneLen": true,
	"context.Background": true, "context.TODO": true,
	"reflect.TypeOf": true, "reflect.ValueOf": true, "reflect.Zero": true, "reflect.New": true,
	"io.EOF":    true,
	"errors.Is": true,
}

func snapArgs(st *State, args []*Term) []*Term {
	out := make([]*Term, len(args))
	for i, x := range args {
		out[i] = x
		if x.typ == nil {
			continue
		}
		if _, ok := x.typ.Underlying().(*types.Slice); ok && !x.isNil() {
			out[i] = intern("snap", "", x.typ, nil, x, st.seqOfSlice(x))
		}
	}
	return out
}

// pureResult gives deterministic results for a pure function.
func pureResult(st *State, name string, sig *types.Signature, args []*Term) *Term {
	args = snapArgs(st, args)
	r := sig.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return mkApp(name, r.At(0).Type(), args...)
	}
	var ts []*Term
	for i := 0; i < r.Len(); i++ {
		ts = append(ts, mkApp(name+"."+string(rune('0'+i)), r.At(i).Type(), args...))
	}
	return mkTuple(ts...)
}

// stdModel models library functions.
func stdModel(a *Analysis, st *State, c *Call) ([]Out, bool) {
	if c.Fn == nil {
		if c.Method != nil {
			n := methName(c.Method)
			switch {
			case n == "error.Error" || n == "?.Error" || strings.HasSuffix(n, ".error.Error"):
				return []Out{{St: st, Ret: mkApp("Error()", types.Typ[types.String], c.Args...)}}, true
			case strings.HasPrefix(n, "reflect.Type."):
				return []Out{{St: st, Ret: pureResult(st, n, c.Sig, c.Args)}}, true
			}
		}
		return nil, false
	}
	if a.P.IsRepo(c.Fn) {
		return nil, false
	}
	n := fnName(c.Fn)
	switch n {
	case "fmt.Errorf", "errors.New":
		hint := "err"
		if f := c.Args[0]; n == "fmt.Errorf" && (!f.isConst() || strings.Contains(f.String(), "%w")) {
			hint = "wraps"
		}
		return []Out{{St: st, Ret: mkError(hint)}}, true
	case "errors.Is":
		// an error made here wraps nothing unless it says so
		x, y := c.Args[0], c.Args[1]
		e := st.eval(mkEq(x, y))
		plain := x.op == "iface" && (x.args[0].op == "global" || x.args[0].op == "obj" && x.args[0].hint() != "wraps")
		if e.isTrue() || e.isFalse() && (plain || x.isNil()) {
			return []Out{{St: st, Ret: e}}, true
		}
	case "slices.Clone", "bytes.Clone":
		x := c.Args[0]
		if x.isNil() {
			return []Out{{St: st, Ret: x}}, true
		}
		typ := c.Sig.Results().At(0).Type()
		o := mkObj(typ, "clone")
		st.heap[contentKey(o)] = st.seqOfSlice(x)
		ret := intern("sl", "", typ, nil, o, mkInt(0), mkLen(x))
		// nil stays nil
		e := st.eval(mkEq(x, mkNil(x.typ)))
		if e.isFalse() {
			return []Out{{St: st, Ret: ret}}, true
		}
		no := st.clone()
		var outs []Out
		if no.assume(e, true) {
			outs = append(outs, Out{St: no, Ret: mkNil(typ)})
		}
		if st.assume(e, false) {
			outs = append(outs, Out{St: st, Ret: ret})
		}
		return outs, true
	case "slices.Equal", "bytes.Equal":
		x, y := c.Args[0], c.Args[1]
		sx, sy := st.seqOfSlice(x), st.seqOfSlice(y)
		var r *Term
		if sx == sy && mkLen(x) == mkLen(y) {
			r = mkBool(true)
		} else {
			if sx.id > sy.id {
				sx, sy = sy, sx
			}
			r = mkApp("seqequal", types.Typ[types.Bool], sx, sy)
		}
		return []Out{{St: st, Ret: r}}, true
	case "sync.Mutex.Lock", "sync.Mutex.Unlock", "sync.RWMutex.Lock", "sync.RWMutex.Unlock", "sync.RWMutex.RLock", "sync.RWMutex.RUnlock":
		return []Out{{St: st}}, true
	case "math.IsNaN":
		if x := c.Args[0]; x.isConst() {
			return []Out{{St: st, Ret: mkBool(false)}}, true
		}
	}
	if pureStd[n] || strings.HasPrefix(n, "reflect.Value.") && !strings.HasPrefix(n, "reflect.Value.Set") || strings.HasPrefix(n, "reflect.StructTag.") || strings.HasPrefix(n, "reflect.Kind.") || strings.HasPrefix(n, "reflect.rtype.") {
		return []Out{{St: st, Ret: pureResult(st, n, c.Sig, c.Args)}}, true
	}
	return nil, false
}

// SliceArg makes an unknown slice parameter etc.
func paramSyms(fn *ssa.Function) []*Term {
	var out []*Term
	for _, p := range fn.Params {
		out = append(out, mkSym(p.Type(), p.Name()))
	}
	return out
}

package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// special named types modelled as scalars
var specialSort = map[string]string{
	"strings.Builder":        "Str",
	"bytes.Buffer":           "Str",
	"time.Time":              "Int",
	"sync.Mutex":             "Int",
	"sync.RWMutex":           "Int",
	"sync.Once":              "Int",
	"sync.WaitGroup":         "Int",
	"sync/atomic.Bool":       "Bool",
	"sync/atomic.Int32":      "Int",
	"sync/atomic.Int64":      "Int",
	"reflect.Value":          "Int",
	"golang.org/x/term.State": "Int",
}

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	switch t := t.(type) {
	case *types.Named:
		o := t.Origin().Obj()
		if o.Pkg() == nil {
			return o.Name()
		}
		return o.Pkg().Path() + "." + o.Name()
	case *types.Signature:
		var b strings.Builder
		b.WriteString("func(")
		for i := 0; i < t.Params().Len(); i++ {
			b.WriteString(typeKey(t.Params().At(i).Type()) + ",")
		}
		b.WriteString(")(")
		for i := 0; i < t.Results().Len(); i++ {
			b.WriteString(typeKey(t.Results().At(i).Type()) + ",")
		}
		b.WriteString(")")
		return b.String()
	case *types.Pointer:
		return "*" + typeKey(t.Elem())
	case *types.Slice:
		return "[]" + typeKey(t.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", t.Len(), typeKey(t.Elem()))
	case *types.Map:
		return "map[" + typeKey(t.Key()) + "]" + typeKey(t.Elem())
	case *types.TypeParam:
		return "TVal"
	case *types.Basic:
		switch t.Kind() {
		case types.Uint8:
			return "uint8"
		case types.Int32:
			return "int32"
		}
		return t.Name()
	}
	return types.TypeString(t, nil)
}

func shortKey(t types.Type) string {
	k := typeKey(t)
	k = strings.ReplaceAll(k, "github.com/phoenix-tui/phoenix/", "")
	k = strings.ReplaceAll(k, "internal/domain/", "")
	return k
}

func special(t types.Type) (string, bool) {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() != nil {
			s, ok := specialSort[o.Pkg().Path()+"."+o.Name()]
			return s, ok
		}
	}
	return "", false
}

func under(t types.Type) types.Type {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		return n.Origin().Underlying()
	}
	if _, ok := t.(*types.TypeParam); ok {
		return t
	}
	return t.Underlying()
}

func isTypeParam(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.TypeParam)
	return ok
}

// isStructObj: T is laid out per field on the heap
func isStructObj(t types.Type) bool {
	if isTypeParam(t) {
		return false
	}
	if _, ok := special(t); ok {
		return false
	}
	_, ok := under(t).(*types.Struct)
	return ok
}
func structOf(t types.Type) *types.Struct {
	s, _ := under(t).(*types.Struct)
	return s
}

var structSorts = map[string]types.Type{}

func sortOf(t types.Type) string {
	if v, ok := t.(visType); ok {
		return ArrSort(sortOf(v.m.Key()), "Bool")
	}
	if s, ok := special(t); ok {
		return s
	}
	if isTypeParam(t) {
		return "TVal"
	}
	switch u := under(t).(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			return "Bool"
		case i&types.IsString != 0:
			return "Str"
		case i&types.IsInteger != 0:
			return "Int"
		case i&types.IsFloat != 0:
			return "Real"
		case u.Kind() == types.UnsafePointer:
			return "Int"
		case u.Kind() == types.UntypedNil:
			return "Int"
		case i&types.IsComplex != 0:
			return "TVal"
		}
		return "Int"
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Iface"
	case *types.Array:
		return ArrSort("Int", sortOf(u.Elem()))
	case *types.Struct:
		k := "S!" + sanitize(shortKey(t))
		if _, ok := dts[k]; ok {
			return k
		}
		if _, ok := structSorts[k]; ok {
			return k
		}
		structSorts[k] = t
		var fs, ss []string
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, k+"."+u.Field(i).Name()+fmt.Sprintf("#%d", i))
			ss = append(ss, sortOf(u.Field(i).Type()))
		}
		declDT(k, fs, ss)
		return k
	}
	panic(unsup("sort of " + t.String()))
}

type unsupErr struct{ msg string }

func unsup(s string, a ...any) unsupErr { return unsupErr{fmt.Sprintf(s, a...)} }

func nilIface() *Term { return Mk("Iface", Zero, Const("nilval", "Val")) }

func zeroOf(t types.Type) *Term {
	s := sortOf(t)
	return zeroSort(s, t)
}
func zeroSort(s string, t types.Type) *Term {
	switch s {
	case "Int":
		return Zero
	case "Bool":
		return False
	case "Str":
		return StrLit("")
	case "Real":
		return RealLit(big.NewRat(0, 1))
	case "Slice":
		return MkSlice(Zero, Zero, Zero, Zero)
	case "Iface":
		return nilIface()
	case "TVal":
		return Const("zeroTVal", "TVal")
	}
	if a, ok := under(t).(*types.Array); ok {
		return ConstArr(s, zeroOf(a.Elem()))
	}
	if st, ok := under(t).(*types.Struct); ok {
		var as []*Term
		for i := 0; i < st.NumFields(); i++ {
			as = append(as, zeroOf(st.Field(i).Type()))
		}
		return Mk(s, as...)
	}
	panic(unsup("zero of %s", t))
}

func RealLit(r *big.Rat) *Term {
	if r.IsInt() {
		return mkTerm(Term{op: "int", n: new(big.Int).Set(r.Num()), sort: "Real"})
	}
	n := mkTerm(Term{op: "int", n: new(big.Int).Set(r.Num()), sort: "Real"})
	d := mkTerm(Term{op: "int", n: new(big.Int).Set(r.Denom()), sort: "Real"})
	return mkTerm(Term{op: "/", args: []*Term{n, d}, sort: "Real"})
}

// integer kinds
func intKind(t types.Type) (bits int, unsigned bool, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, false, true
	case types.Int16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, false, true
	case types.Uint8:
		return 8, true, true
	case types.Uint16:
		return 16, true, true
	case types.Uint32:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, true, true
	}
	return 64, false, true
}
func pow2(k int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(k)) }

var typeTags = map[string]int{}
var tagTypes = []types.Type{nil}

func tagOf(t types.Type) *Term {
	k := typeKey(t)
	id, ok := typeTags[k]
	if !ok {
		id = len(tagTypes)
		typeTags[k] = id
		tagTypes = append(tagTypes, t)
	}
	return Int(int64(id))
}

func Box(t *Term) *Term {
	return App("box!"+t.sort, "Val", t)
}
func Unbox(v *Term, sort string) *Term { return App("unbox!"+sort, sort, v) }

func sanitize(s string) string {
	b := []byte(s)
	for i, c := range b {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("~!@$%^&*_-+=<>.?/", c) >= 0) {
			b[i] = '_'
		}
	}
	return string(b)
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val

func fnID(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Object() == nil {
		return f.String()
	}
	p := ""
	if f.Object().Pkg() != nil {
		p = f.Object().Pkg().Path()
	}
	if r := f.Signature.Recv(); r != nil {
		return p + "." + recvName(r.Type()) + "." + f.Name()
	}
	return p + "." + f.Name()
}
func recvName(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

func stdModel(f *ssa.Function) model {
	if f.Object() == nil {
		return nil
	}
	return models[fnID(f)]
}

func ret(ts ...*Term) []Val {
	var out []Val
	for _, t := range ts {
		out = append(out, V(t))
	}
	return out
}

// strPtr: the string stored behind a *strings.Builder / *bytes.Buffer
func (x *Exec) bufPtr(v Val, c *ssa.CallCommon) *Ptr {
	if v.P != nil {
		return v.P
	}
	t := types.Type(nil)
	if c != nil && len(c.Args) > 0 {
		if p, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
	}
	if t == nil {
		panic(unsup("buffer receiver"))
	}
	return &Ptr{kind: pkHeap, ref: v.T, typ: t}
}
func (x *Exec) bufAppend(st *State, v Val, c *ssa.CallCommon, s *Term, pos token.Pos) {
	p := x.bufPtr(v, c)
	cur := x.load(st, p, pos).T
	x.store(st, p, V(Cat(cur, s)), pos)
}
func (x *Exec) bytesOfSlice(st *State, s *Term) *Term {
	h := x.heap(st, "E|uint8", "(Array Int (Array Int Int))")
	return bytesStr(Select(h, SlRef(s)), SlOff(s), SlLen(s))
}
func (x *Exec) newBytes(st *State, s *Term) *Term {
	return x.convert(st, V(s), types.Typ[types.String], types.NewSlice(types.Typ[types.Byte]), 0).T
}

func (x *Exec) newErr(st *State, kind string, payload ...*Term) *Term {
	r := x.alloc(st)
	t := tagOf(errType(kind))
	return Mk("Iface", t, Box(r))
}

var errTypes = map[string]types.Type{}

func errType(kind string) types.Type {
	if t, ok := errTypes[kind]; ok {
		return t
	}
	tn := types.NewTypeName(0, nil, "error$"+kind, nil)
	t := types.NewNamed(tn, types.NewStruct(nil, nil), nil)
	errTypes[kind] = t
	return t
}
// anErr: some unknown non-nil error
func (x *Exec) anErr(st *State, cond *Term) *Term {
	return Ite(cond, x.newErr(st, "lib"), nilIface())
}

func nilErr() *Term { return nilIface() }

// strSlice: a fresh []string with contents determined by the term key
func (x *Exec) pureStrSlice(st *State, fn string, args ...*Term) *Term {
	n := App(fn+".n", "Int", args...)
	arr := App(fn+".a", "(Array Int Str)", args...)
	x.assume(True, Le(Zero, n))
	r := x.alloc(st)
	h := x.heap(st, "E|string", "(Array Int (Array Int Str))")
	x.hset(st, "E|string", Store(h, r, arr))
	return MkSlice(r, Zero, n, n)
}

func (x *Exec) joinTerm(st *State, s, sep *Term) *Term {
	h := x.heap(st, "E|string", "(Array Int (Array Int Str))")
	return x.joinArr(Select(h, SlRef(s)), s, sep)
}

func (x *Exec) joinArr(arr, s, sep *Term) *Term {
	if isLitInt(SlLen(s)) && SlLen(s).n.Int64() <= 24 {
		var ps []*Term
		for k := int64(0); k < SlLen(s).n.Int64(); k++ {
			if k > 0 {
				ps = append(ps, sep)
			}
			ps = append(ps, At(arr, SlOff(s), Int(k)))
		}
		return Cat(ps...)
	}
	// a length decided by a few conditions: one case each
	if cs := iteConds(SlLen(s), nil); len(cs) > 0 && len(cs) <= 4 && litLeaves(SlLen(s), nil) != nil {
		asg := map[*Term]*Term{cs[0]: True}
		yes := x.joinArr(Assume(arr, asg, map[*Term]*Term{}), Assume(s, asg, map[*Term]*Term{}), sep)
		asg = map[*Term]*Term{cs[0]: False}
		no := x.joinArr(Assume(arr, asg, map[*Term]*Term{}), Assume(s, asg, map[*Term]*Term{}), sep)
		return Ite(cs[0], yes, no)
	}
	// a length that is one of a few literals (elements appended on some paths)
	if ls := litLeaves(SlLen(s), nil); ls != nil && len(ls) <= 8 {
		var r *Term
		for _, n := range ls {
			var ps []*Term
			for k := int64(0); k < n; k++ {
				if k > 0 {
					ps = append(ps, sep)
				}
				ps = append(ps, At(arr, SlOff(s), Int(k)))
			}
			if r == nil {
				r = Cat(ps...)
			} else {
				r = Ite(Eq(SlLen(s), Int(n)), Cat(ps...), r)
			}
		}
		return r
	}
	return App("sjoin", "Str", Shift(arr, SlOff(s)), SlLen(s), sep)
}

// litLeaves: the literal leaves of nested ites, nil if some leaf is no small literal
func litLeaves(t *Term, acc []int64) []int64 {
	if isLitInt(t) {
		n := t.n.Int64()
		if n < 0 || n > 24 {
			return nil
		}
		for _, a := range acc {
			if a == n {
				return acc
			}
		}
		return append(acc, n)
	}
	if t.op == "+" && len(t.args) == 2 {
		for k := 0; k < 2; k++ {
			if isLitInt(t.args[k]) {
				in := litLeaves(t.args[1-k], nil)
				if in == nil {
					return nil
				}
				for _, n := range in {
					if acc = litLeaves(Int(n+t.args[k].n.Int64()), acc); acc == nil {
						return nil
					}
				}
				return acc
			}
		}
	}
	if t.op != "ite" {
		return nil
	}
	for _, a := range t.args[1:] {
		if acc = litLeaves(a, acc); acc == nil {
			return nil
		}
	}
	return acc
}

func S1(name string) model {
	return func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
		return ret(App(name, "Str", a[0].T))
	}
}
func noop(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val { return nil }

var models map[string]model
var stdInvoke map[string]model

func init() {
	models = map[string]model{
		"strings.Repeat": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			x.check(st, "strings.Repeat negative count", pos, Le(Zero, a[1].T))
			return ret(App("repeat", "Str", a[0].T, a[1].T))
		},
		"os.Getenv":         S1("osGetenv"),
		"strings.ToLower":   S1("strLower"),
		"strings.ToUpper":   S1("strUpper"),
		"strings.TrimSpace": S1("trimSpace"),
		"strings.Contains": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return ret(App("strContains", "Bool", a[0].T, a[1].T))
		},
		"strings.HasPrefix": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return ret(App("hasPrefix", "Bool", a[0].T, a[1].T))
		},
		"strings.HasSuffix": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return ret(App("hasSuffix", "Bool", a[0].T, a[1].T))
		},
		"strings.EqualFold": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return ret(App("equalFold", "Bool", a[0].T, a[1].T))
		},
		"strings.TrimPrefix": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			s, p := a[0].T, a[1].T
			return ret(Ite(App("hasPrefix", "Bool", s, p), Substr(s, SLen(p), SLen(s)), s))
		},
		"strings.TrimSuffix": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			s, p := a[0].T, a[1].T
			return ret(Ite(App("hasSuffix", "Bool", s, p), Substr(s, Zero, Sub(SLen(s), SLen(p))), s))
		},
		"strings.ReplaceAll": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return ret(App("replaceAll", "Str", a[0].T, a[1].T, a[2].T))
		},
		"strings.Index": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			r := App("strIndex", "Int", a[0].T, a[1].T)
			x.assume(True, And(Le(Int(-1), r), Implies(Le(Zero, r), Le(Add(r, SLen(a[1].T)), SLen(a[0].T)))))
			return ret(r)
		},
		"strings.IndexByte": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			r := App("strIndexByte", "Int", a[0].T, a[1].T)
			x.assume(True, And(Le(Int(-1), r), Lt(r, SLen(a[0].T)), Implies(Le(Zero, r), Eq(SAt(a[0].T, r), a[1].T))))
			return ret(r)
		},
		"strings.Count": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			r := App("strCount", "Int", a[0].T, a[1].T)
			x.assume(True, Le(Zero, r))
			return ret(r)
		},
		"strings.Split": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			s := x.pureStrSlice(st, "split", a[0].T, a[1].T)
			if a[1].T.op == "lit" && a[1].T.s != "" {
				x.assume(True, Le(One, SlLen(s)))
			}
			return ret(s)
		},
		"strings.Fields": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return ret(x.pureStrSlice(st, "fields", a[0].T))
		},
		"strings.Join": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return ret(x.joinTerm(st, a[0].T, a[1].T))
		},
		"strings.Builder.WriteString": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			x.bufAppend(st, a[0], c, a[1].T, pos)
			return ret(SLen(a[1].T), nilErr())
		},
		"strings.Builder.WriteByte": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			x.bufAppend(st, a[0], c, byteStr(a[1].T), pos)
			return ret(nilErr())
		},
		"strings.Builder.WriteRune": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			s := App("runeStr", "Str", a[1].T)
			x.bufAppend(st, a[0], c, s, pos)
			return ret(SLen(s), nilErr())
		},
		"strings.Builder.Write": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			x.bufAppend(st, a[0], c, x.bytesOfSlice(st, a[1].T), pos)
			return ret(SlLen(a[1].T), nilErr())
		},
		"strings.Builder.String": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return []Val{x.load(st, x.bufPtr(a[0], c), pos)}
		},
		"strings.Builder.Len": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return ret(SLen(x.load(st, x.bufPtr(a[0], c), pos).T))
		},
		"strings.Builder.Reset": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			x.store(st, x.bufPtr(a[0], c), V(StrLit("")), pos)
			return nil
		},
		"strings.Builder.Grow": noop,
		"unicode/utf8.RuneCountInString": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return ret(runeCountOf(x, a[0].T))
		},
		"unicode/utf8.DecodeRuneInString": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			s := a[0].T
			w := App("runeWidthAt", "Int", s, Zero)
			r := App("runeAt", "Int", s, Zero)
			ne := Lt(Zero, SLen(s))
			x.assume(True, Implies(ne, And(Le(One, w), Le(w, Int(4)), Le(w, SLen(s)))))
			return ret(Ite(ne, r, Int(0xfffd)), Ite(ne, w, Zero))
		},
		"strconv.Itoa": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return ret(Itoa(a[0].T))
		},
		"strconv.Atoi": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			ok := App("atoiOK", "Bool", a[0].T)
			return ret(Ite(ok, App("atoiVal", "Int", a[0].T), Zero), x.anErr(st, Not(ok)))
		},
		"strconv.ParseUint": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			ok := App("parseUintOK", "Bool", a[0].T, a[1].T, a[2].T)
			v := App("parseUintVal", "Int", a[0].T, a[1].T, a[2].T)
			lim := Zero
			if isLitInt(a[2].T) {
				b := int(a[2].T.n.Int64())
				if b == 0 {
					b = 64
				}
				lim = BigInt(pow2(b))
				x.assume(True, Implies(ok, And(Le(Zero, v), Lt(v, lim))))
			}
			return ret(Ite(ok, v, Zero), x.anErr(st, Not(ok)))
		},
		"errors.New": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return ret(x.newErr(st, "new"))
		},
		"fmt.Errorf": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return ret(x.newErr(st, "errorf"))
		},
		"errors.Is": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			e := x.equal(st, a[0], a[1], errIfaceT(), errIfaceT())
			return ret(Or(e, App("errorsIs", "Bool", a[0].T, a[1].T)))
		},
		"fmt.Sprintf": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return ret(x.sprintf(st, a[0].T, a[1].T))
		},
		"fmt.Sprint": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			as := x.varargs(st, a[0].T)
			if len(as) == 1 {
				return ret(x.fmtVal(st, 'v', "", as[0]))
			}
			return ret(x.freshOf(st, "sprint", types.Typ[types.String]))
		},
		"fmt.Fprintf": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return x.ioWrite(st, a[0], x.sprintf(st, a[1].T, a[2].T), pos)
		},
		"fmt.Fprint": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			as := x.varargs(st, a[1].T)
			if len(as) == 1 {
				return x.ioWrite(st, a[0], x.fmtVal(st, 'v', "", as[0]), pos)
			}
			return x.ioWrite(st, a[0], x.freshOf(st, "sprint", types.Typ[types.String]), pos)
		},
		"io.WriteString": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return x.ioWrite(st, a[0], a[1].T, pos)
		},
		"bytes.Equal": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			p, q := a[0].T, a[1].T
			if isLitInt(SlLen(p)) {
				p, q = q, p
			}
			if n := SlLen(q); isLitInt(n) && n.n.Int64() <= 32 {
				// against a short literal: length and each byte
				h := x.heap(st, "E|uint8", "(Array Int (Array Int Int))")
				cs := []*Term{Eq(SlLen(p), n)}
				for k := int64(0); k < n.n.Int64(); k++ {
					cs = append(cs, Eq(At(Select(h, SlRef(p)), SlOff(p), Int(k)), At(Select(h, SlRef(q)), SlOff(q), Int(k))))
				}
				return ret(And(cs...))
			}
			return ret(Eq(x.bytesOfSlice(st, a[0].T), x.bytesOfSlice(st, a[1].T)))
		},
		"bytes.Buffer.Bytes": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return ret(x.newBytes(st, x.load(st, x.bufPtr(a[0], c), pos).T))
		},
		"context.WithCancel": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			rs := x.freshResults(st, "WithCancel", c.Signature())
			x.assume(True, And(Ne(rs[1].T, Zero), Ne(Get(rs[0].T, 0), Zero)))
			return rs
		},
		"time.NewTicker": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			x.check(st, "ticker-interval", pos, Lt(Zero, a[0].T))
			rs := x.freshResults(st, "NewTicker", c.Signature())
			x.assume(True, Ne(rs[0].T, Zero))
			return rs
		},
		"time.Now": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			x.w.trust("time.Now is arbitrary")
			return ret(x.freshOf(st, "now", types.Typ[types.Int]))
		},
		"time.Since": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return ret(Sub(x.freshOf(st, "now", types.Typ[types.Int]), a[0].T))
		},
		"time.Time.Sub": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return ret(Sub(a[0].T, a[1].T))
		},
		"time.Time.Add": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return ret(Add(a[0].T, a[1].T))
		},
		"time.Time.After": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return ret(Lt(a[1].T, a[0].T))
		},
		"time.Time.Before": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return ret(Lt(a[0].T, a[1].T))
		},
		"time.Time.Equal": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return ret(Eq(a[0].T, a[1].T))
		},
		"time.Time.IsZero": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return ret(Eq(a[0].T, Zero))
		},
		"time.Time.UnixNano": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return ret(a[0].T)
		},
		"time.Duration.Milliseconds": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return ret(Quo(a[0].T, Int(1000000)))
		},
		"math.Floor": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return ret(toReal(mkTerm(Term{op: "to_int", args: []*Term{a[0].T}, sort: "Int"})))
		},
		"math.Round": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			h := RealLit(newRat(1, 2))
			z := RealLit(newRat(0, 1))
			up := toReal(mkTerm(Term{op: "to_int", args: []*Term{Add(a[0].T, h)}, sort: "Int"}))
			dn := Sub(z, toReal(mkTerm(Term{op: "to_int", args: []*Term{Add(Sub(z, a[0].T), h)}, sort: "Int"})))
			return ret(Ite(Le(z, a[0].T), up, dn))
		},
		"math.Abs": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			z := RealLit(newRat(0, 1))
			return ret(Ite(Le(z, a[0].T), a[0].T, Sub(z, a[0].T)))
		},
		"math.Sqrt": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			r := App("sqrt", "Real", a[0].T)
			z := RealLit(newRat(0, 1))
			x.assume(True, Implies(Le(z, a[0].T), And(Le(z, r), Eq(Mul(r, r), a[0].T))))
			return ret(r)
		},
		"sort.Slice":       sortSlice(false),
		"sort.SliceStable": sortSlice(true),
		"unicode/utf8.RuneLen": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return ret(SLen(App("runeStr", "Str", a[0].T)))
		},
	}
	for _, n := range []string{"sync.Mutex.Lock", "sync.Mutex.Unlock", "sync.RWMutex.Lock", "sync.RWMutex.Unlock", "sync.RWMutex.RLock", "sync.RWMutex.RUnlock", "sync.WaitGroup.Add", "sync.WaitGroup.Done", "sync.WaitGroup.Wait"} {
		models[n] = noop
	}
	for _, n := range []string{"WriteString", "WriteByte", "WriteRune", "Write", "String", "Len", "Reset", "Grow"} {
		models["bytes.Buffer."+n] = models["strings.Builder."+n]
	}
	models["unicode/utf8.RuneCount"] = func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
		return ret(runeCountOf(x, x.bytesOfSlice(st, a[0].T)))
	}
	bw := "bufio.Writer."
	bref := func(x *Exec, a Val, c *ssa.CallCommon) *Term { return x.term(a, c.Args[0].Type()) }
	for _, n := range []string{"bufio.NewWriter", "bufio.NewWriterSize"} {
		models[n] = func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			r := x.alloc(st)
			x.hset(st, ioKey, Store(x.heap(st, ioKey, "(Array Int Str)"), r, StrLit("")))
			return ret(r)
		}
	}
	models[bw+"WriteString"] = func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
		return x.logWrite(st, bref(x, a[0], c), a[1].T)
	}
	models[bw+"WriteRune"] = func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
		return x.logWrite(st, bref(x, a[0], c), App("runeStr", "Str", a[1].T))
	}
	models[bw+"WriteByte"] = func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
		return x.logWrite(st, bref(x, a[0], c), byteStr(a[1].T))[1:]
	}
	models[bw+"Write"] = func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
		return x.logWrite(st, bref(x, a[0], c), x.bytesOfSlice(st, a[1].T))
	}
	models[bw+"Flush"] = func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
		return ret(x.anErr(st, Fresh("flushfail", "Bool")))
	}
	models[bw+"Buffered"] = func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
		r := Fresh("buffered", "Int")
		x.assume(True, Le(Zero, r))
		return ret(r)
	}
	g := "github.com/rivo/uniseg."
	models[g+"NewGraphemes"] = func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
		r := x.alloc(st)
		s := x.heap(st, "GRS|", "(Array Int Str)")
		p := x.heap(st, "GRP|", "(Array Int Int)")
		x.hset(st, "GRS|", Store(s, r, a[0].T))
		x.hset(st, "GRP|", Store(p, r, Int(-1)))
		return ret(r)
	}
	models[g+"Graphemes.Next"] = func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
		r := a[0].T
		s := Select(x.heap(st, "GRS|", "(Array Int Str)"), r)
		ph := x.heap(st, "GRP|", "(Array Int Int)")
		p := Select(ph, r)
		n := glen(x, s)
		np := Ite(Lt(p, n), Add(p, One), p)
		x.hset(st, "GRP|", Store(ph, r, np))
		return ret(Lt(np, n))
	}
	models[g+"Graphemes.Str"] = func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
		s := Select(x.heap(st, "GRS|", "(Array Int Str)"), a[0].T)
		p := Select(x.heap(st, "GRP|", "(Array Int Int)"), a[0].T)
		return ret(gstr(x, s, p))
	}
	models[g+"Graphemes.Bytes"] = func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
		s := gstr(x, Select(x.heap(st, "GRS|", "(Array Int Str)"), a[0].T), Select(x.heap(st, "GRP|", "(Array Int Int)"), a[0].T))
		r := x.alloc(st)
		h := x.heap(st, "E|uint8", "(Array Int (Array Int Int))")
		x.hset(st, "E|uint8", Store(h, r, App("bytesOf", "(Array Int Int)", s)))
		cp := Fresh("cap", "Int")
		x.assume(True, Le(SLen(s), cp))
		return ret(MkSlice(r, Zero, SLen(s), cp))
	}
	models[g+"GraphemeClusterCount"] = func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
		return ret(glen(x, a[0].T))
	}
	models[g+"FirstGraphemeClusterInString"] = func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
		s := a[0].T
		ne := Lt(Zero, SLen(s))
		p := App("gpos", "Int", s, One)
		x.assume(True, Implies(ne, And(Le(One, glen(x, s)), Lt(Zero, p), Le(p, SLen(s)))))
		rest := Substr(s, p, SLen(s))
		w := App("gwidth", "Int", Substr(s, Zero, p))
		x.assume(True, Le(Zero, w))
		return ret(Ite(ne, Substr(s, Zero, p), StrLit("")), Ite(ne, rest, StrLit("")), Ite(ne, w, Zero), x.freshOf(st, "gstate", types.Typ[types.Int]))
	}
	sw := func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
		r := App("swidth", "Int", a[0].T)
		x.assume(True, Le(Zero, r))
		return ret(r)
	}
	models[g+"StringWidth"] = sw
	models["github.com/unilibs/uniwidth.StringWidth"] = func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
		r := App("uwidth", "Int", a[0].T)
		x.assume(True, Le(Zero, r))
		return ret(r)
	}
	models["github.com/phoenix-tui/phoenix/core.StringWidth"] = models["github.com/unilibs/uniwidth.StringWidth"]
	models["github.com/unilibs/uniwidth.RuneWidth"] = func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
		r := App("urune", "Int", a[0].T)
		x.assume(True, And(Le(Zero, r), Le(r, Int(2))))
		return ret(r)
	}
	stdInvoke = map[string]model{
		"Error": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return ret(App("errText", "Str", a[0].T))
		},
		"Write": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return x.ioWrite(st, a[0], x.bytesOfSlice(st, a[1].T), pos)
		},
		"WriteString": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return x.ioWrite(st, a[0], a[1].T, pos)
		},
		"String": func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
			return ret(App("ifaceString", "Str", a[0].T))
		},
	}
}
func newRat(a, b int64) *big.Rat { return big.NewRat(a, b) }
func errIfaceT() types.Type      { return types.Universe.Lookup("error").Type() }

func byteStr(b *Term) *Term {
	if isLitInt(b) {
		return StrLit(string([]byte{byte(b.n.Int64())}))
	}
	return App("byteStr", "Str", b)
}
func runeCountOf(x *Exec, s *Term) *Term {
	n := App("runeCount", "Int", s)
	x.assume(True, And(Le(Zero, n), Le(n, SLen(s)), Implies(Lt(Zero, SLen(s)), Le(One, n))))
	return n
}
func glen(x *Exec, s *Term) *Term {
	n := App("glen", "Int", s)
	x.assume(True, And(Le(Zero, n), Le(n, SLen(s)), Eq(Eq(n, Zero), Eq(SLen(s), Zero)), Eq(App("gpos", "Int", s, Zero), Zero), Eq(App("gpos", "Int", s, n), SLen(s))))
	return n
}
func gstr(x *Exec, s, i *Term) *Term {
	a, b := App("gpos", "Int", s, i), App("gpos", "Int", s, Add(i, One))
	x.assume(True, Implies(And(Le(Zero, i), Lt(i, App("glen", "Int", s))), And(Le(Zero, a), Lt(a, b), Le(b, SLen(s)))))
	return Substr(s, a, b)
}

// ---- fmt ----
func (x *Exec) varargs(st *State, s *Term) []*Term {
	n := SlLen(s)
	if !isLitInt(n) {
		return nil
	}
	h := x.heap(st, "E|any", "(Array Int (Array Int Iface))")
	if _, ok := st.heap["E|interface{}"]; ok {
		h = st.heap["E|interface{}"]
	}
	for _, k := range []string{"E|any", "E|interface{}", "E|interface {}"} {
		if hh, ok := st.heap[k]; ok && hh.op == "store" {
			h = hh
			if _, fb := freshBase(SlRef(s)); fb && Select(hh, SlRef(s)).op != "select" {
				break
			}
		}
	}
	arr := Select(h, SlRef(s))
	var out []*Term
	for i := int64(0); i < n.n.Int64(); i++ {
		out = append(out, At(arr, SlOff(s), Int(i)))
	}
	return out
}

func (x *Exec) fmtVal(st *State, verb byte, flags string, v *Term) *Term {
	tag := Get(v, 0)
	if tag.op == "int" && tag.n.Sign() > 0 {
		T := tagTypes[tag.n.Int64()]
		// Stringer / error
		if (verb == 'v' || verb == 's') && flags == "" {
			if f := x.w.lookupMethod(T, "String"); f != nil && x.w.inRepo(f) {
				u := Unbox(Get(v, 1), sortOf(T))
				r := x.callFn(nil, f, nil, []Val{x.valOf(u)}, st, 0, nil)
				if len(r) == 1 {
					return r[0].T
				}
			}
		}
		u := Unbox(Get(v, 1), sortOf(T))
		switch u.sort {
		case "Int":
			if _, _, ok := intKind(T); ok {
				switch {
				case flags == "" && (verb == 'd' || verb == 'v'):
					return Itoa(u)
				case verb == 'c' && flags == "":
					return App("runeStr", "Str", u)
				}
				if isLitInt(u) {
					return StrLit(fmt.Sprintf("%"+flags+string(verb), u.n.Int64()))
				}
				return App("fmtInt!"+flags+string(verb), "Str", u)
			}
		case "Str":
			if flags == "" && (verb == 's' || verb == 'v') {
				return u
			}
			return App("fmtStr!"+flags+string(verb), "Str", u)
		case "Bool":
			if verb == 'v' || verb == 't' {
				return Ite(u, StrLit("true"), StrLit("false"))
			}
		}
	}
	return App("fmtAny!"+flags+string(verb), "Str", v)
}

func (x *Exec) sprintf(st *State, f, va *Term) *Term {
	if f.op == "ite" {
		return Ite(f.args[0], x.sprintf(st, f.args[1], va), x.sprintf(st, f.args[2], va))
	}
	if f.op != "lit" {
		return x.freshOf(st, "sprintf", types.Typ[types.String])
	}
	as := x.varargs(st, va)
	s := f.s
	var ps []*Term
	ai := 0
	for i := 0; i < len(s); {
		k := strings.IndexByte(s[i:], '%')
		if k < 0 {
			ps = append(ps, StrLit(s[i:]))
			break
		}
		ps = append(ps, StrLit(s[i:i+k]))
		i += k + 1
		j := i
		for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			break
		}
		fl, verb := s[i:j], s[j]
		i = j + 1
		if verb == '%' {
			ps = append(ps, StrLit("%"))
			continue
		}
		if ai >= len(as) {
			ps = append(ps, x.freshOf(st, "fmtmissing", types.Typ[types.String]))
			ai++
			continue
		}
		ps = append(ps, x.fmtVal(st, verb, fl, as[ai]))
		ai++
	}
	return Cat(ps...)
}

// ioWrite: a writer is an abstract log of everything successfully written to it; writes may fail
func (x *Exec) ioWrite(st *State, w Val, s *Term, pos token.Pos) []Val {
	t := x.term(w, nil)
	if t.sort != "Iface" {
		panic(unsup("writer"))
	}
	tag := Get(t, 0)
	if tag.op == "int" && tag.n.Sign() > 0 {
		T := tagTypes[tag.n.Int64()]
		if pt, ok := T.(*types.Pointer); ok {
			if k, ok := special(pt.Elem()); ok && k == "Str" {
				r := Unbox(Get(t, 1), "Int")
				p := &Ptr{kind: pkHeap, ref: r, typ: pt.Elem()}
				cur := x.load(st, p, pos).T
				x.store(st, p, V(Cat(cur, s)), pos)
				return ret(SLen(s), nilErr())
			}
		}
	}
	return x.logWrite(st, Unbox(Get(t, 1), "Int"), s)
}

const ioKey = "IO|written"

// logWrite appends s to the log of writer id, or an arbitrary part of something when it fails
func (x *Exec) logWrite(st *State, id, s *Term) []Val {
	x.w.trust("a writer is an abstract log: a successful write appends exactly its data, a failed one an arbitrary text")
	h := x.heap(st, ioKey, "(Array Int Str)")
	fail := Fresh("iofail", "Bool")
	part := Fresh("iopart", "Str")
	cur := Select(h, id)
	x.hset(st, ioKey, Store(h, id, Ite(fail, Cat(cur, part), Cat(cur, s))))
	n := x.freshOf(st, "ion", types.Typ[types.Int])
	x.assume(True, Implies(Not(fail), Eq(n, SLen(s))))
	return ret(n, x.anErr(st, fail))
}

// ---- sort ----
func sortSlice(stable bool) model {
	return func(x *Exec, st *State, a []Val, pos token.Pos, c *ssa.CallCommon) []Val {
		sl := a[0].T
		if sl == nil || Get(sl, 0).op != "int" {
			panic(unsup("sort.Slice of unknown slice type"))
		}
		T := tagTypes[Get(sl, 0).n.Int64()]
		et := under(T).(*types.Slice).Elem()
		s := Unbox(Get(sl, 1), "Slice")
		k := elemKey(et)
		h := x.heap(st, k, elemSort(et))
		old := Select(h, SlRef(s))
		arrSort := old.sort
		na := Fresh("sorted", arrSort)
		pi := Fresh("perm", "(Array Int Int)")
		iv := Fresh("perminv", "(Array Int Int)")
		n, off := SlLen(s), SlOff(s)
		x.hset(st, k, Store(h, SlRef(s), na))
		if x.dry > 0 {
			return nil
		}
		i, j := Var("?si", "Int"), Var("?sj", "Int")
		in := func(v *Term) *Term { return And(Le(Zero, v), Lt(v, n)) }
		av := At(na, off, i)
		// a permutation of the positions, and nothing outside the window changes
		x.hyps = append(x.hyps,
			Forall([]*Term{i}, Implies(in(i), And(in(Select(pi, i)), Eq(Select(iv, Select(pi, i)), i), Eq(av, At(old, off, Select(pi, i))))), []*Term{Select(pi, i)}, []*Term{av}),
			Forall([]*Term{i}, Implies(in(i), And(in(Select(iv, i)), Eq(Select(pi, Select(iv, i)), i), Eq(At(na, off, Select(iv, i)), At(old, off, i)))), append([][]*Term{{Select(iv, i)}}, selTriggers(At(old, off, i), i)...)...),
			Forall([]*Term{i}, Implies(Or(Lt(i, off), Le(Add(off, n), i)), Eq(Select(na, i), Select(old, i))), []*Term{Select(na, i)}))
		less := func(p, q *Term) *Term {
			x.ghost++
			nq := len(qvars)
			qvars = append(qvars[:nq:nq], i, j)
			defer func() { x.ghost--; qvars = qvars[:nq] }()
			var r []Val
			if a[1].Fn != nil {
				r = x.callFn(nil, a[1].Fn, a[1].Binds, []Val{V(p), V(q)}, st.clone(), 0, nil)
			} else {
				panic(unsup("sort with unknown less"))
			}
			return r[0].T
		}
		lij := less(i, j)
		lji := less(j, i)
		tr := []*Term{At(na, off, i), At(na, off, j)}
		x.w.trust("sort.Slice orders by the given comparison (a permutation; stable for SliceStable)")
		x.assume(st.pc, Forall([]*Term{i, j}, Implies(And(in(i), in(j), Lt(i, j)), Not(lji)), tr))
		if stable {
			x.assume(st.pc, Forall([]*Term{i, j}, Implies(And(in(i), in(j), Lt(i, j), Not(lij)), Lt(Select(pi, i), Select(pi, j))), tr, []*Term{Select(pi, i), Select(pi, j)}))
		}
		return nil
	}
}

// selTriggers: the largest usable patterns inside t that mention v
func selTriggers(t, v *Term) [][]*Term {
	var r [][]*Term
	seen := map[*Term]bool{}
	var has func(*Term) bool
	has = func(u *Term) bool {
		if u == v {
			return true
		}
		for _, a := range u.args {
			if has(a) {
				return true
			}
		}
		return false
	}
	var walk func(*Term)
	walk = func(u *Term) {
		if seen[u] || !has(u) || u == v {
			return
		}
		seen[u] = true
		if u.sort != "Bool" && u.op != "ite" && patternOK(u) {
			r = append(r, []*Term{u})
			return
		}
		for _, a := range u.args {
			walk(a)
		}
	}
	walk(t)
	return r
}

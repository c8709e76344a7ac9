package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cellable: a heap-flagged Alloc whose address provably stays within the symbolic frame
func (x *Exec) cellable(a *ssa.Alloc) bool {
	if r, ok := x.w.cellMemo[a]; ok {
		return r
	}
	et := a.Type().(*types.Pointer).Elem()
	_, sp := special(et)
	var ok func(v ssa.Value, depth int) bool
	ok = func(v ssa.Value, depth int) bool {
		if depth > 6 || v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Val == v {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				if !ok(r, depth+1) {
					return false
				}
			case *ssa.IndexAddr:
				if !ok(r, depth+1) {
					return false
				}
			case *ssa.MakeClosure:
				f := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v && !ok(f.FreeVars[i], depth+1) {
						return false
					}
				}
			case ssa.CallInstruction:
				c := r.Common()
				if c.IsInvoke() {
					return false
				}
				f := c.StaticCallee()
				if f == nil || f.Pkg == nil && f.Origin() == nil {
					return false
				}
				_, vsp := special(v.Type().Underlying().(*types.Pointer).Elem())
				if !(sp || vsp) {
					return false
				}
				if x.w.inRepo(f) {
					for i, arg := range c.Args {
						if arg == v && (i >= len(f.Params) || !ok(f.Params[i], depth+1)) {
							return false
						}
					}
				}
			case *ssa.MakeInterface:
				return false
			case *ssa.Slice:
				return false
			default:
				return false
			}
		}
		return true
	}
	var r bool
	if !a.Heap {
		r = true
		for _, rf := range *a.Referrers() {
			if _, s := rf.(*ssa.Slice); s {
				r = false
			}
		}
	} else {
		r = ok(a, 0)
	}
	x.w.cellMemo[a] = r
	return r
}

func (x *Exec) instr(fr *Frame, in ssa.Instruction, st *State) {
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := i.Type().(*types.Pointer).Elem()
		if x.cellable(i) {
			c := fr.cells[i]
			if c == nil {
				c = &Cell{id: x.w.cellID(), name: i.Comment, typ: et}
				fr.cells[i] = c
			}
			if strings.HasPrefix(i.Comment, "$") {
				// ssa internal (defer stack)
				c.name = ""
			}
			func() {
				defer func() {
					if e := recover(); e != nil {
						if _, ok := e.(unsupErr); ok {
							return
						}
						panic(e)
					}
				}()
				st.cells[c] = V(zeroOf(et))
			}()
			fr.env[i] = Val{P: &Ptr{kind: pkCell, cell: c, typ: et}}
			return
		}
		r := x.alloc(st)
		var p *Ptr
		if isStructObj(et) {
			p = &Ptr{kind: pkObj, ref: r, typ: et}
		} else {
			p = &Ptr{kind: pkHeap, ref: r, typ: et}
		}
		x.store(st, p, V(zeroOf(et)), i.Pos())
		fr.env[i] = Val{P: p}
		// a named local that escapes: give loop invariants a name for the object (a pointer to it)
		if isStructObj(et) && isIdent(i.Comment) {
			c := fr.cells[i]
			if c == nil {
				c = &Cell{id: x.w.cellID(), name: i.Comment, typ: types.NewPointer(et)}
				fr.cells[i] = c
			}
			st.cells[c] = V(r)
		}
	case *ssa.Store:
		et := i.Addr.Type().Underlying().(*types.Pointer).Elem()
		p := x.ptrOf(x.val(fr, i.Addr), et)
		x.store(st, p, x.coerce(x.val(fr, i.Val), i.Val.Type(), et), i.Pos())
	case *ssa.UnOp:
		x.unop(fr, i, st)
	case *ssa.BinOp:
		fr.env[i] = V(x.binop(st, i.Op, x.val(fr, i.X), x.val(fr, i.Y), i.X.Type(), i.Y.Type(), i.Type(), i.Pos()))
	case *ssa.FieldAddr:
		et := i.X.Type().Underlying().(*types.Pointer).Elem()
		p := x.ptrOf(x.val(fr, i.X), et)
		if p.kind == pkObj {
			x.nilcheck(st, p.ref, i.Pos(), "field")
		}
		n := *p
		n.path = append(append([]pathEl{}, p.path...), pathEl{field: i.Field, typ: et})
		fr.env[i] = Val{P: &n}
	case *ssa.Field:
		t := x.tv(fr, i.X)
		fr.env[i] = x.valOf(Get(t, i.Field))
	case *ssa.IndexAddr:
		idx := x.tv(fr, i.Index)
		switch u := i.X.Type().Underlying().(type) {
		case *types.Slice:
			s := x.tv(fr, i.X)
			x.check(st, "index", i.Pos(), And(Le(Zero, idx), Lt(idx, SlLen(s))))
			fr.env[i] = Val{P: &Ptr{kind: pkElem, ref: SlRef(s), off: SlOff(s), idx: idx, typ: u.Elem()}}
		case *types.Pointer:
			at := under(u.Elem()).(*types.Array)
			x.check(st, "index", i.Pos(), And(Le(Zero, idx), Lt(idx, Int(at.Len()))))
			p := x.ptrOf(x.val(fr, i.X), u.Elem())
			if p.kind == pkHeap && len(p.path) == 0 {
				fr.env[i] = Val{P: &Ptr{kind: pkElem, ref: p.ref, off: Zero, idx: idx, typ: at.Elem()}}
				return
			}
			n := *p
			n.path = append(append([]pathEl{}, p.path...), pathEl{idx: idx, typ: u.Elem()})
			fr.env[i] = Val{P: &n}
		default:
			panic(unsup("IndexAddr on %s", i.X.Type()))
		}
	case *ssa.Index:
		idx := x.tv(fr, i.Index)
		switch u := under(i.X.Type()).(type) {
		case *types.Array:
			x.check(st, "index", i.Pos(), And(Le(Zero, idx), Lt(idx, Int(u.Len()))))
			fr.env[i] = x.valOf(Select(x.tv(fr, i.X), idx))
		default: // string
			s := x.tv(fr, i.X)
			x.check(st, "index", i.Pos(), And(Le(Zero, idx), Lt(idx, SLen(s))))
			v := SAt(s, idx)
			fr.env[i] = V(v)
			x.wf(st, v, types.Typ[types.Uint8], 1)
		}
	case *ssa.Lookup:
		x.lookup(fr, i, st)
	case *ssa.MapUpdate:
		m := x.tv(fr, i.Map)
		mt := under(i.Map.Type()).(*types.Map)
		x.check(st, "nil-map-write", i.Pos(), Ne(m, Zero))
		x.mapPut(st, mt, m, x.tv(fr, i.Key), x.term(x.coerce(x.val(fr, i.Value), i.Value.Type(), mt.Elem()), mt.Elem()))
	case *ssa.MakeMap:
		mt := under(i.Type()).(*types.Map)
		r := x.alloc(st)
		x.mapInit(st, mt, r)
		fr.env[i] = V(r)
	case *ssa.MakeChan:
		x.makeChan(fr, i, st)
	case *ssa.MakeSlice:
		ln, cp := x.tv(fr, i.Len), x.tv(fr, i.Cap)
		x.check(st, "make-slice", i.Pos(), And(Le(Zero, ln), Le(ln, cp)))
		et := under(i.Type()).(*types.Slice).Elem()
		r := x.alloc(st)
		k := elemKey(et)
		h := x.heap(st, k, elemSort(et))
		x.hset(st, k, Store(h, r, ConstArr(ArrSort("Int", sortOf(et)), zeroOf(et))))
		fr.env[i] = V(MkSlice(r, Zero, ln, cp))
	case *ssa.Slice:
		fr.env[i] = x.sliceOp(fr, i, st)
	case *ssa.MakeInterface:
		v := x.val(fr, i.X)
		fr.env[i] = V(x.mkIface(v, i.X.Type()))
	case *ssa.ChangeInterface:
		fr.env[i] = x.val(fr, i.X)
	case *ssa.ChangeType:
		v := x.val(fr, i.X)
		if v.T != nil && sortOf(i.X.Type()) != sortOf(i.Type()) {
			panic(unsup("change type %s -> %s", i.X.Type(), i.Type()))
		}
		fr.env[i] = v
	case *ssa.Convert:
		fr.env[i] = x.convert(st, x.val(fr, i.X), i.X.Type(), i.Type(), i.Pos())
	case *ssa.MultiConvert:
		fr.env[i] = x.convert(st, x.val(fr, i.X), i.X.Type(), i.Type(), i.Pos())
	case *ssa.TypeAssert:
		x.typeAssert(fr, i, st)
	case *ssa.Extract:
		v := x.val(fr, i.Tuple)
		if !v.isTup {
			panic(unsup("extract of non-tuple"))
		}
		fr.env[i] = v.Tup[i.Index]
	case *ssa.MakeClosure:
		v := Val{Fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			v.Binds = append(v.Binds, x.val(fr, b))
		}
		fr.env[i] = v
	case *ssa.Call:
		rs := x.call(fr, i.Common(), st, i.Pos())
		switch len(rs) {
		case 0:
		case 1:
			fr.env[i] = rs[0]
		default:
			fr.env[i] = Val{Tup: rs, isTup: true}
		}
	case *ssa.Defer:
		c := i.Common()
		d := deferRec{call: c, fr: fr}
		if !c.IsInvoke() {
			if _, ok := c.Value.(*ssa.Builtin); !ok {
				d.fn = x.val(fr, c.Value)
			}
		} else {
			d.fn = x.val(fr, c.Value)
		}
		for _, a := range c.Args {
			d.args = append(d.args, x.val(fr, a))
		}
		st.defers = append(st.defers, d)
	case *ssa.RunDefers:
		var keep []deferRec
		var run []deferRec
		for _, d := range st.defers {
			if d.fr == fr {
				run = append(run, d)
			} else {
				keep = append(keep, d)
			}
		}
		st.defers = keep
		for k := len(run) - 1; k >= 0; k-- {
			d := run[k]
			x.callWith(fr, d.call, d.fn, d.args, st, in.Pos())
		}
	case *ssa.Go:
		if x.trace {
			x.goStmt(fr, i, st)
			return
		}
		x.w.trust("goroutine started in " + fr.fn.String() + ": body not executed")
	case *ssa.Range:
		switch u := under(i.X.Type()).(type) {
		case *types.Map:
			vc := &Cell{id: x.w.cellID(), name: "$visited", typ: nil}
			_ = vc
			m := x.tv(fr, i.X)
			it := &Iter{m: m, mt: u, posCell: &Cell{id: x.w.cellID(), name: "", typ: types.Typ[types.Int]}}
			it.visCell = &Cell{id: x.w.cellID(), name: "$vis", typ: visType{u}}
			dd, _, ll := x.mapHeaps(st, u)
			it.dom0, it.len0 = Select(dd, m), Ite(Eq(m, Zero), Zero, Select(ll, m))
			x.iters[it.visCell] = it
			st.cells[it.posCell] = V(Zero)
			st.cells[it.visCell] = V(ConstArr(ArrSort(sortOf(u.Key()), "Bool"), False))
			fr.env[i] = Val{It: it}
		default:
			it := &Iter{str: x.tv(fr, i.X), posCell: &Cell{id: x.w.cellID(), name: "rangepos", typ: types.Typ[types.Int]}}
			st.cells[it.posCell] = V(Zero)
			fr.env[i] = Val{It: it}
		}
	case *ssa.Next:
		x.next(fr, i, st)
	case *ssa.Send:
		if x.trace {
			x.chanSend(fr, i, st)
			return
		}
		x.w.trust("channel send in " + fr.fn.String() + " treated as no effect")
	case *ssa.Select:
		x.selectStmt(fr, i, st)
	case *ssa.SliceToArrayPointer:
		panic(unsup("slice to array pointer"))
	default:
		panic(unsup("instruction %T in %s", in, fr.fn))
	}
}

// visType is a pseudo type for the set of visited map keys
type visType struct{ m *types.Map }

func (v visType) Underlying() types.Type { return v }
func (v visType) String() string         { return "visited" }

func (x *Exec) freshOf(st *State, prefix string, t types.Type) *Term {
	c := Fresh(prefix, sortOf(t))
	constBorn[c.name] = seqOf(st.next)
	x.wf(st, c, t, 3)
	return c
}

// seqOf: the smallest frontier seq that is >= the frontier term
func seqOf(next *Term) int {
	if next.op == "const" {
		return frontSeq[next.name]
	}
	if s, ok := freshBase(next); ok {
		return s + 1
	}
	return 1 << 30
}

// coerce between type-parameter sort and concrete sorts
func (x *Exec) coerce(v Val, from, to types.Type) Val {
	if v.T == nil {
		return v
	}
	want := sortOf(to)
	if v.T.sort == want {
		return v
	}
	if want == "TVal" {
		return V(App("tv!"+v.T.sort, "TVal", v.T))
	}
	if v.T.sort == "TVal" {
		return V(App("untv!"+want, want, v.T))
	}
	return v
}

func (x *Exec) unop(fr *Frame, i *ssa.UnOp, st *State) {
	switch i.Op {
	case token.MUL:
		et := i.X.Type().Underlying().(*types.Pointer).Elem()
		p := x.ptrOf(x.val(fr, i.X), et)
		v := x.load(st, p, i.Pos())
		if v.T == nil && v.P == nil && v.Fn == nil && v.It == nil {
			panic(unsup("load of unmergeable value in %s", fr.fn))
		}
		fr.env[i] = v
	case token.NOT:
		fr.env[i] = V(Not(x.tv(fr, i.X)))
	case token.SUB:
		t := x.tv(fr, i.X)
		if t.sort == "Real" {
			fr.env[i] = V(Sub(RealLit(new(big.Rat)), t))
			return
		}
		fr.env[i] = V(x.wrap(Sub(Zero, t), i.Type()))
	case token.XOR:
		t := x.tv(fr, i.X)
		bits, un, _ := intKind(i.Type())
		if un {
			fr.env[i] = V(Sub(BigInt(new(big.Int).Sub(pow2(bits), big.NewInt(1))), t))
			return
		}
		fr.env[i] = V(Sub(Int(-1), t))
	case token.ARROW:
		if x.trace {
			x.chanRecv(fr, i, st)
			return
		}
		x.w.trust("channel receive yields an arbitrary value")
		if i.CommaOk {
			tt := i.Type().(*types.Tuple)
			fr.env[i] = Val{isTup: true, Tup: []Val{V(x.freshOf(st, "recv", tt.At(0).Type())), V(x.freshOf(st, "recvok", tt.At(1).Type()))}}
			return
		}
		fr.env[i] = V(x.freshOf(st, "recv", i.Type()))
	default:
		panic(unsup("unop %s", i.Op))
	}
}

func (x *Exec) wrap(t *Term, typ types.Type) *Term {
	bits, un, ok := intKind(typ)
	if !ok {
		return t
	}
	if un {
		if t.op == "int" && t.n.Sign() >= 0 && t.n.Cmp(pow2(bits)) < 0 {
			return t
		}
		return ModE(t, BigInt(pow2(bits)))
	}
	if bits == 8 || bits == 16 {
		if t.op == "int" {
			return t
		}
		h := BigInt(pow2(bits - 1))
		return Sub(ModE(Add(t, h), BigInt(pow2(bits))), h)
	}
	return t
}

func bitsOf(n *big.Int) []int {
	var out []int
	for k := 0; k < n.BitLen(); k++ {
		if n.Bit(k) == 1 {
			out = append(out, k)
		}
	}
	return out
}
func bitAnd(a *Term, m *big.Int) *Term {
	if a.op == "int" {
		return BigInt(new(big.Int).And(a.n, m))
	}
	if m.Sign() < 0 { // a & ^k = a - (a & k)
		k := new(big.Int).Not(m)
		return Sub(a, bitAnd(a, k))
	}
	// contiguous runs of ones
	r := Zero
	k := 0
	for k < m.BitLen() {
		if m.Bit(k) == 0 {
			k++
			continue
		}
		j := k
		for m.Bit(j) == 1 {
			j++
		}
		// bits k..j-1 : (a mod 2^j) - (a mod 2^k)
		hi := ModE(a, BigInt(pow2(j)))
		if k == 0 {
			r = Add(r, hi)
		} else {
			r = Add(r, Mul(BigInt(pow2(k)), ModE(DivE(a, BigInt(pow2(k))), BigInt(pow2(j-k)))))
		}
		k = j
	}
	return r
}

func (x *Exec) binop(st *State, op token.Token, va, vb Val, ta, tb, tr types.Type, pos token.Pos) *Term {
	// comparisons with nil and of non-term values
	if op == token.EQL || op == token.NEQ {
		eq := x.equal(st, va, vb, ta, tb)
		if op == token.NEQ {
			return Not(eq)
		}
		return eq
	}
	a, b := x.term(va, ta), x.term(vb, tb)
	if a.sort == "Str" {
		switch op {
		case token.ADD:
			return Cat(a, b)
		case token.LSS:
			return App("strLess", "Bool", a, b)
		case token.GTR:
			return App("strLess", "Bool", b, a)
		case token.LEQ:
			return Not(App("strLess", "Bool", b, a))
		case token.GEQ:
			return Not(App("strLess", "Bool", a, b))
		}
	}
	if a.sort == "TVal" {
		return App("tvop!"+op.String(), sortOf(tr), a, b)
	}
	switch op {
	case token.ADD:
		return x.wrap(Add(a, b), tr)
	case token.SUB:
		return x.wrap(Sub(a, b), tr)
	case token.MUL:
		return x.wrap(Mul(a, b), tr)
	case token.QUO:
		if a.sort == "Real" {
			return mkTerm(Term{op: "/", args: []*Term{a, b}, sort: "Real"})
		}
		x.check(st, "div-by-zero", pos, Ne(b, Zero))
		if _, un, _ := intKind(tr); un {
			return DivE(a, b)
		}
		return Quo(a, b)
	case token.REM:
		x.check(st, "div-by-zero", pos, Ne(b, Zero))
		if _, un, _ := intKind(tr); un {
			return ModE(a, b)
		}
		return Rem(a, b)
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Lt(b, a)
	case token.GEQ:
		return Le(b, a)
	case token.AND:
		if b.op == "int" {
			return bitAnd(a, b.n)
		}
		if a.op == "int" {
			return bitAnd(b, a.n)
		}
		return App("bitand", "Int", a, b)
	case token.OR:
		if a.op == "int" && b.op == "int" {
			return BigInt(new(big.Int).Or(a.n, b.n))
		}
		if b.op == "int" {
			return Add(a, Sub(b, bitAnd(a, b.n)))
		}
		if a.op == "int" {
			return Add(b, Sub(a, bitAnd(b, a.n)))
		}
		if d, ok := disjointBits(a, b); ok {
			return d
		}
		return App("bitor", "Int", a, b)
	case token.XOR:
		if a.op == "int" && b.op == "int" {
			return BigInt(new(big.Int).Xor(a.n, b.n))
		}
		if b.op == "int" {
			return Sub(Add(a, b), Mul(Int(2), bitAnd(a, b.n)))
		}
		return App("bitxor", "Int", a, b)
	case token.AND_NOT:
		if b.op == "int" {
			return Sub(a, bitAnd(a, b.n))
		}
		return App("bitandnot", "Int", a, b)
	case token.SHL:
		if b.op == "int" {
			return x.wrap(Mul(a, BigInt(pow2(int(b.n.Int64())))), tr)
		}
		return x.wrap(Mul(a, App("pow2", "Int", b)), tr)
	case token.SHR:
		if b.op == "int" {
			return DivE(a, BigInt(pow2(int(b.n.Int64()))))
		}
		return App("shr", "Int", a, b)
	}
	panic(unsup("binop %s", op))
}

// disjointBits: ite(c,2^k,0)-style operands with different bits
func disjointBits(a, b *Term) (*Term, bool) {
	var m func(t *Term) (*big.Int, bool)
	m = func(t *Term) (*big.Int, bool) {
		switch t.op {
		case "int":
			if t.n.Sign() >= 0 {
				return t.n, true
			}
		case "ite":
			p, ok := m(t.args[1])
			q, ok2 := m(t.args[2])
			if ok && ok2 {
				return new(big.Int).Or(p, q), true
			}
		}
		return nil, false
	}
	p, ok := m(a)
	q, ok2 := m(b)
	if ok && ok2 && new(big.Int).And(p, q).Sign() == 0 {
		return Add(a, b), true
	}
	// push through ite
	if a.op == "ite" && ok {
		f := func(t *Term) *Term {
			if t.op == "int" && t.n.Sign() == 0 {
				return b
			}
			if t.op == "int" {
				return Add(b, Sub(t, bitAnd(b, t.n)))
			}
			return nil
		}
		l, r := f(a.args[1]), f(a.args[2])
		if l != nil && r != nil {
			return Ite(a.args[0], l, r), true
		}
	}
	if b.op == "ite" && ok2 {
		return disjointBits(b, a)
	}
	return nil, false
}

func isNilConst(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (x *Exec) equal(st *State, va, vb Val, ta, tb types.Type) *Term {
	if va.P != nil && vb.P != nil && samePtr(va.P, vb.P) {
		return True
	}
	if va.P != nil && (va.P.kind == pkCell || len(va.P.path) > 0 || va.P.kind == pkElem) {
		if vb.T == Zero {
			return False
		}
	}
	if vb.P != nil && (vb.P.kind == pkCell || len(vb.P.path) > 0 || vb.P.kind == pkElem) {
		if va.T == Zero {
			return False
		}
	}
	a, b := x.term(va, ta), x.term(vb, tb)
	if a.sort == "Slice" && b.sort == "Slice" {
		// only comparison with nil is legal
		if b.op == "mk" && b.args[0] == Zero {
			return Eq(SlRef(a), Zero)
		}
		if a.op == "mk" && a.args[0] == Zero {
			return Eq(SlRef(b), Zero)
		}
	}
	if a.sort == "Iface" && b.sort != "Iface" {
		b = x.mkIface(vb, tb)
	}
	if b.sort == "Iface" && a.sort != "Iface" {
		a = x.mkIface(va, ta)
	}
	if a.sort == "Iface" {
		if b.op == "mk" && b.args[0] == Zero {
			return Eq(Get(a, 0), Zero)
		}
		if a.op == "mk" && a.args[0] == Zero {
			return Eq(Get(b, 0), Zero)
		}
		return And(Eq(Get(a, 0), Get(b, 0)), Eq(Get(a, 1), Get(b, 1)))
	}
	if strings.HasPrefix(a.sort, "(Array Int") {
		if at, ok := under(ta).(*types.Array); ok {
			if at.Len() <= 8 {
				var cs []*Term
				for k := int64(0); k < at.Len(); k++ {
					cs = append(cs, Eq(Select(a, Int(k)), Select(b, Int(k))))
				}
				return And(cs...)
			}
			v := FreshVar("ai", "Int")
			return Forall([]*Term{v}, Implies(And(Le(Zero, v), Lt(v, Int(at.Len()))), Eq(Select(a, v), Select(b, v))))
		}
	}
	if d := dts[a.sort]; d != nil && a.sort != "Slice" && a.sort != "Iface" && a.sort == b.sort {
		s := structOf(ta)
		var cs []*Term
		for i := range d.fields {
			ft := s.Field(i).Type()
			cs = append(cs, x.equal(st, V(Get(a, i)), V(Get(b, i)), ft, ft))
		}
		return And(cs...)
	}
	return Eq(a, b)
}

func (x *Exec) mkIface(v Val, t types.Type) *Term {
	if _, ok := types.Unalias(t).Underlying().(*types.Interface); ok && !isTypeParam(t) {
		return x.term(v, t)
	}
	if isNilConst(t) {
		return nilIface()
	}
	tm := x.term(v, t)
	if isTypeParam(t) {
		return Mk("Iface", App("tvtag", "Int", tm), Box(tm))
	}
	return Mk("Iface", tagOf(t), Box(tm))
}

func (x *Exec) typeAssert(fr *Frame, i *ssa.TypeAssert, st *State) {
	v := x.tv(fr, i.X)
	tag := Get(v, 0)
	var ok, res *Term
	if it, isI := i.AssertedType.Underlying().(*types.Interface); isI && !isTypeParam(i.AssertedType) {
		res = v
		if tag.op == "int" {
			if tag == Zero {
				ok = False
			} else {
				ok = Bool(types.Implements(tagTypes[tag.n.Int64()], it))
			}
		} else {
			ok = And(Ne(tag, Zero), App("impl!"+typeKey(i.AssertedType), "Bool", tag))
		}
	} else {
		ok = Eq(tag, tagOf(i.AssertedType))
		s := sortOf(i.AssertedType)
		res = Unbox(Get(v, 1), s)
		if ok != False {
			x.wfUnder(st, ok, res, i.AssertedType)
		}
	}
	if i.CommaOk {
		z := zeroOf(i.AssertedType)
		fr.env[i] = Val{isTup: true, Tup: []Val{x.valOf(Ite(ok, res, z)), V(ok)}}
		return
	}
	x.check(st, "type-assert", i.Pos(), ok)
	fr.env[i] = x.valOf(res)
}

// wfUnder assumes type facts about v under condition c
func (x *Exec) wfUnder(st *State, c, v *Term, t types.Type) {
	if x.dry > 0 {
		return
	}
	var fs []*Term
	x.wfTerm(st, v, t, 2, &fs)
	for _, f := range fs {
		g := Implies(c, f)
		if g == True {
			continue
		}
		if i, ok := x.wfDone[g]; ok && i < len(x.hyps) && x.hyps[i] == g {
			continue
		}
		x.wfDone[g] = len(x.hyps)
		x.hyps = append(x.hyps, g)
	}
}

// ---- maps ----
func mapKeys(mt *types.Map) (d, v, l string) {
	s := shortKey(mt)
	return "MD|" + s, "MV|" + s, "ML|" + s
}
func (x *Exec) mapHeaps(st *State, mt *types.Map) (d, v, l *Term) {
	kd, kv, kl := mapKeys(mt)
	ks, vs := sortOf(mt.Key()), sortOf(mt.Elem())
	d = x.heap(st, kd, ArrSort("Int", ArrSort(ks, "Bool")))
	v = x.heap(st, kv, ArrSort("Int", ArrSort(ks, vs)))
	l = x.heap(st, kl, "(Array Int Int)")
	return
}
func (x *Exec) mapInit(st *State, mt *types.Map, r *Term) {
	d, v, l := x.mapHeaps(st, mt)
	kd, kv, kl := mapKeys(mt)
	_, ds := arrSorts(d.sort)
	_, vs := arrSorts(v.sort)
	x.hset(st, kd, Store(d, r, ConstArr(ds, False)))
	x.hset(st, kv, Store(v, r, ConstArr(vs, zeroOf(mt.Elem()))))
	x.hset(st, kl, Store(l, r, Zero))
}
func (x *Exec) mapLen(st *State, mt *types.Map, m *Term) *Term {
	_, _, l := x.mapHeaps(st, mt)
	v := Ite(Eq(m, Zero), Zero, Select(l, m))
	x.assume(True, Le(Zero, v))
	return v
}
func (x *Exec) mapGet(st *State, mt *types.Map, m, k *Term) (v, ok *Term) {
	d, vv, l := x.mapHeaps(st, mt)
	ok = And(Ne(m, Zero), Select(Select(d, m), k))
	raw := Select(Select(vv, m), k)
	v = Ite(ok, raw, zeroOf(mt.Elem()))
	x.wf(st, raw, mt.Elem(), 2)
	if !ok.bound {
		x.assume(True, Implies(ok, Le(One, Select(l, m))))
	}
	return
}
func (x *Exec) mapPut(st *State, mt *types.Map, m, k, v *Term) {
	d, vv, l := x.mapHeaps(st, mt)
	kd, kv, kl := mapKeys(mt)
	dm := Select(d, m)
	x.hset(st, kl, Store(l, m, Add(Select(l, m), Ite(Select(dm, k), Zero, One))))
	x.hset(st, kd, Store(d, m, Store(dm, k, True)))
	x.hset(st, kv, Store(vv, m, Store(Select(vv, m), k, v)))
}
func (x *Exec) mapDel(st *State, mt *types.Map, m, k *Term) {
	d, _, l := x.mapHeaps(st, mt)
	kd, _, kl := mapKeys(mt)
	dm := Select(d, m)
	x.assume(True, Implies(Select(dm, k), Le(One, Select(l, m))))
	nl := Ite(Eq(m, Zero), l, Store(l, m, Sub(Select(l, m), Ite(Select(dm, k), One, Zero))))
	nd := Ite(Eq(m, Zero), d, Store(d, m, Store(dm, k, False)))
	x.hset(st, kl, nl)
	x.hset(st, kd, nd)
}

func (x *Exec) lookup(fr *Frame, i *ssa.Lookup, st *State) {
	if mt, ok := under(i.X.Type()).(*types.Map); ok {
		m := x.tv(fr, i.X)
		v, has := x.mapGet(st, mt, m, x.term(x.coerce(x.val(fr, i.Index), i.Index.Type(), mt.Key()), mt.Key()))
		if i.CommaOk {
			fr.env[i] = Val{isTup: true, Tup: []Val{x.valOf(v), V(has)}}
		} else {
			fr.env[i] = x.valOf(v)
		}
		return
	}
	s, idx := x.tv(fr, i.X), x.tv(fr, i.Index)
	x.check(st, "index", i.Pos(), And(Le(Zero, idx), Lt(idx, SLen(s))))
	v := SAt(s, idx)
	x.wf(st, v, types.Typ[types.Uint8], 1)
	fr.env[i] = V(v)
}

func (x *Exec) next(fr *Frame, i *ssa.Next, st *State) {
	it := x.val(fr, i.Iter).It
	if it == nil {
		panic(unsup("next on unknown iterator"))
	}
	pos := st.cells[it.posCell].T
	if it.str != nil {
		s := it.str
		ok := Lt(pos, SLen(s))
		w := App("runeWidthAt", "Int", s, pos)
		r := App("runeAt", "Int", s, pos)
		if s.op == "lit" && pos.op == "int" {
			// literal iteration
			p := int(pos.n.Int64())
			if p < len(s.s) {
				for j, rr := range s.s[p:] {
					_ = j
					r = Int(int64(rr))
					w = Int(int64(len(string(rr))))
					break
				}
			}
		}
		x.assume(And(st.pc, ok), And(Le(One, w), Le(w, Int(4)), Le(Add(pos, w), SLen(s)), Le(Zero, r), Le(r, Int(0x10ffff))))
		st.cells[it.posCell] = V(Ite(ok, Add(pos, w), pos))
		fr.env[i] = Val{isTup: true, Tup: []Val{V(ok), V(pos), V(r)}}
		return
	}
	d, vv, _ := x.mapHeaps(st, it.mt)
	vis := st.cells[it.visCell].T
	ok := Fresh("mapok", "Bool")
	x.assume(True, Le(Zero, it.len0))
	x.assume(st.pc, Implies(Eq(Select(d, it.m), it.dom0), Eq(ok, Lt(pos, it.len0))))
	x.assume(And(st.pc, ok), Ne(it.m, Zero))
	k := x.freshOf(st, "mapkey", it.mt.Key())
	x.assume(And(st.pc, ok), And(Select(Select(d, it.m), k), Not(Select(vis, k))))
	q := Var("?mk", sortOf(it.mt.Key()))
	x.assume(And(st.pc, Not(ok)), Forall([]*Term{q}, Implies(And(Ne(it.m, Zero), Select(Select(d, it.m), q), Select(it.dom0, q)), Select(vis, q)), []*Term{Select(Select(d, it.m), q)}, []*Term{Select(vis, q)}))
	st.cells[it.posCell] = V(Ite(ok, Add(pos, One), pos))
	st.cells[it.visCell] = V(Ite(ok, Store(vis, k, True), vis))
	v := Select(Select(vv, it.m), k)
	x.wf(st, v, it.mt.Elem(), 2)
	fr.env[i] = Val{isTup: true, Tup: []Val{V(ok), V(k), x.valOf(v)}}
}

// ---- slices ----
func (x *Exec) sliceOp(fr *Frame, i *ssa.Slice, st *State) Val {
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return x.tv(fr, v)
	}
	lo, hi, mx := opt(i.Low), opt(i.High), opt(i.Max)
	if lo == nil {
		lo = Zero
	}
	switch u := i.X.Type().Underlying().(type) {
	case *types.Pointer: // *array
		at := under(u.Elem()).(*types.Array)
		n := Int(at.Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		x.check(st, "slice-bounds", i.Pos(), And(Le(Zero, lo), Le(lo, hi), Le(hi, mx), Le(mx, n)))
		p := x.ptrOf(x.val(fr, i.X), u.Elem())
		if p.kind == pkHeap && len(p.path) == 0 {
			return V(MkSlice(p.ref, lo, Sub(hi, lo), Sub(mx, lo)))
		}
		// slicing an array that lives elsewhere: copy semantics are not exact, reject writes later
		v := x.load(st, p, i.Pos())
		r := x.alloc(st)
		k := elemKey(at.Elem())
		h := x.heap(st, k, elemSort(at.Elem()))
		x.hset(st, k, Store(h, r, x.term(v, u.Elem())))
		x.w.trust("slice of an embedded array treated as a copy in " + fr.fn.String())
		return V(MkSlice(r, lo, Sub(hi, lo), Sub(mx, lo)))
	}
	t := x.tv(fr, i.X)
	if t.sort == "Str" {
		n := SLen(t)
		if hi == nil {
			hi = n
		}
		x.check(st, "slice-bounds", i.Pos(), And(Le(Zero, lo), Le(lo, hi), Le(hi, n)))
		return V(Substr(t, lo, hi))
	}
	if hi == nil {
		hi = SlLen(t)
	}
	if mx == nil {
		mx = SlCap(t)
	}
	x.check(st, "slice-bounds", i.Pos(), And(Le(Zero, lo), Le(lo, hi), Le(hi, mx), Le(mx, SlCap(t))))
	return V(MkSlice(SlRef(t), Ite(Eq(SlRef(t), Zero), Zero, Add(SlOff(t), lo)), Sub(hi, lo), Sub(mx, lo)))
}

func (x *Exec) appendOp(st *State, s, t *Term, et types.Type) *Term {
	k := elemKey(et)
	h := x.heap(st, k, elemSort(et))
	n, m := SlLen(s), SlLen(t)
	if m == Zero {
		return s
	}
	total := Add(n, m)
	fits := Le(total, SlCap(s))
	// a nil or full literal slice never fits
	if n == SlCap(s) && m.op == "int" && m.n.Sign() > 0 {
		fits = False
	}
	nr := x.alloc(st)
	old := Select(h, SlRef(s))
	src := Select(h, SlRef(t))
	var inArr, newArr *Term
	base := Shift(old, SlOff(s))
	if SlLen(s) == Zero {
		base = ConstArr(ArrSort("Int", sortOf(et)), zeroOf(et))
	}
	if isLitInt(m) && m.n.Int64() <= 8 {
		inArr, newArr = old, base
		for j := int64(0); j < m.n.Int64(); j++ {
			e := At(src, SlOff(t), Int(j))
			inArr = Store(inArr, Add(SlOff(s), n, Int(j)), e)
			newArr = Store(newArr, Add(n, Int(j)), e)
		}
	} else {
		inArr = ArrCopy(old, Add(SlOff(s), n), src, SlOff(t), m)
		newArr = ArrCopy(base, n, src, SlOff(t), m)
	}
	ncap := Fresh("cap", "Int")
	x.assume(True, Le(total, ncap))
	if fits == False {
		x.hset(st, k, Store(h, nr, newArr))
		r := MkSlice(nr, Zero, total, ncap)
		return x.guardEmpty(m, s, r)
	}
	hIn := Store(h, SlRef(s), inArr)
	hNew := Store(h, nr, newArr)
	x.hset(st, k, Ite(fits, hIn, hNew))
	r := MkSlice(Ite(fits, SlRef(s), nr), Ite(fits, SlOff(s), Zero), total, Ite(fits, SlCap(s), ncap))
	return x.guardEmpty(m, s, r)
}

// appending nothing returns the slice itself (nil stays nil)
func (x *Exec) guardEmpty(m, s, r *Term) *Term {
	if m.op == "int" {
		return r
	}
	return Ite(Eq(m, Zero), s, r)
}

// ArrCopy: dst with src[soff..soff+n) written at doff
func ArrCopy(dst, doff, src, soff, n *Term) *Term {
	if n == Zero {
		return dst
	}
	return App("arrcopy!"+dst.sort, dst.sort, dst, doff, src, soff, n)
}

func (x *Exec) copyOp(st *State, d, s *Term, et types.Type) *Term {
	n := Ite(Le(SlLen(d), SlLen(s)), SlLen(d), SlLen(s))
	if SlLen(d) == SlLen(s) {
		n = SlLen(d)
	}
	k := elemKey(et)
	h := x.heap(st, k, elemSort(et))
	nh := Store(h, SlRef(d), ArrCopy(Select(h, SlRef(d)), SlOff(d), Select(h, SlRef(s)), SlOff(s), n))
	if pcRefutes(st.pc, Eq(n, Zero)) {
		x.hset(st, k, nh)
	} else {
		x.hset(st, k, Ite(Eq(n, Zero), h, nh))
	}
	return n
}

// pcRefutes: the path condition has the negation of c as a conjunct
func pcRefutes(pc, c *Term) bool {
	nc := Not(c)
	if pc == nc {
		return true
	}
	if pc.op == "and" {
		for _, a := range pc.args {
			if a == nc {
				return true
			}
		}
	}
	return false
}

// ---- conversions ----
func (x *Exec) convert(st *State, v Val, from, to types.Type, pos token.Pos) Val {
	if v.T == nil {
		if sortOf(to) == "Int" {
			return v
		}
		panic(unsup("convert %s -> %s", from, to))
	}
	a := v.T
	fs, ts := sortOf(from), sortOf(to)
	if fs == "TVal" || ts == "TVal" {
		return x.coerce(v, from, to)
	}
	fu, tu := under(from), under(to)
	if fs == "Int" && ts == "Int" {
		fb, fun, ok1 := intKind(from)
		tb, tun, ok2 := intKind(to)
		if ok1 && ok2 {
			if tun {
				if fun && fb <= tb {
					return v
				}
				return V(x.wrap(a, to))
			}
			if tb < fb || tb == fb && fun {
				if tb <= 16 {
					return V(x.wrap(a, to))
				}
				if a.op != "int" {
					x.w.trust("narrowing integer conversions to 32/64-bit signed types are value preserving")
				}
			}
		}
		return v
	}
	if fs == "Int" && ts == "Real" {
		return V(toReal(a))
	}
	if fs == "Real" && ts == "Real" {
		return v
	}
	if fs == "Real" && ts == "Int" {
		if a.op == "to_real" {
			return V(a.args[0])
		}
		fl := mkTerm(Term{op: "to_int", args: []*Term{a}, sort: "Int"})
		ng := Sub(Zero, mkTerm(Term{op: "to_int", args: []*Term{Sub(RealLit(new(big.Rat)), a)}, sort: "Int"}))
		return V(x.wrap(Ite(Le(RealLit(new(big.Rat)), a), fl, ng), to))
	}
	if fs == "Int" && ts == "Str" {
		return V(App("runeStr", "Str", a))
	}
	if fs == "Str" && ts == "Str" {
		return v
	}
	if fs == "Str" && ts == "Slice" {
		et := tu.(*types.Slice).Elem()
		r := x.alloc(st)
		k := elemKey(et)
		h := x.heap(st, k, elemSort(et))
		if bits, _, _ := intKind(et); bits == 8 {
			x.hset(st, k, Store(h, r, App("bytesOf", "(Array Int Int)", a)))
			n := SLen(a)
			c := Fresh("cap", "Int")
			x.assume(True, Le(n, c))
			return V(MkSlice(r, Zero, n, c))
		}
		x.hset(st, k, Store(h, r, App("runesOf", "(Array Int Int)", a)))
		n := App("runeCount", "Int", a)
		x.assume(True, Le(Zero, n))
		c := Fresh("cap", "Int")
		x.assume(True, Le(n, c))
		return V(MkSlice(r, Zero, n, c))
	}
	if fs == "Slice" && ts == "Str" {
		et := fu.(*types.Slice).Elem()
		h := x.heap(st, elemKey(et), elemSort(et))
		arr := Select(h, SlRef(a))
		if bits, _, _ := intKind(et); bits == 8 {
			return V(bytesStr(arr, SlOff(a), SlLen(a)))
		}
		return V(runesStr(arr, SlOff(a), SlLen(a)))
	}
	if fs == ts {
		return v
	}
	panic(unsup("convert %s -> %s", from, to))
}
func toReal(a *Term) *Term {
	if a.op == "int" {
		return RealLit(new(big.Rat).SetInt(a.n))
	}
	return mkTerm(Term{op: "to_real", args: []*Term{a}, sort: "Real"})
}

// string made of the bytes arr[off..off+n)
func bytesStr(arr, off, n *Term) *Term {
	if arr.op == "app" && arr.name == "bytesOf" {
		return Substr(arr.args[0], off, Add(off, n))
	}
	if isLitInt(n) && n.n.Int64() <= 16 {
		// literal bytes
		ok := true
		var bs []byte
		for j := int64(0); j < n.n.Int64(); j++ {
			e := At(arr, off, Int(j))
			if !isLitInt(e) {
				ok = false
				break
			}
			bs = append(bs, byte(e.n.Int64()))
		}
		if ok {
			return StrLit(string(bs))
		}
	}
	return App("bytesStr", "Str", arr, off, n)
}
func runesStr(arr, off, n *Term) *Term {
	if n == Zero {
		return StrLit("")
	}
	if arr.op == "app" && arr.name == "runesOf" {
		if off == Zero && n == App("runeCount", "Int", arr.args[0]) {
			return App("validStr", "Str", arr.args[0])
		}
		return App("runeSub", "Str", arr.args[0], off, Add(off, n))
	}
	if n == One {
		return App("runeStr", "Str", At(arr, off, Zero))
	}
	return App("runesStr", "Str", arr, off, n)
}

// ---- effects (static over-approximation of the heap keys a function may write) ----
func (w *World) effects(f *ssa.Function) map[string]string {
	if e, ok := w.effMemo[f]; ok {
		return e
	}
	out := map[string]string{}
	seen := map[*ssa.Function]bool{}
	w.effRec(f, out, seen)
	w.effMemo[f] = out
	return out
}
func (w *World) effStruct(t types.Type, out map[string]string) {
	if !isStructObj(t) {
		if at, ok := under(t).(*types.Array); ok {
			out[elemKey(at.Elem())] = elemSort(at.Elem())
			return
		}
		out[cellKey(t)] = ArrSort("Int", sortOf(t))
		return
	}
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		out[fieldKey(t, i)] = ArrSort("Int", sortOf(s.Field(i).Type()))
	}
}
func (w *World) effRec(f *ssa.Function, out map[string]string, seen map[*ssa.Function]bool) {
	f = w.canon(f)
	if seen[f] || f.Blocks == nil {
		return
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Alloc:
				if i.Heap {
					w.effStruct(i.Type().(*types.Pointer).Elem(), out)
				} else if at, ok := under(i.Type().(*types.Pointer).Elem()).(*types.Array); ok {
					out[elemKey(at.Elem())] = elemSort(at.Elem())
				}
			case *ssa.Store:
				a := i.Addr
				for {
					if ia, ok := a.(*ssa.IndexAddr); ok {
						if s, ok := ia.X.Type().Underlying().(*types.Slice); ok {
							out[elemKey(s.Elem())] = elemSort(s.Elem())
							break
						}
						at := under(ia.X.Type().Underlying().(*types.Pointer).Elem()).(*types.Array)
						out[elemKey(at.Elem())] = elemSort(at.Elem())
						a = ia.X
						continue
					}
					if fa, ok := a.(*ssa.FieldAddr); ok {
						st := fa.X.Type().Underlying().(*types.Pointer).Elem()
						if isStructObj(st) {
							k := fieldKey(st, fa.Field)
							out[k] = ArrSort("Int", sortOf(structOf(st).Field(fa.Field).Type()))
						}
						a = fa.X
						continue
					}
					if g, ok := a.(*ssa.Global); ok {
						out["G|"+g.String()] = sortOf(g.Type().(*types.Pointer).Elem())
						break
					}
					if al, ok := a.(*ssa.Alloc); ok && !al.Heap {
						break
					}
					w.effStruct(a.Type().Underlying().(*types.Pointer).Elem(), out)
					break
				}
			case *ssa.MakeSlice:
				et := under(i.Type()).(*types.Slice).Elem()
				out[elemKey(et)] = elemSort(et)
			case *ssa.Convert:
				if s, ok := under(i.Type()).(*types.Slice); ok {
					out[elemKey(s.Elem())] = elemSort(s.Elem())
				}
			case *ssa.MakeMap, *ssa.MapUpdate:
				var mt *types.Map
				if m, ok := i.(*ssa.MakeMap); ok {
					mt = under(m.Type()).(*types.Map)
				} else {
					mt = under(i.(*ssa.MapUpdate).Map.Type()).(*types.Map)
				}
				w.effMap(mt, out)
			case *ssa.MakeClosure:
				w.effRec(i.Fn.(*ssa.Function), out, seen)
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				cc := c.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append", "copy", "clear":
						if s, ok := under(cc.Args[0].Type()).(*types.Slice); ok {
							out[elemKey(s.Elem())] = elemSort(s.Elem())
						}
					case "delete":
						w.effMap(under(cc.Args[0].Type()).(*types.Map), out)
					}
					continue
				}
				if cc.IsInvoke() {
					continue // interface calls are assumed not to write the modelled heap
				}
				if sf := cc.StaticCallee(); sf != nil {
					if w.inRepo(sf) {
						w.effRec(sf, out, seen)
					} else {
						// results of library calls: slices
						rs := cc.Signature().Results()
						for k := 0; k < rs.Len(); k++ {
							if s, ok := under(rs.At(k).Type()).(*types.Slice); ok {
								out[elemKey(s.Elem())] = elemSort(s.Elem())
							}
						}
						for _, a := range cc.Args {
							if s, ok := under(a.Type()).(*types.Slice); ok {
								out[elemKey(s.Elem())] = elemSort(s.Elem())
							}
							if mi, ok := a.(*ssa.MakeInterface); ok {
								if s, ok := under(mi.X.Type()).(*types.Slice); ok {
									out[elemKey(s.Elem())] = elemSort(s.Elem())
								}
							}
							if mc, ok := a.(*ssa.MakeClosure); ok {
								w.effRec(mc.Fn.(*ssa.Function), out, seen)
							}
							if pt, ok := a.Type().Underlying().(*types.Pointer); ok {
								if _, sp := special(pt.Elem()); sp {
									switch fa := a.(type) {
									case *ssa.FieldAddr:
										st := fa.X.Type().Underlying().(*types.Pointer).Elem()
										out[fieldKey(st, fa.Field)] = ArrSort("Int", sortOf(structOf(st).Field(fa.Field).Type()))
									default:
										w.effStruct(pt.Elem(), out)
									}
								}
							}
						}
					}
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		w.effRec(a, out, seen)
	}
}
func (w *World) effMap(mt *types.Map, out map[string]string) {
	kd, kv, kl := mapKeys(mt)
	ks, vs := sortOf(mt.Key()), sortOf(mt.Elem())
	out[kd] = ArrSort("Int", ArrSort(ks, "Bool"))
	out[kv] = ArrSort("Int", ArrSort(ks, vs))
	out[kl] = "(Array Int Int)"
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = fmt.Sprint

func isIdent(s string) bool {
	switch s {
	case "", "new", "complit", "varargs", "slicelit", "makeslice":
		return false
	}
	for _, r := range s {
		if !(r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9') {
			return false
		}
	}
	return true
}

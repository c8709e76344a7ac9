package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Cell struct {
	id   int
	name string
	typ  types.Type
}

const (
	pkCell = iota // symbolic cell of a frame
	pkObj         // heap struct object, laid out per field
	pkHeap        // heap cell of a non-struct type
	pkElem        // element of a heap array
	pkGlobal
)

type pathEl struct {
	field int
	idx   *Term
	typ   types.Type // type of the aggregate being indexed
}
type Ptr struct {
	kind int
	cell *Cell
	ref  *Term
	idx  *Term // pkElem: offset; absolute = off+idx
	off  *Term
	typ  types.Type // type of the base object
	g    *ssa.Global
	path []pathEl
}
type Iter struct {
	str     *Term
	m       *Term // map ref
	mt      *types.Map
	posCell *Cell
	visCell *Cell
	dom0    *Term // domain and size when the iteration began
	len0    *Term
}
type Val struct {
	T     *Term
	P     *Ptr
	Tup   []Val
	Fn    *ssa.Function
	Binds []Val
	It    *Iter
	isTup bool
}

func V(t *Term) Val { return Val{T: t} }

type deferRec struct {
	call *ssa.CallCommon
	fr   *Frame
	fn   Val
	args []Val
}

type State struct {
	pc     *Term
	cells  map[*Cell]Val
	heap   map[string]*Term
	next   *Term
	defers []deferRec
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, next: s.next, cells: make(map[*Cell]Val, len(s.cells)), heap: make(map[string]*Term, len(s.heap))}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.defers = append([]deferRec{}, s.defers...)
	return n
}

type Frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]Val
	cells   map[*ssa.Alloc]*Cell
	parent  *Frame
	returns []retState
	params  map[string]Val
	entry   *State
	depth   int
}
type retState struct {
	st  *State
	res []Val
	pos token.Pos
}

type Oblig struct {
	fn    string // contracted function
	name  string
	label string
	pos   token.Position
	nh    int
	pc    *Term
	goal  *Term
	cand  *Cand // non-nil: candidate check (not a final obligation)
	props []string
	reqs  []string
}
type Cand struct {
	id   int
	name string
	sel  *Term
	dead bool
	loop string
	user bool
}

type Exec struct {
	trace  bool // calls of unknown functions are recorded (see chan.go)
	inGo   int
	inPanic bool
	topEnv map[string]tval
	w         *World
	fset      *token.FileSet
	top       *Contract
	topFrame  *Frame
	topMods   map[string][]*Term
	loopCells map[*Cell]bool
	hyps      []*Term
	obs       []*Oblig
	cands     []*Cand
	dry       int
	capture   *[]*Term
	ghost     int // spec evaluation: no obligations
	stack     []*ssa.Function
	wfDone    map[*Term]int
	entry     *State
	loopN     map[string]int
	iters     map[*Cell]*Iter
	initHeap  map[string]*Term
	globals   map[*ssa.Global]Val
	pure      map[string]*Term
	inlined   map[string]bool
	usedC     map[string]bool
	trusted   map[string]bool
	steps     int
	curPos    token.Pos
	globDone  map[*ssa.Package]bool
	rkinds    map[string]bool
}

var frontN int

func newFrontier() *Term {
	n := fmt.Sprintf("next!%d", frontN)
	frontSeq[n] = frontN
	frontN++
	return Const(n, "Int")
}
func curSeq() int { return frontN - 1 }

func (x *Exec) assume(pc, t *Term) {
	t = Implies(pc, t)
	if t == True {
		return
	}
	if t.bound {
		if x.capture != nil {
			*x.capture = append(*x.capture, t)
		}
		return
	}
	x.hyps = append(x.hyps, t)
}

func (x *Exec) oblige(st *State, label string, pos token.Pos, goal *Term) {
	if x.dry > 0 || x.ghost > 0 {
		return
	}
	g := Implies(st.pc, goal)
	if g == True {
		x.w.trivial++
		x.w.trivialBy[x.top.id()]++
		return
	}
	if !pos.IsValid() {
		pos = x.curPos
	}
	p := x.fset.Position(pos)
	x.obs = append(x.obs, &Oblig{fn: x.top.id(), label: label, name: x.top.id() + ":" + label, pos: p, nh: len(x.hyps), pc: st.pc, goal: goal, props: x.top.props})
}
func (x *Exec) check(st *State, label string, pos token.Pos, goal *Term) {
	if st.pc == False || x.ghost > 0 {
		return
	}
	if x.top != nil && !x.top.nopanic {
		x.oblige(st, label, pos, goal)
	}
	x.assume(st.pc, goal)
}

// ---- heap ----
func fieldKey(t types.Type, i int) string {
	return "F|" + shortKey(t) + "|" + structOf(t).Field(i).Name()
}
func (x *Exec) heap(st *State, key, sort string) *Term {
	if h, ok := st.heap[key]; ok {
		return h
	}
	h, ok := x.initHeap[key]
	if !ok {
		n := "H0|" + key
		h = Const(n, sort)
		constBorn[n] = 0
		x.initHeap[key] = h
		x.w.keySort[key] = sort
		if x.entry != nil {
			x.closed(key, h, x.entry.next)
		}
	}
	st.heap[key] = h
	return h
}

// closed: every reference stored in an array of the heap h is allocated (below n)
func (x *Exec) closed(key string, h, n *Term) {
	rows := strings.HasPrefix(key, "E|[]")
	if !strings.HasPrefix(key, "E|*") && !rows || x.dry > 0 && !strings.HasPrefix(h.name, "H0|") {
		return
	}
	r, p := Var("?hr", "Int"), Var("?hp", "Int")
	e := Select(Select(h, r), p)
	if rows {
		x.hyps = append(x.hyps, Forall([]*Term{r, p}, Implies(And(Le(Zero, r), Lt(r, n)), And(Le(Zero, SlRef(e)), Lt(SlRef(e), n))), []*Term{e}))
		return
	}
	x.hyps = append(x.hyps, Forall([]*Term{r, p}, Implies(And(Le(Zero, r), Lt(r, n)), And(Le(Zero, e), Lt(e, n))), []*Term{e}))
}
func (x *Exec) hset(st *State, key string, v *Term) {
	x.w.keySort[key] = v.sort
	st.heap[key] = v
}
func elemKey(t types.Type) string { return "E|" + shortKey(t) }
func elemSort(t types.Type) string {
	return ArrSort("Int", ArrSort("Int", sortOf(t)))
}
func cellKey(t types.Type) string { return "C|" + shortKey(t) }

func (x *Exec) alloc(st *State) *Term {
	r := st.next
	st.next = Add(st.next, One)
	return r
}

// wf: type-based facts about a value read from a well-formed state
func (x *Exec) wf(st *State, v *Term, t types.Type, depth int) {
	if x.dry > 0 {
		return
	}
	var fs []*Term
	x.wfTerm(st, v, t, depth, &fs)
	for _, f := range fs {
		// a value read straight from a well-formed heap (or a constant) has
		// its type whatever the path; one the path itself built has it only
		// where the path is taken
		if !plainRead(v) {
			f = Implies(st.pc, f)
		}
		if f == True || f.bound {
			continue
		}
		if i, ok := x.wfDone[f]; ok && i < len(x.hyps) && x.hyps[i] == f {
			continue
		}
		x.wfDone[f] = len(x.hyps)
		x.hyps = append(x.hyps, f)
	}
}
func (x *Exec) wfTerm(st *State, v *Term, t types.Type, depth int, out *[]*Term) {
	if _, ok := t.(visType); ok {
		return
	}
	if v.op == "ite" || v.op == "int" || v.op == "lit" || v.op == "bool" {
		if v.op == "ite" && v.sort != "Bool" {
			var a, b []*Term
			x.wfTerm(st, v.args[1], t, depth, &a)
			x.wfTerm(st, v.args[2], t, depth, &b)
			for _, f := range a {
				*out = append(*out, Implies(v.args[0], f))
			}
			for _, f := range b {
				*out = append(*out, Implies(Not(v.args[0]), f))
			}
		}
		return
	}
	add := func(f *Term) { *out = append(*out, f) }
	if _, ok := special(t); ok {
		return
	}
	if isTypeParam(t) {
		return
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if bits, un, ok := intKind(t); ok {
			if v.op == "mod" || v.op == "+" || v.op == "*" || v.op == "div" {
				return
			}
			if un {
				add(And(Le(Zero, v), Lt(v, BigInt(pow2(bits)))))
			} else if bits < 64 {
				add(And(Le(BigInt(new(big.Int).Neg(pow2(bits-1))), v), Lt(v, BigInt(pow2(bits-1)))))
			}
		}
	case *types.Pointer, *types.Map, *types.Chan:
		if _, fb := freshBase(v); fb {
			return
		}
		add(And(Le(Zero, v), Lt(v, st.next)))
		if f := x.readBound(st, v, v); f != nil {
			add(f)
		}
	case *types.Slice:
		if v.op == "mk" && v.args[0].op == "int" {
			return
		}
		r := SlRef(v)
		if _, fb := freshBase(r); !fb {
			add(And(Le(Zero, r), Lt(r, st.next)))
			if f := x.readBound(st, v, r); f != nil {
				add(f)
			}
		}
		add(And(Le(Zero, SlOff(v)), Le(Zero, SlLen(v)), Le(SlLen(v), SlCap(v))))
		if r.op != "int" {
			add(Implies(Eq(r, Zero), And(Eq(SlCap(v), Zero), Eq(SlOff(v), Zero))))
		}
	case *types.Interface:
		if v.op == "mk" {
			return
		}
		add(Le(Zero, Get(v, 0)))
		add(Implies(Eq(Get(v, 0), Zero), Eq(Get(v, 1), Const("nilval", "Val"))))
		// a pointer inside an interface is below the frontier
	case *types.Struct:
		if depth <= 0 {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			x.wfTerm(st, Get(v, i), u.Field(i).Type(), depth-1, out)
		}
	}
}

// plainRead: v is a constant, or is read by selections and projections from
// one: no store, constructor or branch of the path under way is part of it.
func plainRead(v *Term) bool {
	for v.op != "const" {
		if !(strings.HasPrefix(v.op, "get") || v.op == "select" || strings.HasPrefix(v.name, "at!")) || len(v.args) == 0 {
			return false
		}
		v = v.args[0]
	}
	return true
}

// readBound: a reference read out of an older version of the heap, at an
// object that existed then, is itself below the frontier of that time.
func (x *Exec) readBound(st *State, v, ref *Term) *Term {
	t := v
	var idx *Term
	for t.op != "const" {
		if strings.HasPrefix(t.op, "get") || t.op == "get" {
			t = t.args[0]
			continue
		}
		if t.op == "select" || strings.HasPrefix(t.name, "at!") {
			if t.op == "select" {
				idx = t.args[1]
			}
			t = t.args[0]
			continue
		}
		return nil
	}
	if idx == nil {
		return nil
	}
	var n *Term
	if strings.HasPrefix(t.name, "H0|") {
		if x.entry == nil {
			return nil
		}
		n = x.entry.next
	} else if strings.HasPrefix(t.name, "hc_") {
		s, ok := constBorn[t.name]
		if !ok {
			return nil
		}
		n = Const(fmt.Sprintf("next!%d", s), "Int")
	}
	if n == nil || n == st.next || idx.sort != "Int" {
		return nil
	}
	return Implies(Lt(idx, n), Lt(ref, n))
}

func (x *Exec) nilcheck(st *State, ref *Term, pos token.Pos, what string) {
	if _, ok := freshBase(ref); ok {
		return
	}
	if ref.op == "int" && ref.n.Sign() > 0 {
		return
	}
	x.check(st, "nil-deref", pos, Ne(ref, Zero))
}

func (x *Exec) ptrOf(v Val, elem types.Type) *Ptr {
	if v.P != nil {
		return v.P
	}
	if v.T == nil {
		panic(unsup("pointer without value (%s)", elem))
	}
	if isStructObj(elem) {
		return &Ptr{kind: pkObj, ref: v.T, typ: elem}
	}
	return &Ptr{kind: pkHeap, ref: v.T, typ: elem}
}

func pathType(base types.Type, path []pathEl) types.Type {
	t := base
	for _, p := range path {
		if p.idx != nil {
			t = under(t).(*types.Array).Elem()
		} else {
			t = structOf(t).Field(p.field).Type()
		}
	}
	return t
}
func getPath(v *Term, base types.Type, path []pathEl) *Term {
	t := base
	for _, p := range path {
		if p.idx != nil {
			v = Select(v, p.idx)
			t = under(t).(*types.Array).Elem()
		} else {
			v = Get(v, p.field)
			t = structOf(t).Field(p.field).Type()
		}
	}
	return v
}
func setPath(v *Term, path []pathEl, nv *Term) *Term {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	if p.idx != nil {
		return Store(v, p.idx, setPath(Select(v, p.idx), path[1:], nv))
	}
	return With(v, p.field, setPath(Get(v, p.field), path[1:], nv))
}

func (x *Exec) load(st *State, p *Ptr, pos token.Pos) Val {
	typ := pathType(p.typ, p.path)
	switch p.kind {
	case pkCell:
		v, ok := st.cells[p.cell]
		if !ok {
			v = V(zeroOf(p.cell.typ))
		}
		if len(p.path) == 0 {
			return v
		}
		return x.valOf(getPath(x.term(v, p.cell.typ), p.typ, p.path))
	case pkObj:
		x.nilcheck(st, p.ref, pos, "load")
		if len(p.path) == 0 {
			s := structOf(p.typ)
			var as []*Term
			for i := 0; i < s.NumFields(); i++ {
				h := x.heap(st, fieldKey(p.typ, i), ArrSort("Int", sortOf(s.Field(i).Type())))
				v := Select(h, p.ref)
				x.wf(st, v, s.Field(i).Type(), 2)
				as = append(as, v)
			}
			sort := sortOf(p.typ)
			return V(Mk(sort, as...))
		}
		f := p.path[0].field
		ft := structOf(p.typ).Field(f).Type()
		h := x.heap(st, fieldKey(p.typ, f), ArrSort("Int", sortOf(ft)))
		v := getPath(Select(h, p.ref), ft, p.path[1:])
		x.wf(st, v, typ, 2)
		return x.valOf(v)
	case pkHeap:
		x.nilcheck(st, p.ref, pos, "load")
		if at, ok := under(p.typ).(*types.Array); ok {
			h := x.heap(st, elemKey(at.Elem()), elemSort(at.Elem()))
			return V(getPath(Select(h, p.ref), p.typ, p.path))
		}
		h := x.heap(st, cellKey(p.typ), ArrSort("Int", sortOf(p.typ)))
		v := getPath(Select(h, p.ref), p.typ, p.path)
		x.wf(st, v, typ, 2)
		return x.valOf(v)
	case pkElem:
		h := x.heap(st, elemKey(p.typ), elemSort(p.typ))
		v := getPath(At(Select(h, p.ref), p.off, p.idx), p.typ, p.path)
		x.wf(st, v, typ, 2)
		return x.valOf(v)
	case pkGlobal:
		v := x.global(st, p.g)
		if len(p.path) == 0 {
			return v
		}
		return x.valOf(getPath(v.T, p.typ, p.path))
	}
	panic("load kind")
}

// valOf recovers function values from their constants
func (x *Exec) valOf(t *Term) Val {
	if t.op == "const" {
		if v, ok := x.w.closures[t.name]; ok {
			return v
		}
	}
	return V(t)
}

func (x *Exec) store(st *State, p *Ptr, v Val, pos token.Pos) {
	switch p.kind {
	case pkCell:
		if len(p.path) == 0 {
			st.cells[p.cell] = v
			return
		}
		cur, ok := st.cells[p.cell]
		if !ok {
			cur = V(zeroOf(p.cell.typ))
		}
		typ := pathType(p.typ, p.path)
		st.cells[p.cell] = V(setPath(x.term(cur, p.cell.typ), p.path, x.term(v, typ)))
		return
	}
	typ := pathType(p.typ, p.path)
	t := x.term(v, typ)
	switch p.kind {
	case pkObj:
		x.nilcheck(st, p.ref, pos, "store")
		if len(p.path) == 0 {
			s := structOf(p.typ)
			for i := 0; i < s.NumFields(); i++ {
				k := fieldKey(p.typ, i)
				h := x.heap(st, k, ArrSort("Int", sortOf(s.Field(i).Type())))
				x.hset(st, k, Store(h, p.ref, Get(t, i)))
			}
			return
		}
		f := p.path[0].field
		ft := structOf(p.typ).Field(f).Type()
		k := fieldKey(p.typ, f)
		h := x.heap(st, k, ArrSort("Int", sortOf(ft)))
		nv := t
		if len(p.path) > 1 {
			nv = setPath(Select(h, p.ref), p.path[1:], t)
		}
		x.hset(st, k, Store(h, p.ref, nv))
	case pkHeap:
		x.nilcheck(st, p.ref, pos, "store")
		if at, ok := under(p.typ).(*types.Array); ok {
			k := elemKey(at.Elem())
			h := x.heap(st, k, elemSort(at.Elem()))
			x.hset(st, k, Store(h, p.ref, setPath(Select(h, p.ref), p.path, t)))
			return
		}
		k := cellKey(p.typ)
		h := x.heap(st, k, ArrSort("Int", sortOf(p.typ)))
		x.hset(st, k, Store(h, p.ref, setPath(Select(h, p.ref), p.path, t)))
	case pkElem:
		k := elemKey(p.typ)
		h := x.heap(st, k, elemSort(p.typ))
		arr := Select(h, p.ref)
		nv := t
		if len(p.path) > 0 {
			nv = setPath(At(arr, p.off, p.idx), p.path, t)
		}
		x.hset(st, k, Store(h, p.ref, Store(arr, Add(p.off, p.idx), nv)))
	case pkGlobal:
		k := "G|" + p.g.String()
		cur := x.global(st, p.g)
		nv := t
		if len(p.path) > 0 {
			nv = setPath(cur.T, p.path, t)
		}
		x.hset(st, k, nv)
	}
}

func (x *Exec) global(st *State, g *ssa.Global) Val {
	k := "G|" + g.String()
	if h, ok := st.heap[k]; ok {
		return x.valOf(h)
	}
	et := g.Type().(*types.Pointer).Elem()
	if h, ok := x.initHeap[k]; ok {
		st.heap[k] = h
		return x.valOf(h)
	}
	n := "G0|" + g.String()
	c := Const(n, sortOf(et))
	constBorn[n] = 0
	x.initHeap[k] = c
	x.w.keySort[k] = c.sort
	st.heap[k] = c
	x.wf(st, c, et, 2)
	if types.Identical(et, types.Universe.Lookup("error").Type()) {
		// package-level errors are initialised non-nil
		x.hyps = append(x.hyps, Lt(Zero, Get(c, 0)))
		x.w.trust("package-level error variables are non-nil")
	}
	return V(c)
}

// ---- values to terms ----
func (x *Exec) term(v Val, t types.Type) *Term {
	if v.T != nil {
		return v.T
	}
	if v.P != nil {
		p := v.P
		if len(p.path) == 0 && (p.kind == pkObj || p.kind == pkHeap) {
			return p.ref
		}
		if p.kind == pkGlobal && len(p.path) == 0 {
			c := Const("&"+p.g.String(), "Int")
			constBorn[c.name] = 0
			x.hyps = append(x.hyps, And(Lt(Zero, c), Lt(c, x.entry.next)))
			return c
		}
		panic(unsup("interior pointer used as a value (%s)", t))
	}
	if v.Fn != nil {
		key := "fn|" + v.Fn.String()
		for _, b := range v.Binds {
			switch {
			case b.T != nil:
				key += fmt.Sprintf("|t%d", b.T.id)
			case b.P != nil && b.P.cell != nil:
				key += fmt.Sprintf("|c%d", b.P.cell.id)
			default:
				key += fmt.Sprintf("|p%p", b.P)
			}
		}
		c := Const(key, "Int")
		if _, ok := x.w.closures[key]; !ok {
			x.w.closures[key] = v
		}
		constBorn[key] = 0
		h := Lt(Zero, c)
		if i, ok := x.wfDone[h]; !(ok && i < len(x.hyps) && x.hyps[i] == h) {
			x.wfDone[h] = len(x.hyps)
			x.hyps = append(x.hyps, h)
		}
		return c
	}
	panic(unsup("value without term of type %s", t))
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return V(zeroOf(t))
	}
	s := sortOf(t)
	switch s {
	case "Bool":
		return V(Bool(constant.BoolVal(c.Value)))
	case "Str":
		return V(StrLit(constant.StringVal(c.Value)))
	case "Int":
		v := constant.ToInt(c.Value)
		if v.Kind() != constant.Int {
			panic(unsup("const %s", c))
		}
		b, _ := new(big.Int).SetString(v.ExactString(), 10)
		return V(BigInt(b))
	case "Real":
		r, _ := new(big.Rat).SetString(constant.ToFloat(c.Value).ExactString())
		if r == nil {
			f, _ := constant.Float64Val(c.Value)
			r = new(big.Rat)
			r.SetFloat64(f)
		}
		return V(RealLit(r))
	}
	panic(unsup("const of type %s", t))
}

func (x *Exec) val(fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return Val{Fn: v}
	case *ssa.Global:
		return Val{P: &Ptr{kind: pkGlobal, g: v, typ: v.Type().(*types.Pointer).Elem()}}
	case *ssa.Builtin:
		return Val{}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	panic(unsup("undefined register %s = %s in %s", v.Name(), v, fr.fn))
}
func (x *Exec) tv(fr *Frame, v ssa.Value) *Term { return x.term(x.val(fr, v), v.Type()) }

// ---- merging ----
func relCond(a, b *Term) (cond, merged *Term) {
	ca, cb := conjuncts(a), conjuncts(b)
	inB := map[*Term]bool{}
	for _, t := range cb {
		inB[t] = true
	}
	inA := map[*Term]bool{}
	var common, ra, rb []*Term
	for _, t := range ca {
		inA[t] = true
		if inB[t] {
			common = append(common, t)
		} else {
			ra = append(ra, t)
		}
	}
	for _, t := range cb {
		if !inA[t] {
			rb = append(rb, t)
		}
	}
	A, B := And(ra...), And(rb...)
	cond = A
	if len(rb) < len(ra) {
		cond = Not(B)
	}
	merged = And(append(common, Or(A, B))...)
	return
}

func (x *Exec) mergeVal(c *Term, a, b Val, t types.Type) Val {
	if a.T != nil && b.T != nil {
		return V(Ite(c, a.T, b.T))
	}
	if a.P != nil && b.P != nil && samePtr(a.P, b.P) {
		return a
	}
	if a.Fn != nil && a.Fn == b.Fn && len(a.Binds) == 0 {
		return a
	}
	if a.isTup && b.isTup {
		r := Val{isTup: true}
		for i := range a.Tup {
			r.Tup = append(r.Tup, x.mergeVal(c, a.Tup[i], b.Tup[i], nil))
		}
		return r
	}
	if a.It != nil && a.It == b.It {
		return a
	}
	return V(Ite(c, x.term(a, t), x.term(b, t)))
}
func samePtr(a, b *Ptr) bool {
	if a.kind != b.kind || a.cell != b.cell || a.ref != b.ref || a.idx != b.idx || a.off != b.off || a.g != b.g || len(a.path) != len(b.path) {
		return false
	}
	for i := range a.path {
		if a.path[i].field != b.path[i].field || a.path[i].idx != b.path[i].idx {
			return false
		}
	}
	return true
}

func (x *Exec) mergeNext(a, b, pca, pcb *Term) *Term {
	if a == b {
		return a
	}
	if d := Sub(a, b); d.op == "int" {
		if d.n.Sign() >= 0 {
			return a
		}
		return b
	}
	n := newFrontier()
	x.assume(True, And(Le(a, n), Le(b, n)))
	return n
}

func (x *Exec) merge(a, b *State) (*State, *Term) {
	c, pc := relCond(a.pc, b.pc)
	n := &State{pc: pc, cells: map[*Cell]Val{}, heap: map[string]*Term{}}
	for k, v := range a.cells {
		w, ok := b.cells[k]
		if !ok {
			n.cells[k] = v // dead on the other side
			continue
		}
		n.cells[k] = x.mergeCell(c, v, w, k)
	}
	for k, v := range b.cells {
		if _, ok := a.cells[k]; !ok {
			n.cells[k] = v
		}
	}
	for k, v := range a.heap {
		w, ok := b.heap[k]
		if !ok {
			w = x.initHeap[k]
			if w == nil {
				n.heap[k] = v
				continue
			}
		}
		n.heap[k] = Ite(c, v, w)
	}
	for k, v := range b.heap {
		if _, ok := a.heap[k]; ok {
			continue
		}
		w := x.initHeap[k]
		if w == nil {
			n.heap[k] = v
			continue
		}
		n.heap[k] = Ite(c, w, v)
	}
	n.next = x.mergeNext(a.next, b.next, a.pc, b.pc)
	if len(a.defers) >= len(b.defers) {
		n.defers = a.defers
	} else {
		n.defers = b.defers
	}
	return n, c
}
func (x *Exec) mergeCell(c *Term, a, b Val, k *Cell) (r Val) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unsupErr); ok {
				// unmergeable dead value: drop
				r = Val{}
				return
			}
			panic(e)
		}
	}()
	return x.mergeVal(c, a, b, k.typ)
}

// ---- CFG ----
type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}
type cfgInfo struct {
	rpo   []*ssa.BasicBlock
	num   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]*Loop
}

var cfgs = map[*ssa.Function]*cfgInfo{}

func cfgOf(f *ssa.Function) *cfgInfo {
	if c, ok := cfgs[f]; ok {
		return c
	}
	c := &cfgInfo{num: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*Loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		c.num[post[i]] = len(c.rpo)
		c.rpo = append(c.rpo, post[i])
	}
	for _, b := range c.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := c.loops[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					c.loops[s] = l
				}
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					n := st[len(st)-1]
					st = st[:len(st)-1]
					if l.blocks[n] {
						continue
					}
					l.blocks[n] = true
					for _, p := range n.Preds {
						if _, ok := c.num[p]; ok {
							st = append(st, p)
						}
					}
				}
			} else if c.num[s] <= c.num[b] {
				panic(unsup("irreducible control flow in %s", f))
			}
		}
	}
	cfgs[f] = c
	return c
}

type edgeState struct {
	from, to *ssa.BasicBlock
	st       *State
}

// execRegion runs the blocks of region starting at entry; returns the states leaving the region
// and those returning to entry (back edges).
func (x *Exec) execRegion(fr *Frame, region map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, est *State, eedges []edgeState) (exits []edgeState, back []*State) {
	ci := cfgOf(fr.fn)
	in := map[*ssa.BasicBlock][]edgeState{}
	done := map[*ssa.BasicBlock]bool{}
	for _, b := range ci.rpo {
		if region != nil && !region[b] || done[b] {
			continue
		}
		var es []edgeState
		if b == entry {
			es = []edgeState{{nil, b, est}}
		} else {
			es = in[b]
		}
		if len(es) == 0 {
			continue
		}
		var outs []edgeState
		if l := ci.loops[b]; l != nil && !(b == entry && region != nil) {
			st := x.joinEdges(fr, b, es)
			outs = x.execLoop(fr, l, st)
			for lb := range l.blocks {
				done[lb] = true
			}
		} else {
			st := x.joinEdges(fr, b, es)
			outs = x.execBlock(fr, b, st)
		}
		for _, e := range outs {
			if e.st.pc == False {
				continue
			}
			switch {
			case e.to == entry && region != nil:
				back = append(back, e.st)
			case region != nil && !region[e.to]:
				exits = append(exits, e)
			default:
				in[e.to] = append(in[e.to], e)
			}
		}
	}
	return
}

func (x *Exec) joinEdges(fr *Frame, b *ssa.BasicBlock, es []edgeState) *State {
	st := es[0].st
	var phis []*ssa.Phi
	for _, i := range b.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	pv := make([]Val, len(phis))
	edgeVal := func(p *ssa.Phi, e edgeState) Val {
		for j, pr := range b.Preds {
			if pr == e.from {
				return x.val(fr, p.Edges[j])
			}
		}
		panic(unsup("phi edge"))
	}
	for i, p := range phis {
		pv[i] = edgeVal(p, es[0])
	}
	for _, e := range es[1:] {
		m, c := x.merge(st, e.st)
		for i, p := range phis {
			pv[i] = x.mergeVal(c, pv[i], edgeVal(p, e), p.Type())
		}
		st = m
	}
	for i, p := range phis {
		fr.env[p] = pv[i]
	}
	if len(es) == 1 {
		st = st.clone()
	}
	return st
}

func (x *Exec) execBlock(fr *Frame, b *ssa.BasicBlock, st *State) []edgeState {
	x.steps++
	if x.steps > 60000 {
		panic(unsup("symbolic execution budget exceeded in %s", fr.fn))
	}
	for _, in := range b.Instrs {
		switch i := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := x.tv(fr, i.Cond)
			s1 := st
			s2 := st.clone()
			s1.pc = And(st.pc, c)
			s2.pc = And(s2.pc, Not(c))
			return []edgeState{{b, b.Succs[0], s1}, {b, b.Succs[1], s2}}
		case *ssa.Jump:
			return []edgeState{{b, b.Succs[0], st}}
		case *ssa.Return:
			var rs []Val
			for _, r := range i.Results {
				rs = append(rs, x.val(fr, r))
			}
			fr.returns = append(fr.returns, retState{st, rs, i.Pos()})
			return nil
		case *ssa.Panic:
			x.check(st, "panic", i.Pos(), False)
			return nil
		default:
			if in.Pos().IsValid() {
				x.curPos = in.Pos()
			}
			x.instr(fr, in, st)
			if st.pc == False {
				return nil
			}
		}
	}
	return nil
}

// ---- loops ----
func (x *Exec) execLoop(fr *Frame, l *Loop, entry *State) []edgeState {
	// 1. try to unroll
	mark := len(x.hyps)
	omark := len(x.obs)
	cmark := len(x.cands)
	rmark := len(fr.returns)
	nmark := cloneCount(x.loopN)
	var exits []edgeState
	st := entry.clone()
	ok := false
	for it := 0; it < 80 && !(x.top != nil && x.top.noUnroll); it++ {
		ex, back := x.execRegion(fr, l.blocks, l.header, st.clone(), nil)
		exits = append(exits, ex...)
		if len(back) == 0 {
			ok = true
			break
		}
		if !x.headerFolded(fr, l) {
			break
		}
		st = back[0]
		for _, b := range back[1:] {
			st, _ = x.merge(st, b)
		}
		if st.pc == False {
			ok = true
			break
		}
	}
	if ok {
		return x.mergeExits(exits)
	}
	x.hyps = x.hyps[:mark]
	x.obs = x.obs[:omark]
	x.cands = x.cands[:cmark]
	fr.returns = fr.returns[:rmark]
	x.loopN = nmark
	return x.invLoop(fr, l, entry)
}
func cloneCount(m map[string]int) map[string]int {
	n := map[string]int{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (x *Exec) mergeExits(es []edgeState) []edgeState {
	// merge states leaving through the same edge
	var out []edgeState
	idx := map[[2]*ssa.BasicBlock]int{}
	for _, e := range es {
		k := [2]*ssa.BasicBlock{e.from, e.to}
		if i, ok := idx[k]; ok {
			out[i].st, _ = x.merge(out[i].st, e.st)
			continue
		}
		idx[k] = len(out)
		out = append(out, e)
	}
	return out
}

func (x *Exec) headerFolded(fr *Frame, l *Loop) bool {
	if i, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); ok {
		v, ok := fr.env[i.Cond]
		if c, isc := i.Cond.(*ssa.Const); isc {
			v, ok = x.constVal(c), true
		}
		return ok && v.T != nil && v.T.op == "bool"
	}
	return false
}

// leaf: a unit of havoc: a cell (path of struct/slice components) or a heap key
type leaf struct {
	cell *Cell
	path []int
	heap string
}

func (l leaf) key() string {
	if l.cell != nil {
		return fmt.Sprintf("c%d%v", l.cell.id, l.path)
	}
	return "h" + l.heap
}

func diffLeaves(a, b *Term, c *Cell, path []int, out *[]leaf) {
	if a == b {
		return
	}
	if d := dts[a.sort]; d != nil && a.sort != "Iface" && (a.op == "mk" || b.op == "mk") {
		for i := range d.fields {
			diffLeaves(Get(a, i), Get(b, i), c, append(append([]int{}, path...), i), out)
		}
		return
	}
	*out = append(*out, leaf{cell: c, path: path})
}
func termPath(t *Term, path []int) *Term {
	for _, i := range path {
		t = Get(t, i)
	}
	return t
}
func withPath(t *Term, path []int, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	return With(t, path[0], withPath(Get(t, path[0]), path[1:], v))
}

func typeAtPath(t types.Type, path []int) types.Type {
	if len(path) == 0 {
		return t
	}
	if s := structOf(t); s != nil && sortOf(t) != "Str" {
		return typeAtPath(s.Field(path[0]).Type(), path[1:])
	}
	return types.Typ[types.Int] // slice component
}

func (x *Exec) havoc(entry *State, mod map[string]leaf, nextMod bool) (*State, map[string]*Term) {
	st := entry.clone()
	hv := map[string]*Term{}
	if nextMod {
		n := newFrontier()
		x.assume(True, Le(entry.next, n))
		st.next = n
	}
	var ks []string
	for k := range mod {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	touched := map[*Cell]bool{}
	var closures []string
	for _, k := range ks {
		lf := mod[k]
		if lf.cell != nil {
			cur, ok := entry.cells[lf.cell]
			if !ok {
				continue
			}
			base := x.term(st.cells[lf.cell], lf.cell.typ)
			_ = cur
			old := termPath(base, lf.path)
			nm := lf.cell.name
			if nm == "" {
				nm = "tmp"
			}
			c := Fresh("lv_"+nm+pathSuffix(lf.path), old.sort)
			constBorn[c.name] = curSeq()
			hv[k] = c
			st.cells[lf.cell] = V(withPath(base, lf.path, c))
			touched[lf.cell] = true
		} else {
			s := x.w.keySort[lf.heap]
			c := Fresh("lh_"+lf.heap, s)
			constBorn[c.name] = curSeq()
			hv[k] = c
			st.heap[lf.heap] = c
			closures = append(closures, lf.heap)
		}
	}
	for _, k := range closures {
		x.closed(k, st.heap[k], st.next)
	}
	for c := range touched {
		v := st.cells[c]
		x.wf(st, v.T, c.typ, 3)
		if c.name == "$k" {
			x.assume(True, Le(Zero, v.T))
		}
	}
	return st, hv
}
func pathSuffix(p []int) string {
	s := ""
	for _, i := range p {
		s += fmt.Sprintf(".%d", i)
	}
	return s
}

func (x *Exec) diffState(a, b *State, mod map[string]leaf) bool {
	ch := false
	add := func(l leaf) {
		if _, ok := mod[l.key()]; !ok {
			mod[l.key()] = l
			ch = true
		}
	}
	for c, v := range a.cells {
		w, ok := b.cells[c]
		if !ok {
			continue
		}
		if v.T == nil && w.T == nil {
			if v.P != nil && w.P != nil && samePtr(v.P, w.P) || v.Fn != nil && v.Fn == w.Fn || v.It != nil || (v.P == nil && v.Fn == nil && v.It == nil) {
				continue
			}
		}
		if (v.P == nil && v.Fn == nil && v.T == nil) || (w.P == nil && w.Fn == nil && w.T == nil) {
			continue
		}
		var ls []leaf
		diffLeaves(x.term(v, c.typ), x.term(w, c.typ), c, nil, &ls)
		for _, l := range ls {
			add(l)
		}
	}
	for k, v := range b.heap {
		w, ok := a.heap[k]
		if !ok {
			w = x.initHeap[k]
		}
		if w != v {
			add(leaf{heap: k})
		}
	}
	return ch
}

func (x *Exec) invLoop(fr *Frame, l *Loop, entry *State) []edgeState {
	loopID := fmt.Sprintf("%s@%s", fr.fn.Name(), l.header.Comment)
	x.loopN[loopID]++
	loopID = fmt.Sprintf("%s#%d", loopID, x.loopN[loopID])
	// iteration counter
	kc := &Cell{id: x.w.cellID(), name: "$k", typ: types.Typ[types.Int]}
	entry = entry.clone()
	entry.cells[kc] = V(Zero)
	// 2. find modified leaves
	mod := map[string]leaf{}
	mod[leaf{cell: kc}.key()] = leaf{cell: kc}
	nextMod := false
	mark := len(x.hyps)
	for round := 0; ; round++ {
		if round > 12 {
			panic(unsup("loop modification set does not stabilise in %s", loopID))
		}
		x.dry++
		rm := len(fr.returns)
		st, _ := x.havoc(entry, mod, nextMod)
		pre := st.clone()
		ln := cloneCount(x.loopN)
		_, back := x.execRegion(fr, l.blocks, l.header, st, nil)
		x.loopN = ln
		fr.returns = fr.returns[:rm]
		x.dry--
		x.hyps = x.hyps[:mark]
		ch := false
		for _, b := range back {
			if x.diffState(pre, b, mod) {
				ch = true
			}
			if b.next != pre.next && !nextMod {
				nextMod = true
				ch = true
			}
		}
		// if a parent leaf is present drop its children
		for k, lf := range mod {
			if lf.cell == nil {
				continue
			}
			for i := range lf.path {
				if _, ok := mod[leaf{cell: lf.cell, path: lf.path[:i]}.key()]; ok {
					delete(mod, k)
					break
				}
			}
		}
		if !ch {
			break
		}
	}
	// 3. candidates
	hst, hv := x.havoc(entry, mod, nextMod)
	var active []candInst
	if x.dry == 0 && x.ghost == 0 {
		active = x.genCands(fr, l, entry, hst, mod, hv, loopID, kc)
		for _, c := range active {
			// initiation
			g := c.at(entry)
			if g == nil {
				c.c.dead = true
				continue
			}
			x.obs = append(x.obs, &Oblig{fn: x.top.id(), label: "init " + c.c.name, name: "inv-init", nh: len(x.hyps), pc: entry.pc, goal: g, cand: c.c})
		}
		for _, c := range active {
			if c.c.dead {
				continue
			}
			if g := c.at(hst); g != nil {
				x.hyps = append(x.hyps, Implies(And(c.c.sel, hst.pc), g))
			} else {
				c.c.dead = true
			}
		}
	}
	exits, back := x.execRegion(fr, l.blocks, l.header, hst.clone(), nil)
	for _, b := range back {
		kv := b.cells[kc]
		b.cells[kc] = V(Add(kv.T, One))
		for _, c := range active {
			if c.c.dead {
				continue
			}
			g := c.at(b)
			if g == nil {
				c.c.dead = true
				continue
			}
			x.obs = append(x.obs, &Oblig{fn: x.top.id(), label: "step " + c.c.name, name: "inv-step", nh: len(x.hyps), pc: b.pc, goal: g, cand: c.c})
		}
	}
	return x.mergeExits(exits)
}

type candInst struct {
	c  *Cand
	at func(*State) *Term
}

func (x *Exec) newCand(name, loop string, user bool, at func(*State) *Term) candInst {
	c := &Cand{id: len(x.cands), name: name, loop: loop, user: user}
	c.sel = Const(fmt.Sprintf("sel!%s!%d", x.top.id(), c.id), "Bool")
	x.cands = append(x.cands, c)
	return candInst{c, at}
}

func cellTermAt(c *Cell, path []int) func(*State) *Term {
	return func(s *State) *Term {
		v, ok := s.cells[c]
		if !ok || v.T == nil {
			return nil
		}
		return termPath(v.T, path)
	}
}

// loopBound: n when the loop header tests i < n with n computed before the loop
func (x *Exec) loopBound(fr *Frame, l *Loop) *Term {
	h := l.header
	if len(h.Instrs) == 0 {
		return nil
	}
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	c, ok := br.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.LSS {
		return nil
	}
	if _, _, ok := intKind(c.Y.Type()); !ok {
		return nil
	}
	if in, ok := c.Y.(ssa.Instruction); ok {
		if l.blocks[in.Block()] {
			return nil
		}
		if v, ok := fr.env[c.Y]; !ok || v.T == nil {
			return nil
		}
	}
	n := x.tv(fr, c.Y)
	if n == nil || n.sort != "Int" {
		return nil
	}
	return n
}

func (x *Exec) genCands(fr *Frame, l *Loop, entry, hst *State, mod map[string]leaf, hv map[string]*Term, loopID string, kcell *Cell) []candInst {
	var out []candInst
	add := func(name string, at func(*State) *Term) {
		out = append(out, x.newCand(name, loopID, false, func(s *State) (t *Term) { return at(s) }))
	}
	kAt := cellTermAt(kcell, nil)
	if n := x.loopBound(fr, l); n != nil {
		add("$k<=bound", func(s *State) *Term { return Le(kAt(s), Ite(Le(Zero, n), n, Zero)) })
	}
	var keys []string
	for k := range mod {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		lf := mod[k]
		if lf.cell != nil {
			if lf.cell == kcell {
				continue
			}
			t := typeAtPath(lf.cell.typ, lf.path)
			g := cellTermAt(lf.cell, lf.path)
			v0 := g(entry)
			if v0 == nil {
				continue
			}
			nm := lf.cell.name + pathSuffix(lf.path)
			if lf.cell.name != "" {
				add(nm+" k=0", func(s *State) *Term { return Implies(Eq(kAt(s), Zero), Eq(g(s), v0)) })
			}
			if v0.sort == "Int" {
				if _, _, ok := intKind(t); ok {
					add(nm+">=init", func(s *State) *Term { return Le(v0, g(s)) })
					add(nm+"<=init", func(s *State) *Term { return Le(g(s), v0) })
					add(nm+">=0", func(s *State) *Term { return Le(Zero, g(s)) })
					add(nm+"=init+k", func(s *State) *Term { return Eq(g(s), Add(v0, kAt(s))) })
					add(nm+"=init-k", func(s *State) *Term { return Eq(g(s), Sub(v0, kAt(s))) })
					add(nm+"<=init+k", func(s *State) *Term { return Le(g(s), Add(v0, kAt(s))) })
				}
			}
			if _, isSl := types.Unalias(lf.cell.typ).Underlying().(*types.Slice); isSl && (len(lf.path) == 0 || len(lf.path) == 1 && lf.path[0] == 0) && sortOf(lf.cell.typ) == "Slice" {
				gs := cellTermAt(lf.cell, nil)
				fresh0 := x.entry.next
				add(nm+" fresh-or-nil", func(s *State) *Term {
					v := gs(s)
					return Or(Le(fresh0, SlRef(v)), Eq(SlCap(v), Zero))
				})
				if n0 := entry.next; n0 != fresh0 {
					add(nm+" fresh-in-loop-or-init", func(s *State) *Term {
						v := gs(s)
						return Or(Le(n0, SlRef(v)), Eq(SlRef(v), SlRef(gs(entry))))
					})
				}
			}
			if len(lf.path) == 1 && lf.path[0] == 2 || (sortOf(lf.cell.typ) == "Slice" && len(lf.path) == 0) {
				gs := cellTermAt(lf.cell, nil)
				v0 := gs(entry)
				if v0.sort == "Slice" {
					add(nm+" len=len0+k", func(s *State) *Term { return Eq(SlLen(gs(s)), Add(SlLen(v0), kAt(s))) })
					add(nm+" len<=len0+k", func(s *State) *Term { return Le(SlLen(gs(s)), Add(SlLen(v0), kAt(s))) })
					add(nm+" len<=len0", func(s *State) *Term { return Le(SlLen(gs(s)), SlLen(v0)) })
				}
			}
		} else {
			h0 := entry.heap[lf.heap]
			if h0 == nil {
				h0 = x.initHeap[lf.heap]
			}
			if h0 == nil || !strings.HasPrefix(h0.sort, "(Array Int") || strings.HasPrefix(lf.heap, "G|") {
				continue
			}
			key := lf.heap
			if key == "GRP|" {
				for c, v := range entry.cells {
					if v.T == nil || c.typ == nil || typeKey(c.typ) != "*github.com/rivo/uniseg.Graphemes" {
						continue
					}
					r, c := v.T, c
					p0 := Select(h0, r)
					add("graphemes "+c.name+"=init+k", func(s *State) *Term { return Eq(Select(x.heap(s, key, h0.sort), r), Add(p0, kAt(s))) })
					str := Select(x.heap(entry, "GRS|", "(Array Int Str)"), r)
					add("graphemes "+c.name+"<len", func(s *State) *Term { return Lt(Select(x.heap(s, key, h0.sort), r), App("glen", "Int", str)) })
					add("graphemes "+c.name+"<=len", func(s *State) *Term { return Le(Select(x.heap(s, key, h0.sort), r), App("glen", "Int", str)) })
				}
			}
			hin := x.initHeap[key]
			fr0 := x.entry.next
			n0 := entry.next
			mk := func(base, lim *Term) func(s *State) *Term {
				return func(s *State) *Term {
					h := x.heap(s, key, h0.sort)
					r := Var("?r", "Int")
					sel := Select(h, r)
					return Forall([]*Term{r}, Implies(And(Le(Zero, r), Lt(r, lim)), Eq(sel, Select(base, r))), []*Term{sel})
				}
			}
			if hin != nil {
				add("frame-old "+key, mk(hin, fr0))
			}
			if n0 != fr0 || hin == nil {
				add("frame-loop "+key, mk(h0, n0))
			}
			// objects the contract does not let the function modify keep their contents
			if hin != nil && x.top != nil && !x.top.modAll && len(x.topMods[key]) > 0 {
				ms := x.topMods[key]
				add("frame-mods "+key, func(s *State) *Term {
					h := x.heap(s, key, h0.sort)
					r := Var("?r", "Int")
					sel := Select(h, r)
					cond := []*Term{Le(Zero, r), Lt(r, fr0)}
					for _, m := range ms {
						if m == nil {
							return True
						}
						cond = append(cond, notMod(r, m))
					}
					return Forall([]*Term{r}, Implies(And(cond...), Eq(sel, Select(hin, r))), []*Term{sel})
				})
			}
			// objects other than the slices held in modified cells keep their contents
			if strings.HasPrefix(key, "E|") {
				for c, v := range entry.cells {
					if v.T != nil && v.T.sort == "Slice" && sortOf(c.typ) == "Slice" && c.name != "" {
						es := types.Unalias(c.typ).Underlying().(*types.Slice)
						if elemKey(es.Elem()) != key {
							continue
						}
						c := c
						r0 := SlRef(v.T)
						if r0.op == "int" {
							continue
						}
						add("frame-loop-except "+c.name+" "+key, func(s *State) *Term {
							h := x.heap(s, key, h0.sort)
							r := Var("?r", "Int")
							sel := Select(h, r)
							return Forall([]*Term{r}, Implies(And(Le(Zero, r), Lt(r, n0), Ne(r, r0)), Eq(sel, Select(h0, r))), []*Term{sel})
						})
					}
				}
			}
		}
	}
	// bounds from the loop condition
	for _, c := range x.headerBounds(fr, l, entry, hst, mod, hv) {
		c := c
		add(c.name, c.at)
	}
	// map iterations: visited keys, and maps filled from them
	for _, k := range keys {
		lf := mod[k]
		it := x.iters[lf.cell]
		if lf.cell == nil || it == nil {
			continue
		}
		vis := func(s *State) *Term {
			if v, ok := s.cells[it.visCell]; ok {
				return v.T
			}
			return ConstArr(ArrSort(sortOf(it.mt.Key()), "Bool"), False)
		}
		add("visited <= size", func(s *State) *Term {
			if v, ok := s.cells[it.posCell]; ok {
				return Le(v.T, it.len0)
			}
			return nil
		})
		q := Var("?mk", sortOf(it.mt.Key()))
		v0 := Select(Select(x.heap(entry, "MV|"+shortKey(it.mt), ArrSort("Int", ArrSort(sortOf(it.mt.Key()), sortOf(it.mt.Elem())))), it.m), q)
		add("visited in map", func(s *State) *Term {
			return Forall([]*Term{q}, Implies(Select(vis(s), q), Select(it.dom0, q)), []*Term{Select(vis(s), q)})
		})
		for c := range entry.cells {
			mt, ok := typeOfCell(c).(*types.Map)
			if !ok || sortOf(mt.Key()) != sortOf(it.mt.Key()) {
				continue
			}
			c, mt := c, mt
			g := cellTermAt(c, nil)
			dom := func(s *State) *Term {
				r := g(s)
				if r == nil {
					return nil
				}
				d, _, _ := x.mapHeaps(s, mt)
				return Select(Select(d, r), q)
			}
			add("map "+c.name+" = visited", func(s *State) *Term {
				if dom(s) == nil {
					return nil
				}
				return Forall([]*Term{q}, Eq(dom(s), Select(vis(s), q)), []*Term{dom(s)}, []*Term{Select(vis(s), q)})
			})
			ln := func(s *State) *Term {
				r := g(s)
				if r == nil {
					return nil
				}
				_, _, l := x.mapHeaps(s, mt)
				return Select(l, r)
			}
			pos := func(s *State) *Term {
				if v, ok := s.cells[it.posCell]; ok {
					return v.T
				}
				return Zero
			}
			add("map "+c.name+" len = visited", func(s *State) *Term {
				if ln(s) == nil {
					return nil
				}
				return Eq(ln(s), pos(s))
			})
			add("map "+c.name+" len <= visited", func(s *State) *Term {
				if ln(s) == nil {
					return nil
				}
				return Le(ln(s), pos(s))
			})
			add("map "+c.name+" in visited", func(s *State) *Term {
				if dom(s) == nil {
					return nil
				}
				return Forall([]*Term{q}, Implies(dom(s), Select(vis(s), q)), []*Term{dom(s)})
			})
			if sortOf(mt.Elem()) == sortOf(it.mt.Elem()) {
				add("map "+c.name+" copies", func(s *State) *Term {
					if dom(s) == nil {
						return nil
					}
					_, v, _ := x.mapHeaps(s, mt)
					vq := Select(Select(v, g(s)), q)
					return Forall([]*Term{q}, Implies(And(dom(s), Select(vis(s), q)), Eq(vq, v0)), []*Term{dom(s)}, []*Term{vq})
				})
			}
		}
	}
	// user templates
	out = append(out, x.userCands(fr, entry, hst, mod, loopID, kAt)...)
	return out
}

type boundCand struct {
	name string
	at   func(*State) *Term
}

// headerBounds: for a condition a<b in the header (or any If in the loop that exits it), propose a<=b
func (x *Exec) headerBounds(fr *Frame, l *Loop, entry, hst *State, mod map[string]leaf, hv map[string]*Term) []boundCand {
	var out []boundCand
	// re-evaluate the condition's comparison in a given state through a ghost execution of the header
	for b := range l.blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if l.blocks[b.Succs[0]] && l.blocks[b.Succs[1]] {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch bo.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
		default:
			continue
		}
		ev := func(v ssa.Value) func(s *State) *Term { return x.pureEval(fr, l, v) }
		a, c := ev(bo.X), ev(bo.Y)
		if a == nil || c == nil {
			continue
		}
		mk := func(f func(p, q *Term) *Term) func(s *State) *Term {
			return func(s *State) *Term {
				p, q := a(s), c(s)
				if p == nil || q == nil || p.sort != "Int" || q.sort != "Int" {
					return nil
				}
				return f(p, q)
			}
		}
		switch bo.Op {
		case token.LSS, token.NEQ:
			out = append(out, boundCand{"cond<=", mk(func(p, q *Term) *Term { return Le(p, q) })})
			out = append(out, boundCand{"condNonempty", mk(func(p, q *Term) *Term { return Or(Le(p, q), Lt(q, Zero)) })})
		case token.LEQ:
			out = append(out, boundCand{"cond<=+1", mk(func(p, q *Term) *Term { return Le(p, Add(q, One)) })})
		case token.GTR:
			out = append(out, boundCand{"cond>=", mk(func(p, q *Term) *Term { return Ge(p, q) })})
		case token.GEQ:
			out = append(out, boundCand{"cond>=-1", mk(func(p, q *Term) *Term { return Ge(Add(p, One), q) })})
		}
	}
	return out
}

// pureEval: a side-effect free re-evaluation of register v in another state (loads of cells, len, +, -, consts, outer registers)
func (x *Exec) pureEval(fr *Frame, l *Loop, v ssa.Value) func(s *State) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		t := x.constVal(v)
		return func(*State) *Term { return t.T }
	case *ssa.BinOp:
		if v.Op != token.ADD && v.Op != token.SUB {
			return nil
		}
		if sortOf(v.Type()) != "Int" {
			return nil
		}
		a, b := x.pureEval(fr, l, v.X), x.pureEval(fr, l, v.Y)
		if a == nil || b == nil {
			return nil
		}
		return func(s *State) *Term {
			p, q := a(s), b(s)
			if p == nil || q == nil {
				return nil
			}
			if v.Op == token.ADD {
				return Add(p, q)
			}
			return Sub(p, q)
		}
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return nil
		}
		p := x.pureAddr(fr, l, v.X)
		if p == nil {
			return nil
		}
		return func(s *State) *Term {
			pp := p(s)
			if pp == nil {
				return nil
			}
			x.ghost++
			x.dry++
			defer func() { x.ghost--; x.dry-- }()
			r := x.load(s.clone(), pp, token.NoPos)
			return r.T
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			a := x.pureEval(fr, l, v.Call.Args[0])
			if a == nil {
				return nil
			}
			return func(s *State) *Term {
				t := a(s)
				if t == nil {
					return nil
				}
				switch t.sort {
				case "Slice":
					return SlLen(t)
				case "Str":
					return SLen(t)
				}
				return nil
			}
		}
		return nil
	}
	if in, ok := v.(ssa.Instruction); ok && l.blocks[in.Block()] {
		return nil
	}
	if r, ok := fr.env[v]; ok && r.T != nil {
		return func(*State) *Term { return r.T }
	}
	return nil
}
func (x *Exec) pureAddr(fr *Frame, l *Loop, v ssa.Value) func(s *State) *Ptr {
	switch v := v.(type) {
	case *ssa.Alloc:
		if r, ok := fr.env[v]; ok && r.P != nil {
			return func(*State) *Ptr { return r.P }
		}
	case *ssa.FieldAddr:
		st := v.X.Type().Underlying().(*types.Pointer).Elem()
		if a := x.pureAddr(fr, l, v.X); a != nil {
			return func(s *State) *Ptr {
				b := a(s)
				if b == nil {
					return nil
				}
				n := *b
				n.path = append(append([]pathEl{}, b.path...), pathEl{field: v.Field, typ: st})
				return &n
			}
		}
		if e := x.pureEval(fr, l, v.X); e != nil {
			return func(s *State) *Ptr {
				t := e(s)
				if t == nil || !isStructObj(st) {
					return nil
				}
				return &Ptr{kind: pkObj, ref: t, typ: st, path: []pathEl{{field: v.Field, typ: st}}}
			}
		}
	}
	if in, ok := v.(ssa.Instruction); ok && l.blocks[in.Block()] {
		return nil
	}
	if r, ok := fr.env[v]; ok && r.P != nil {
		return func(*State) *Ptr { return r.P }
	}
	return nil
}

func noBound(t *Term) bool { return !t.bound }

func typeOfCell(c *Cell) types.Type {
	if c.typ == nil {
		return nil
	}
	return types.Unalias(c.typ).Underlying()
}

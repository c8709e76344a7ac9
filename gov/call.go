package main

import (
	"os"
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) call(fr *Frame, c *ssa.CallCommon, st *State, pos token.Pos) []Val {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(fr, a))
	}
	var fv Val
	if _, ok := c.Value.(*ssa.Builtin); !ok {
		fv = x.val(fr, c.Value)
	}
	return x.callWith(fr, c, fv, args, st, pos)
}

func resultTypes(sig *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, sig.Results().At(i).Type())
	}
	return out
}

func (x *Exec) callWith(fr *Frame, c *ssa.CallCommon, fv Val, args []Val, st *State, pos token.Pos) []Val {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, b, c, args, st, pos)
	}
	if c.IsInvoke() {
		return x.invoke(fr, c, fv, args, st, pos)
	}
	if fv.Fn != nil {
		return x.callFn(fr, fv.Fn, fv.Binds, args, st, pos, c)
	}
	if fv.T != nil {
		return x.callDyn(fr, fv.T, args, st, pos, c.Signature(), c)
	}
	panic(unsup("call of %s", c.Value))
}

// callDyn: a function value that is not statically known
func (x *Exec) callDyn(fr *Frame, f *Term, args []Val, st *State, pos token.Pos, sig *types.Signature, c *ssa.CallCommon) []Val {
	if v := x.valOf(f); v.Fn != nil {
		return x.callFn(fr, v.Fn, v.Binds, args, st, pos, c)
	}
	if f.op == "ite" {
		v1, v2 := x.valOf(f.args[1]), x.valOf(f.args[2])
		if v1.Fn != nil || v2.Fn != nil || f.args[1].op == "ite" || f.args[2].op == "ite" {
			s1, s2 := st.clone(), st.clone()
			s1.pc, s2.pc = And(st.pc, f.args[0]), And(st.pc, Not(f.args[0]))
			var r1, r2 []Val
			if s1.pc != False {
				r1 = x.callDyn(fr, f.args[1], args, s1, pos, sig, c)
			}
			if s2.pc != False {
				r2 = x.callDyn(fr, f.args[2], args, s2, pos, sig, c)
			}
			if s1.pc == False {
				*st = *s2
				return r2
			}
			if s2.pc == False {
				*st = *s1
				return r1
			}
			m, cnd := x.merge(s1, s2)
			var out []Val
			rt := resultTypes(sig)
			for i := range r1 {
				out = append(out, x.mergeVal(cnd, r1[i], r2[i], rt[i]))
			}
			*st = *m
			return out
		}
	}
	x.check(st, "nil-func-call", pos, Ne(f, Zero))
	if x.trace && x.ghost == 0 && len(args) == 0 && sig.Results().Len() == 0 {
		n := x.heap(st, gCalls, "Int")
		x.hset(st, gCalled, Store(x.heap(st, gCalled, intArr), n, f))
		x.hset(st, gCalls, Add(n, One))
		x.panicExit(fr, st, pos)
		return nil
	}
	if x.trace && x.ghost == 0 && len(args) == 0 && sig.Results().Len() == 1 {
		return []Val{x.traceCall(st, f, sig.Results().At(0).Type())}
	}
	x.w.trust("function values held in data are deterministic and do not modify verified state")
	return x.uninterp(st, "fnapply!"+typeKey(sig), append([]Val{V(f)}, args...), append([]types.Type{types.Typ[types.Int]}, paramTypes(sig)...), sig)
}
func paramTypes(sig *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < sig.Params().Len(); i++ {
		out = append(out, sig.Params().At(i).Type())
	}
	return out
}

// uninterp: pure deterministic result
func (x *Exec) uninterp(st *State, name string, args []Val, ats []types.Type, sig *types.Signature) []Val {
	var ts []*Term
	nm := name
	for i, a := range args {
		var t types.Type
		if i < len(ats) {
			t = ats[i]
		}
		tm := x.term(a, t)
		ts = append(ts, tm)
		if tm.sort == "Slice" {
			// the contents of the slice are part of the argument
			if s, ok := under(t).(*types.Slice); ok {
				ts = append(ts, Select(x.heap(st, elemKey(s.Elem()), elemSort(s.Elem())), SlRef(tm)))
			}
		}
	}
	for _, t := range ts {
		nm += "|" + t.sort
	}
	var out []Val
	for i, rt := range resultTypes(sig) {
		r := App(fmt.Sprintf("%s.%d", nm, i), sortOf(rt), ts...)
		x.wf(st, r, rt, 2)
		out = append(out, V(r))
	}
	return out
}

// fresh: arbitrary result
func (x *Exec) freshResults(st *State, name string, sig *types.Signature) []Val {
	var out []Val
	for _, rt := range resultTypes(sig) {
		if sortOf(rt) == "Slice" || sortOf(rt) == "Int" && isRefType(rt) {
			n := newFrontier()
			x.assume(True, Le(st.next, n))
			st.next = n
		}
		out = append(out, V(x.freshOf(st, "r_"+name, rt)))
	}
	return out
}
func isRefType(t types.Type) bool {
	switch under(t).(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return true
	}
	return false
}

func (x *Exec) invoke(fr *Frame, c *ssa.CallCommon, recv Val, args []Val, st *State, pos token.Pos) []Val {
	t := x.term(recv, c.Value.Type())
	if t.sort == "TVal" { // a value of a type parameter: a method of its constraint
		it := ""
		if tp, ok := c.Value.Type().(*types.TypeParam); ok {
			it = typeKey(tp.Constraint())
		}
		name := it + "." + c.Method.Name()
		if ct := x.w.ifaceContract(name); ct != nil && ct.always == "" {
			r := x.applyContract(fr, ct, append([]Val{V(t)}, args...), st, pos, nil, c.Signature(), c.Value.Type())
			if ct.mayPanic {
				x.panicExit(fr, st, pos)
			}
			return r
		}
		x.w.trust("method " + shortName(name) + " of a type parameter returns an arbitrary value and does not modify verified state")
		return x.freshResults(st, c.Method.Name(), c.Signature())
	}
	tag := Get(t, 0)
	x.check(st, "nil-interface-call", pos, Ne(tag, Zero))
	if tag.op == "int" && tag != Zero {
		T := tagTypes[tag.n.Int64()]
		if f := x.w.prog.LookupMethod(T, c.Method.Pkg(), c.Method.Name()); f != nil {
			rv := Unbox(Get(t, 1), sortOf(T))
			return x.callFn(fr, f, nil, append([]Val{x.valOf(rv)}, args...), st, pos, c)
		}
	}
	it := typeKey(c.Value.Type())
	name := it + "." + c.Method.Name()
	if ct := x.w.ifaceContract(name); ct != nil && ct.always != "" {
		T := x.w.alwaysType(ct)
		x.check(st, "dynamic type "+ct.always, pos, Eq(tag, tagOf(T)))
		f := x.w.prog.LookupMethod(T, c.Method.Pkg(), c.Method.Name())
		if f == nil {
			panic(unsup("%s has no method %s", ct.always, c.Method.Name()))
		}
		return x.callFn(fr, f, nil, append([]Val{x.valOf(Unbox(Get(t, 1), sortOf(T)))}, args...), st, pos, c)
	}
	if ct := x.w.ifaceContract(name); ct != nil {
		r := x.applyContract(fr, ct, append([]Val{V(t)}, args...), st, pos, nil, c.Signature(), c.Value.Type())
		if ct.mayPanic {
			x.panicExit(fr, st, pos)
		}
		return r
	}
	sig := c.Signature()
	if m := stdInvoke[c.Method.Name()]; m != nil && (it == "error" || strings.HasPrefix(it, "io.") || strings.HasPrefix(it, "fmt.") || strings.HasPrefix(it, "time.") || strings.HasPrefix(it, "os.")) {
		return m(x, st, append([]Val{V(t)}, args...), pos, c)
	}
	if rs := pureMeth[c.Method.Name()]; rs != nil && len(rs) == len(resultTypes(sig)) && len(args) == 0 {
		x.w.trust("interface method " + c.Method.Name() + " is a function of the receiver's value and does not modify verified state")
		var out []Val
		for k, rt := range resultTypes(sig) {
			if sortOf(rt) != rs[k] {
				panic(unsup("purem %s: result sort", c.Method.Name()))
			}
			r := App(fmt.Sprintf("im!%s.%d", c.Method.Name(), k), rs[k], t)
			x.wf(st, r, rt, 2)
			out = append(out, V(r))
		}
		return out
	}
	x.w.trust("interface method " + shortName(name) + " returns an arbitrary value and does not modify verified state")
	return x.freshResults(st, c.Method.Name(), sig)
}
func (w *World) alwaysType(ct *Contract) types.Type {
	n := strings.TrimPrefix(ct.always, "*")
	if p := w.pkgs[ct.pkgPath]; p != nil {
		if o := p.Type(n); o != nil {
			if n != ct.always {
				return types.NewPointer(o.Type())
			}
			return o.Type()
		}
	}
	panic(unsup("type %s behind the interface not found", ct.always))
}
func shortName(s string) string {
	return strings.ReplaceAll(s, "github.com/phoenix-tui/phoenix/", "")
}

func (x *Exec) callFn(fr *Frame, f *ssa.Function, binds []Val, args []Val, st *State, pos token.Pos, c *ssa.CallCommon) []Val {
	sig := f.Signature
	if o := x.w.canon(f); o != f {
		x.w.checkInst(o, f)
		f = o
	}
	name := fnID(f)
	// contract?
	if ct := x.w.contractFor(f); ct != nil && !ct.inline && len(binds) == 0 && len(qvars) > 0 {
		if r := x.applyQuant(ct, args, st, f); r != nil {
			return x.coerceResults(r, f.Signature, sig)
		}
		if f.Blocks == nil || ct.trusted || x.onStack(f) || hasLoop(f) {
			panic(unsup("call of %s under a quantifier", name))
		}
	} else if ct != nil && !ct.inline && len(binds) == 0 {
		if !(x.ghost > 0 && f.Blocks != nil && !ct.trusted && !x.onStack(f) && ct.specInline) {
			r := x.applyContract(fr, ct, args, st, pos, f, f.Signature, nil)
			return x.coerceResults(r, f.Signature, sig)
		}
	}
	if m := stdModel(f); m != nil {
		return m(x, st, args, pos, c)
	}
	if f.Blocks == nil || !x.w.inRepo(f) && !x.w.inlineOK(f) {
		return x.external(st, f, args, pos, c)
	}
	if x.onStack(f) {
		panic(unsup("recursive call of %s without contract", name))
	}
	if len(x.stack) > 30 {
		panic(unsup("inlining too deep at %s", name))
	}
	for i, p := range f.Params {
		if i < len(args) {
			var at types.Type
			if c != nil && !c.IsInvoke() && i < len(c.Args) {
				at = c.Args[i].Type()
			}
			args[i] = x.coerce(args[i], at, p.Type())
		}
	}
	if x.top != nil && f != x.top.fn {
		x.inlined[name] = true
	}
	r := x.inline(fr, f, binds, args, st)
	return x.coerceResults(r, f.Signature, sig)
}

func (x *Exec) coerceResults(r []Val, from, to *types.Signature) []Val {
	if from == to {
		return r
	}
	out := make([]Val, len(r))
	for i := range r {
		out[i] = x.coerce(r[i], from.Results().At(i).Type(), to.Results().At(i).Type())
	}
	return out
}

func (x *Exec) onStack(f *ssa.Function) bool {
	for _, s := range x.stack {
		if s == f {
			return true
		}
	}
	return false
}

func (x *Exec) newFrame(parent *Frame, f *ssa.Function, binds, args []Val, st *State) *Frame {
	nf := &Frame{fn: f, env: map[ssa.Value]Val{}, cells: map[*ssa.Alloc]*Cell{}, parent: parent, params: map[string]Val{}, entry: st.clone()}
	for i, p := range f.Params {
		nf.env[p] = args[i]
		nf.params[p.Name()] = args[i]
	}
	for i, fv := range f.FreeVars {
		nf.env[fv] = binds[i]
	}
	return nf
}

func (x *Exec) inline(fr *Frame, f *ssa.Function, binds, args []Val, st *State) []Val {
	nf := x.newFrame(fr, f, binds, args, st)
	x.stack = append(x.stack, f)
	savedPos := x.curPos
	body := st.clone()
	x.execRegion(nf, nil, f.Blocks[0], body, nil)
	x.stack = x.stack[:len(x.stack)-1]
	x.curPos = savedPos
	var rs []retState
	for _, r := range nf.returns {
		if r.st.pc != False {
			rs = append(rs, r)
		}
	}
	if len(rs) == 0 {
		st.pc = False
		var out []Val
		for _, rt := range resultTypes(f.Signature) {
			out = append(out, V(zeroOf(rt)))
		}
		return out
	}
	acc, res := rs[0].st, rs[0].res
	rt := resultTypes(f.Signature)
	for _, r := range rs[1:] {
		m, c := x.merge(acc, r.st)
		nr := make([]Val, len(res))
		for i := range res {
			nr[i] = x.mergeVal(c, res[i], r.res[i], rt[i])
		}
		acc, res = m, nr
	}
	// cells of the finished frame are dead unless captured
	*st = *acc.clone()
	return res
}

func (x *Exec) external(st *State, f *ssa.Function, args []Val, pos token.Pos, c *ssa.CallCommon) []Val {
	name := fnID(f)
	x.w.trust("library function " + shortName(name) + " is pure and total (uninterpreted)")
	var ats []types.Type
	if f.Signature.Recv() != nil {
		ats = append(ats, f.Signature.Recv().Type())
	}
	ats = append(ats, paramTypes(f.Signature)...)
	if f.Signature.Results().Len() == 0 {
		return nil
	}
	ok := true
	for _, a := range args {
		if a.T == nil && !(a.P != nil && len(a.P.path) == 0 && (a.P.kind == pkObj || a.P.kind == pkHeap)) {
			ok = false
		}
	}
	for _, rt := range resultTypes(f.Signature) {
		if sortOf(rt) == "Slice" || isRefType(rt) {
			ok = false
		}
	}
	if !ok {
		return x.freshResults(st, f.Name(), f.Signature)
	}
	return x.uninterp(st, "ext!"+name, args, ats, f.Signature)
}

// ---- builtins ----
func (x *Exec) builtin(fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []Val, st *State, pos token.Pos) []Val {
	at := func(i int) types.Type { return c.Args[i].Type() }
	t := func(i int) *Term { return x.term(args[i], at(i)) }
	one := func(v *Term) []Val { return []Val{V(v)} }
	switch b.Name() {
	case "len", "cap":
		switch u := under(at(0)).(type) {
		case *types.Slice:
			if b.Name() == "cap" {
				return one(SlCap(t(0)))
			}
			return one(SlLen(t(0)))
		case *types.Map:
			return one(x.mapLen(st, u, t(0)))
		case *types.Array:
			return one(Int(u.Len()))
		case *types.Pointer:
			return one(Int(under(u.Elem()).(*types.Array).Len()))
		case *types.Chan:
			r := Fresh("chanlen", "Int")
			x.assume(True, Le(Zero, r))
			return one(r)
		}
		n := SLen(t(0))
		x.wfLen(n)
		return one(n)
	case "append":
		et := under(at(0)).(*types.Slice).Elem()
		if sortOf(at(1)) == "Str" { // append([]byte, string...)
			tmp := x.convert(st, args[1], at(1), types.NewSlice(types.Typ[types.Byte]), pos)
			return one(x.appendOp(st, t(0), tmp.T, et))
		}
		return one(x.appendOp(st, t(0), t(1), et))
	case "copy":
		et := under(at(0)).(*types.Slice).Elem()
		if sortOf(at(1)) == "Str" {
			tmp := x.convert(st, args[1], at(1), types.NewSlice(types.Typ[types.Byte]), pos)
			return one(x.copyOp(st, t(0), tmp.T, et))
		}
		return one(x.copyOp(st, t(0), t(1), et))
	case "delete":
		mt := under(at(0)).(*types.Map)
		x.mapDel(st, mt, t(0), x.term(x.coerce(args[1], at(1), mt.Key()), mt.Key()))
		return nil
	case "clear":
		switch u := under(at(0)).(type) {
		case *types.Map:
			s2 := st.clone()
			x.mapInit(s2, u, t(0))
			for k, v := range s2.heap {
				if o, ok := st.heap[k]; ok && o != v {
					st.heap[k] = Ite(Eq(t(0), Zero), o, v)
				} else {
					st.heap[k] = v
				}
			}
			return nil
		}
		panic(unsup("clear"))
	case "min", "max":
		r := t(0)
		for i := 1; i < len(args); i++ {
			y := t(i)
			cnd := Le(r, y)
			if b.Name() == "max" {
				cnd = Le(y, r)
			}
			r = Ite(cnd, r, y)
		}
		return one(r)
	case "print", "println", "close":
		return nil
	case "recover":
		return one(nilIface())
	case "ssa:wrapnilchk":
		return []Val{args[0]}
	case "ssa:deferstack":
		return one(Zero)
	}
	panic(unsup("builtin %s", b.Name()))
}

func (x *Exec) wfLen(n *Term) {
	if n.op == "app" {
		x.assume(True, Le(Zero, n))
	}
}

// ---- contracts at call sites ----
// applyContract: a pointer into a larger value (a field of a local struct) is
// passed as a temporary object holding that value, written back after the call.
func (x *Exec) applyContract(fr *Frame, ct *Contract, args []Val, st *State, pos token.Pos, f *ssa.Function, sig *types.Signature, recvT types.Type) []Val {
	type back struct{ from, to *Ptr }
	var backs []back
	if f != nil {
		for i, p := range f.Params {
			if i >= len(args) || args[i].T != nil || args[i].P == nil {
				continue
			}
			a := args[i].P
			if a.kind == pkGlobal || len(a.path) == 0 && (a.kind == pkObj || a.kind == pkHeap) {
				continue
			}
			pt, ok := under(p.Type()).(*types.Pointer)
			if !ok {
				continue
			}
			for _, rt := range resultTypes(f.Signature) {
				if rp, ok := under(rt).(*types.Pointer); ok && types.Identical(rp.Elem(), pt.Elem()) {
					panic(unsup("%s may return the address of part of a value", f.Name()))
				}
			}
			x.w.trust("a function called with the address of part of a value does not keep that address")
			k := pkHeap
			if _, isSt := under(pt.Elem()).(*types.Struct); isSt {
				k = pkObj
			}
			ref := x.alloc(st)
			tmp := &Ptr{kind: k, ref: ref, typ: pt.Elem()}
			x.store(st, tmp, x.load(st, a, pos), pos)
			args = append([]Val{}, args...)
			args[i] = V(ref)
			backs = append(backs, back{tmp, a})
		}
	}
	r := x.applyContract1(fr, ct, args, st, pos, f, sig, recvT)
	if len(ct.modifies) > 0 {
		for _, b := range backs {
			x.store(st, b.to, x.load(st, b.from, pos), pos)
		}
	}
	return r
}

func (x *Exec) applyContract1(fr *Frame, ct *Contract, args []Val, st *State, pos token.Pos, f *ssa.Function, sig *types.Signature, recvT types.Type) []Val {
	x.usedC[ct.id()] = true
	pre := st.clone()
	env := x.contractEnv(ct, args, f, sig, recvT)
	var ptypes []types.Type
	if f != nil {
		for _, p := range f.Params {
			ptypes = append(ptypes, p.Type())
		}
	}
	if f != nil && f.Signature.Recv() != nil && isRefType(f.Signature.Recv().Type()) && !ct.nilRecv {
		x.check(st, "pre "+ct.short()+" non-nil receiver", pos, Ne(x.term(args[0], f.Signature.Recv().Type()), Zero))
	}
	for _, r := range ct.requires {
		g := x.evalBool(r, &evalCtx{x: x, cur: st, old: st, env: env, pkg: ct.pkg})
		if ct.trusted && ct.iface && !ct.checked {
			continue
		}
		x.check(st, "pre "+ct.short()+" "+r.label, pos, g)
	}
	var keys map[string]string
	if f != nil && f.Blocks != nil && !ct.trusted {
		keys = x.w.effects(f)
	} else {
		keys = map[string]string{}
		for _, rt := range resultTypes(sig) {
			if s, ok := under(rt).(*types.Slice); ok {
				keys[elemKey(s.Elem())] = elemSort(s.Elem())
			}
		}
	}
	mods := x.modRefs(ct, &evalCtx{x: x, cur: pre, old: pre, env: env, pkg: ct.pkg})
	for k := range mods {
		if _, ok := keys[k]; !ok && (ct.trusted || strings.HasPrefix(k, "GH|")) {
			if s, ok := x.w.keySort[k]; ok {
				keys[k] = s
			}
		}
	}
	// a call that claims a fresh object may have allocated one without writing
	// any heap (an empty struct)
	if len(keys) > 0 || ct.saysFresh() {
		lim := st.next
		n := newFrontier()
		x.assume(True, Le(st.next, n))
		st.next = n
		for _, k := range sortedKeys(keys) {
			if ct.modOnly != nil && mods[k] == nil && !strings.HasPrefix(k, "G|") && ct.noalloc {
				continue
			}
			old := x.heap0(pre, st, k, keys[k])
			if strings.HasPrefix(k, "G|") {
				if mods[k] != nil {
					st.heap[k] = Fresh("hg_"+k, keys[k])
				}
				continue
			}
			nh := Fresh("hc_"+k, keys[k])
			constBorn[nh.name] = frontSeq[n.name]
			var ms []*Term
			all := false
			for _, m := range mods[k] {
				if m == nil {
					all = true
				} else {
					ms = append(ms, m)
				}
			}
			if !all {
				isGhost := strings.HasPrefix(k, "GH|")
				if !isGhost {
					heapParent[nh.name] = &heapFrame{parent: old, lim: lim, mods: ms}
				}
				if x.dry == 0 {
					r := Var("?r", "Int")
					// state the frame on the raw select terms
					sel := mkTerm(Term{op: "select", args: []*Term{nh, r}, sort: mustV(nh.sort)})
					cond := []*Term{Lt(r, lim)}
					if isGhost {
						cond = nil
					}
					for _, m := range ms {
						cond = append(cond, notMod(r, m))
					}
					x.hyps = append(x.hyps, Forall([]*Term{r}, Implies(And(cond...), Eq(sel, Select(old, r))), []*Term{sel}))
				}
			}
			st.heap[k] = nh
			x.closed(k, nh, st.next)
		}
	}
	// results
	var res []Val
	rts := resultTypes(sig)
	used := map[int]bool{}
	post := &evalCtx{x: x, cur: st, old: pre, env: env, pkg: ct.pkg}
	for i, rt := range rts {
		var v *Term
		if ct.names != "" && len(rts) == 1 {
			if why := x.w.notPure(f); why != "" {
				unsup("%s names its result, but %s", ct.short(), why)
			}
			var ts []*Term
			for j, a := range args {
				ts = append(ts, x.term(a, f.Params[j].Type()))
			}
			res = append(res, x.valOf(App("lg!"+ct.names, sortOf(rt), ts...)))
			continue
		}
		for j, e := range ct.ensures {
			if d := e.definesResult(i, len(rts)); d != nil {
				tv := x.evalDef(e, d, post)
				if tv != nil {
					if tv.t.sort != sortOf(rt) {
						continue
					}
					v = tv.t
					used[j] = true
					break
				}
			}
		}
		if v == nil {
			v = Fresh("r_"+ct.name, sortOf(rt))
			constBorn[v.name] = seqOf(st.next)
			x.wf(st, v, rt, 3)
		}
		res = append(res, x.valOf(v))
	}
	post.res = res
	post.resT = rts
	vac := os.Getenv("GOVVAC") != "" && x.ghost == 0 && x.dry == 0
	if vac {
		x.oblige(pre, "vacpre "+ct.short(), pos, False)
	}
	for j, e := range ct.ensures {
		if used[j] || (ct.tracing || ct.runResult) && e.ast.ownTrace() {
			continue
		}
		x.assume(st.pc, x.evalBool(e, post))
	}
	for _, e := range ct.defines {
		x.assume(st.pc, x.evalBool(e, post))
	}
	if vac {
		x.oblige(st, "vacpost "+ct.short(), pos, False)
	}
	return res
}
func mustV(s string) string { _, v := arrSorts(s); return v }

func (x *Exec) heap0(pre, st *State, k, s string) *Term {
	if strings.HasPrefix(k, "G|") {
		if h, ok := st.heap[k]; ok {
			return h
		}
		return nil
	}
	return x.heap(st, k, s)
}

// ---- verifying one contracted function ----
func (x *Exec) contractEnv(ct *Contract, args []Val, f *ssa.Function, sig *types.Signature, recvT types.Type) map[string]tval {
	env := map[string]tval{}
	if f != nil {
		for i, p := range f.Params {
			if i < len(args) {
				v := tval{typ: p.Type(), val: args[i]}
				if args[i].T != nil {
					v.t = args[i].T
				} else if args[i].P != nil && len(args[i].P.path) == 0 && (args[i].P.kind == pkObj || args[i].P.kind == pkHeap) {
					v.t = args[i].P.ref
				} else if args[i].Fn != nil {
					v.t = x.term(args[i], p.Type())
				}
				env[p.Name()] = v
				env[fmt.Sprintf("arg%d", i)] = v
			}
		}
		// the names the parameters had when the contract was written
		if old := x.w.oldParams[fnID(f)]; len(old) == len(f.Params) {
			for i, n := range old {
				if _, taken := env[n]; !taken && n != "" && n != "_" {
					if v, ok := env[fmt.Sprintf("arg%d", i)]; ok {
						env[n] = v
					}
				}
			}
		}
		if f.Signature.Recv() != nil && len(args) > 0 {
			env["self"] = env[f.Params[0].Name()]
		}
	} else {
		env["self"] = tval{t: args[0].T, typ: recvT, val: args[0]}
		for i := 0; i < sig.Params().Len(); i++ {
			p := sig.Params().At(i)
			v := tval{typ: p.Type(), val: args[i+1]}
			v.t = x.term(args[i+1], p.Type())
			if p.Name() != "" {
				env[p.Name()] = v
			}
			env[fmt.Sprintf("arg%d", i)] = v
		}
	}
	return env
}

func (w *World) newExec(ct *Contract) *Exec {
	x := &Exec{w: w, fset: w.fset, top: ct, wfDone: map[*Term]int{}, iters: map[*Cell]*Iter{}, loopN: map[string]int{}, initHeap: map[string]*Term{}, inlined: map[string]bool{}, usedC: map[string]bool{}, globDone: map[*ssa.Package]bool{}}
	return x
}

// verify runs the symbolic execution of a contracted function and collects its obligations.
func (w *World) verify(ct *Contract) (x *Exec, err error) {
	x = w.newExec(ct)
	curExec = x
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(unsupErr); ok {
				err = fmt.Errorf("%s", u.msg)
				return
			}
			panic(e)
		}
	}()
	f := ct.fn
	st := &State{pc: True, cells: map[*Cell]Val{}, heap: map[string]*Term{}}
	st.next = newFrontier()
	x.hyps = append(x.hyps, Le(One, st.next))
	x.entry = st
	for _, n := range ct.using {
		t := w.lemmas[n]
		if t == nil {
			return x, fmt.Errorf("no lemma %s", n)
		}
		x.hyps = append(x.hyps, t)
	}
	x.evalInits(f, st)
	var args []Val
	for _, p := range f.Params {
		c := Const("p_"+p.Name()+"@"+ct.id(), sortOf(p.Type()))
		constBorn[c.name] = seqOf(st.next)
		x.wf(st, c, p.Type(), 3)
		args = append(args, V(c))
		ct.params = append(ct.params, c)
	}
	if r := f.Signature.Recv(); r != nil && isRefType(r.Type()) && !ct.nilRecv {
		x.hyps = append(x.hyps, Ne(args[0].T, Zero))
	}
	if x.trace = ct.runResult || ct.tracing; x.trace {
		x.traceInit(st)
	}
	env := x.contractEnv(ct, args, f, f.Signature, nil)
	x.ghost++
	for _, r := range ct.requires {
		g := x.evalBool(r, &evalCtx{x: x, cur: st, old: st, env: env, pkg: ct.pkg})
		x.hyps = append(x.hyps, g)
	}
	x.ghost--
	x.entry = st.clone()
	x.topMods = nil
	if len(ct.modifies) > 0 {
		x.ghost++
		x.topMods = x.modRefs(ct, &evalCtx{x: x, cur: x.entry, old: x.entry, env: env, pkg: ct.pkg})
		x.ghost--
	}
	x.topEnv = env
	x.stack = []*ssa.Function{f}
	nf := x.newFrame(nil, f, nil, args, st)
	x.topFrame = nf
	ct.nreq = len(x.hyps)
	x.execRegion(nf, nil, f.Blocks[0], st.clone(), nil)
	rts := resultTypes(f.Signature)
	reach := False
	for _, r := range nf.returns {
		if r.st.pc == False {
			continue
		}
		reach = Or(reach, r.st.pc)
		if ct.runResult {
			sig, ok := under(rts[len(rts)-1]).(*types.Signature)
			if !ok || sig.Params().Len() != 0 || sig.Results().Len() != 1 {
				return x, fmt.Errorf("the result is not a function without parameters")
			}
			s, v := x.runResult(nf, r.st, r.res[len(r.res)-1], sig, r.pos)
			x.trace = false
			r.st = s
			env["ran"] = tval{t: v.T, val: v, typ: sig.Results().At(0).Type(), st: s}
			x.trace = true
		}
		post := &evalCtx{x: x, cur: r.st, old: x.entry, env: env, res: r.res, resT: rts, pkg: ct.pkg}
		x.curPos = r.pos
		// type invariants come last, with the other postconditions (each an
		// obligation of its own) as hypotheses
		shown := True
		for _, inv := range []bool{false, true} {
			if inv && ct.postAbs {
				// name the heaps of the final state, so that the postconditions
				// are usable facts about plain terms
				st2 := r.st.clone()
				for _, k := range sortedKeys(st2.heap) {
					h := st2.heap[k]
					if h.op == "const" || strings.HasPrefix(k, "G|") {
						continue
					}
					nh := Fresh("hx_"+k, h.sort)
					constBorn[nh.name] = seqOf(st2.next)
					x.hyps = append(x.hyps, Eq(nh, h))
					st2.heap[k] = nh
				}
				post = &evalCtx{x: x, cur: st2, old: x.entry, env: env, res: r.res, resT: rts, pkg: ct.pkg}
				shown = True
				x.ghost++
				for _, e := range ct.ensures {
					if e.label != "inv" {
						shown = And(shown, x.evalBool(e, post))
					}
				}
				x.ghost--
			}
			for _, e := range ct.ensures {
				if (e.label == "inv") != inv {
					continue
				}
				x.ghost++
				g := x.evalBool(e, post)
				x.ghost--
				for _, gg := range splitGoal(g) {
					if inv && ct.usePost {
						gg = Implies(shown, gg)
					}
					x.oblige(r.st, "ensures "+e.label, r.pos, gg)
				}
				if !inv {
					shown = And(shown, g)
				}
			}
		}
		x.frame(ct, r.st, env, r.pos)
	}
	ct.reach = reach
	if reach == False {
		// never returns: nothing established
	}
	return x, nil
}

func splitGoal(g *Term) []*Term {
	if g.op == "and" {
		var out []*Term
		for _, a := range g.args {
			out = append(out, splitGoal(a)...)
		}
		return out
	}
	if g.op == "=>" && g.args[1].op == "and" {
		var out []*Term
		for _, a := range splitGoal(g.args[1]) {
			out = append(out, Implies(g.args[0], a))
		}
		return out
	}
	return []*Term{g}
}

// frame: every object that existed on entry is unchanged except as the modifies clause allows
func (x *Exec) frame(ct *Contract, st *State, env map[string]tval, pos token.Pos) {
	if ct.modAll {
		return
	}
	x.ghost++
	mods := x.modRefs(ct, &evalCtx{x: x, cur: x.entry, old: x.entry, env: env, pkg: ct.pkg})
	x.ghost--
	for _, k := range sortedKeys(st.heap) {
		h := st.heap[k]
		h0 := x.entry.heap[k]
		if h0 == nil {
			h0 = x.initHeap[k]
		}
		if h0 == nil || h == h0 {
			continue
		}
		if strings.HasPrefix(k, "G|$") {
			continue
		}
		if strings.HasPrefix(k, "G|") {
			if mods[k] == nil {
				x.oblige(st, "frame "+k, pos, Eq(h, h0))
			}
			continue
		}
		r := Fresh("fr", "Int")
		constBorn[r.name] = seqOf(x.entry.next)
		cond := []*Term{Le(One, r), Lt(r, x.entry.next)}
		if strings.HasPrefix(k, "GH|") {
			cond = nil
		}
		skip := false
		for _, m := range mods[k] {
			if m == nil {
				skip = true
			} else {
				cond = append(cond, notMod(r, m))
			}
		}
		if skip {
			continue
		}
		x.oblige(st, "frame "+k, pos, Implies(And(cond...), Eq(Select(h, r), Select(h0, r))))
	}
}

var curExec *Exec

// hasLoop reports whether f's own control flow has a cycle
func hasLoop(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// applyQuant uses a contract under a quantifier: the results become function symbols
// of the arguments, and the postconditions an axiom over all arguments.
func (x *Exec) applyQuant(ct *Contract, args []Val, st *State, f *ssa.Function) []Val {
	if f.Blocks == nil || len(ct.modifies) > 0 || ct.modAll || ct.trusted {
		return nil
	}
	rts := resultTypes(f.Signature)
	for _, t := range rts {
		if _, ok := under(t).(*types.Basic); !ok && len(x.w.effects(f)) > 0 {
			return nil
		}
	}
	var vars, guards, post, acts []*Term
	var vv []Val
	for i, p := range f.Params {
		t := args[i].T
		if t == nil {
			if args[i].P == nil || len(args[i].P.path) != 0 || (args[i].P.kind != pkObj && args[i].P.kind != pkHeap) {
				return nil
			}
			t = args[i].P.ref
		}
		v := FreshVar("qa", t.sort)
		if t.sort != sortOf(p.Type()) {
			return nil
		}
		vars = append(vars, v)
		vv = append(vv, x.valOf(v))
		acts = append(acts, t)
	}
	for _, h := range st.heap {
		if h.bound {
			return nil
		}
	}
	saved, savedCap := qvars, x.capture
	qvars = vars
	x.ghost++
	defer func() { qvars, x.capture = saved, savedCap; x.ghost-- }()
	x.usedC[ct.id()] = true
	s2 := st.clone()
	s2.pc = True
	x.capture = &guards
	for i, p := range f.Params {
		x.wf(s2, vars[i], p.Type(), 1)
	}
	if f.Signature.Recv() != nil && isRefType(f.Signature.Recv().Type()) && !ct.nilRecv {
		guards = append(guards, Ne(vars[0], Zero))
	}
	env := x.contractEnv(ct, vv, f, f.Signature, nil)
	c := &evalCtx{x: x, cur: s2, old: s2, env: env, pkg: ct.pkg}
	for _, r := range ct.requires {
		guards = append(guards, x.evalBool(r, c))
	}
	x.capture = &post
	var res []Val
	var out []Val
	var apps []*Term
	for _, rt := range rts {
		v := Fresh("rq_"+ct.name, sortOf(rt))
		apps = append(apps, v)
		res = append(res, x.valOf(v))
		a := App(v.name, v.sort, acts...)
		if len(vars) == 0 {
			a = v
		}
		out = append(out, x.valOf(a))
	}
	c.res, c.resT = res, rts
	for _, e := range ct.ensures {
		post = append(post, x.evalBool(e, c))
	}
	qvars = nil
	if len(vars) > 0 {
		x.assume(True, Forall(vars, Implies(And(guards...), And(post...)), apps[:1]))
	} else {
		x.assume(True, Implies(And(guards...), And(post...)))
	}
	return out
}

func (ct *Contract) saysFresh() bool {
	for _, e := range ct.ensures {
		if strings.Contains(e.src, "fresh(") {
			return true
		}
	}
	return false
}

// notPure says why a function's result may depend on something other than the values of its
// arguments ("" if it cannot): its arguments are plain values, it calls nothing dynamically,
// reads no variable that is ever written, and stays inside the module and pure library code.
func (w *World) notPure(f *ssa.Function) string {
	if f == nil || f.Blocks == nil {
		return "its body is not known"
	}
	for _, p := range f.Params {
		if _, ok := under(p.Type()).(*types.Basic); !ok {
			return "parameter " + p.Name() + " is no plain value"
		}
	}
	for g := range w.globalsUsed(f) {
		if g.Pkg != nil && w.repoPkg(g.Pkg.Pkg.Path()) && w.globalMutable(g) {
			return "it reads the variable " + g.Name()
		}
	}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) string
	walk = func(f *ssa.Function) string {
		if seen[f] {
			return ""
		}
		seen[f] = true
		if f.Pkg != nil && !w.repoPkg(f.Pkg.Pkg.Path()) {
			switch f.Pkg.Pkg.Path() {
			case "strings", "unicode", "unicode/utf8", "strconv", "math", "bytes", "github.com/rivo/uniseg":
				return ""
			}
			return "it calls " + f.String()
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select, *ssa.MakeClosure:
					return "it uses " + in.String()
				case *ssa.UnOp:
					if i.Op == token.ARROW {
						return "it receives from a channel"
					}
				case *ssa.Range:
					if _, ok := under(i.X.Type()).(*types.Map); ok {
						return "it ranges over a map"
					}
				case ssa.CallInstruction:
					c := i.Common()
					if _, ok := c.Value.(*ssa.Builtin); ok {
						continue
					}
					g := c.StaticCallee()
					if g == nil {
						return "it calls a function value"
					}
					if s := walk(g); s != "" {
						return s
					}
				}
			}
		}
		return ""
	}
	return walk(f)
}

package main

// Commands: tracing of calls of unknown functions, goroutines, channels.
//
// A contract with `runresult` is about the function value that is returned: at
// every return the value is called (if it is not nil) and the postconditions speak
// about the state after that call. Calls of unknown functions without parameters
// are recorded in order: ncalls() of them so far, the i-th was of calledfn(i) and
// returned callres(i), an arbitrary value for each call.
//
// A goroutine's body is executed where it is started: its only permitted effects
// are calls of unknown functions and sends (anything else fails an obligation, as
// does a variable shared with the loop that starts it). spawned() counts them. The r-th receive from channel c
// yields the value of the perm(c,r)-th send: perm is injective, and the receive
// must be preceded by more than r sends, or it could block for ever; a send outside
// a goroutine must find room in the buffer. `tracing` does the same without calling
// the result.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	gCalls  = "G|$ncalls"
	gCalled = "G|$called"
	gSpawn  = "G|$spawned"
	gChan   = "G|$chan"
	gSent   = "G|$nsent"
	gRecv   = "G|$nrecv"
	gCap    = "G|$cap"
	gGot    = "G|$ngot"
)

var intArr = ArrSort("Int", "Int")

func (x *Exec) traceInit(st *State) {
	x.hset(st, gCalls, Zero)
	x.hset(st, gSpawn, Zero)
	x.hset(st, gChan, Zero)
	x.hset(st, gGot, Zero)
	x.heap(st, gCalled, intArr)
	x.heap(st, gSent, intArr)
	x.heap(st, gRecv, intArr)
	x.heap(st, gCap, intArr)
}

func callRes(t types.Type) *Term {
	c := Const("$callres|"+typeKey(t), ArrSort("Int", sortOf(t)))
	constBorn[c.name] = 0
	return c
}

func (x *Exec) traceCall(st *State, f *Term, t types.Type) Val {
	n := x.heap(st, gCalls, "Int")
	x.hset(st, gCalled, Store(x.heap(st, gCalled, intArr), n, f))
	x.hset(st, gCalls, Add(n, One))
	x.w.trust("the result of each call of a command is arbitrary; commands do not modify verified state")
	v := Select(callRes(t), n)
	x.wf(st, v, t, 1)
	x.panicExit(nil, st, token.NoPos)
	return V(v)
}

func sentKey(t types.Type) string { return "G|$sent|" + shortKey(t) }
func sentSort(t types.Type) string {
	return ArrSort("Int", ArrSort("Int", sortOf(t)))
}

func (x *Exec) makeChan(fr *Frame, i *ssa.MakeChan, st *State) {
	c := x.alloc(st)
	if x.trace {
		x.hset(st, gChan, c)
		x.hset(st, gSent, Store(x.heap(st, gSent, intArr), c, Zero))
		x.hset(st, gRecv, Store(x.heap(st, gRecv, intArr), c, Zero))
		x.hset(st, gCap, Store(x.heap(st, gCap, intArr), c, x.tv(fr, i.Size)))
		x.check(st, "make-chan", i.Pos(), Le(Zero, x.tv(fr, i.Size)))
	}
	fr.env[i] = V(c)
}

func (x *Exec) chanSend(fr *Frame, i *ssa.Send, st *State) {
	c := x.tv(fr, i.Chan)
	et := under(i.Chan.Type()).(*types.Chan).Elem()
	n := Select(x.heap(st, gSent, intArr), c)
	if x.inGo == 0 {
		x.check(st, "send-blocks", i.Pos(), Lt(Sub(n, Select(x.heap(st, gRecv, intArr), c)), Select(x.heap(st, gCap, intArr), c)))
	}
	s := x.heap(st, sentKey(et), sentSort(et))
	v := x.term(x.coerce(x.val(fr, i.X), i.X.Type(), et), et)
	x.hset(st, sentKey(et), Store(s, c, Store(Select(s, c), n, v)))
	x.hset(st, gSent, Store(x.heap(st, gSent, intArr), c, Add(n, One)))
}

func chanPerm(c, r *Term) *Term { return App("$perm", "Int", c, r) }

func (x *Exec) chanRecv(fr *Frame, i *ssa.UnOp, st *State) {
	if i.CommaOk || x.inGo > 0 {
		panic(unsup("receive in %s", fr.fn))
	}
	c := x.tv(fr, i.X)
	et := under(i.X.Type()).(*types.Chan).Elem()
	r := Select(x.heap(st, gRecv, intArr), c)
	n := Select(x.heap(st, gSent, intArr), c)
	x.check(st, "receive-blocks", i.Pos(), Lt(r, n))
	p := chanPerm(c, r)
	x.assume(st.pc, And(Le(Zero, p), Lt(p, n), Eq(App("$perminv", "Int", c, p), r)))
	x.w.trust("a channel delivers every value sent exactly once, in an arbitrary order")
	s := x.heap(st, sentKey(et), sentSort(et))
	x.hset(st, gRecv, Store(x.heap(st, gRecv, intArr), c, Add(r, One)))
	fr.env[i] = V(Select(Select(s, c), p))
}

// goStmt executes the body of a goroutine where it is started
func (x *Exec) goStmt(fr *Frame, i *ssa.Go, st *State) {
	cc := i.Common()
	if cc.IsInvoke() {
		panic(unsup("go of an interface method in %s", fr.fn))
	}
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			if al, ok := b.(*ssa.Alloc); ok && sharedInLoop(al, i) {
				x.check(st, "goroutine-shares-loop-variable", i.Pos(), False)
			}
		}
	}
	var args []Val
	for _, a := range cc.Args {
		args = append(args, x.val(fr, a))
	}
	pre := st.clone()
	x.inGo++
	outer := st.defers
	st.defers = nil
	x.callWith(fr, cc, x.val(fr, cc.Value), args, st, i.Pos())
	st.defers = outer
	x.inGo--
	if x.top != nil && x.top.background {
		x.w.trust("the goroutine started by " + x.top.short() + " is treated as running to its end where it is started")
		x.hset(st, gSpawn, Add(x.heap(st, gSpawn, "Int"), One))
		return
	}
	for _, k := range sortedKeys(st.heap) {
		if strings.HasPrefix(k, "G|$") {
			continue
		}
		if h0 := pre.heap[k]; h0 != nil && h0 != st.heap[k] {
			r := Fresh("go", "Int")
			x.check(st, "goroutine-writes-shared-memory", i.Pos(), Implies(And(Le(One, r), Lt(r, pre.next)), Eq(Select(st.heap[k], r), Select(h0, r))))
		}
	}
	x.hset(st, gSpawn, Add(x.heap(st, gSpawn, "Int"), One))
}

// sharedInLoop: the variable is stored to in a loop around the go statement that
// does not create it anew
func sharedInLoop(al *ssa.Alloc, g *ssa.Go) bool {
	reach := func(from, to, without *ssa.BasicBlock) bool {
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock) bool
		walk = func(b *ssa.BasicBlock) bool {
			for _, s := range b.Succs {
				if s == without || seen[s] {
					continue
				}
				if s == to {
					return true
				}
				seen[s] = true
				if walk(s) {
					return true
				}
			}
			return false
		}
		return walk(from)
	}
	for _, r := range *al.Referrers() {
		s, ok := r.(*ssa.Store)
		if !ok || s.Addr != al || s.Parent() != g.Parent() {
			continue
		}
		// a store that can follow the go statement without passing the allocation
		if s.Block() == g.Block() {
			after := false
			for _, in := range s.Block().Instrs {
				if in == ssa.Instruction(g) {
					after = true
				}
				if in == ssa.Instruction(s) && after {
					return true
				}
			}
			if al.Block() != g.Block() && reach(g.Block(), g.Block(), al.Block()) {
				return true
			}
			continue
		}
		if reach(g.Block(), s.Block(), al.Block()) {
			return true
		}
	}
	return false
}

// runResult calls the returned function value
func (x *Exec) runResult(fr *Frame, st *State, v Val, sig *types.Signature, pos token.Pos) (*State, Val) {
	rt := sig.Results().At(0).Type()
	run := func(st *State) Val {
		if v.Fn != nil {
			return x.callFn(fr, v.Fn, v.Binds, nil, st, pos, nil)[0]
		}
		return x.callDyn(fr, v.T, nil, st, pos, sig, nil)[0]
	}
	if v.Fn != nil {
		s := st.clone()
		return s, run(s)
	}
	if v.T == Zero {
		return st, V(zeroOf(rt))
	}
	s1, s2 := st.clone(), st.clone()
	nz := Ne(v.T, Zero)
	s1.pc, s2.pc = And(st.pc, nz), And(st.pc, Not(nz))
	if s1.pc == False {
		return s2, V(zeroOf(rt))
	}
	r := run(s1)
	if s2.pc == False {
		return s1, r
	}
	m, c := x.merge(s1, s2)
	return m, x.mergeVal(c, r, V(zeroOf(rt)), rt)
}

// ---- ghost state of contracts ----

// ghostKey: the heap of a ghost variable (never written by code, only named by modifies clauses)
func ghostKey(n *Node, sort string) string { return "GH|" + n.name + "|" + sort }
func (x *Exec) ghostIdx(ns []*Node, c *evalCtx) *Term {
	if len(ns) == 0 {
		return Zero
	}
	return x.writerID(x.eval(ns[0], c))
}

func gotKey(t types.Type) string { return "G|$got|" + shortKey(t) }

// selectStmt: any of the cases may be chosen; what is sent to and received from each channel is recorded
func (x *Exec) selectStmt(fr *Frame, i *ssa.Select, st *State) {
	tt := i.Type().(*types.Tuple)
	var rs []Val
	for k := 0; k < tt.Len(); k++ {
		rs = append(rs, V(x.freshOf(st, "select", tt.At(k).Type())))
	}
	lo := Zero
	if !i.Blocking {
		lo = Int(-1)
	}
	idx := rs[0].T
	x.assume(True, And(Le(lo, idx), Lt(idx, Int(int64(len(i.States))))))
	fr.env[i] = Val{Tup: rs, isTup: true}
	if !x.trace {
		return
	}
	x.w.trust("select: any case may be chosen; a value received from a channel made elsewhere is arbitrary")
	r := 2
	for k, s := range i.States {
		c := x.tv(fr, s.Chan)
		et := under(s.Chan.Type()).(*types.Chan).Elem()
		on := Eq(idx, Int(int64(k)))
		if s.Dir == types.SendOnly {
			n := Select(x.heap(st, gSent, intArr), c)
			h := x.heap(st, sentKey(et), sentSort(et))
			v := x.term(x.coerce(x.val(fr, s.Send), s.Send.Type(), et), et)
			x.hset(st, sentKey(et), Ite(on, Store(h, c, Store(Select(h, c), n, v)), h))
			g := x.heap(st, gSent, intArr)
			x.hset(st, gSent, Ite(on, Store(g, c, Add(n, One)), g))
			continue
		}
		v := rs[r].T
		r++
		// a channel made here: one of the values sent to it
		got := Select(x.heap(st, gRecv, intArr), c)
		p := chanPerm(c, got)
		x.assume(st.pc, Implies(And(on, Le(x.entry.next, c)), And(Le(Zero, p), Lt(p, Select(x.heap(st, gSent, intArr), c)), Eq(App("$perminv", "Int", c, p), got), Eq(v, Select(Select(x.heap(st, sentKey(et), sentSort(et)), c), p)))))
		g := x.heap(st, gRecv, intArr)
		x.hset(st, gRecv, Ite(on, Store(g, c, Add(got, One)), g))
		if isStructObj(et) && structOf(et).NumFields() == 0 {
			continue // a signal
		}
		n := x.heap(st, gGot, "Int")
		h := x.heap(st, gotKey(et), ArrSort("Int", sortOf(et)))
		x.hset(st, gotKey(et), Ite(on, Store(h, n, v), h))
		x.hset(st, gGot, Ite(on, Add(n, One), n))
	}
}

// panicExit: the called code panics: the deferred calls run, then the contract's panicensures must hold
func (x *Exec) panicExit(fr *Frame, st *State, pos token.Pos) {
	ct := x.top
	if ct == nil || len(ct.panicens) == 0 || x.dry > 0 || x.ghost > 0 || st.pc == False || x.inPanic {
		return
	}
	x.inPanic = true
	s := st.clone()
	ds := s.defers
	s.defers = nil
	for k := len(ds) - 1; k >= 0; k-- {
		d := ds[k]
		x.callWith(d.fr, d.call, d.fn, d.args, s, pos)
	}
	x.inPanic = false
	env := x.topEnv
	post := &evalCtx{x: x, cur: s, old: x.entry, env: env, pkg: ct.pkg}
	for _, e := range ct.panicens {
		x.ghost++
		g := x.evalBool(e, post)
		x.ghost--
		for _, gg := range splitGoal(g) {
			x.oblige(s, "panicensures "+e.label, pos, gg)
		}
	}
}

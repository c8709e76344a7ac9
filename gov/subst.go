package main

// Assume rebuilds t with the given conditions taken as true or false.
func Assume(t *Term, asg map[*Term]*Term, memo map[*Term]*Term) *Term {
	return assume2(t, asg, memo, false)
}

// assume2: with q also under quantifiers (the replaced terms are closed)
func assume2(t *Term, asg map[*Term]*Term, memo map[*Term]*Term, q bool) *Term {
	if r, ok := asg[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	if t.op == "forall" || t.op == "exists" {
		if !q {
			return t
		}
		b := assume2(t.args[0], asg, memo, q)
		r := t
		if b != t.args[0] {
			var pats [][]*Term
			for _, p := range t.pats {
				var np []*Term
				ok := true
				for _, a := range p {
					a = assume2(a, asg, memo, q)
					ok = ok && a.bound && patternOK(a)
					np = append(np, a)
				}
				if ok {
					pats = append(pats, np)
				}
			}
			r = quant(t.op, t.vars, b, pats)
		}
		memo[t] = r
		return r
	}
	as := make([]*Term, len(t.args))
	same := true
	for i, a := range t.args {
		as[i] = assume2(a, asg, memo, q)
		if as[i] != a {
			same = false
		}
	}
	r := t
	if !same {
		switch t.op {
		case "+":
			r = Add(as...)
		case "-":
			if len(as) == 2 {
				r = Sub(as[0], as[1])
			}
		case "*":
			if len(as) == 2 {
				r = Mul(as[0], as[1])
			}
		case "and":
			r = And(as...)
		case "or":
			r = Or(as...)
		case "not":
			r = Not(as[0])
		case "=>":
			r = Implies(as[0], as[1])
		case "=":
			r = Eq(as[0], as[1])
		case "<":
			r = Lt(as[0], as[1])
		case "<=":
			r = Le(as[0], as[1])
		case "ite":
			r = Ite(as[0], as[1], as[2])
		case "select":
			r = Select(as[0], as[1])
		case "store":
			r = Store(as[0], as[1], as[2])
		case "mk":
			r = Mk(t.sort, as...)
		case "get":
			for i, f := range dts[t.args[0].sort].fields {
				if f == t.name {
					r = Get(as[0], i)
				}
			}
		case "app":
			r = App(t.name, t.sort, as...)
		}
	}
	memo[t] = r
	return r
}

// iteConds: the conditions of the nested ites of an integer term
func iteConds(t *Term, acc []*Term) []*Term {
	switch t.op {
	case "ite":
		c := t.args[0]
		for _, a := range acc {
			if a == c {
				c = nil
				break
			}
		}
		if c != nil {
			acc = append(acc, c)
		}
		return iteConds(t.args[2], iteConds(t.args[1], acc))
	case "+":
		for _, a := range t.args {
			acc = iteConds(a, acc)
		}
	}
	return acc
}

// underHyp rewrites the conclusion of a goal with the literals its own premises (and the
// path condition) fix.
func underHyp(pc, goal *Term) *Term {
	asg := map[*Term]*Term{}
	var lits func(t *Term)
	lits = func(t *Term) {
		switch {
		case t.op == "and":
			for _, a := range t.args {
				lits(a)
			}
		case t.op == "not":
			if t.args[0].op == "or" {
				for _, a := range t.args[0].args {
					lits(Not(a))
				}
			} else {
				asg[t.args[0]] = False
			}
		case t.op == "bool" || t.op == "forall" || t.op == "exists" || t.op == "=>":
		default:
			asg[t] = True
		}
	}
	hyp := True
	for goal.op == "=>" {
		lits(goal.args[0])
		hyp = And(hyp, goal.args[0])
		goal = goal.args[1]
	}
	lits(pc)
	delete(asg, goal)
	if len(asg) == 0 {
		return Implies(hyp, splitCases(goal, 7))
	}
	for k := 0; k < 3; k++ {
		n := Assume(goal, asg, map[*Term]*Term{})
		if n == goal {
			break
		}
		goal = n
	}
	return Implies(hyp, splitCases(goal, 7))
}

// splitCases: one case per value of the conditions the goal branches on (the first few, those
// of smallest terms first)
func splitCases(goal *Term, depth int) *Term {
	if depth == 0 || goal.op == "bool" || goal.bound {
		return goal
	}
	var cond *Term
	str := false
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || t.op == "forall" || t.op == "exists" {
			return
		}
		seen[t] = true
		// conditions choosing between texts first
		if t.op == "ite" && (cond == nil || t.sort == "Str" && !str || (t.sort == "Str") == str && t.args[0].id < cond.id) {
			cond, str = t.args[0], t.sort == "Str"
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(goal)
	if cond == nil {
		return goal
	}
	yes := Assume(goal, map[*Term]*Term{cond: True}, map[*Term]*Term{})
	no := Assume(goal, map[*Term]*Term{cond: False}, map[*Term]*Term{})
	return And(Implies(cond, splitCases(yes, depth-1)), Implies(Not(cond), splitCases(no, depth-1)))
}

type goalCase struct{ cond, goal *Term }

// deepCases: like splitCases, also over the closed conditions inside quantifiers; a second
// attempt at an obligation that merges several ways a function can end
func deepCases(cond, goal *Term, depth int) []goalCase {
	if goal.op == "bool" && goal == True {
		return nil
	}
	var best *Term
	if depth > 0 {
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == "ite" && !t.args[0].bound && t.args[0].op != "bool" && (best == nil || t.args[0].id < best.id) {
				best = t.args[0]
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		walk(goal)
	}
	if best == nil {
		return []goalCase{{cond, goal}}
	}
	yes := assume2(goal, map[*Term]*Term{best: True}, map[*Term]*Term{}, true)
	no := assume2(goal, map[*Term]*Term{best: False}, map[*Term]*Term{}, true)
	return append(deepCases(And(cond, best), yes, depth-1), deepCases(And(cond, Not(best)), no, depth-1)...)
}

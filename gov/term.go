package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Term is a hash-consed SMT term.
type Term struct {
	op    string // int bool lit const var + - * div mod < <= = and or not => ite select store constarr mk get app forall exists
	name  string // const/var/app/ctor/selector name
	n     *big.Int
	b     bool
	s     string // string literal
	args  []*Term
	sort  string
	id    int
	bound bool // contains a bound variable
	born  int  // age: value (if a reference) is below the allocation frontier number born; -1 unknown
	vars  []*Term
	pats  [][]*Term
}

var (
	termTab = map[string]*Term{}
	termSeq int
	constBorn = map[string]int{} // const name -> frontier seq (for refs and heaps)
	frontSeq = map[string]int{} // frontier const name -> seq
	heapParent = map[string]*heapFrame{}
)

// heapFrame: heap constant H agrees with parent on every reference below frontier seq, except mods.
type heapFrame struct {
	parent *Term
	lim    *Term // the frontier
	mods   []*Term
}

func mkTerm(t Term) *Term {
	var k strings.Builder
	k.WriteString(t.op)
	k.WriteByte('|')
	k.WriteString(t.name)
	k.WriteByte('|')
	k.WriteString(t.sort)
	if t.n != nil {
		k.WriteString(t.n.String())
	}
	if t.op == "bool" && t.b {
		k.WriteString("T")
	}
	if t.op == "lit" {
		k.WriteString(t.s)
	}
	for _, a := range t.args {
		fmt.Fprintf(&k, ",%d", a.id)
	}
	for _, a := range t.vars {
		fmt.Fprintf(&k, ";%d", a.id)
	}
	for _, p := range t.pats {
		k.WriteString("#")
		for _, a := range p {
			fmt.Fprintf(&k, ",%d", a.id)
		}
	}
	key := k.String()
	if x, ok := termTab[key]; ok {
		return x
	}
	termSeq++
	t.id = termSeq
	x := &t
	x.born = -1
	if t.op == "var" {
		x.bound = true
	}
	for _, a := range t.args {
		if a.bound {
			x.bound = true
		}
	}
	if t.op == "forall" || t.op == "exists" {
		fv := map[*Term]bool{}
		freeVars(t.args[0], fv, map[*Term]bool{})
		for _, v := range t.vars {
			delete(fv, v)
		}
		x.bound = len(fv) > 0
	}
	termTab[key] = x
	return x
}

func freeVars(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	if !t.bound || seen[t] {
		return
	}
	seen[t] = true
	if t.op == "var" {
		out[t] = true
		return
	}
	if t.op == "forall" || t.op == "exists" {
		in := map[*Term]bool{}
		freeVars(t.args[0], in, map[*Term]bool{})
		for _, v := range t.vars {
			delete(in, v)
		}
		for v := range in {
			out[v] = true
		}
		return
	}
	for _, a := range t.args {
		freeVars(a, out, seen)
	}
}

func Int(n int64) *Term       { return BigInt(big.NewInt(n)) }
func BigInt(n *big.Int) *Term { return mkTerm(Term{op: "int", n: n, sort: "Int"}) }
func Bool(b bool) *Term       { return mkTerm(Term{op: "bool", b: b, sort: "Bool"}) }
func StrLit(s string) *Term   { return mkTerm(Term{op: "lit", s: s, sort: "Str"}) }
func Const(name, sort string) *Term {
	return mkTerm(Term{op: "const", name: name, sort: sort})
}
func Var(name, sort string) *Term { return mkTerm(Term{op: "var", name: name, sort: sort}) }

var freshN = map[string]int{}

// qvars are the bound variables in scope while a quantifier body is evaluated: an
// unknown that arises there may differ for every value of them.
var qvars []*Term

func Fresh(prefix, sort string) *Term {
	freshN[prefix]++
	if len(qvars) > 0 {
		return App(fmt.Sprintf("%s!q%d", prefix, freshN[prefix]), sort, qvars...)
	}
	return Const(fmt.Sprintf("%s!%d", prefix, freshN[prefix]), sort)
}
func FreshVar(prefix, sort string) *Term {
	freshN["?"+prefix]++
	return Var(fmt.Sprintf("?%s%d", prefix, freshN["?"+prefix]), sort)
}

var True, False = Bool(true), Bool(false)
var Zero, One = Int(0), Int(1)

func isInt(t *Term) bool { return t.op == "int" }

// linear normal form: coefficients over atoms
type lin struct {
	c     *big.Int
	atoms map[*Term]*big.Int
}

func linOf(t *Term) lin {
	l := lin{c: new(big.Int), atoms: map[*Term]*big.Int{}}
	linAdd(&l, t, big.NewInt(1))
	return l
}
func linAdd(l *lin, t *Term, k *big.Int) {
	switch {
	case t.op == "int":
		l.c.Add(l.c, new(big.Int).Mul(k, t.n))
	case t.op == "+":
		for _, a := range t.args {
			linAdd(l, a, k)
		}
	case t.op == "-" && len(t.args) == 1:
		linAdd(l, t.args[0], new(big.Int).Neg(k))
	case t.op == "*" && t.args[0].op == "int":
		linAdd(l, t.args[1], new(big.Int).Mul(k, t.args[0].n))
	default:
		v, ok := l.atoms[t]
		if !ok {
			v = new(big.Int)
		}
		v = new(big.Int).Add(v, k)
		if v.Sign() == 0 {
			delete(l.atoms, t)
		} else {
			l.atoms[t] = v
		}
	}
}
func (l lin) term() *Term {
	var as []*Term
	for a := range l.atoms {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	var parts []*Term
	for _, a := range as {
		k := l.atoms[a]
		if k.Cmp(big.NewInt(1)) == 0 {
			parts = append(parts, a)
		} else {
			parts = append(parts, mkTerm(Term{op: "*", args: []*Term{BigInt(k), a}, sort: "Int"}))
		}
	}
	if l.c.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, BigInt(l.c))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return mkTerm(Term{op: "+", args: parts, sort: "Int"})
}

func Add(ts ...*Term) *Term {
	if ts[0].sort == "Real" {
		r := ts[0]
		for _, t := range ts[1:] {
			r = mkTerm(Term{op: "+", args: []*Term{r, t}, sort: "Real"})
		}
		return r
	}
	l := lin{c: new(big.Int), atoms: map[*Term]*big.Int{}}
	for _, t := range ts {
		linAdd(&l, t, big.NewInt(1))
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	if a.sort == "Real" {
		return mkTerm(Term{op: "-", args: []*Term{a, b}, sort: "Real"})
	}
	l := linOf(a)
	linAdd(&l, b, big.NewInt(-1))
	return l.term()
}
func Mul(a, b *Term) *Term {
	if a.sort == "Real" {
		return mkTerm(Term{op: "*", args: []*Term{a, b}, sort: "Real"})
	}
	if b.op == "int" {
		a, b = b, a
	}
	if a.op == "int" {
		l := lin{c: new(big.Int), atoms: map[*Term]*big.Int{}}
		linAdd(&l, b, a.n)
		return l.term()
	}
	if a.op == "ite" && isInt(a.args[1]) && isInt(a.args[2]) {
		return Ite(a.args[0], Mul(a.args[1], b), Mul(a.args[2], b))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkTerm(Term{op: "*", args: []*Term{a, b}, sort: "Int"})
}

// Euclidean div/mod of SMT-LIB
func DivE(a, b *Term) *Term {
	if isInt(a) && isInt(b) && b.n.Sign() > 0 {
		return BigInt(new(big.Int).Div(a.n, b.n))
	}
	if isInt(b) && b.n.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return mkTerm(Term{op: "div", args: []*Term{a, b}, sort: "Int"})
}
func ModE(a, b *Term) *Term {
	if isInt(a) && isInt(b) && b.n.Sign() > 0 {
		return BigInt(new(big.Int).Mod(a.n, b.n))
	}
	return mkTerm(Term{op: "mod", args: []*Term{a, b}, sort: "Int"})
}

// Go truncated division
func Quo(a, b *Term) *Term {
	if isInt(a) && isInt(b) && b.n.Sign() != 0 {
		return BigInt(new(big.Int).Quo(a.n, b.n))
	}
	if isInt(b) && b.n.Sign() > 0 {
		return Ite(Le(Zero, a), DivE(a, b), Sub(Zero, DivE(Sub(Zero, a), b)))
	}
	return App("tdiv", "Int", a, b)
}
func Rem(a, b *Term) *Term {
	if isInt(a) && isInt(b) && b.n.Sign() != 0 {
		return BigInt(new(big.Int).Rem(a.n, b.n))
	}
	if isInt(b) && b.n.Sign() > 0 {
		return Ite(Le(Zero, a), ModE(a, b), Sub(Zero, ModE(Sub(Zero, a), b)))
	}
	return Sub(a, Mul(b, Quo(a, b)))
}

func Not(a *Term) *Term {
	switch a.op {
	case "bool":
		return Bool(!a.b)
	case "not":
		return a.args[0]
	}
	return mkTerm(Term{op: "not", args: []*Term{a}, sort: "Bool"})
}
func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.op == "bool" {
			return t.b
		}
		if t.op == "and" {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[Not(t)] {
			return false
		}
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mkTerm(Term{op: "and", args: out, sort: "Bool"})
}
func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.op == "bool" {
			return !t.b
		}
		if t.op == "or" {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[Not(t)] {
			return false
		}
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	// factor common conjuncts: (A&c)|(A&!c) -> A   (frequent at joins)
	if len(out) == 2 {
		if r := orFactor(out[0], out[1]); r != nil {
			return r
		}
	}
	return mkTerm(Term{op: "or", args: out, sort: "Bool"})
}
func conjuncts(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}
func orFactor(a, b *Term) *Term {
	ca, cb := conjuncts(a), conjuncts(b)
	inB := map[*Term]bool{}
	for _, x := range cb {
		inB[x] = true
	}
	var common, ra, rb []*Term
	inC := map[*Term]bool{}
	for _, x := range ca {
		if inB[x] {
			common = append(common, x)
			inC[x] = true
		} else {
			ra = append(ra, x)
		}
	}
	if len(common) == 0 {
		return nil
	}
	for _, x := range cb {
		if !inC[x] {
			rb = append(rb, x)
		}
	}
	rest := Or(And(ra...), And(rb...))
	return And(append(common, rest)...)
}
func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	if b.op == "=>" {
		return Implies(And(a, b.args[0]), b.args[1])
	}
	return mkTerm(Term{op: "=>", args: []*Term{a, b}, sort: "Bool"})
}
func Iff(a, b *Term) *Term { return Eq(a, b) }

func linDiff(a, b *Term) (lin, bool) {
	l := linOf(a)
	linAdd(&l, b, big.NewInt(-1))
	return l, len(l.atoms) == 0
}
func Lt(a, b *Term) *Term {
	if a.sort == "Real" {
		return mkTerm(Term{op: "<", args: []*Term{a, b}, sort: "Bool"})
	}
	if l, c := linDiff(a, b); c {
		return Bool(l.c.Sign() < 0)
	}
	return Le(Add(a, One), b)
}
func Le(a, b *Term) *Term {
	if a.sort == "Real" {
		return mkTerm(Term{op: "<=", args: []*Term{a, b}, sort: "Bool"})
	}
	if l, c := linDiff(a, b); c {
		return Bool(l.c.Sign() <= 0)
	}
	return mkTerm(Term{op: "<=", args: []*Term{a, b}, sort: "Bool"})
}
func Gt(a, b *Term) *Term { return Lt(b, a) }
func Ge(a, b *Term) *Term { return Le(b, a) }

// freshBase: term is frontier_k + c, c>=0: returns seq
func freshBase(t *Term) (int, bool) {
	if t.op == "const" {
		s, ok := frontSeq[t.name]
		return s, ok
	}
	if t.op == "+" && len(t.args) == 2 && t.args[0].op == "const" && isInt(t.args[1]) && t.args[1].n.Sign() >= 0 {
		s, ok := frontSeq[t.args[0].name]
		return s, ok
	}
	return 0, false
}

// bornOf: an upper frontier seq s such that the reference t < frontier s; -1 if unknown
func bornOf(t *Term) int {
	if s, ok := freshBase(t); ok {
		return s + 1
	}
	switch t.op {
	case "int":
		if t.n.Sign() <= 0 {
			return 0
		}
	case "const":
		if s, ok := constBorn[t.name]; ok {
			return s
		}
	case "select":
		return heapBorn(t.args[0])
	case "get":
		return bornOf(t.args[0])
	case "ite":
		a, b := bornOf(t.args[1]), bornOf(t.args[2])
		if a < 0 || b < 0 {
			return -1
		}
		if a > b {
			return a
		}
		return b
	}
	return -1
}
// belowFrontier: reference t is syntactically below the frontier lim (base + c)
func belowFrontier(t, lim *Term) bool {
	s, ok := freshBase(lim)
	if !ok {
		return false
	}
	if b := bornOf(t); b >= 0 && b <= s {
		return true
	}
	if d := Sub(lim, t); d.op == "int" && d.n.Sign() > 0 {
		return true
	}
	return false
}
func heapBorn(h *Term) int {
	switch h.op {
	case "const":
		if s, ok := constBorn[h.name]; ok {
			return s
		}
	case "select":
		return heapBorn(h.args[0])
	}
	return -1
}

// distinctRefs: provably different terms
func distinctTerms(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.op == "lit" && b.op == "lit" {
		return true
	}
	if a.op == "bool" && b.op == "bool" {
		return true
	}
	if a.sort == "Int" && b.sort == "Int" {
		if l, c := linDiff(a, b); c {
			return l.c.Sign() != 0
		}
		if s, ok := freshBase(a); ok {
			if bb := bornOf(b); bb >= 0 && bb <= s {
				return true
			}
		}
		if s, ok := freshBase(b); ok {
			if bb := bornOf(a); bb >= 0 && bb <= s {
				return true
			}
		}
	}
	if a.op == "mk" && b.op == "mk" && a.name == b.name {
		for i := range a.args {
			if distinctTerms(a.args[i], b.args[i]) {
				return true
			}
		}
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("sort mismatch in =: %s : %s  vs %s : %s", a, a.sort, b, b.sort))
	}
	if distinctTerms(a, b) {
		return False
	}
	if a.sort == "Bool" {
		if a.op == "bool" {
			if a.b {
				return b
			}
			return Not(b)
		}
		if b.op == "bool" {
			if b.b {
				return a
			}
			return Not(a)
		}
		if a == Not(b) {
			return False
		}
	}
	if a.op == "mk" && b.op == "mk" && a.name == b.name {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	// ite with literal branches vs literal
	if a.op == "ite" && isLit(b) && (isLit(a.args[1]) || isLit(a.args[2])) {
		return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
	}
	if b.op == "ite" && isLit(a) && (isLit(b.args[1]) || isLit(b.args[2])) {
		return Ite(b.args[0], Eq(b.args[1], a), Eq(b.args[2], a))
	}
	if a.sort == "Str" {
		if r := eqCat(a, b); r != nil {
			return r
		}
	}
	if a.sort == "Int" {
		// normalise a-b = 0 when they share atoms
		l, _ := linDiff(a, b)
		if len(l.atoms) == 1 {
			for at, k := range l.atoms {
				if k.CmpAbs(big.NewInt(1)) == 0 {
					v := new(big.Int).Neg(l.c)
					if k.Sign() < 0 {
						v = new(big.Int).Set(l.c)
					}
					x, y := at, BigInt(v)
					if x.op == "ite" && (isLit(x.args[1]) || isLit(x.args[2])) && (x != a && x != b) {
						return Eq(x, y)
					}
					return mkTerm(Term{op: "=", args: []*Term{x, y}, sort: "Bool"})
				}
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkTerm(Term{op: "=", args: []*Term{a, b}, sort: "Bool"})
}
func isLit(t *Term) bool { return t.op == "int" || t.op == "lit" || t.op == "bool" }
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

// zeroTest: the integer term a condition compares with 0
func zeroTest(c *Term) *Term {
	if c.op == "=" && len(c.args) == 2 {
		if c.args[0] == Zero {
			return c.args[1]
		}
		if c.args[1] == Zero {
			return c.args[0]
		}
	}
	return nil
}
func copyNothing(a, n *Term) *Term {
	switch {
	case a.op == "ite":
		return Ite(a.args[0], copyNothing(a.args[1], n), copyNothing(a.args[2], n))
	case strings.HasPrefix(a.name, "arrcopy!") && a.args[4] == n:
		return copyNothing(a.args[0], n)
	}
	return a
}
func Ite(c, a, b *Term) *Term {
	if c.op == "bool" {
		if c.b {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sort mismatch %s / %s: %s %s", a.sort, b.sort, a, b))
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if a.sort == "Bool" {
		switch {
		case a == True:
			return Or(c, b)
		case a == False:
			return And(Not(c), b)
		case b == True:
			return Or(Not(c), a)
		case b == False:
			return And(c, a)
		}
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if a.op == "mk" && b.op == "mk" && a.name == b.name {
		var as []*Term
		for i := range a.args {
			as = append(as, Ite(c, a.args[i], b.args[i]))
		}
		return mkTerm(Term{op: "mk", name: a.name, args: as, sort: a.sort})
	}
	if n := zeroTest(c); n != nil && a.sort == "Int" && Sub(b, a) == n {
		return b // a+n, also where n is 0
	}
	if n := zeroTest(c); n != nil && strings.HasPrefix(a.sort, "(Array") {
		// nothing is copied where the count is 0
		a = copyNothing(a, n)
		if strings.HasPrefix(b.name, "arrcopy!") && b.args[4] == n && copyNothing(b.args[0], n) == a {
			return b
		}
		if a == b {
			return a
		}
	}
	return mkTerm(Term{op: "ite", args: []*Term{c, a, b}, sort: a.sort})
}

func arrSorts(s string) (string, string) {
	// "(Array K V)"
	s = strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return s[:i], s[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}
func ArrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

var selMemo = map[[2]int]*Term{}

func Select(a, i *Term) *Term {
	key := [2]int{a.id, i.id}
	if r, ok := selMemo[key]; ok {
		return r
	}
	r := select0(a, i)
	selMemo[key] = r
	return r
}

// restrict: t under the assumption that c has the given value
func restrict(t, c *Term, val bool) *Term {
	if t.op != "ite" {
		return t
	}
	if t.args[0] == c {
		if val {
			return restrict(t.args[1], c, val)
		}
		return restrict(t.args[2], c, val)
	}
	key := restrictKey{t.id, c.id, val}
	if r, ok := restrictMemo[key]; ok {
		return r
	}
	r := Ite(t.args[0], restrict(t.args[1], c, val), restrict(t.args[2], c, val))
	restrictMemo[key] = r
	return r
}

type restrictKey struct {
	t, c int
	val  bool
}

var restrictMemo = map[restrictKey]*Term{}

func select0(a, i *Term) *Term {
	for {
		switch a.op {
		case "store":
			if a.args[1] == i {
				return a.args[2]
			}
			if distinctTerms(a.args[1], i) {
				a = a.args[0]
				continue
			}
		case "constarr":
			return a.args[0]
		case "ite":
			l, r := Select(a.args[1], restrict(i, a.args[0], true)), Select(a.args[2], restrict(i, a.args[0], false))
			return Ite(a.args[0], l, r)
		case "const":
			if hf, ok := heapParent[a.name]; ok {
				if belowFrontier(i, hf.lim) {
					ok := true
					for _, m := range hf.mods {
						if m.op == "rowset" || !distinctTerms(m, i) {
							ok = false
						}
					}
					if ok {
						a = hf.parent
						continue
					}
				}
			}
		}
		break
	}
	if i.op == "ite" && !i.bound && !a.bound && (a.op == "store" || a.op == "const") && i.sort == "Int" {
		return Ite(i.args[0], Select(a, i.args[1]), Select(a, i.args[2]))
	}
	k, v := arrSorts(a.sort)
	if k != i.sort {
		panic(fmt.Sprintf("select index sort %s vs %s (%s)", k, i.sort, i))
	}
	return mkTerm(Term{op: "select", args: []*Term{a, i}, sort: v})
}
func Store(a, i, v *Term) *Term {
	_, vs := arrSorts(a.sort)
	if vs != v.sort {
		panic(fmt.Sprintf("store value sort %s vs %s (%s)", vs, v.sort, v))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if Select(a, i) == v && !v.bound {
		return a
	}
	return mkTerm(Term{op: "store", args: []*Term{a, i, v}, sort: a.sort})
}
func ConstArr(sort string, v *Term) *Term {
	return mkTerm(Term{op: "constarr", args: []*Term{v}, sort: sort})
}

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("forall", vars, body, pats)
}
func Exists(vars []*Term, body *Term) *Term { return quant("exists", vars, body, nil) }
func quant(op string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if body.op == "bool" {
		return body
	}
	fv := map[*Term]bool{}
	freeVars(body, fv, map[*Term]bool{})
	var vs []*Term
	for _, v := range vars {
		if fv[v] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	var ps [][]*Term
	for _, p := range pats {
		pf := map[*Term]bool{}
		ok := true
		for _, t := range p {
			freeVars(t, pf, map[*Term]bool{})
			if !patternOK(t) {
				ok = false
			}
		}
		for _, v := range vs {
			if !pf[v] {
				ok = false
			}
		}
		if ok {
			ps = append(ps, p)
		}
	}
	return mkTerm(Term{op: op, vars: vs, args: []*Term{body}, pats: ps, sort: "Bool"})
}

// ForallTrig: as Forall, with the trigger as written
func ForallTrig(vs []*Term, body *Term, pat []*Term) *Term {
	for _, t := range pat {
		if !t.bound || t.op == "var" {
			// the trigger simplified away: let the solver choose
			return Forall(vs, body)
		}
	}
	return mkTerm(Term{op: "forall", vars: vs, args: []*Term{body}, pats: [][]*Term{pat}, sort: "Bool"})
}
func patternOK(t *Term) bool {
	switch t.op {
	case "select", "app", "get", "mk":
		for _, a := range t.args {
			if a.bound && a.op != "var" && !patternOK(a) {
				return false
			}
			if a.op == "ite" {
				return false
			}
		}
		return true
	case "const", "int", "lit", "bool", "store", "var":
		return true
	case "+":
		return !t.bound
	}
	return !t.bound && t.op != "ite" && t.op != "and" && t.op != "or" && t.op != "not"
}

// ---- uninterpreted functions ----
type FunDecl struct {
	name string
	args []string
	ret  string
}

var funs = map[string]*FunDecl{}

func App(name string, ret string, args ...*Term) *Term {
	d, ok := funs[name]
	if !ok {
		d = &FunDecl{name: name, ret: ret}
		for _, a := range args {
			d.args = append(d.args, a.sort)
		}
		funs[name] = d
	}
	if len(d.args) != len(args) {
		panic("arity of " + name)
	}
	for i, a := range args {
		if d.args[i] != a.sort {
			panic(fmt.Sprintf("app %s arg %d sort %s want %s (%s)", name, i, a.sort, d.args[i], a))
		}
	}
	if r := simpApp(name, d.ret, args); r != nil {
		return r
	}
	return mkTerm(Term{op: "app", name: name, args: args, sort: d.ret})
}

// ---- datatypes ----
type DT struct {
	sort   string
	ctor   string
	fields []string // selector names
	sorts  []string
}

var dts = map[string]*DT{}
var dtOrder []string

func declDT(sort string, fields, sorts []string) *DT {
	if d, ok := dts[sort]; ok {
		return d
	}
	d := &DT{sort: sort, ctor: "mk_" + sort, fields: fields, sorts: sorts}
	dts[sort] = d
	dtOrder = append(dtOrder, sort)
	return d
}
func Mk(sort string, args ...*Term) *Term {
	d := dts[sort]
	if d == nil {
		panic("no datatype " + sort)
	}
	for i, a := range args {
		if a.sort != d.sorts[i] {
			panic(fmt.Sprintf("mk %s field %s sort %s want %s: %s", sort, d.fields[i], a.sort, d.sorts[i], a))
		}
	}
	// mk(get0 x, get1 x, ...) = x
	if len(args) > 0 && args[0].op == "get" {
		x := args[0].args[0]
		ok := x.sort == sort
		for i, a := range args {
			if a.op != "get" || a.args[0] != x || a.name != d.fields[i] {
				ok = false
			}
		}
		if ok {
			return x
		}
	}
	return mkTerm(Term{op: "mk", name: d.ctor, args: args, sort: sort})
}

var getMemo = map[string]*Term{}

func Get(x *Term, i int) *Term {
	d := dts[x.sort]
	if d == nil {
		panic("get on " + x.sort + ": " + x.String())
	}
	if x.op == "mk" {
		return x.args[i]
	}
	if x.op == "ite" {
		k := fmt.Sprintf("%d.%d", x.id, i)
		if r, ok := getMemo[k]; ok {
			return r
		}
		r := Ite(x.args[0], Get(x.args[1], i), Get(x.args[2], i))
		getMemo[k] = r
		return r
	}
	return mkTerm(Term{op: "get", name: d.fields[i], args: []*Term{x}, sort: d.sorts[i]})
}
func With(x *Term, i int, v *Term) *Term {
	d := dts[x.sort]
	args := make([]*Term, len(d.fields))
	for j := range args {
		if j == i {
			args[j] = v
		} else {
			args[j] = Get(x, j)
		}
	}
	return Mk(x.sort, args...)
}

func init() {
	declDT("Slice", []string{"sl_ref", "sl_off", "sl_len", "sl_cap"}, []string{"Int", "Int", "Int", "Int"})
	declDT("Iface", []string{"if_tag", "if_val"}, []string{"Int", "Val"})
}
func MkSlice(ref, off, ln, cp *Term) *Term { return Mk("Slice", ref, off, ln, cp) }
func SlRef(s *Term) *Term                  { return Get(s, 0) }
func SlOff(s *Term) *Term                  { return Get(s, 1) }
func SlLen(s *Term) *Term                  { return Get(s, 2) }
func SlCap(s *Term) *Term                  { return Get(s, 3) }

// Idx builds the absolute index off+i in trigger-friendly form
func Idx(off, i *Term) *Term {
	tot := Add(off, i)
	if !tot.bound {
		return tot
	}
	return tot
}

func (t *Term) String() string {
	s := t.smt(0)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func smtSym(s string) string {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("~!@$%^&*_-+=<>.?/", c) >= 0) {
			return "|" + strings.NewReplacer("|", "!", "\\", "!").Replace(s) + "|"
		}
	}
	return s
}

func smtInt(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

// smt renders without sharing (for messages)
func (t *Term) smt(depth int) string {
	if depth > 14 {
		return "..."
	}
	return t.render(func(a *Term) string { return a.smt(depth + 1) })
}

func (t *Term) render(rec func(*Term) string) string {
	j := func(op string) string {
		var b strings.Builder
		b.WriteByte('(')
		b.WriteString(op)
		for _, a := range t.args {
			b.WriteByte(' ')
			b.WriteString(rec(a))
		}
		b.WriteByte(')')
		return b.String()
	}
	switch t.op {
	case "int":
		if t.sort == "Real" {
			return smtInt(t.n) + ".0"
		}
		return smtInt(t.n)
	case "bool":
		if t.b {
			return "true"
		}
		return "false"
	case "lit":
		return litName(t)
	case "const", "var":
		return smtSym(t.name)
	case "app":
		if len(t.args) == 0 {
			return smtSym(t.name)
		}
		return j(smtSym(t.name))
	case "mk":
		if len(t.args) == 0 {
			return smtSym(t.name)
		}
		return j(smtSym(t.name))
	case "get":
		return j(smtSym(t.name))
	case "constarr":
		return "((as const " + t.sort + ") " + rec(t.args[0]) + ")"
	case "forall", "exists":
		var b strings.Builder
		b.WriteString("(" + t.op + " (")
		for _, v := range t.vars {
			b.WriteString("(" + smtSym(v.name) + " " + v.sort + ")")
		}
		b.WriteString(") ")
		if len(t.pats) > 0 {
			b.WriteString("(! ")
		}
		b.WriteString(rec(t.args[0]))
		for _, p := range t.pats {
			b.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					b.WriteByte(' ')
				}
				b.WriteString(rec(x))
			}
			b.WriteString(")")
		}
		if len(t.pats) > 0 {
			b.WriteString(")")
		}
		b.WriteString(")")
		return b.String()
	}
	return j(t.op)
}

var litIDs = map[string]int{}

func litName(t *Term) string {
	id, ok := litIDs[t.s]
	if !ok {
		id = len(litIDs)
		litIDs[t.s] = id
	}
	return fmt.Sprintf("lit_%d", id)
}

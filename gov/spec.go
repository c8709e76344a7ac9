package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- AST ----
type Node struct {
	op   string // id int str bool . [] [:] call un bin forall exists if
	name string
	n    int64
	args []*Node
	vars []qvar
	pos  string
}
type qvar struct {
	name string
	typ  string // "" for range int
	lo   *Node
	hi   *Node
	in   *Node // map
}
type Clause struct {
	label string
	src   string
	ast   *Node
	props []string
}

type Contract struct {
	pkgPath, recv, name string
	pkg                 *ssa.Package
	fn                  *ssa.Function
	requires, ensures   []Clause
	invariants          []Clause
	modifies            []Clause
	modAll              bool
	modOnly             map[string]bool
	noalloc             bool
	using               []string
	props               []string
	nopanic             bool
	trusted             bool
	iface               bool
	always              string // the one type behind the interface here (checked at every call)
	inline              bool
	specInline          bool
	nilRecv             bool
	runResult, tracing  bool
	checked             bool // interface method: its precondition is an obligation of the caller
	mayPanic            bool // interface method that may panic
	background          bool // goroutines may write shared memory
	panicens            []Clause // hold, after the deferred calls, if called code panics
	defines             []Clause // how a call changes ghost state: assumed at calls, nothing to prove
	usePost, postAbs, noUnroll bool
	names string // the result, as a function of the arguments, is called this
	verifyHere          bool
	auto                bool
	file                string
	line                int
	// run data
	params []*Term
	reach  *Term
	nreq   int
}

func (c *Contract) id() string {
	p := strings.TrimPrefix(c.pkgPath, "github.com/phoenix-tui/phoenix/")
	if c.recv != "" {
		return p + "." + c.recv + "." + c.name
	}
	return p + "." + c.name
}
func (c *Contract) short() string {
	if c.recv != "" {
		return c.recv + "." + c.name
	}
	return c.name
}

type Pred struct {
	name   string
	params []string
	body   *Node
}
type Axiom struct {
	name  string
	src   string
	ast   *Node
	pkg   string
	local bool // only where a contract asks for it (using NAME)
}

// ownTrace: the clause speaks about what the function itself called, sent or received
func (n *Node) ownTrace() bool {
	if n == nil {
		return false
	}
	if n.op == "call" || n.op == "id" {
		switch n.name {
		case "ncalls", "spawned", "lastchan", "nsent", "nrecv", "sentat", "recvof", "recvat", "called", "callres", "ran", "sentto", "recvd", "senttoat", "ngot", "gotat":
			return true
		}
	}
	for _, a := range n.args {
		if a.ownTrace() {
			return true
		}
	}
	return false
}

// ---- lexer / parser ----
type tok struct {
	k string // id int str op eof
	s string
}
type parser struct {
	ts  []tok
	p   int
	src string
}

func lex(s string) []tok {
	var out []tok
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == 'x' || s[j] >= 'a' && s[j] <= 'f') {
				if s[j] == '.' {
					break
				}
				j++
			}
			out = append(out, tok{"int", s[i:j]})
			i = j
		case c == '_' || c == '$' || c == '#' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i + 1
			for j < len(s) && (s[j] == '_' || s[j] == '$' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			out = append(out, tok{"id", s[i:j]})
			i = j
		case c == '"' || c == '\'':
			j := i + 1
			for j < len(s) && s[j] != c {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			lit := s[i : j+1]
			if c == '"' {
				u, err := strconv.Unquote(lit)
				if err != nil {
					panic("bad string " + lit)
				}
				out = append(out, tok{"str", u})
			} else {
				r, _, _, err := strconv.UnquoteChar(lit[1:len(lit)-1], '\'')
				if err != nil {
					panic("bad char " + lit)
				}
				out = append(out, tok{"int", strconv.Itoa(int(r))})
			}
			i = j + 1
		default:
			for _, o := range []string{"<==>", "==>", "..", "==", "!=", "<=", ">=", "&&", "||", "(", ")", "[", "]", "{", "}", ",", ":", ".", "+", "-", "*", "/", "%", "<", ">", "!", "=", "&", "@"} {
				if strings.HasPrefix(s[i:], o) {
					out = append(out, tok{"op", o})
					i += len(o)
					goto next
				}
			}
			panic(fmt.Sprintf("lex error at %q", s[i:]))
		next:
		}
	}
	return append(out, tok{"eof", ""})
}

func parseExpr(s string) *Node {
	p := &parser{ts: lex(s), src: s}
	n := p.expr(0)
	if p.ts[p.p].k != "eof" {
		panic(fmt.Sprintf("trailing input at %q in %q", p.ts[p.p].s, s))
	}
	return n
}
func (p *parser) peek() tok { return p.ts[p.p] }
func (p *parser) isOp(s string) bool {
	return p.ts[p.p].k == "op" && p.ts[p.p].s == s
}
func (p *parser) isID(s string) bool { return p.ts[p.p].k == "id" && p.ts[p.p].s == s }
func (p *parser) want(s string) {
	if !(p.isOp(s) || p.isID(s)) {
		panic(fmt.Sprintf("expected %q got %q in %q", s, p.peek().s, p.src))
	}
	p.p++
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (p *parser) expr(min int) *Node {
	l := p.unary()
	for {
		t := p.peek()
		if t.k != "op" {
			return l
		}
		pr, ok := binPrec[t.s]
		if !ok || pr < min {
			return l
		}
		p.p++
		var r *Node
		if t.s == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		// chained comparisons a <= b < c
		if pr == 5 && l.op == "bin" && l.name == "&&chain" {
			l = &Node{op: "bin", name: "&&chain", args: []*Node{l, {op: "bin", name: t.s, args: []*Node{l.args[1].args[1], r}}}}
		} else if pr == 5 && l.op == "bin" && binPrec[l.name] == 5 && l.pos != "(" {
			l = &Node{op: "bin", name: "&&chain", args: []*Node{l, {op: "bin", name: t.s, args: []*Node{l.args[1], r}}}}
		} else {
			l = &Node{op: "bin", name: t.s, args: []*Node{l, r}}
		}
	}
}
func (p *parser) unary() *Node {
	if p.isOp("!") {
		p.p++
		return &Node{op: "un", name: "!", args: []*Node{p.unary()}}
	}
	if p.isOp("-") {
		p.p++
		return &Node{op: "un", name: "-", args: []*Node{p.unary()}}
	}
	if p.isOp("*") {
		p.p++
		return &Node{op: "un", name: "*", args: []*Node{p.unary()}}
	}
	return p.postfix(p.primary())
}
func (p *parser) typeStr() string {
	// type: id | *type | []type | id.id
	s := ""
	for {
		if p.isOp("*") {
			s += "*"
			p.p++
		} else if p.isOp("[") {
			p.p++
			p.want("]")
			s += "[]"
		} else {
			break
		}
	}
	if p.peek().k != "id" {
		panic("type expected in " + p.src)
	}
	if p.isID("map") && p.ts[p.p+1].s == "[" {
		p.p += 2
		k := p.typeStr()
		p.want("]")
		return s + "map[" + k + "]" + p.typeStr()
	}
	first := p.peek().s
	if first == "seq" && (p.ts[p.p+1].k == "id" || p.ts[p.p+1].s == "*" && p.ts[p.p+2].k == "id") {
		p.p++
		return s + "seq " + p.typeStr()
	}
	s += first
	p.p++
	for p.isOp(".") && p.ts[p.p+1].k == "id" && first[0] >= 'a' && p.ts[p.p+1].s[0] <= 'Z' {
		p.p++
		s += "." + p.peek().s
		p.p++
	}
	return s
}
func (p *parser) primary() *Node {
	t := p.peek()
	switch {
	case t.k == "int":
		p.p++
		n, err := strconv.ParseInt(t.s, 0, 64)
		if err != nil {
			panic(err)
		}
		return &Node{op: "int", n: n}
	case t.k == "str":
		p.p++
		return &Node{op: "str", name: t.s}
	case p.isOp("("):
		p.p++
		n := p.expr(0)
		p.want(")")
		m := *n
		m.pos = "("
		return &m
	case p.isID("forall") || p.isID("exists"):
		p.p++
		n := &Node{op: t.s}
		for {
			v := qvar{name: p.peek().s}
			p.p++
			if p.isID("in") {
				p.p++
				a := p.expr(6)
				if p.isOp("..") {
					p.p++
					v.lo = a
					v.hi = p.expr(6)
				} else {
					v.in = a
				}
			} else {
				v.typ = p.typeStr()
			}
			n.vars = append(n.vars, v)
			if p.isOp(",") {
				p.p++
				continue
			}
			break
		}
		var trig []*Node
		if p.isOp("{") { // explicit trigger
			p.p++
			for {
				trig = append(trig, p.expr(0))
				if p.isOp(",") {
					p.p++
					continue
				}
				break
			}
			p.want("}")
		}
		p.want(":")
		n.args = append([]*Node{p.expr(0)}, trig...)
		return n
	case p.isID("if"):
		p.p++
		c := p.expr(0)
		p.want("then")
		a := p.expr(0)
		p.want("else")
		b := p.expr(0)
		return &Node{op: "if", args: []*Node{c, a, b}}
	case p.isID("let"):
		p.p++
		v := p.peek().s
		p.p++
		p.want("=")
		e := p.expr(0)
		p.want("in")
		b := p.expr(0)
		return &Node{op: "let", name: v, args: []*Node{e, b}}
	case p.isID("true") || p.isID("false"):
		p.p++
		return &Node{op: "bool", name: t.s}
	case t.k == "id":
		p.p++
		n := &Node{op: "id", name: t.s}
		if strings.HasPrefix(t.s, "$") && t.s != "$k" && p.isOp(":") {
			p.p++
			n.pos = p.typeStr()
		}
		return n
	}
	panic(fmt.Sprintf("unexpected %q in %q", t.s, p.src))
}
func (p *parser) postfix(n *Node) *Node {
	for {
		switch {
		case p.isOp("."):
			p.p++
			f := p.peek().s
			p.p++
			n = &Node{op: ".", name: f, args: []*Node{n}}
		case p.isOp("["):
			p.p++
			var lo, hi *Node
			if !p.isOp(":") {
				lo = p.expr(0)
			}
			if p.isOp(":") {
				p.p++
				if !p.isOp("]") {
					hi = p.expr(0)
				}
				p.want("]")
				n = &Node{op: "[:]", args: []*Node{n, lo, hi}}
				continue
			}
			p.want("]")
			n = &Node{op: "[]", args: []*Node{n, lo}}
		case p.isOp("("):
			p.p++
			c := &Node{op: "call", args: []*Node{n}}
			for !p.isOp(")") {
				c.args = append(c.args, p.expr(0))
				if p.isOp(",") {
					p.p++
				}
			}
			p.want(")")
			n = c
		default:
			return n
		}
	}
}

// ---- contract files ----
type specFile struct {
	path      string
	loads     [][]string // dir, patterns...
	uses      []string
	imports   map[string]string
	contracts []*Contract
	preds     map[string]*Pred
	axioms    []*Axiom
	logics    map[string]*FunDecl
	logicT    map[string]types.Type
	typeinvs  []*typeInv
}
type typeInv struct {
	pkgPath, typ, v string
	body            *Node
	src             string
	props           []string
	skip            map[string]bool
	only            map[string]bool
}

var stmtKW = map[string]bool{"load": true, "use": true, "package": true, "import": true, "prop": true, "pred": true, "logic": true, "axiom": true, "func": true, "iface": true, "requires": true, "ensures": true, "invariant": true, "modifies": true, "trusted": true, "inline": true, "nopanic": true, "nilrecv": true, "runresult": true, "checked": true, "maypanic": true, "background": true, "panicensures": true, "defines": true, "tracing": true, "typeinv": true, "noverify": true, "skip": true, "noalloc": true, "purem": true, "lemma": true, "using": true, "nounroll": true, "invpost": true, "names": true, "always": true}

func parseSpec(path string) (*specFile, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	sf := &specFile{path: path, imports: map[string]string{}, preds: map[string]*Pred{}, logics: map[string]*FunDecl{}}
	type line struct {
		kw, rest string
		n        int
	}
	var ls []line
	for i, l := range strings.Split(string(b), "\n") {
		if k := strings.Index(l, "//"); k >= 0 && !strings.Contains(l[:k], "\"") {
			l = l[:k]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		kw := t
		if k := strings.IndexAny(t, " \t"); k >= 0 {
			kw = t[:k]
		}
		if stmtKW[kw] {
			ls = append(ls, line{kw, strings.TrimSpace(t[len(kw):]), i + 1})
		} else if len(ls) > 0 {
			ls[len(ls)-1].rest += " " + t
		} else {
			return nil, fmt.Errorf("%s:%d: unexpected %q", path, i+1, t)
		}
	}
	pkg := ""
	var props []string
	var cur *Contract
	var curInv *typeInv
	for _, l := range ls {
		err := func() (err error) {
			defer func() {
				if e := recover(); e != nil {
					err = fmt.Errorf("%s:%d: %v", path, l.n, e)
				}
			}()
			clause := func(def string) Clause {
				src := l.rest
				label := def
				if k := strings.Index(src, ":"); k > 0 && isLabel(src[:k]) {
					label = src[:k]
					src = src[k+1:]
				}
				return Clause{label: label, src: strings.TrimSpace(src), ast: parseExpr(src)}
			}
			switch l.kw {
			case "load":
				sf.loads = append(sf.loads, strings.Fields(l.rest))
			case "use":
				sf.uses = append(sf.uses, l.rest)
			case "package":
				pkg = l.rest
				if !strings.HasPrefix(pkg, "github.com/") {
					pkg = "github.com/phoenix-tui/phoenix/" + pkg
				}
			case "import":
				f := strings.Fields(l.rest)
				p := f[1]
				if strings.HasPrefix(p, "phoenix/") {
					p = "github.com/phoenix-tui/" + p
				}
				sf.imports[f[0]] = p
			case "prop":
				props = strings.Fields(l.rest)
			case "pred":
				k := strings.Index(l.rest, "(")
				e := strings.Index(l.rest, ")")
				pr := &Pred{name: strings.TrimSpace(l.rest[:k])}
				for _, a := range strings.Split(l.rest[k+1:e], ",") {
					f := strings.Fields(a)
					if len(f) > 0 {
						pr.params = append(pr.params, f[0])
					}
				}
				body := strings.TrimSpace(l.rest[e+1:])
				if !strings.HasPrefix(body, "=") {
					panic("pred needs =")
				}
				pr.body = parseExpr(body[1:])
				sf.preds[pr.name] = pr
			case "purem":
				k := strings.Index(l.rest, " ")
				var rs []string
				for _, a := range strings.Split(l.rest[k+1:], ",") {
					rs = append(rs, specSort(strings.TrimSpace(a)))
				}
				pureMeth[l.rest[:k]] = rs
			case "logic":
				k := strings.Index(l.rest, "(")
				e := strings.Index(l.rest, ")")
				d := &FunDecl{name: strings.TrimSpace(l.rest[:k])}
				for _, a := range strings.Split(l.rest[k+1:e], ",") {
					if strings.TrimSpace(a) != "" {
						d.args = append(d.args, specSort(strings.TrimSpace(a)))
					}
				}
				d.ret = specSort(strings.TrimSpace(l.rest[e+1:]))
				d.name = "lg!" + d.name
				sf.logics[strings.TrimPrefix(d.name, "lg!")] = d
				funs[d.name] = d
			case "axiom", "lemma":
				k := strings.Index(l.rest, ":")
				sf.axioms = append(sf.axioms, &Axiom{name: l.rest[:k], src: l.rest[k+1:], ast: parseExpr(l.rest[k+1:]), pkg: pkg, local: l.kw == "lemma"})
			case "using":
				cur.using = append(cur.using, strings.Fields(l.rest)...)
			case "func", "iface":
				cur = &Contract{pkgPath: pkg, props: props, file: path, line: l.n, verifyHere: true, iface: l.kw == "iface"}
				curInv = nil
				r := l.rest
				if strings.HasPrefix(r, "(") {
					e := strings.Index(r, ")")
					cur.recv = strings.TrimLeft(r[1:e], "*")
					r = strings.TrimSpace(r[e+1:])
				}
				cur.name = r
				if cur.iface {
					cur.trusted = true
				}
				sf.contracts = append(sf.contracts, cur)
			case "typeinv":
				k := strings.Index(l.rest, "(")
				e := strings.Index(l.rest, ")")
				body := strings.TrimSpace(l.rest[e+1:])
				ti := &typeInv{pkgPath: pkg, typ: strings.TrimSpace(l.rest[:k]), v: l.rest[k+1 : e], body: parseExpr(strings.TrimPrefix(body, "=")), src: body[1:], props: props, skip: map[string]bool{}}
				sf.typeinvs = append(sf.typeinvs, ti)
				curInv = ti
				cur = nil
			case "skip":
				for _, f := range strings.Fields(l.rest) {
					curInv.skip[f] = true
				}
			case "requires":
				cur.requires = append(cur.requires, clause(fmt.Sprintf("r%d", len(cur.requires)+1)))
			case "ensures":
				cur.ensures = append(cur.ensures, clause(fmt.Sprintf("e%d", len(cur.ensures)+1)))
			case "invariant":
				cur.invariants = append(cur.invariants, clause(fmt.Sprintf("i%d", len(cur.invariants)+1)))
			case "modifies":
				if l.rest == "all" {
					cur.modAll = true
				} else {
					for _, m := range splitTop(l.rest) {
						if strings.HasSuffix(m, ".*") {
							m = "allfields(" + strings.TrimSuffix(m, ".*") + ")"
						}
						cur.modifies = append(cur.modifies, Clause{src: m, ast: parseExpr(m)})
					}
				}
			case "trusted":
				cur.trusted = true
				cur.verifyHere = false
			case "always":
				cur.always = strings.TrimSpace(l.rest)
			case "names":
				cur.names = strings.TrimSpace(l.rest)
			case "inline":
				cur.inline = true
			case "noverify":
				cur.verifyHere = false
			case "nopanic":
				if l.rest == "off" {
					cur.nopanic = true
				}
			case "tracing":
				cur.tracing = true
			case "checked":
				cur.checked = true
			case "maypanic":
				cur.mayPanic = true
			case "background":
				cur.background = true
			case "defines":
				cur.defines = append(cur.defines, clause(fmt.Sprintf("d%d", len(cur.defines)+1)))
			case "panicensures":
				cur.panicens = append(cur.panicens, clause(fmt.Sprintf("p%d", len(cur.panicens)+1)))
			case "runresult":
				cur.runResult = true
			case "nilrecv":
				cur.nilRecv = true
			case "invpost":
				cur.usePost = true
				cur.postAbs = strings.TrimSpace(l.rest) == "abs"
			case "nounroll":
				cur.noUnroll = true
			}
			return nil
		}()
		if err != nil {
			return nil, err
		}
	}
	return sf, nil
}
func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	return append(out, strings.TrimSpace(s[st:]))
}
func isLabel(s string) bool {
	if s == "" || strings.HasPrefix(s, "forall") || strings.HasPrefix(s, "exists") {
		return false
	}
	for _, c := range s {
		if !(c == '_' || c == '-' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			return false
		}
	}
	return true
}
func specSort(t string) string {
	switch t {
	case "int", "byte", "rune":
		return "Int"
	case "bool":
		return "Bool"
	case "string":
		return "Str"
	case "float64", "real":
		return "Real"
	case "tval":
		return "TVal"
	case "any":
		return "Iface"
	case "ints":
		return "(Array Int Int)"
	case "strs":
		return "(Array Int Str)"
	}
	return t
}
func specType(sort string) types.Type {
	switch sort {
	case "Int":
		return types.Typ[types.Int]
	case "Bool":
		return types.Typ[types.Bool]
	case "Str":
		return types.Typ[types.String]
	case "Real":
		return types.Typ[types.Float64]
	case "Iface":
		return types.NewInterfaceType(nil, nil)
	}
	return nil
}

// methods of interfaces declared (purem NAME results) to be functions of the
// receiver's dynamic value and the arguments
var pureMeth = map[string][]string{}

// ---- evaluation ----
type tval struct {
	t   *Term
	typ types.Type
	val Val
	st  *State // heap in which references of this value live (nil: current)
	fn  *ssa.Function
	rcv *tval
	pkg string
}
type evalCtx struct {
	x      *Exec
	cur    *State
	old    *State
	pre    *State // loop entry
	env    map[string]tval
	res    []Val
	resT   []types.Type
	pkg    *ssa.Package
	locals func(name string, st *State) (tval, bool)
	iter   *Iter // map iteration of the loop an invariant is about
	noTrig bool
	depth  int
}

func (c *evalCtx) with(name string, v tval) *evalCtx {
	n := *c
	n.env = map[string]tval{}
	for k, w := range c.env {
		n.env[k] = w
	}
	n.env[name] = v
	return &n
}

type specErr struct{ msg string }

func specPanic(f string, a ...any) { panic(specErr{fmt.Sprintf(f, a...)}) }

func (x *Exec) evalBool(cl Clause, c *evalCtx) *Term {
	v := x.eval(cl.ast, c)
	if v.t == nil || v.t.sort != "Bool" {
		specPanic("clause %q is not boolean", cl.src)
	}
	return v.t
}
func (x *Exec) evalDef(cl Clause, d *Node, c *evalCtx) *tval {
	v := x.eval(d, c)
	if v.t == nil {
		if v.val.Fn != nil {
			return nil
		}
		return nil
	}
	return &v
}

func mentions(n *Node, pred func(string) bool) bool {
	if n == nil {
		return false
	}
	if n.op == "id" && pred(n.name) {
		return true
	}
	for _, a := range n.args {
		if mentions(a, pred) {
			return true
		}
	}
	for _, v := range n.vars {
		if mentions(v.lo, pred) || mentions(v.hi, pred) || mentions(v.in, pred) {
			return true
		}
	}
	return false
}

// definesResult: clause "result == E" (or resultI == E) with E free of results
func (cl Clause) definesResult(i, n int) *Node {
	a := cl.ast
	if a.op != "bin" || a.name != "==" || a.args[0].op != "id" {
		return nil
	}
	nm := a.args[0].name
	if !(n == 1 && nm == "result" || nm == fmt.Sprintf("result%d", i)) {
		return nil
	}
	if mentions(a.args[1], func(s string) bool { return strings.HasPrefix(s, "result") }) {
		return nil
	}
	return a.args[1]
}

func (c *evalCtx) stateOf(v tval) *State {
	if v.st != nil {
		return v.st
	}
	return c.cur
}

var tInt, tBool, tStr = types.Typ[types.Int], types.Typ[types.Bool], types.Typ[types.String]

func (x *Exec) eval(n *Node, c *evalCtx) tval {
	switch n.op {
	case "int":
		return tval{t: Int(n.n), typ: types.Typ[types.UntypedInt]}
	case "str":
		return tval{t: StrLit(n.name), typ: tStr}
	case "bool":
		return tval{t: Bool(n.name == "true"), typ: tBool}
	case "id":
		return x.evalID(n, c)
	case "let":
		v := x.eval(n.args[0], c)
		return x.eval(n.args[1], c.with(n.name, v))
	case "if":
		cd := x.eval(n.args[0], c).t
		a, b := x.eval(n.args[1], c), x.eval(n.args[2], c)
		x.match(&a, &b)
		r := a
		r.t = Ite(cd, a.t, b.t)
		r.val = Val{}
		if isNilT(a) {
			r.typ = b.typ
		}
		return r
	case "un":
		v := x.eval(n.args[0], c)
		switch n.name {
		case "!":
			return tval{t: Not(v.t), typ: tBool}
		case "-":
			return tval{t: Sub(Zero, v.t), typ: v.typ}
		case "*":
			pt, ok := under(v.typ).(*types.Pointer)
			if !ok {
				specPanic("deref of %s", v.typ)
			}
			st := c.stateOf(v).clone()
			r := x.specLoad(st, x.ptrOf(v.toVal(), pt.Elem()))
			return tval{t: r.T, val: r, typ: pt.Elem(), st: v.st}
		}
	case "bin":
		return x.evalBin(n, c)
	case ".":
		return x.evalDot(n, c)
	case "[]":
		v := x.eval(n.args[0], c)
		i := x.eval(n.args[1], c)
		return x.index(v, i, c)
	case "[:]":
		v := x.eval(n.args[0], c)
		lo, hi := Zero, (*Term)(nil)
		if n.args[1] != nil {
			lo = x.eval(n.args[1], c).t
		}
		if n.args[2] != nil {
			hi = x.eval(n.args[2], c).t
		}
		if v.t.sort == "Str" {
			if hi == nil {
				hi = SLen(v.t)
			}
			return tval{t: Substr(v.t, lo, hi), typ: v.typ}
		}
		if hi == nil {
			hi = SlLen(v.t)
		}
		return tval{t: MkSlice(SlRef(v.t), Add(SlOff(v.t), lo), Sub(hi, lo), Sub(SlCap(v.t), lo)), typ: v.typ, st: v.st}
	case "forall", "exists":
		return x.evalQuant(n, c)
	case "call":
		return x.evalCall(n, c)
	}
	specPanic("cannot evaluate %s", n.op)
	return tval{}
}

func isNilT(v tval) bool {
	b, ok := v.typ.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}
func (v tval) toVal() Val {
	if v.val.T != nil || v.val.P != nil || v.val.Fn != nil {
		return v.val
	}
	return V(v.t)
}

func (x *Exec) specLoad(st *State, p *Ptr) Val {
	x.ghost++
	defer func() { x.ghost-- }()
	return x.load(st, p, 0)
}

// match coerces nil and untyped literals to the other side's sort
func (x *Exec) match(a, b *tval) {
	fix := func(p, q *tval) {
		if isNilT(*p) && q.typ != nil && !isNilT(*q) {
			p.t = zeroOf(q.typ)
			p.typ = q.typ
			p.val = Val{}
		}
		if p.t != nil && q.t != nil && p.t.sort == "Int" && q.t.sort == "Real" {
			p.t = toReal(p.t)
		}
		if p.t != nil && q.t != nil && p.t.sort != q.t.sort && q.t.sort == "Iface" {
			p.t = x.mkIface(V(p.t), p.typ)
			p.typ = q.typ
		}
		if p.t != nil && q.t != nil && p.t.sort != q.t.sort && q.t.sort == "TVal" {
			p.t = App("tv!"+p.t.sort, "TVal", p.t)
		}
	}
	fix(a, b)
	fix(b, a)
	for _, v := range []*tval{a, b} {
		if v.t == nil && (v.val.P != nil || v.val.Fn != nil) {
			v.t = x.term(v.val, v.typ)
		}
	}
}

func (x *Exec) evalBin(n *Node, c *evalCtx) tval {
	switch n.name {
	case "&&", "&&chain":
		a := x.eval(n.args[0], c).t
		if a == False {
			return tval{t: False, typ: tBool}
		}
		return tval{t: And(a, x.eval(n.args[1], c).t), typ: tBool}
	case "||":
		a := x.eval(n.args[0], c).t
		if a == True {
			return tval{t: True, typ: tBool}
		}
		return tval{t: Or(a, x.eval(n.args[1], c).t), typ: tBool}
	case "==>":
		a := x.eval(n.args[0], c).t
		if a == False {
			return tval{t: True, typ: tBool}
		}
		return tval{t: Implies(a, x.eval(n.args[1], c).t), typ: tBool}
	case "<==>":
		return tval{t: Eq(x.eval(n.args[0], c).t, x.eval(n.args[1], c).t), typ: tBool}
	}
	a, b := x.eval(n.args[0], c), x.eval(n.args[1], c)
	switch n.name {
	case "==", "!=":
		var e *Term
		if isNilT(a) || isNilT(b) {
			v := a
			if isNilT(a) {
				v = b
			}
			if v.t == nil && (v.val.Fn != nil || v.val.P != nil) {
				e = False
			} else {
				switch v.t.sort {
				case "Slice":
					e = Eq(SlRef(v.t), Zero)
				case "Iface":
					e = Eq(Get(v.t, 0), Zero)
				default:
					e = Eq(v.t, Zero)
				}
			}
		} else {
			x.match(&a, &b)
			if strings.HasPrefix(a.t.sort, "(Array Int") && a.typ != nil {
				e = x.equal(c.cur, V(a.t), V(b.t), a.typ, b.typ)
			} else {
				if a.t.sort != b.t.sort {
					specPanic("comparing %s with %s", a.t.sort, b.t.sort)
				}
				e = Eq(a.t, b.t)
			}
		}
		if n.name == "!=" {
			e = Not(e)
		}
		return tval{t: e, typ: tBool}
	}
	x.match(&a, &b)
	typ := a.typ
	if bt, ok := a.typ.(*types.Basic); ok && bt.Kind() == types.UntypedInt {
		typ = b.typ
	}
	var t *Term
	switch n.name {
	case "<":
		if a.t.sort == "Str" {
			return tval{t: App("strLess", "Bool", a.t, b.t), typ: tBool}
		}
		return tval{t: Lt(a.t, b.t), typ: tBool}
	case "<=":
		return tval{t: Le(a.t, b.t), typ: tBool}
	case ">":
		return tval{t: Lt(b.t, a.t), typ: tBool}
	case ">=":
		return tval{t: Le(b.t, a.t), typ: tBool}
	case "+":
		if a.t.sort == "Str" {
			t = Cat(a.t, b.t)
		} else {
			t = Add(a.t, b.t)
		}
	case "-":
		t = Sub(a.t, b.t)
	case "*":
		t = Mul(a.t, b.t)
	case "/":
		if a.t.sort == "Real" {
			t = mkTerm(Term{op: "/", args: []*Term{a.t, b.t}, sort: "Real"})
		} else {
			t = Quo(a.t, b.t)
		}
	case "%":
		t = Rem(a.t, b.t)
	default:
		specPanic("operator %s", n.name)
	}
	return tval{t: t, typ: typ}
}

func (x *Exec) evalID(n *Node, c *evalCtx) tval {
	nm := n.name
	if v, ok := c.env[nm]; ok {
		return v
	}
	if nm == "nil" {
		return tval{t: Zero, typ: types.Typ[types.UntypedNil]}
	}
	if strings.HasPrefix(nm, "result") && c.res != nil {
		i := 0
		if nm != "result" {
			k, err := strconv.Atoi(nm[6:])
			if err == nil {
				i = k
			} else {
				i = -1
			}
		}
		if i >= 0 && i < len(c.res) {
			v := tval{typ: c.resT[i], val: c.res[i]}
			if c.res[i].T != nil {
				v.t = c.res[i].T
			} else {
				v.t = x.term(c.res[i], c.resT[i])
			}
			return v
		}
	}
	if c.locals != nil {
		if v, ok := c.locals(nm, c.cur); ok {
			return v
		}
	}
	if nm == "MaxInt" {
		return tval{t: BigInt(pow2(63)), typ: tInt}
	}
	if v, ok := x.pkgMember(c.pkg, nm, c); ok {
		return v
	}
	if p, ok := x.w.imports[nm]; ok {
		return tval{pkg: p}
	}
	if _, ok := x.w.preds[nm]; ok {
		return tval{pkg: "pred:" + nm}
	}
	if x.w.logics[nm] != nil {
		return tval{pkg: "logic:" + nm}
	}
	if tn, ok := types.Universe.Lookup(nm).(*types.TypeName); ok {
		return tval{pkg: "type", typ: tn.Type()}
	}
	specPanic("unknown name %s", nm)
	return tval{}
}

func (x *Exec) pkgMember(p *ssa.Package, nm string, c *evalCtx) (tval, bool) {
	if p == nil {
		return tval{}, false
	}
	m, ok := p.Members[nm]
	if !ok {
		return tval{}, false
	}
	switch m := m.(type) {
	case *ssa.NamedConst:
		v := x.constVal(m.Value)
		return tval{t: v.T, typ: m.Type()}, true
	case *ssa.Global:
		v := x.global(c.cur, m)
		t := m.Type().(*types.Pointer).Elem()
		return tval{t: v.T, val: v, typ: t}, true
	case *ssa.Function:
		return tval{fn: m, typ: m.Signature}, true
	case *ssa.Type:
		return tval{pkg: "type", typ: m.Type()}, true
	}
	return tval{}, false
}

func (x *Exec) evalDot(n *Node, c *evalCtx) tval {
	b := x.eval(n.args[0], c)
	if b.pkg != "" && b.t == nil && b.pkg != "type" {
		p := x.w.prog.ImportedPackage(b.pkg)
		if p == nil {
			specPanic("package %s not loaded", b.pkg)
		}
		v, ok := x.pkgMember(p, n.name, c)
		if !ok {
			specPanic("%s has no member %s", b.pkg, n.name)
		}
		return v
	}
	if b.t == nil && b.val.T == nil && b.val.P == nil {
		specPanic("no value for selector .%s", n.name)
	}
	if b.typ == nil {
		specPanic("untyped value in selector .%s", n.name)
	}
	// ghost components of slices
	T := types.Unalias(b.typ)
	obj, idx, _ := types.LookupFieldOrMethod(T, true, x.lookupPkg(T, c), n.name)
	switch o := obj.(type) {
	case *types.Var:
		cur := b
		for _, i := range idx {
			cur = x.field(cur, i, c)
		}
		return cur
	case *types.Func:
		// walk embedded fields
		cur := b
		for _, i := range idx[:len(idx)-1] {
			cur = x.field(cur, i, c)
		}
		f := x.w.prog.FuncValue(o)
		if f == nil {
			f = x.w.prog.FuncValue(o.Origin())
		}
		return tval{fn: f, rcv: &cur, typ: o.Type(), pkg: o.Name()}
	}
	specPanic("%s has no field or method %s", b.typ, n.name)
	return tval{}
}
func (x *Exec) lookupPkg(t types.Type, c *evalCtx) *types.Package {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg()
	}
	if c.pkg != nil {
		return c.pkg.Pkg
	}
	return nil
}

func (x *Exec) field(b tval, i int, c *evalCtx) tval {
	if pt, ok := under(b.typ).(*types.Pointer); ok {
		p := x.ptrOf(b.toVal(), pt.Elem())
		np := *p
		np.path = append(append([]pathEl{}, p.path...), pathEl{field: i, typ: pt.Elem()})
		st := c.stateOf(b)
		r := x.specLoadIn(st, &np)
		return tval{t: r.T, val: r, typ: structOf(pt.Elem()).Field(i).Type(), st: b.st}
	}
	s := structOf(b.typ)
	t := b.t
	if t == nil {
		t = x.term(b.val, b.typ)
	}
	r := x.valOf(Get(t, i))
	return tval{t: r.T, val: r, typ: s.Field(i).Type(), st: b.st}
}
func (x *Exec) specLoadIn(st *State, p *Ptr) Val {
	x.ghost++
	defer func() { x.ghost-- }()
	return x.load(st, p, 0)
}

func (x *Exec) index(v, i tval, c *evalCtx) tval {
	switch u := under(v.typ).(type) {
	case *types.Slice:
		st := c.stateOf(v)
		h := x.heap(st, elemKey(u.Elem()), elemSort(u.Elem()))
		t := At(Select(h, SlRef(v.t)), SlOff(v.t), i.t)
		if !t.bound {
			x.wf(st, t, u.Elem(), 2)
		}
		r := x.valOf(t)
		return tval{t: r.T, val: r, typ: u.Elem(), st: v.st}
	case *types.Array:
		t := Select(v.t, i.t)
		return tval{t: t, typ: u.Elem(), st: v.st}
	case *types.Map:
		st := c.stateOf(v)
		x.match(&i, &tval{t: zeroOf(u.Key()), typ: u.Key()})
		r, _ := x.mapGet(st, u, v.t, i.t)
		return tval{t: r, typ: u.Elem(), st: v.st}
	case *types.Basic:
		t := SAt(v.t, i.t)
		if !t.bound {
			x.wf(c.cur, t, types.Typ[types.Uint8], 1)
		}
		return tval{t: t, typ: types.Typ[types.Uint8]}
	}
	specPanic("index of %s", v.typ)
	return tval{}
}

func (x *Exec) evalQuant(n *Node, c *evalCtx) tval {
	cc := c
	var vars []*Term
	var guards []*Term
	for _, q := range n.vars {
		switch {
		case q.lo != nil:
			lo, hi := x.eval(q.lo, cc).t, x.eval(q.hi, cc).t
			if isLitInt(lo) && isLitInt(hi) && hi.n.Int64()-lo.n.Int64() <= 12 && len(n.vars) == 1 {
				r := True
				if n.op == "exists" {
					r = False
				}
				for k := lo.n.Int64(); k < hi.n.Int64(); k++ {
					b := x.eval(n.args[0], cc.with(q.name, tval{t: Int(k), typ: tInt})).t
					if n.op == "forall" {
						r = And(r, b)
					} else {
						r = Or(r, b)
					}
				}
				return tval{t: r, typ: tBool}
			}
			v := Var(fmt.Sprintf("?%s_%d", q.name, c.depth), "Int")
			vars = append(vars, v)
			guards = append(guards, Le(lo, v), Lt(v, hi))
			cc = cc.with(q.name, tval{t: v, typ: tInt})
		case q.in != nil:
			m := x.eval(q.in, cc)
			mt, ok := under(m.typ).(*types.Map)
			if !ok {
				specPanic("forall in needs a map")
			}
			v := Var(fmt.Sprintf("?%s_%d", q.name, c.depth), sortOf(mt.Key()))
			vars = append(vars, v)
			d, _, _ := x.mapHeaps(cc.stateOf(m), mt)
			guards = append(guards, Ne(m.t, Zero), Select(Select(d, m.t), v))
			cc = cc.with(q.name, tval{t: v, typ: mt.Key()})
		default:
			t := x.typeByName(q.typ, c)
			srt := specSort(q.typ)
			if t != nil {
				srt = sortOf(t)
			}
			v := Var(fmt.Sprintf("?%s_%d", q.name, c.depth), srt)
			vars = append(vars, v)
			cc = cc.with(q.name, tval{t: v, typ: t})
		}
		d := *cc
		d.depth++
		cc = &d
	}
	nq := len(qvars)
	qvars = append(qvars[:nq:nq], vars...)
	defer func() { qvars = qvars[:nq] }()
	body := x.eval(n.args[0], cc).t
	if n.op == "exists" {
		return tval{t: Exists(vars, And(append(guards, body)...)), typ: tBool}
	}
	full := Implies(And(guards...), body)
	if len(n.args) > 1 {
		var pat []*Term
		for _, a := range n.args[1:] {
			pat = append(pat, x.eval(a, cc).t)
		}
		return tval{t: ForallTrig(vars, full, pat), typ: tBool}
	}
	return tval{t: Forall(vars, full, autoPats(vars, body, guards)...), typ: tBool}
}

// autoPats picks single-term triggers covering all variables
func autoPats(vars []*Term, body *Term, guards []*Term) [][]*Term {
	var cands []*Term
	seen := map[*Term]bool{}
	covers := func(t *Term) bool {
		fv := map[*Term]bool{}
		freeVars(t, fv, map[*Term]bool{})
		for _, v := range vars {
			if !fv[v] {
				return false
			}
		}
		return true
	}
	var walk func(t *Term) bool // returns true if a candidate was found inside
	walk = func(t *Term) bool {
		if !t.bound {
			return false
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == "forall" || t.op == "exists" {
			walk(t.args[0])
			return true
		}
		in := false
		for _, a := range t.args {
			if walk(a) {
				in = true
			}
		}
		if in {
			return true
		}
		if (t.op == "select" || t.op == "app") && covers(t) && patternOK(t) && !hasArith(t) {
			for _, v := range vars { // must not contain foreign bound vars
				_ = v
			}
			fv := map[*Term]bool{}
			freeVars(t, fv, map[*Term]bool{})
			if len(fv) == len(vars) {
				cands = append(cands, t)
				return true
			}
		}
		return false
	}
	walk(body)
	for _, g := range guards {
		walk(g)
	}
	if len(cands) == 0 && len(vars) > 1 {
		// multi-pattern: one candidate per variable
		var mp []*Term
		for _, v := range vars {
			c := findFor(v, body)
			if c == nil {
				for _, g := range guards {
					if c = findFor(v, g); c != nil {
						break
					}
				}
			}
			if c == nil {
				return nil
			}
			mp = append(mp, c)
		}
		return [][]*Term{mp}
	}
	var out [][]*Term
	for i, t := range cands {
		if i >= 6 {
			break
		}
		out = append(out, []*Term{t})
	}
	return out
}
func findFor(v, t *Term) *Term {
	if !t.bound {
		return nil
	}
	for _, a := range t.args {
		if r := findFor(v, a); r != nil {
			return r
		}
	}
	if (t.op == "select" || t.op == "app") && patternOK(t) && !hasArith(t) {
		fv := map[*Term]bool{}
		freeVars(t, fv, map[*Term]bool{})
		if len(fv) == 1 && fv[v] {
			return t
		}
	}
	return nil
}
func hasArith(t *Term) bool {
	if !t.bound {
		return false
	}
	switch t.op {
	case "+", "*", "-", "ite", "div", "mod", "and", "or", "not", "=", "<=":
		return true
	}
	for _, a := range t.args {
		if hasArith(a) {
			return true
		}
	}
	return false
}

func (x *Exec) typeByName(s string, c *evalCtx) types.Type {
	switch {
	case strings.HasPrefix(s, "*"):
		if t := x.typeByName(s[1:], c); t != nil {
			return types.NewPointer(t)
		}
		return nil
	case strings.HasPrefix(s, "[]"):
		if t := x.typeByName(s[2:], c); t != nil {
			return types.NewSlice(t)
		}
		return nil
	case strings.HasPrefix(s, "seq "): // a mathematical sequence of T
		if t := x.typeByName(s[4:], c); t != nil {
			return types.NewArray(t, 1<<40)
		}
		return nil
	}
	if k := strings.Index(s, "."); k >= 0 {
		p := x.w.prog.ImportedPackage(x.w.imports[s[:k]])
		if p != nil {
			if m, ok := p.Members[s[k+1:]].(*ssa.Type); ok {
				return m.Type()
			}
		}
		return nil
	}
	if o := types.Universe.Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	if c.pkg != nil {
		if m, ok := c.pkg.Members[s].(*ssa.Type); ok {
			return m.Type()
		}
	}
	return nil
}

func (x *Exec) evalCall(n *Node, c *evalCtx) tval {
	f := n.args[0]
	as := n.args[1:]
	if f.op == "id" {
		if r, ok := x.specBuiltin(f.name, as, c); ok {
			return r
		}
		if p, ok := x.w.preds[f.name]; ok {
			if _, shadow := c.env[f.name]; !shadow {
				if len(p.params) != len(as) {
					specPanic("pred %s: %d arguments, want %d", p.name, len(as), len(p.params))
				}
				nc := *c
				nc.env = map[string]tval{}
				for i, a := range as {
					nc.env[p.params[i]] = x.eval(a, c)
				}
				nc.locals = nil
				nc.res = nil
				nc.depth = c.depth + 10
				return x.eval(p.body, &nc)
			}
		}
		if d := x.w.logics[f.name]; d != nil {
			var ts []*Term
			for i, a := range as {
				v := x.eval(a, c)
				t := v.t
				if t.sort == "Int" && d.args[i] == "Real" {
					t = toReal(t)
				}
				if t.sort == "Slice" && strings.HasPrefix(d.args[i], "(Array") {
					u := under(v.typ).(*types.Slice)
					h := x.heap(c.stateOf(v), elemKey(u.Elem()), elemSort(u.Elem()))
					t = Shift(Select(h, SlRef(t)), SlOff(t))
				}
				ts = append(ts, t)
			}
			return tval{t: App(d.name, d.ret, ts...), typ: specType(d.ret)}
		}
	}
	fv := x.eval(f, c)
	if fv.pkg == "type" { // conversion
		v := x.eval(as[0], c)
		v.typ = fv.typ
		return v
	}
	var args []Val
	st := c.cur
	if fv.rcv != nil {
		st = c.stateOf(*fv.rcv)
	}
	if fv.fn == nil && fv.rcv != nil { // interface method
		sig := fv.typ.(*types.Signature)
		rt := fv.rcv
		ct := x.w.ifaceContract(typeKey(rt.typ) + "." + fv.pkg)
		if ct != nil {
			x.ghost++
			defer func() { x.ghost-- }()
			args = append(args, V(rt.t))
			for _, a := range as {
				args = append(args, x.eval(a, c).toVal())
			}
			s2 := st.clone()
			r := x.applyContract(nil, ct, args, s2, 0, nil, sig, rt.typ)
			return tval{t: r[0].T, typ: sig.Results().At(0).Type(), st: s2}
		}
		specPanic("interface method in spec")
	}
	if fv.fn == nil {
		if fv.t != nil && fv.typ != nil {
			if sig, ok := under(fv.typ).(*types.Signature); ok {
				for _, a := range as {
					v := x.eval(a, c)
					args = append(args, v.toVal())
				}
				x.ghost++
				defer func() { x.ghost-- }()
				s2 := st.clone()
				r := x.callDyn(nil, fv.t, args, s2, 0, sig, nil)
				if len(r) > 1 {
					return tval{typ: nil, val: Val{Tup: r, isTup: true}, t: r[0].T}
				}
				return tval{t: r[0].T, val: r[0], typ: sig.Results().At(0).Type(), st: s2}
			}
		}
		specPanic("call of %s", f.name)
	}
	sig := fv.fn.Signature
	if fv.rcv != nil {
		rv := *fv.rcv
		want := sig.Recv().Type()
		_, wp := want.(*types.Pointer)
		_, hp := under(rv.typ).(*types.Pointer)
		val := rv.toVal()
		if !wp && hp {
			val = x.specLoadIn(st, x.ptrOf(val, under(rv.typ).(*types.Pointer).Elem()))
		} else if wp && !hp {
			cell := &Cell{id: x.w.cellID(), name: "", typ: rv.typ}
			st = st.clone()
			st.cells[cell] = val
			val = Val{P: &Ptr{kind: pkCell, cell: cell, typ: rv.typ}}
		}
		args = append(args, val)
	}
	bnd := false
	for i, a := range as {
		v := x.eval(a, c)
		pt := sig.Params().At(min(i, sig.Params().Len()-1)).Type()
		if isNilT(v) {
			v.t = zeroOf(pt)
			v.val = V(v.t)
		}
		if v.t != nil && v.t.sort != "Iface" && sortOf(pt) == "Iface" {
			v.t = x.mkIface(V(v.t), v.typ)
			v.val = V(v.t)
		}
		if v.t != nil && v.t.bound {
			bnd = true
		}
		args = append(args, v.toVal())
	}
	_ = bnd
	x.ghost++
	defer func() { x.ghost-- }()
	s2 := st.clone()
	r := x.callFn(nil, fv.fn, nil, args, s2, 0, nil)
	if len(r) == 0 {
		specPanic("call of a function without result in spec")
	}
	res := tval{t: r[0].T, val: r[0], typ: sig.Results().At(0).Type(), st: s2}
	if len(r) > 1 {
		res.val = Val{Tup: r, isTup: true, T: r[0].T}
	}
	return res
}

func (x *Exec) specBuiltin(nm string, as []*Node, c *evalCtx) (tval, bool) {
	ev := func(i int) tval { return x.eval(as[i], c) }
	b := func(t *Term) (tval, bool) { return tval{t: t, typ: tBool}, true }
	in := func(t *Term) (tval, bool) { return tval{t: t, typ: tInt}, true }
	switch nm {
	case "old":
		n := *c
		n.cur = c.old
		return x.eval(as[0], &n), true
	case "pre":
		if c.pre == nil {
			specPanic("pre outside loop")
		}
		n := *c
		n.cur = c.pre
		return x.eval(as[0], &n), true
	case "len":
		v := ev(0)
		switch u := under(v.typ).(type) {
		case *types.Slice:
			return in(SlLen(v.t))
		case *types.Map:
			return in(x.mapLen(c.stateOf(v), u, v.t))
		case *types.Array:
			return in(Int(u.Len()))
		}
		t := SLen(v.t)
		if !t.bound {
			x.wfLen(t)
		}
		return in(t)
	case "cap":
		return in(SlCap(ev(0).t))
	case "ref":
		v := ev(0)
		if v.t.sort == "Slice" {
			return in(SlRef(v.t))
		}
		return in(v.t)
	case "off":
		return in(SlOff(ev(0).t))
	case "text": // what a *bytes.Buffer or *strings.Builder holds
		v := ev(0)
		pt, ok := under(v.typ).(*types.Pointer)
		if !ok {
			panic(unsup("text() of %s", v.typ))
		}
		r := v.t
		if r == nil {
			r = x.term(v.val, v.typ)
		}
		return tval{t: x.load(c.cur, &Ptr{kind: pkHeap, ref: r, typ: pt.Elem()}, x.curPos).T, typ: types.Typ[types.String]}, true
	case "newref": // the slice's backing array was allocated during the call, empty or not
		r := ev(0).t
		return b(And(Le(c.old.next, SlRef(r)), Lt(SlRef(r), c.cur.next)))
	case "fresh":
		v := ev(0)
		r := v.t
		if r == nil {
			r = x.term(v.val, v.typ)
		}
		if r.sort == "Slice" {
			// a nil/empty-capacity slice shares nothing
			return b(Or(And(Le(c.old.next, SlRef(r)), Lt(SlRef(r), c.cur.next)), And(Eq(SlCap(r), Zero), Eq(SlLen(r), Zero))))
		}
		return b(And(Le(c.old.next, r), Lt(r, c.cur.next)))
	case "eqseq": // same length, same elements (each side in its own state)
		a, d := ev(0), ev(1)
		return b(And(Eq(SlLen(a.t), SlLen(d.t)), x.seqEq(a, d, Zero, SlLen(a.t), Zero, c)))
	case "eqrange": // eqrange(a, i, b, j, n): a[i..i+n) == b[j..j+n)
		a, d := ev(0), ev(2)
		i, j, n := ev(1).t, ev(3).t, ev(4).t
		return b(x.seqEq(a, d, i, Add(i, n), Sub(j, i), c))
	case "abs":
		t := ev(0).t
		return in(Ite(Le(Zero, t), t, Sub(Zero, t)))
	case "min", "max":
		p, q := ev(0), ev(1)
		x.match(&p, &q)
		cnd := Le(p.t, q.t)
		if nm == "max" {
			cnd = Le(q.t, p.t)
		}
		r := p
		r.t = Ite(cnd, p.t, q.t)
		r.val = Val{}
		return r, true
	case "clamp": // clamp(x, lo, hi)
		v, lo, hi := ev(0).t, ev(1).t, ev(2).t
		return in(Ite(Lt(v, lo), lo, Ite(Lt(hi, v), hi, v)))
	case "has":
		m, k := ev(0), ev(1)
		mt, ok := under(m.typ).(*types.Map)
		if !ok {
			specPanic("has needs a map")
		}
		d, _, _ := x.mapHeaps(c.stateOf(m), mt)
		kt := k.t
		if kt.sort != sortOf(mt.Key()) {
			k2 := tval{t: zeroOf(mt.Key()), typ: mt.Key()}
			x.match(&k, &k2)
			kt = k.t
		}
		return b(And(Ne(m.t, Zero), Select(Select(d, m.t), kt)))
	case "istype": // istype(iface, Type)
		v := ev(0)
		if as[1].op == "un" { // *T
			tt := x.eval(as[1].args[0], c)
			return b(Eq(Get(v.t, 0), tagOf(types.NewPointer(tt.typ))))
		}
		t := x.eval(as[1], c)
		if t.pkg != "type" {
			specPanic("istype needs a type")
		}
		return b(Eq(Get(v.t, 0), tagOf(t.typ)))
	case "astype":
		v := ev(0)
		var tt types.Type
		if as[1].op == "un" {
			tt = types.NewPointer(x.eval(as[1].args[0], c).typ)
		} else {
			tt = x.eval(as[1], c).typ
		}
		return tval{t: Unbox(Get(v.t, 1), sortOf(tt)), typ: tt}, true
	case "im": // im(x, Method, i): result i of the pure interface method
		rs := pureMeth[as[1].name]
		k := 0
		if len(as) > 2 {
			k = int(as[2].n)
		}
		if k >= len(rs) {
			specPanic("im: %s is not declared with purem", as[1].name)
		}
		return tval{t: App(fmt.Sprintf("im!%s.%d", as[1].name, k), rs[k], ev(0).t), typ: specType(rs[k])}, true
	case "boxed": // boxed(x): x converted to an interface value
		v := ev(0)
		return tval{t: x.mkIface(v.toVal(), v.typ), typ: types.NewInterfaceType(nil, nil), st: v.st}, true
	case "nilany":
		return tval{t: nilIface(), typ: types.NewInterfaceType(nil, nil)}, true
	case "hasmeth": // hasmeth(x, "interface{...}"): the dynamic type implements it
		tg := Get(ev(0).t, 0)
		return b(And(Ne(tg, Zero), App("impl!"+as[1].name, "Bool", tg)))
	case "gridx":
		return in(Select(x.heap(c.cur, "GRP|", "(Array Int Int)"), ev(0).t))
	case "grstr":
		return tval{t: Select(x.heap(c.cur, "GRS|", "(Array Int Str)"), ev(0).t), typ: tStr}, true
	case "ite":
		return x.eval(&Node{op: "if", args: as}, c), true
	case "substr":
		return tval{t: Substr(ev(0).t, ev(1).t, ev(2).t), typ: tStr}, true
	case "gstr":
		s, i := ev(0).t, ev(1).t
		return tval{t: Substr(s, App("gpos", "Int", s, i), App("gpos", "Int", s, Add(i, One))), typ: tStr}, true
	case "iserr":
		v := ev(0)
		return b(Ne(Get(v.t, 0), Zero))
	case "atoiok": // strconv.Atoi accepts the string
		return tval{t: App("atoiOK", "Bool", ev(0).t), typ: tBool}, true
	case "atoi":
		return in(App("atoiVal", "Int", ev(0).t))
	case "itoa":
		return tval{t: Itoa(ev(0).t), typ: tStr}, true
	case "repeat":
		return tval{t: App("repeat", "Str", ev(0).t, ev(1).t), typ: tStr}, true
	case "rune": // rune i of the string
		return in(Select(App("runesOf", "(Array Int Int)", ev(0).t), ev(1).t))
	case "runeSub": // runes a..b of the string
		return tval{t: App("runeSub", "Str", ev(0).t, ev(1).t, ev(2).t), typ: tStr}, true
	case "runeStr":
		return tval{t: App("runeStr", "Str", ev(0).t), typ: tStr}, true
	case "runeAt":
		return in(App("runeAt", "Int", ev(0).t, ev(1).t))
	case "runeWidthAt":
		return in(App("runeWidthAt", "Int", ev(0).t, ev(1).t))
	case "validUTF8":
		return b(App("validUTF8", "Bool", ev(0).t))
	case "validStr":
		return tval{t: App("validStr", "Str", ev(0).t), typ: tStr}, true
	case "runeCount":
		return in(App("runeCount", "Int", ev(0).t))
	case "width":
		return in(App("swidth", "Int", ev(0).t))
	case "glen":
		return in(App("glen", "Int", ev(0).t))
	case "gpos":
		return in(App("gpos", "Int", ev(0).t, ev(1).t))
	case "lower":
		return tval{t: App("strLower", "Str", ev(0).t), typ: tStr}, true
	case "nsplit": // number of parts of strings.Split(s, sep)
		return tval{t: App("split.n", "Int", ev(0).t, ev(1).t), typ: tInt}, true
	case "splitAt": // part i of strings.Split(s, sep)
		return tval{t: Select(App("split.a", "(Array Int Str)", ev(0).t, ev(1).t), ev(2).t), typ: tStr}, true
	case "uwidth": // width as core.StringWidth (uniwidth) computes it
		return tval{t: App("uwidth", "Int", ev(0).t), typ: tInt}, true
	case "written": // the log of a writer
		return tval{t: Select(x.heap(c.cur, ioKey, "(Array Int Str)"), x.writerID(ev(0))), typ: tStr}, true
	case "ghost": // ghost("name") or ghost("name", i): ghost state
		return tval{t: Select(x.heap(c.cur, ghostKey(as[0], "Int"), intArr), x.ghostIdx(as[1:], c)), typ: types.Typ[types.Int], st: c.cur}, true
	case "ghostv": // ghostv("name", i, like): ghost state of the type of like
		like := ev(2)
		s := sortOf(like.typ)
		return tval{t: Select(x.heap(c.cur, ghostKey(as[0], s), ArrSort("Int", s)), x.ghostIdx(as[1:2], c)), typ: like.typ, st: c.cur}, true
	case "fnid": // identity of a function value
		return tval{t: x.term(ev(0).toVal(), ev(0).typ), typ: types.Typ[types.Int], st: c.cur}, true
	case "ngot": // values received so far
		return tval{t: x.heap(c.cur, gGot, "Int"), typ: types.Typ[types.Int], st: c.cur}, true
	case "gotat": // gotat(i, like): the i-th of them, of the type of like
		like := ev(1)
		return tval{t: Select(x.heap(c.cur, gotKey(like.typ), ArrSort("Int", sortOf(like.typ))), ev(0).t), typ: like.typ, st: c.cur}, true
	case "sentto", "recvd": // number of values sent to, received from a channel
		return tval{t: Select(x.heap(c.cur, map[string]string{"sentto": gSent, "recvd": gRecv}[nm], intArr), ev(0).t), typ: types.Typ[types.Int], st: c.cur}, true
	case "senttoat": // senttoat(c, i, like)
		ch, i, like := ev(0), ev(1), ev(2)
		return tval{t: Select(Select(x.heap(c.cur, sentKey(like.typ), sentSort(like.typ)), ch.t), i.t), typ: like.typ, st: c.cur}, true
	case "osenv":
		return tval{t: App("osGetenv", "Str", ev(0).t), typ: tStr}, true
	case "contains":
		return b(App("strContains", "Bool", ev(0).t, ev(1).t))
	case "hasPrefix":
		return b(App("hasPrefix", "Bool", ev(0).t, ev(1).t))
	case "hasSuffix":
		return b(App("hasSuffix", "Bool", ev(0).t, ev(1).t))
	case "trimPrefix": // as strings.TrimPrefix
		s, p := ev(0).t, ev(1).t
		return tval{t: Ite(App("hasPrefix", "Bool", s, p), Substr(s, SLen(p), SLen(s)), s), typ: tStr}, true
	case "trimSuffix": // as strings.TrimSuffix
		s, p := ev(0).t, ev(1).t
		return tval{t: Ite(App("hasSuffix", "Bool", s, p), Substr(s, Zero, Sub(SLen(s), SLen(p))), s), typ: tStr}, true
	case "band": // band(x, m): x & m for a constant mask
		m := ev(1).t
		if m.op != "int" {
			specPanic("band needs a constant mask")
		}
		return in(bitAnd(ev(0).t, m.n))
	case "join":
		v := ev(0)
		return tval{t: x.joinTerm(c.stateOf(v), v.t, ev(1).t), typ: tStr}, true
	case "fieldheap": // fieldheap(p, f): field f of every object of p's type, by reference
		v := ev(0)
		pt, ok := under(v.typ).(*types.Pointer)
		if !ok {
			specPanic("fieldheap needs a pointer")
		}
		sty := structOf(pt.Elem())
		for i := 0; i < sty.NumFields(); i++ {
			if sty.Field(i).Name() == as[1].name {
				ft := sty.Field(i).Type()
				return tval{t: x.heap(c.cur, fieldKey(pt.Elem(), i), ArrSort("Int", sortOf(ft))), typ: types.NewArray(ft, 1<<40)}, true
			}
		}
		specPanic("fieldheap: no field %s", as[1].name)
	case "unchanged": // unchanged(p): every field of *p as in old state
		v := ev(0)
		pt, ok := under(v.typ).(*types.Pointer)
		if !ok {
			specPanic("unchanged needs a pointer")
		}
		a := x.specLoadIn(c.cur, x.ptrOf(v.toVal(), pt.Elem()))
		o := x.specLoadIn(c.old, x.ptrOf(v.toVal(), pt.Elem()))
		return b(Eq(a.T, o.T))
	case "visited": // visited(k): the map iteration of this loop has been at key k
		if c.iter == nil {
			specPanic("visited outside a map range")
		}
		k := ev(0)
		kt := c.iter.mt.Key()
		v := c.cur.cells[c.iter.visCell]
		if v.T == nil {
			v = V(ConstArr(ArrSort(sortOf(kt), "Bool"), False))
		}
		return b(Select(v.T, x.term(k.toVal(), kt)))
	case "ncalls": // calls of unknown functions so far
		return tval{t: x.heap(c.cur, gCalls, "Int"), typ: types.Typ[types.Int], st: c.cur}, true
	case "spawned": // goroutines started so far
		return tval{t: x.heap(c.cur, gSpawn, "Int"), typ: types.Typ[types.Int], st: c.cur}, true
	case "lastchan", "nsent", "nrecv": // sends to and receives from the channel made last
		if nm == "lastchan" {
			return tval{t: x.heap(c.cur, gChan, "Int"), typ: types.Typ[types.Int], st: c.cur}, true
		}
		return tval{t: Select(x.heap(c.cur, map[string]string{"nsent": gSent, "nrecv": gRecv}[nm], intArr), x.heap(c.cur, gChan, "Int")), typ: types.Typ[types.Int], st: c.cur}, true
	case "sentat": // sentat(i, like): the i-th value sent to that channel, of the type of like
		i, like := ev(0), ev(1)
		return tval{t: Select(Select(x.heap(c.cur, sentKey(like.typ), sentSort(like.typ)), x.heap(c.cur, gChan, "Int")), i.t), typ: like.typ, st: c.cur}, true
	case "recvof", "recvat": // recvof(r): index of the send whose value the r-th receive yielded; recvat is its inverse
		return tval{t: App(map[string]string{"recvof": "$perm", "recvat": "$perminv"}[nm], "Int", x.heap(c.cur, gChan, "Int"), ev(0).t), typ: types.Typ[types.Int], st: c.cur}, true
	case "called": // called(i, f): the i-th of these calls was a call of f
		return b(Eq(Select(x.heap(c.cur, gCalled, intArr), ev(0).t), x.term(ev(1).toVal(), ev(1).typ)))
	case "callres": // callres(i, f): what the i-th of these calls returned (f: a function of its type)
		sig, ok := under(ev(1).typ).(*types.Signature)
		if !ok {
			specPanic("callres needs an index and a function")
		}
		rt := sig.Results().At(0).Type()
		return tval{t: Select(callRes(rt), ev(0).t), typ: rt, st: c.cur}, true
	case "apply": // apply(f, args...): value of a pure function value
		f := ev(0)
		sig, ok := under(f.typ).(*types.Signature)
		if !ok || len(as)-1 != sig.Params().Len() {
			specPanic("apply needs a function value and its arguments")
		}
		vs := []Val{V(f.t)}
		for i := 1; i < len(as); i++ {
			vs = append(vs, V(x.term(ev(i).toVal(), sig.Params().At(i-1).Type())))
		}
		rs := x.uninterp(c.cur, "fnapply!"+typeKey(sig), vs, append([]types.Type{types.Typ[types.Int]}, paramTypes(sig)...), sig)
		if len(rs) == 1 {
			return tval{t: rs[0].T, val: rs[0], typ: sig.Results().At(0).Type(), st: c.cur}, true
		}
		return tval{val: Val{isTup: true, Tup: rs}, st: c.cur}, true
	case "mapsame": // mapsame(m, n): same keys and values
		m, d := ev(0), ev(1)
		mt := under(m.typ).(*types.Map)
		d1, v1, _ := x.mapHeaps(c.stateOf(m), mt)
		d2, v2, _ := x.mapHeaps(c.stateOf(d), mt)
		k := Var(fmt.Sprintf("?mk_%d", c.depth), sortOf(mt.Key()))
		h1, h2 := Select(Select(d1, m.t), k), Select(Select(d2, d.t), k)
		if m.t == Zero {
			h1 = False
		}
		return b(Forall([]*Term{k}, And(Eq(h1, h2), Implies(h1, Eq(Select(Select(v1, m.t), k), Select(Select(v2, d.t), k)))), []*Term{h1}, []*Term{h2}))
	case "only": // field-wise equality of two structs/objects except listed fields: only(a, b, f1, f2...)
		p, q := ev(0), ev(1)
		skip := map[string]bool{}
		for _, a := range as[2:] {
			skip[a.name] = true
		}
		T := p.typ
		if pt, ok := under(T).(*types.Pointer); ok {
			T = pt.Elem()
		}
		s := structOf(T)
		r := True
		for i := 0; i < s.NumFields(); i++ {
			if skip[s.Field(i).Name()] {
				delete(skip, s.Field(i).Name())
				continue
			}
			f1, f2 := x.field(p, i, c), x.field(q, i, c)
			x.match(&f1, &f2)
			r = And(r, Eq(f1.t, f2.t))
		}
		for k := range skip {
			specPanic("only: no field %s", k)
		}
		return b(r)
	case "call1": // second result of a call
		v := ev(0)
		if v.val.isTup {
			return tval{t: v.val.Tup[1].T, val: v.val.Tup[1], typ: specType(v.val.Tup[1].T.sort), st: v.st}, true
		}
		specPanic("call1")
	}
	return tval{}, false
}

// seqEq: a[k] == b[k+d] for lo <= k < hi
func (x *Exec) seqEq(a, b tval, lo, hi, d *Term, c *evalCtx) *Term {
	ua, ub := under(a.typ).(*types.Slice), under(b.typ).(*types.Slice)
	ha := x.heap(c.stateOf(a), elemKey(ua.Elem()), elemSort(ua.Elem()))
	hb := x.heap(c.stateOf(b), elemKey(ub.Elem()), elemSort(ub.Elem()))
	ra, rb := Select(ha, SlRef(a.t)), Select(hb, SlRef(b.t))
	if ra == rb && SlOff(a.t) == Add(SlOff(b.t), d) {
		return True
	}
	k := Var(fmt.Sprintf("?k_%d", c.depth), "Int")
	ta, tb := At(ra, SlOff(a.t), k), At(rb, SlOff(b.t), Add(k, d))
	var pats [][]*Term
	if patternOK(ta) && !hasArith(ta) {
		pats = append(pats, []*Term{ta})
	}
	if patternOK(tb) && !hasArith(tb) {
		pats = append(pats, []*Term{tb})
	}
	return Forall([]*Term{k}, Implies(And(Le(lo, k), Lt(k, hi)), Eq(ta, tb)), pats...)
}

// writerID: the object identity of a writer (a pointer or an interface holding one)
func (x *Exec) writerID(v tval) *Term {
	t := v.t
	if t == nil {
		t = x.term(v.val, v.typ)
	}
	if t.sort == "Iface" {
		return Unbox(Get(t, 1), "Int")
	}
	return t
}

// ---- modifies ----

// notMod: reference r is not the one (or one of those) entry m of a modifies clause names
func notMod(r, m *Term) *Term {
	if m.op != "rowset" {
		return Ne(r, m)
	}
	i := Var("?row", "Int")
	row := At(m.args[0], m.args[1], i)
	return Forall([]*Term{i}, Implies(And(Le(Zero, i), Lt(i, m.args[2])), Ne(r, SlRef(row))), []*Term{row})
}
func (x *Exec) modRefs(ct *Contract, c *evalCtx) map[string][]*Term {
	out := map[string][]*Term{}
	for _, m := range ct.modifies {
		x.modRef(m.ast, c, out)
	}
	return out
}
func (x *Exec) modRef(n *Node, c *evalCtx, out map[string][]*Term) {
	if n.op == "call" && n.args[0].op == "id" {
		switch n.args[0].name {
		case "allfields":
			v := x.eval(n.args[1], c)
			pt := under(v.typ).(*types.Pointer)
			if !isStructObj(pt.Elem()) {
				x.w.keySort[cellKey(pt.Elem())] = ArrSort("Int", sortOf(pt.Elem()))
				out[cellKey(pt.Elem())] = append(out[cellKey(pt.Elem())], v.t)
				return
			}
			s := structOf(pt.Elem())
			for i := 0; i < s.NumFields(); i++ {
				k := fieldKey(pt.Elem(), i)
				x.w.keySort[k] = ArrSort("Int", sortOf(s.Field(i).Type()))
				out[k] = append(out[k], v.t)
			}
			return
		case "ghost", "ghostv":
			k, s := ghostKey(n.args[1], "Int"), "Int"
			rest := n.args[2:]
			if n.args[0].name == "ghostv" {
				s = sortOf(x.eval(n.args[len(n.args)-1], c).typ)
				k = ghostKey(n.args[1], s)
				rest = n.args[2 : len(n.args)-1]
			}
			x.w.keySort[k] = ArrSort("Int", s)
			if len(rest) == 0 {
				out[k] = append(out[k], nil)
			} else {
				out[k] = append(out[k], x.ghostIdx(rest, c))
			}
			return
		case "written":
			x.w.keySort[ioKey] = "(Array Int Str)"
			out[ioKey] = append(out[ioKey], x.writerID(x.eval(n.args[1], c)))
			return
		case "elems":
			v := x.eval(n.args[1], c)
			u := under(v.typ).(*types.Slice)
			k := elemKey(u.Elem())
			x.w.keySort[k] = elemSort(u.Elem())
			out[k] = append(out[k], SlRef(v.t))
			return
		case "rows":
			// the elements of every row of a slice of slices, as the row table stands on entry
			v := x.eval(n.args[1], c)
			u := under(v.typ).(*types.Slice)
			row := under(u.Elem()).(*types.Slice)
			k := elemKey(row.Elem())
			x.w.keySort[k] = elemSort(row.Elem())
			h := x.heap(c.cur, elemKey(u.Elem()), elemSort(u.Elem()))
			out[k] = append(out[k], mkTerm(Term{op: "rowset", args: []*Term{Select(h, SlRef(v.t)), SlOff(v.t), SlLen(v.t)}, sort: "Int"}))
			return
		case "map":
			v := x.eval(n.args[1], c)
			u := under(v.typ).(*types.Map)
			a, b, d := mapKeys(u)
			x.mapHeaps(c.cur, u)
			for _, k := range []string{a, b, d} {
				out[k] = append(out[k], v.t)
			}
			return
		case "global":
			v := n.args[1].name
			g, ok := c.pkg.Members[v].(*ssa.Global)
			if ok {
				out["G|"+g.String()] = append(out["G|"+g.String()], nil)
			}
			return
		}
	}
	if n.op == "." {
		v := x.eval(n.args[0], c)
		pt, ok := under(v.typ).(*types.Pointer)
		if ok {
			s := structOf(pt.Elem())
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == n.name {
					k := fieldKey(pt.Elem(), i)
					x.w.keySort[k] = ArrSort("Int", sortOf(s.Field(i).Type()))
					t := v.t
					if t == nil {
						t = x.term(v.val, v.typ)
					}
					out[k] = append(out[k], t)
					return
				}
			}
		}
	}
	specPanic("bad modifies clause")
}

// ---- user loop invariants ----
func collectIDs(n *Node, out map[string]string, bound map[string]bool) {
	if n == nil {
		return
	}
	switch n.op {
	case "id":
		if !bound[n.name] {
			if _, ok := out[n.name]; !ok || n.pos != "" && strings.HasPrefix(n.name, "$") {
				p := ""
				if strings.HasPrefix(n.name, "$") {
					p = n.pos
				}
				out[n.name] = p
			}
		}
		return
	case "forall", "exists":
		nb := map[string]bool{}
		for k := range bound {
			nb[k] = true
		}
		for _, v := range n.vars {
			collectIDs(v.lo, out, nb)
			collectIDs(v.hi, out, nb)
			collectIDs(v.in, out, nb)
			nb[v.name] = true
		}
		collectIDs(n.args[0], out, nb)
		return
	case "let":
		collectIDs(n.args[0], out, bound)
		nb := map[string]bool{n.name: true}
		for k := range bound {
			nb[k] = true
		}
		collectIDs(n.args[1], out, nb)
		return
	}
	for _, a := range n.args {
		collectIDs(a, out, bound)
	}
}

func (x *Exec) userCands(fr *Frame, entry, hst *State, mod map[string]leaf, loopID string, kAt func(*State) *Term) []candInst {
	var out []candInst
	if x.top == nil {
		return nil
	}
	modCells := map[*Cell]bool{}
	for _, lf := range mod {
		if lf.cell != nil {
			modCells[lf.cell] = true
		}
	}
	var iter *Iter
	for c := range modCells {
		if it := x.iters[c]; it != nil {
			iter = it
		}
	}
	var cells []*Cell
	for c := range entry.cells {
		cells = append(cells, c)
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].id > cells[j].id })
	env := x.contractEnv(x.top, x.topArgs(), x.top.fn, x.top.fn.Signature, nil)
	invs := append([]Clause{}, x.top.invariants...)
	for f := fr; f != nil; f = f.parent {
		if ct := x.w.contractFor(f.fn); ct != nil && ct != x.top {
			invs = append(invs, ct.invariants...)
		}
	}
	invs = append(invs, x.w.globalInvs...)
	if x.loopCells == nil {
		x.loopCells = map[*Cell]bool{}
	}
	for c := range modCells {
		x.loopCells[c] = true
	}
	for _, inv := range invs {
		ids := map[string]string{}
		collectIDs(inv.ast, ids, map[string]bool{})
		type choice struct {
			name string
			cs   []*Cell
		}
		var chs []choice
		ok := true
		for _, nm := range sortedKeys(ids) {
			typ := ids[nm]
			if nm == "$k" {
				continue
			}
			var cs []*Cell
			if strings.HasPrefix(nm, "$") && typ != "" {
				for _, c := range cells {
					if c.name != "" && !strings.HasPrefix(c.name, "$") && c.typ != nil && typ == "ctr" {
						// a counter of this loop or of one around it
						if x.loopCells[c] && cellTypeMatches(c.typ, "int") {
							cs = append(cs, c)
						}
						continue
					}
					if c.name == "" || strings.HasPrefix(c.name, "$") || c.typ == nil || !modCells[c] && !strings.HasPrefix(typ, "*") && !strings.HasPrefix(typ, "[]") && !strings.HasPrefix(typ, "map[") && !strings.HasPrefix(typ, "any") && typ != "slice" {
						continue
					}
					if cellTypeMatches(c.typ, typ) {
						cs = append(cs, c)
					}
				}
				if len(cs) == 0 {
					ok = false
				}
			} else {
				for _, c := range cells {
					if c.name == nm {
						cs = append(cs, c)
					}
				}
				if len(cs) == 0 {
					continue // resolved later as a parameter or package member
				}
				// inside an inlined callee a parameter of the contract function keeps its entry value
			}
			if len(cs) > 6 {
				cs = cs[:6]
			}
			chs = append(chs, choice{nm, cs})
		}
		if !ok {
			continue
		}
		combos := []map[string]*Cell{{}}
		for _, ch := range chs {
			var nc []map[string]*Cell
			for _, m := range combos {
				for _, c := range ch.cs {
					if strings.HasPrefix(ch.name, "$") {
						dup := false
						for n2, c2 := range m {
							if c2 == c && strings.HasPrefix(n2, "$") {
								dup = true
							}
						}
						if dup {
							continue
						}
					}
					n := map[string]*Cell{}
					for k, v := range m {
						n[k] = v
					}
					n[ch.name] = c
					nc = append(nc, n)
				}
			}
			combos = nc
			if len(combos) > 40 {
				combos = combos[:40]
			}
		}
		for _, m := range combos {
			m := m
			inv := inv
			at := func(s *State) (r *Term) {
				defer func() {
					if e := recover(); e != nil {
						switch e.(type) {
						case specErr, unsupErr:
							r = nil
							return
						}
						panic(e)
					}
				}()
				ec := &evalCtx{x: x, cur: s, old: x.entry, pre: entry, iter: iter, env: map[string]tval{}, pkg: x.top.pkg}
				for k, v := range env {
					ec.env[k] = v
				}
				for nm, c := range m {
					delete(ec.env, nm)
					_ = c
				}
				ec.locals = func(name string, st *State) (tval, bool) {
					if name == "$k" {
						if st == entry {
							return tval{t: Zero, typ: tInt}, true
						}
						return tval{t: kAt(st), typ: tInt}, true
					}
					c, ok := m[name]
					if !ok {
						return tval{}, false
					}
					v, ok := st.cells[c]
					if !ok || v.T == nil && v.P == nil && v.Fn == nil {
						// value of the parameter in the entry state
						if pv, ok := env[name]; ok {
							return pv, true
						}
						return tval{}, false
					}
					return tval{t: v.T, val: v, typ: c.typ}, true
				}
				x.ghost++
				defer func() { x.ghost-- }()
				t := x.eval(inv.ast, ec).t
				if t == nil || t.sort != "Bool" {
					return nil
				}
				return t
			}
			// evaluate once to see whether it applies here
			if at(hst) == nil || at(entry) == nil {
				continue
			}
			out = append(out, x.newCand("inv "+inv.label, loopID, true, at))
		}
	}
	return out
}
func (x *Exec) topArgs() []Val {
	var vs []Val
	for _, p := range x.top.params {
		vs = append(vs, V(p))
	}
	return vs
}
func cellTypeMatches(t types.Type, s string) bool {
	switch s {
	case "int", "anyint":
		_, _, ok := intKind(t)
		return ok
	case "string":
		return sortOf(t) == "Str"
	case "float64":
		return sortOf(t) == "Real"
	case "bool":
		return sortOf(t) == "Bool"
	case "slice":
		return sortOf(t) == "Slice"
	case "any":
		return true
	case "anyiface":
		return sortOf(t) == "Iface"
	}
	if strings.HasPrefix(s, "[]") {
		u, ok := under(t).(*types.Slice)
		if !ok {
			return false
		}
		return cellTypeMatches(u.Elem(), s[2:])
	}
	if strings.HasPrefix(s, "map[") {
		u, ok := under(t).(*types.Map)
		e := strings.IndexByte(s, ']')
		return ok && e > 0 && cellTypeMatches(u.Key(), s[4:e]) && cellTypeMatches(u.Elem(), s[e+1:])
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		s = strings.TrimPrefix(s, "*")
		if i := strings.LastIndexByte(s, '.'); i >= 0 {
			return n.Obj().Name() == s[i+1:] && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == s[:i]
		}
		return n.Obj().Name() == s
	}
	if p, ok := types.Unalias(t).(*types.TypeParam); ok {
		return p.Obj().Name() == s
	}
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		return strings.HasPrefix(s, "*") && cellTypeMatches(p.Elem(), s[1:])
	}
	return false
}

// ---- package initialisation of constant tables ----
func (x *Exec) evalInits(f *ssa.Function, st *State) {
	need := x.w.globalsUsed(f)
	byPkg := map[*ssa.Package][]*ssa.Global{}
	for g := range need {
		if g.Pkg == nil || !x.w.repoPkg(g.Pkg.Pkg.Path()) || x.w.globalMutable(g) {
			continue
		}
		byPkg[g.Pkg] = append(byPkg[g.Pkg], g)
	}
	var ps []*ssa.Package
	for p := range byPkg {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].Pkg.Path() < ps[j].Pkg.Path() })
	for _, p := range ps {
		gs := byPkg[p]
		sort.Slice(gs, func(i, j int) bool { return gs[i].Name() < gs[j].Name() })
		for _, g := range gs {
			x.evalInit(p.Func("init"), g, st)
		}
	}
}

func (x *Exec) evalInit(init *ssa.Function, g *ssa.Global, st *State) {
	et := g.Type().(*types.Pointer).Elem()
	if types.Identical(et, types.Universe.Lookup("error").Type()) {
		return
	}
	needed := map[ssa.Instruction]bool{}
	vals := map[ssa.Value]bool{}
	var addVal func(v ssa.Value)
	var addInstr func(i ssa.Instruction)
	addInstr = func(i ssa.Instruction) {
		if needed[i] || i.Parent() != init {
			return
		}
		needed[i] = true
		for _, o := range i.Operands(nil) {
			if *o != nil {
				addVal(*o)
			}
		}
	}
	var addRefs func(v ssa.Value)
	addRefs = func(v ssa.Value) {
		if v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v {
					addInstr(r)
				}
			case *ssa.MapUpdate:
				if r.Map == v {
					addInstr(r)
				}
			case *ssa.FieldAddr, *ssa.IndexAddr:
				rv := r.(ssa.Value)
				if !vals[rv] {
					addVal(rv)
					addRefs(rv)
				}
			}
		}
	}
	addVal = func(v ssa.Value) {
		if vals[v] {
			return
		}
		vals[v] = true
		if i, ok := v.(ssa.Instruction); ok {
			addInstr(i)
		}
		switch v.(type) {
		case *ssa.Alloc, *ssa.MakeMap:
			addRefs(v)
		}
	}
	found := false
	var direct func(v ssa.Value)
	_ = direct
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && rootGlobal(s.Addr) == g {
				addInstr(s)
				found = true
			}
		}
	}
	if !found {
		return
	}
	mark := len(x.hyps)
	saved := st.clone()
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(unsupErr); ok {
				if os.Getenv("GOVDEBUG") != "" {
					fmt.Fprintln(os.Stderr, "init of", g, u)
				}
				*st = *saved
				x.hyps = x.hyps[:mark]
				return
			}
			panic(e)
		}
	}()
	x.ghost++
	defer func() { x.ghost-- }()
	fr := x.newFrame(nil, init, nil, nil, st)
	st.heap["G|"+g.String()] = zeroOf(et)
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if needed[in] {
				x.instr(fr, in, st)
			}
		}
	}
	for c := range st.cells {
		delete(st.cells, c)
	}
	x.w.trust("package-level tables keep their initial value: " + shortName(g.String()))
}
func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch a := v.(type) {
		case *ssa.Global:
			return a
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			v = a.X
		default:
			return nil
		}
	}
}

func (w *World) globalsUsed(f *ssa.Function) map[*ssa.Global]bool {
	out := map[*ssa.Global]bool{}
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		f = w.canon(f)
		if seen[f] || f.Blocks == nil || !w.inRepo(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					switch v := (*o).(type) {
					case *ssa.Global:
						out[v] = true
					case *ssa.Function:
						if ct := w.contractFor(v); ct == nil || ct.inline {
							rec(v)
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			rec(a)
		}
	}
	rec(f)
	return out
}

// globalMutable: stored to (or into) outside package initialisation
func (w *World) globalMutable(g *ssa.Global) bool {
	if w.mutGlobals == nil {
		w.mutGlobals = map[*ssa.Global]bool{}
		for _, f := range w.allFuncs {
			if f.Name() == "init" && f.Synthetic != "" {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if r := rootGlobalDeep(s.Addr); r != nil {
							w.mutGlobals[r] = true
						}
					}
					if s, ok := in.(*ssa.MapUpdate); ok {
						if r := rootGlobalDeep(s.Map); r != nil {
							w.mutGlobals[r] = true
						}
					}
				}
			}
		}
	}
	return w.mutGlobals[g]
}
func rootGlobalDeep(v ssa.Value) *ssa.Global {
	for {
		switch a := v.(type) {
		case *ssa.Global:
			return a
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			v = a.X
		case *ssa.UnOp:
			v = a.X
		case *ssa.Slice:
			v = a.X
		default:
			return nil
		}
	}
}

func specDir() string { d, _ := filepath.Abs("contracts"); return d }

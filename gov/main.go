package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPrefix = "github.com/phoenix-tui/phoenix/"

var stderr = os.Stderr
var scratchDir string
var genMu sync.Mutex

func scratch(n string) string { return filepath.Join(scratchDir, n) }
func writeFile(p, s string) {
	os.MkdirAll(filepath.Dir(p), 0o755)
	os.WriteFile(p, []byte(s), 0o644)
}

type World struct {
	prog       *ssa.Program
	fset       *token.FileSet
	pkgs       map[string]*ssa.Package
	trivial    int
	trivialBy  map[string]int
	keySort    map[string]string
	closures   map[string]Val
	ncell      int
	cellMemo   map[*ssa.Alloc]bool
	effMemo    map[*ssa.Function]map[string]string
	preds      map[string]*Pred
	logics     map[string]*FunDecl
	imports    map[string]string
	axioms     []*Axiom
	lemmas     map[string]*Term
	axTerms    []*Term
	globalInvs []Clause
	mutGlobals map[*ssa.Global]bool
	allFuncs   []*ssa.Function
	contracts  []*Contract
	byFn       map[*ssa.Function]*Contract
	ifaces     map[string]*Contract
	oldParams  map[string][]string
	trusted    map[string]bool
	missing    []string
}

func (w *World) cellID() int { w.ncell++; return w.ncell }
// canon picks the body that is verified or inlined for a call: an instance of
// a free generic function without a contract is used as instantiated, every
// other generic is used as written, its type parameter values being opaque.
func (w *World) canon(f *ssa.Function) *ssa.Function {
	o := f.Origin()
	if o == nil {
		return f
	}
	if f.Blocks != nil && o.Signature.Recv() == nil && w.byFn[o] == nil && !hasTP(f.Signature) && !namesGeneric(o.Signature) {
		return f
	}
	return o
}

// checkInst refuses calls from instantiated code into a generic body whose
// parameters hide values of the type parameter inside slices, maps or
// pointers: the generic body keeps them in another heap.
func (w *World) checkInst(o, f *ssa.Function) {
	os, fs := o.Signature, f.Signature
	for k, ot := range []*types.Tuple{os.Params(), os.Results()} {
		ft := []*types.Tuple{fs.Params(), fs.Results()}[k]
		for i := 0; i < ot.Len() && i < ft.Len(); i++ {
			t := types.Unalias(ot.At(i).Type())
			if isTypeParam(t) || !bareTP(t) || bareTP(ft.At(i).Type()) {
				continue
			}
			if _, ok := t.(*types.Signature); ok {
				continue
			}
			panic(unsup("call of generic %s with %s for %s", fnID(o), ft.At(i).Type(), t))
		}
	}
}

// namesGeneric: the signature mentions a generic named type of the repository
func namesGeneric(sig *types.Signature) bool {
	var g func(t types.Type) bool
	g = func(t types.Type) bool {
		switch t := types.Unalias(t).(type) {
		case *types.Named:
			return t.TypeArgs().Len() > 0
		case *types.Pointer:
			return g(t.Elem())
		case *types.Slice:
			return g(t.Elem())
		case *types.Array:
			return g(t.Elem())
		case *types.Map:
			return g(t.Key()) || g(t.Elem())
		}
		return false
	}
	for _, tu := range []*types.Tuple{sig.Params(), sig.Results()} {
		for i := 0; i < tu.Len(); i++ {
			if g(tu.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

// bareTP: values of a type parameter outside a named generic type (whose
// fields are kept as opaque values everywhere)
func bareTP(t types.Type) bool {
	switch t := types.Unalias(t).(type) {
	case *types.TypeParam:
		return true
	case *types.Pointer:
		return bareTP(t.Elem())
	case *types.Slice:
		return bareTP(t.Elem())
	case *types.Array:
		return bareTP(t.Elem())
	case *types.Chan:
		return bareTP(t.Elem())
	case *types.Map:
		return bareTP(t.Key()) || bareTP(t.Elem())
	case *types.Signature:
		return hasTP(t)
	}
	return false
}

func hasTP(t types.Type) bool {
	switch t := types.Unalias(t).(type) {
	case *types.TypeParam:
		return true
	case *types.Pointer:
		return hasTP(t.Elem())
	case *types.Slice:
		return hasTP(t.Elem())
	case *types.Array:
		return hasTP(t.Elem())
	case *types.Chan:
		return hasTP(t.Elem())
	case *types.Map:
		return hasTP(t.Key()) || hasTP(t.Elem())
	case *types.Signature:
		for _, tu := range []*types.Tuple{t.Params(), t.Results()} {
			for i := 0; i < tu.Len(); i++ {
				if hasTP(tu.At(i).Type()) {
					return true
				}
			}
		}
	case *types.Named:
		for i := 0; i < t.TypeArgs().Len(); i++ {
			if hasTP(t.TypeArgs().At(i)) {
				return true
			}
		}
		return t.TypeParams().Len() > 0 && t.TypeArgs().Len() == 0
	}
	return false
}

func (w *World) contractFor(f *ssa.Function) *Contract {
	if f.Origin() != nil {
		f = f.Origin()
	}
	return w.byFn[f]
}
func (w *World) ifaceContract(n string) *Contract { return w.ifaces[n] }
func (w *World) repoPkg(p string) bool            { return strings.HasPrefix(p, modPrefix) }
func (w *World) inRepo(f *ssa.Function) bool {
	if f.Origin() != nil {
		f = f.Origin()
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return w.repoPkg(f.Pkg.Pkg.Path())
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return w.repoPkg(f.Object().Pkg().Path())
	}
	// wrappers and bound methods of repository types
	return f.Blocks != nil && strings.Contains(f.String(), modPrefix)
}
func (w *World) inlineOK(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg == nil && f.Blocks != nil && f.Synthetic != ""
}
func (w *World) trust(m string) { w.trusted[m] = true }
func (w *World) lookupMethod(T types.Type, n string) *ssa.Function {
	ms := w.prog.MethodSets.MethodSet(T)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == n {
			return w.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func loadWorld(repo, dir string, pats []string) (*World, error) {
	for i, p := range pats {
		if !strings.HasPrefix(p, ".") && !strings.Contains(p, "github.com/") {
			pats[i] = modPrefix + p
		}
	}
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: filepath.Join(repo, dir), Fset: token.NewFileSet(), Env: append(os.Environ(), "GOFLAGS=", "GOWORK=off")}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, sp := ssautil.Packages(ps, ssa.NaiveForm|ssa.InstantiateGenerics)
	prog.Build()
	w := &World{prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, trivialBy: map[string]int{}, keySort: map[string]string{}, closures: map[string]Val{}, cellMemo: map[*ssa.Alloc]bool{}, effMemo: map[*ssa.Function]map[string]string{}, preds: map[string]*Pred{}, logics: map[string]*FunDecl{}, imports: map[string]string{}, byFn: map[*ssa.Function]*Contract{}, ifaces: map[string]*Contract{}, trusted: map[string]bool{}}
	for _, p := range sp {
		if p != nil {
			w.pkgs[p.Pkg.Path()] = p
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if w.inRepo(f) {
			w.allFuncs = append(w.allFuncs, f)
		}
	}
	sort.Slice(w.allFuncs, func(i, j int) bool { return w.allFuncs[i].String() < w.allFuncs[j].String() })
	return w, nil
}

func readSpecs(path string, seen map[string]bool, top bool) ([]*specFile, error) {
	if seen[path] {
		return nil, nil
	}
	seen[path] = true
	sf, err := parseSpec(path)
	if err != nil {
		return nil, err
	}
	var out []*specFile
	for _, u := range sf.uses {
		o, err := readSpecs(filepath.Join(filepath.Dir(path), u+".gov"), seen, false)
		if err != nil {
			return nil, err
		}
		out = append(out, o...)
	}
	if !top {
		for _, c := range sf.contracts {
			if c.verifyHere {
				c.auto = true // verified when used
			}
		}
	}
	return append(out, sf), nil
}

func (w *World) findFunc(c *Contract) *ssa.Function {
	p := w.pkgs[c.pkgPath]
	if p == nil {
		return nil
	}
	if c.recv == "" {
		if i := strings.Index(c.name, "$"); i > 0 {
			f := p.Func(c.name[:i])
			if f == nil {
				return nil
			}
			for _, a := range f.AnonFuncs {
				if a.Name() == c.name {
					return a
				}
			}
			return nil
		}
		return p.Func(c.name)
	}
	o := p.Pkg.Scope().Lookup(c.recv)
	if o == nil {
		return nil
	}
	n, ok := o.Type().(*types.Named)
	if !ok {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == c.name {
			return w.prog.FuncValue(n.Method(i))
		}
	}
	return nil
}

func (w *World) resolve(sfs []*specFile) error {
	have := map[string]*Contract{}
	for _, sf := range sfs {
		for k, v := range sf.imports {
			w.imports[k] = v
		}
		for k, v := range sf.preds {
			w.preds[k] = v
		}
		for k, v := range sf.logics {
			w.logics[k] = v
			for i, a := range v.args {
				if !strings.HasPrefix(a, "seq ") {
					continue
				}
				n := a[4:]
				if o, ok := types.Universe.Lookup(n).(*types.TypeName); ok {
					v.args[i] = ArrSort("Int", sortOf(o.Type()))
					continue
				}
				if strings.HasPrefix(n, "*") {
					v.args[i] = ArrSort("Int", "Int")
					continue
				}
				j := strings.Index(n, ".")
				if j < 0 || w.imports[n[:j]] == "" || w.pkgs[w.imports[n[:j]]] == nil {
					return fmt.Errorf("%s: logic %s: unknown type %s", sf.path, k, n)
				}
				m, ok := w.pkgs[w.imports[n[:j]]].Members[n[j+1:]].(*ssa.Type)
				if !ok {
					return fmt.Errorf("%s: logic %s: unknown type %s", sf.path, k, n)
				}
				v.args[i] = ArrSort("Int", sortOf(m.Type()))
			}
		}
		w.axioms = append(w.axioms, sf.axioms...)
		for _, c := range sf.contracts {
			c.pkg = w.pkgs[c.pkgPath]
			if c.iface {
				w.ifaces[c.pkgPath+"."+c.recv+"."+c.name] = c
				if strings.HasSuffix(c.pkgPath, "phoenix/std") {
					w.ifaces[c.recv+"."+c.name] = c
				}
				continue
			}
			if c.pkg == nil {
				if !c.auto {
					return fmt.Errorf("%s:%d: package %s not loaded", c.file, c.line, c.pkgPath)
				}
				continue
			}
			f := w.findFunc(c)
			if f == nil {
				w.missing = append(w.missing, c.id())
				continue
			}
			c.fn = f
			if w.byFn[f] != nil {
				return fmt.Errorf("%s:%d: duplicate contract for %s", c.file, c.line, c.id())
			}
			w.byFn[f] = c
			have[c.id()] = c
			w.contracts = append(w.contracts, c)
		}
	}
	for _, sf := range sfs {
		for _, ti := range sf.typeinvs {
			if err := w.addTypeInv(ti); err != nil {
				return err
			}
		}
	}
	return nil
}

// addTypeInv turns a type invariant into requires/ensures on every exported function of the package
func (w *World) addTypeInv(ti *typeInv) error {
	p := w.pkgs[ti.pkgPath]
	if p == nil {
		return fmt.Errorf("typeinv %s: package %s not loaded", ti.typ, ti.pkgPath)
	}
	o := p.Pkg.Scope().Lookup(ti.typ)
	if o == nil {
		w.missing = append(w.missing, ti.pkgPath+"."+ti.typ)
		return nil
	}
	named := o.Type().(*types.Named)
	pn := "inv_" + ti.pkgPath[strings.LastIndex(ti.pkgPath, "/")+1:] + "_" + ti.typ
	w.preds[pn] = &Pred{name: pn, params: []string{ti.v}, body: ti.body}
	is := func(t types.Type) (bool, bool) {
		t = types.Unalias(t)
		ptr := false
		if q, ok := t.(*types.Pointer); ok {
			ptr = true
			t = types.Unalias(q.Elem())
		}
		n, ok := t.(*types.Named)
		return ok && n.Origin() == named, ptr
	}
	var fs []*ssa.Function
	scope := p.Pkg.Scope()
	for _, n := range scope.Names() {
		if !ast.IsExported(n) {
			continue
		}
		switch o := scope.Lookup(n).(type) {
		case *types.Func:
			if f := p.Func(n); f != nil {
				fs = append(fs, f)
			}
		case *types.TypeName:
			nt, ok := o.Type().(*types.Named)
			if !ok || o.IsAlias() {
				continue
			}
			for i := 0; i < nt.NumMethods(); i++ {
				if nt.Method(i).Exported() {
					if f := w.prog.FuncValue(nt.Method(i)); f != nil {
						fs = append(fs, f)
					}
				}
			}
		}
	}
	// contracted exported functions of other packages that take or give the type
	for _, c := range w.contracts {
		if c.fn != nil && !c.iface && !c.trusted && c.pkgPath != ti.pkgPath && ast.IsExported(c.name) && (c.recv == "" || ast.IsExported(c.recv)) {
			fs = append(fs, c.fn)
		}
	}
	cl := func(label, src string) Clause { return Clause{label: label, src: src, ast: parseExpr(src)} }
	for _, f := range fs {
		recv := ""
		name := f.Name()
		if r := f.Signature.Recv(); r != nil {
			recv = recvName(r.Type())
			name = recv + "." + name
		}
		if ti.skip[name] || ti.skip[f.Name()] || f.Blocks == nil {
			continue
		}
		ct := w.byFn[f]
		if _, known := w.oldParams[fnID(f)]; ct == nil && !known && w.oldParams != nil && os.Getenv("GOVPARAMS") == "" {
			continue // a function added since the contracts were written: seen through (inlined) at its callers
		}
		var req, ens []Clause
		for i, pr := range f.Params {
			if ok, ptr := is(pr.Type()); ok {
				a := fmt.Sprintf("arg%d", i)
				if ptr {
					if i == 0 && f.Signature.Recv() != nil {
						req = append(req, cl("inv", pn+"("+a+")"))
						if ct != nil && (len(ct.modifies) > 0 || ct.modAll) {
							ens = append(ens, cl("inv", pn+"("+a+")"))
						}
					} else {
						req = append(req, cl("inv", a+" != nil ==> "+pn+"("+a+")"))
					}
				} else {
					req = append(req, cl("inv", pn+"("+a+")"))
				}
			}
		}
		rs := f.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if ok, ptr := is(rs.At(i).Type()); ok {
				r := "result"
				if rs.Len() > 1 {
					r = fmt.Sprintf("result%d", i)
				}
				s := pn + "(" + r + ")"
				if ptr {
					s = r + " != nil ==> " + s
				}
				ens = append(ens, cl("inv", s))
			}
		}
		if len(req)+len(ens) == 0 {
			continue
		}
		if ct == nil {
			ct = &Contract{pkgPath: ti.pkgPath, recv: recv, name: f.Name(), pkg: p, fn: f, inline: true, verifyHere: true, file: "typeinv " + ti.typ}
			w.byFn[f] = ct
			w.contracts = append(w.contracts, ct)
		}
		ct.requires = append(req, ct.requires...)
		ct.ensures = append(ct.ensures, ens...)
	}
	return nil
}

type funcRun struct {
	ct      *Contract
	x       *Exec
	err     error
	final   []*Oblig
	cands   []*Oblig
	res     []result
	dead    map[string]bool
	alive   map[string]bool
	vacuous bool
	dur     float64
}

type failure struct {
	fn, name, label, pos, status, goal string
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "")
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	only := flag.String("only", "", "verify only functions containing this")
	verbose := flag.Bool("v", false, "")
	dump := flag.String("dump", "", "dump scripts of failing obligations to this directory")
	noreplay := flag.Bool("noreplay", false, "")
	spec := flag.String("spec", "", "contract file (default contracts/<prop>.gov)")
	crashed := flag.String("crashed", "", "report that a run of the verifier ended without an answer")
	flag.Parse()
	t0 := time.Now()
	var err error
	scratchDir, err = os.MkdirTemp("", "gov")
	if err != nil {
		fatal(err)
	}
	stopAt = t0.Add(560 * time.Second)
	if *tier == "thorough" {
		stopAt = t0.Add(3 * time.Hour)
	}
	giveUp = func(why string) int {
		fmt.Fprintln(os.Stderr, "gov:", why)
		if *only != "" || *prop == "" {
			return 2
		}
		return noAnswer(*prop, *tier, *repo, *verif, *noreplay, why, t0)
	}
	if *crashed != "" {
		code := giveUp(*crashed)
		os.RemoveAll(scratchDir)
		os.Exit(code)
	}
	code := func() (code int) {
		defer func() {
			if e := recover(); e != nil {
				if os.Getenv("GOVDEBUG") != "" {
					panic(e)
				}
				code = giveUp(fmt.Sprintf("internal error: %v", e))
			}
		}()
		return run(*prop, *tier, *repo, *verif, *spec, *only, *dump, *verbose, *noreplay, t0)
	}()
	os.RemoveAll(scratchDir)
	os.Exit(code)
}
func fatal(err error) {
	code := 2
	if giveUp != nil {
		code = giveUp(err.Error())
	} else {
		fmt.Fprintln(os.Stderr, "gov:", err)
	}
	if scratchDir != "" {
		os.RemoveAll(scratchDir)
	}
	os.Exit(code)
}

// stopAt: no prover runs beyond this point; what is open then stays undischarged
var stopAt time.Time
var giveUp func(why string) int
var theRun *replayResult

// noAnswer: the obligations could not be generated from the current source
func noAnswer(prop, tier, repo, verif string, noreplay bool, why string, t0 time.Time) int {
	rep := theRun
	if rep == nil && !noreplay {
		rep = runReplay(prop, tier, repo, verif, true)
	}
	rp := filepath.Join(verif, "evidence", "replay-"+prop+".txt")
	out, suffix, n := "", " no-failing-input-found", 1
	if rep != nil {
		out = rep.output
		fmt.Printf("bounded driver: %s\n", rep.summary())
		for i, f := range rep.fails {
			suffix = ""
			n++
			if i < 10 {
				fmt.Println("failing input:", f)
			}
		}
	}
	writeFile(rp, fmt.Sprintf("property %s\nrepository %s\nfailed obligation: the contracts do not apply to the current source\n  prover: %s\n\nreplay against the real code:\n%s", prop, repo, why, out))
	ev := map[string]any{"property": prop, "tier": tier, "seed": 1, "level": "proof", "wall_s": time.Since(t0).Seconds(), "violations": n,
		"coverage": map[string]any{"obligations": 1, "discharged": 0, "checker_cmd": "gov", "trusted_base": []string{}}, "assumptions": []string{}}
	js, _ := json.MarshalIndent(ev, "", " ")
	writeFile(filepath.Join(verif, "evidence", prop+".json"), string(js)+"\n")
	fmt.Printf("undischarged: the contracts do not apply to the current source: %s\n", why)
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, rp, suffix)
	return 1
}

func run(prop, tier, repo, verif, spec, only, dump string, verbose, noreplay bool, t0 time.Time) int {
	if spec == "" {
		spec = filepath.Join(verif, "contracts", prop+".gov")
	}
	sfs, err := readSpecs(spec, map[string]bool{}, true)
	if err != nil {
		fatal(err)
	}
	topSF := sfs[len(sfs)-1]
	if len(topSF.loads) == 0 {
		fatal(fmt.Errorf("no load line in %s", spec))
	}
	w, err := loadWorld(repo, topSF.loads[0][0], topSF.loads[0][1:])
	if err != nil {
		fatal(err)
	}
	if b, err := os.ReadFile(filepath.Join(verif, "contracts", "params.json")); err == nil {
		json.Unmarshal(b, &w.oldParams)
	}
	if err := w.resolve(sfs); err != nil {
		fatal(err)
	}
	if os.Getenv("GOVPARAMS") != "" { // record the parameter names the contracts are written against
		if w.oldParams == nil {
			w.oldParams = map[string][]string{}
		}
		for _, c := range w.contracts {
			if c.fn != nil {
				var ns []string
				for _, p := range c.fn.Params {
					ns = append(ns, p.Name())
				}
				w.oldParams[fnID(c.fn)] = ns
			}
		}
		var b strings.Builder
		b.WriteString("{")
		var ks []string
		for k := range w.oldParams {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for i, k := range ks {
			js, _ := json.Marshal(w.oldParams[k])
			kj, _ := json.Marshal(k)
			if i > 0 {
				b.WriteString(",")
			}
			fmt.Fprintf(&b, "\n%s: %s", kj, js)
		}
		b.WriteString("\n}\n")
		writeFile(filepath.Join(verif, "contracts", "params.json"), b.String())
		return 0
	}
	tLoad := time.Since(t0).Seconds()
	if !noreplay {
		theRun = runReplay(prop, tier, repo, verif, false)
	}
	tReplay := time.Since(t0).Seconds() - tLoad
	// user axioms
	w.lemmas = map[string]*Term{}
	for _, a := range w.axioms {
		x := w.newExec(&Contract{name: "axiom"})
		st := &State{pc: True, cells: map[*Cell]Val{}, heap: map[string]*Term{}, next: newFrontier()}
		x.entry = st
		x.ghost++
		var p *ssa.Package
		for _, q := range w.pkgs {
			if a.pkg == q.Pkg.Path() {
				p = q
			}
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if se, ok := e.(specErr); ok {
						fatal(fmt.Errorf("axiom %s: %s", a.name, se.msg))
					}
					panic(e)
				}
			}()
			t := x.evalBool(Clause{label: a.name, src: a.src, ast: a.ast}, &evalCtx{x: x, cur: st, old: st, env: map[string]tval{}, pkg: p})
			if a.local {
				w.lemmas[a.name] = t
			} else {
				w.axTerms = append(w.axTerms, t)
			}
		}()
		w.trust("axiom " + a.name + ": " + strings.TrimSpace(a.src))
	}
	var runs []*funcRun
	doneC := map[*Contract]bool{}
	byID := map[string]*Contract{}
	for _, c := range w.contracts {
		byID[c.id()] = c
	}
	var queue []*Contract
	for _, c := range w.contracts {
		if c.verifyHere && !c.auto {
			queue = append(queue, c)
		} else if c.trusted {
			w.trust("contract of " + c.id() + " is assumed (trusted)")
		}
	}
	for len(queue) > 0 {
		c := queue[0]
		queue = queue[1:]
		if doneC[c] || only != "" && !strings.Contains(c.id(), only) {
			continue
		}
		doneC[c] = true
		ts := time.Now()
		x, err := w.safeVerify(c)
		r := &funcRun{ct: c, x: x, err: err, dead: map[string]bool{}, alive: map[string]bool{}, dur: time.Since(ts).Seconds()}
		if verbose {
			fmt.Fprintf(stderr, "exec %-60s %.2fs obs=%d hyps=%d %v\n", c.id(), r.dur, len(x.obs), len(x.hyps), err)
		}
		for _, o := range x.obs {
			if o.cand != nil {
				r.cands = append(r.cands, o)
			} else {
				r.final = append(r.final, o)
			}
		}
		runs = append(runs, r)
		for _, u := range sortedBoolKeys(x.usedC) {
			if uc := byID[u]; uc != nil && uc.auto && !uc.trusted && !doneC[uc] {
				queue = append(queue, uc)
			}
		}
	}
	tExec := time.Since(t0).Seconds() - tLoad - tReplay
	ms := 3000
	pto := 12 * time.Second
	if tier == "thorough" {
		ms = 10000
		pto = 60 * time.Second
	}
	var wg sync.WaitGroup
	for _, r := range runs {
		wg.Add(1)
		go func(r *funcRun) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					r.err = fmt.Errorf("internal: %v", e)
				}
			}()
			w.solve(r, ms, pto, verbose)
		}(r)
	}
	wg.Wait()
	// collect
	var fails []failure
	disch, total := w.trivial, w.trivial
	by := map[string]int{"simplifier": w.trivial}
	var fnRows []map[string]any
	for _, r := range runs {
		for len(r.res) < len(r.final) {
			r.res = append(r.res, result{status: "not tried"})
		}
		ok := 0
		nTriv := w.trivialBy[r.ct.id()]
		if r.err != nil {
			total++
			fails = append(fails, failure{r.ct.id(), r.ct.id() + ":unsupported", "unsupported", w.fset.Position(r.ct.fn.Pos()).String(), r.err.Error(), ""})
		}
		for i, o := range r.final {
			total++
			if da := os.Getenv("GOVDUMPALL"); da != "" && dump != "" && strings.HasSuffix(o.label, da) {
				genMu.Lock()
				sc := z3head + singleScript(r.x, o, r.dead, r.alive, w.axTerms)
				genMu.Unlock()
				writeFile(filepath.Join(dump, sanitize(strings.ReplaceAll(o.name, "/", "_"))+fmt.Sprintf("_%d.smt2", i)), sc)
			}
			if r.res[i].ok {
				disch++
				ok++
				by[r.res[i].by]++
				continue
			}
			fails = append(fails, failure{o.fn, o.name, o.label, fmt.Sprintf("%s:%d", strings.TrimPrefix(o.pos.Filename, repo+"/"), o.pos.Line), r.res[i].status, o.goal.String()})
			if dump != "" {
				genMu.Lock()
				sc := z3head + singleScript(r.x, o, r.dead, r.alive, w.axTerms)
				genMu.Unlock()
				writeFile(filepath.Join(dump, sanitize(strings.ReplaceAll(o.name, "/", "_"))+fmt.Sprintf("_%d.smt2", i)), sc)
			}
		}
		if r.vacuous {
			total++
			fails = append(fails, failure{r.ct.id(), r.ct.id() + ":vacuous", "reachable exit", w.fset.Position(r.ct.fn.Pos()).String(), "the contract is vacuous: no execution reaches a return", ""})
		}
		nl := 0
		for range r.alive {
			nl++
		}
		fnRows = append(fnRows, map[string]any{"function": r.ct.id(), "obligations": len(r.final) + nTriv, "discharged": ok + nTriv, "loop_invariant_clauses": nl, "candidate_checks": len(r.cands)})
	}
	sort.Slice(fails, func(i, j int) bool { return fails[i].name+fails[i].pos < fails[j].name+fails[j].pos })
	fmt.Printf("property %s: %d functions under contract, %d obligations, %d discharged, %d undischarged (load %.1fs, vcgen %.1fs, total %.1fs)\n", prop, len(runs), total, disch, len(fails), tLoad, tExec, time.Since(t0).Seconds())
	for _, m := range w.missing {
		fmt.Println("note: contract target not found:", m)
	}
	if total == 0 {
		fails = append(fails, failure{"-", "no obligations", "no obligations", "", "no obligations were generated", ""})
	}
	kn := loadKnown(filepath.Join(verif, "known-findings.txt"), prop)
	var open []failure
	for _, f := range fails {
		if k := kn.match("obligation", f.name); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
			continue
		}
		open = append(open, f)
	}
	for i, f := range open {
		if i < 60 {
			fmt.Printf("undischarged: %s at %s [%s]\n    %s\n", f.name, f.pos, f.status, f.goal)
		}
	}
	// bounded stand-in / replay driver
	rep := theRun
	if rep != nil {
		for _, id := range rep.findings {
			if k := kn.match("case", id); k != "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
			} else {
				rep.fails = append(rep.fails, "case "+id)
			}
		}
		fmt.Printf("bounded driver: %s\n", rep.summary())
	}
	viol := 0
	if len(open) > 0 || rep != nil && len(rep.fails) > 0 {
		viol = len(open)
		if rep != nil {
			viol += len(rep.fails)
		}
		rp := filepath.Join(verif, "evidence", "replay-"+prop+".txt")
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\nrepository %s\n", prop, repo)
		for _, f := range open {
			fmt.Fprintf(&b, "failed obligation: %s\n  at %s\n  prover: %s\n  goal: %s\n", f.name, f.pos, f.status, f.goal)
		}
		if rep != nil {
			b.WriteString("\nreplay against the real code:\n")
			b.WriteString(rep.output)
		}
		writeFile(rp, b.String())
		suffix := ""
		if rep == nil || len(rep.fails) == 0 {
			suffix = " no-failing-input-found"
		}
		if rep != nil {
			for i, f := range rep.fails {
				if i < 10 {
					fmt.Println("failing input:", f)
				}
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, rp, suffix)
	}
	// evidence
	if only == "" {
		var tb []string
		for t := range w.trusted {
			tb = append(tb, t)
		}
		sort.Strings(tb)
		tb = append(tb, "theory of texts, runes and splitting (axioms in gov/solve.go): "+strings.Join(usedTheory(), ", "))
		tb = append(tb, "gov verification-condition generator (/verif/gov), golang.org/x/tools/go/ssa, Z3 5.3.2, cvc5 1.1.2, Z3 4.8.12")
		var inl []string
		im := map[string]bool{}
		for _, r := range runs {
			for n := range r.x.inlined {
				im[shortName(n)] = true
			}
		}
		inl = sortedBoolKeys(im)
		seed := 1
		fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
		solverTime.Lock()
		st := map[string]any{}
		for k, v := range solverTime.s {
			st[k] = map[string]any{"seconds": v, "runs": solverTime.n[k]}
		}
		solverTime.Unlock()
		cov := map[string]any{
			"obligations": total, "discharged": disch, "checker_cmd": "z3-new / cvc5 / z3 driven by /verif/gov", "trusted_base": tb,
			"functions_under_contract": len(runs), "functions": fnRows, "inlined_functions": inl, "discharged_by": by, "solver_time": st,
			"missing_targets": append([]string{}, w.missing...),
		}
		if rep != nil {
			cov["bounded_standin"] = rep.summary()
		}
		ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": viol,
			"assumptions": []string{"int arithmetic is mathematical (no 64-bit wrap-around); sized unsigned types wrap exactly", "floating point is treated as real arithmetic", "single goroutine: no concurrent mutation during a call", "memory exhaustion and stack overflow are not modelled", "termination is not proved"}}
		js, _ := json.MarshalIndent(ev, "", " ")
		writeFile(filepath.Join(verif, "evidence", prop+".json"), string(js)+"\n")
	}
	if viol > 0 {
		return 1
	}
	fmt.Printf("OK property=%s\n", prop)
	return 0
}

func (w *World) safeVerify(c *Contract) (x *Exec, err error) {
	defer func() {
		if e := recover(); e != nil {
			if se, ok := e.(specErr); ok {
				err = fmt.Errorf("contract does not apply: %s", se.msg)
			} else if os.Getenv("GOVDEBUG") != "" {
				panic(e)
			} else {
				err = fmt.Errorf("internal: %v", e)
			}
			if x == nil {
				x = curExec
			}
		}
	}()
	return w.verify(c)
}

func (w *World) solve(r *funcRun, ms int, pto time.Duration, verbose bool) {
	x := r.x
	t0 := time.Now()
	// Houdini over loop-invariant candidates: quickly first, and again with patience when
	// obligations are left and a written invariant was given up
	rounds, gaveUp, full := 0, 0, false
houdini:
	live := r.cands
	r.dead, r.alive = map[string]bool{}, map[string]bool{}
	rounds, gaveUp = 0, 0
	for _, c := range x.cands {
		if c.dead {
			r.dead[c.sel.name] = true
		} else {
			r.alive[c.sel.name] = true
		}
	}
	for len(live) > 0 {
		rounds++
		var cur []*Oblig
		for _, o := range live {
			if !r.dead[o.cand.sel.name] {
				cur = append(cur, o)
			}
		}
		live = cur
		if len(cur) == 0 {
			break
		}
		res := w.parallelBatch(x, cur, r.dead, r.alive, 1000)
		dropped := map[string]bool{}
		var wg sync.WaitGroup
		var mu sync.Mutex
		for i, o := range cur {
			if res[i].ok {
				continue
			}
			if o.cand.user && res[i].status != "sat" && rounds <= 8 {
				wg.Add(1)
				go func(o *Oblig) {
					defer wg.Done()
					to := 2500 * time.Millisecond
					if full {
						to = 8 * time.Second
					}
					if full && w.splitTry(x, o, r.dead, r.alive, 3, 1500).ok {
						return
					}
					rr := w.portfolioL(x, o, r.dead, r.alive, to)
					if !rr.ok && full {
						if r2 := w.byCases(x, o, r.dead, r.alive, 2, 8*time.Second); r2.ok {
							rr = r2
						}
					}
					if !rr.ok {
						mu.Lock()
						dropped[o.cand.sel.name] = true
						gaveUp++
						mu.Unlock()
						if d := os.Getenv("GOVDUMPC"); d != "" {
							genMu.Lock()
							sc := z3head + singleScript(x, o, r.dead, r.alive, w.axTerms)
							genMu.Unlock()
							writeFile(filepath.Join(d, sanitize(fmt.Sprintf("%d_%s_%s_%d", rounds, o.cand.loop, o.label, o.cand.id))+".smt2"), sc)
						}
						if verbose {
							fmt.Fprintf(stderr, "  drop user cand %s %s: %s\n", o.cand.loop, o.label, rr.status)
						}
					}
				}(o)
				continue
			}
			mu.Lock()
			dropped[o.cand.sel.name] = true
			mu.Unlock()
			if verbose && os.Getenv("GOVCANDS") != "" {
				fmt.Fprintf(stderr, "  drop cand %s %s: %s\n", o.cand.loop, o.label, res[i].status)
			}
		}
		wg.Wait()
		if len(dropped) == 0 {
			break
		}
		for s := range dropped {
			r.dead[s] = true
			delete(r.alive, s)
		}
	}
	r.res = w.parallelBatch(x, r.final, r.dead, r.alive, ms)
	var wg sync.WaitGroup
	nfail := 0
	for i, o := range r.final {
		if r.res[i].ok {
			continue
		}
		nfail++
		if nfail > 24 {
			continue
		}
		wg.Add(1)
		go func(i int, o *Oblig) {
			defer wg.Done()
			if rr := w.splitTry(x, o, r.dead, r.alive, 4, 2000); rr.ok {
				r.res[i] = rr
				return
			}
			to := pto
			if !full && gaveUp > 0 && to > 5*time.Second {
				to = 5 * time.Second
			}
			r.res[i] = w.portfolioL(x, o, r.dead, r.alive, to)
		}(i, o)
	}
	wg.Wait()
	if !full && gaveUp > 0 {
		for i := range r.final {
			if !r.res[i].ok {
				full = true
				goto houdini
			}
		}
	}
	// a second, longer try for the few left over (a busy machine)
	if nfail > 0 && nfail <= 8 {
		for i, o := range r.final {
			if r.res[i].ok || r.res[i].status == "sat" {
				continue
			}
			wg.Add(1)
			go func(i int, o *Oblig) {
				defer wg.Done()
				if rr := w.byCases(x, o, r.dead, r.alive, 4, pto); rr.ok {
					r.res[i] = rr
					return
				}
				if rr := w.portfolioL(x, o, r.dead, r.alive, 3*pto); rr.ok {
					r.res[i] = rr
				}
			}(i, o)
		}
		wg.Wait()
	}
	// vacuity: the exit must be reachable under the precondition
	if r.err == nil && r.ct.reach != nil && len(r.final) > 0 {
		o := &Oblig{nh: len(x.hyps), pc: r.ct.reach, goal: False}
		if r.ct.reach == False {
			r.vacuous = true
		} else {
			genMu.Lock()
			sc := batchScript(x, []*Oblig{o}, r.dead, r.alive, w.axTerms, z3head+"(set-option :timeout 1500)\n")
			genMu.Unlock()
			if as := answers(runSolver("z3-new", []string{"-in"}, sc, 6*time.Second)); len(as) > 0 && as[0] == "unsat" {
				r.vacuous = true
			}
		}
	}
	if verbose {
		bad := 0
		for _, q := range r.res {
			if !q.ok {
				bad++
			}
		}
		if os.Getenv("GOVCANDS") != "" {
			for _, c := range x.cands {
				if r.alive[c.sel.name] {
					fmt.Fprintf(stderr, "  kept %s %s\n", c.loop, c.name)
				}
			}
		}
		fmt.Fprintf(stderr, "solve %-60s final=%d bad=%d cands=%d alive=%d rounds=%d %.1fs\n", r.ct.id(), len(r.final), bad, len(x.cands), len(r.alive), rounds, time.Since(t0).Seconds())
	}
}

// The first attempt on every obligation is limited by the solver's own resource
// counter, not by the clock, so that the outcome does not depend on machine load.
const rlimitPerMs = 1500

// splitTry: all cases of deepCases in one E-matching run
func (w *World) splitTry(x *Exec, o *Oblig, dead, alive map[string]bool, depth, ms int) result {
	genMu.Lock()
	var os []*Oblig
	for _, c := range deepCases(True, o.goal, depth) {
		o2 := *o
		o2.pc, o2.goal = And(o.pc, c.cond), c.goal
		if o2.pc != False && o2.goal != True {
			os = append(os, &o2)
		}
	}
	sc := batchScript(x, os, dead, alive, w.axTerms, fmt.Sprintf("%s(set-option :rlimit %d)\n(set-option :timeout %d)\n", z3head, ms*rlimitPerMs, ms))
	genMu.Unlock()
	as := answers(runSolver("z3-new", []string{"-in"}, sc, time.Duration(ms*(len(os)+1))*time.Millisecond+time.Second))
	if len(as) < len(os) {
		return result{status: "unknown"}
	}
	for _, a := range as {
		if a != "unsat" {
			return result{status: a}
		}
	}
	return result{ok: true, by: "z3-5.3 (E-matching, by cases)", status: "unsat"}
}

// byCases: every case of deepCases on its own
func (w *World) byCases(x *Exec, o *Oblig, dead, alive map[string]bool, depth int, to time.Duration) (rr result) {
	genMu.Lock()
	cs := deepCases(True, o.goal, depth)
	genMu.Unlock()
	if len(cs) < 2 {
		return
	}
	for _, c := range cs {
		o2 := *o
		genMu.Lock()
		o2.pc, o2.goal = And(o.pc, c.cond), c.goal
		genMu.Unlock()
		if rr = w.portfolioL(x, &o2, dead, alive, to); !rr.ok {
			return
		}
	}
	return
}

var debugBatch = os.Getenv("GOVBATCH") != ""

func (w *World) parallelBatch(x *Exec, obs []*Oblig, dead, alive map[string]bool, ms int) []result {
	res := make([]result, len(obs))
	// split large sets into chunks
	n := 40
	var wg sync.WaitGroup
	for s := 0; s < len(obs); s += n {
		e := s + n
		if e > len(obs) {
			e = len(obs)
		}
		wg.Add(1)
		go func(s, e int) {
			defer wg.Done()
			// obligations ordered by hypothesis index
			idx := make([]int, 0, e-s)
			for i := s; i < e; i++ {
				idx = append(idx, i)
			}
			sort.SliceStable(idx, func(a, b int) bool { return obs[idx[a]].nh < obs[idx[b]].nh })
			var os []*Oblig
			for _, i := range idx {
				os = append(os, obs[i])
			}
			genMu.Lock()
			sc := batchScript(x, os, dead, alive, w.axTerms, fmt.Sprintf("%s(set-option :rlimit %d)\n(set-option :timeout 10000)\n", z3head, ms*rlimitPerMs))
			genMu.Unlock()
			out := runSolver("z3-new", []string{"-in"}, sc, 120*time.Second)
			as := answers(out)
			for k, i := range idx {
				if os2 := obs[i]; debugBatch && (k >= len(as) || as[k] != "unsat") {
					st := "timeout"
					if k < len(as) {
						st = as[k]
					}
					fmt.Fprintf(stderr, "  batch miss %s %s %s:%d\n", st, os2.label, filepath.Base(os2.pos.Filename), os2.pos.Line)
				}
				if k < len(as) {
					res[i] = result{ok: as[k] == "unsat", by: "z3-5.3 (E-matching, incremental)", status: as[k]}
					if strings.HasPrefix(as[k], "(error") {
						dumpErr(sc, as[k])
					}
				} else {
					res[i] = result{status: "timeout"}
				}
			}
		}(s, e)
	}
	wg.Wait()
	return res
}
func (w *World) portfolioL(x *Exec, o *Oblig, dead, alive map[string]bool, to time.Duration) result {
	return portfolio(x, o, dead, alive, w.axTerms, to)
}

// ---- known findings ----
type known struct{ rows []knownRow }
type knownRow struct{ kind, id, text string }

func loadKnown(p, prop string) *known {
	k := &known{}
	b, err := os.ReadFile(p)
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+prop+" ")
		i := strings.Index(rest, " :: ")
		if i < 0 {
			continue
		}
		kv := strings.SplitN(rest[:i], "=", 2)
		if len(kv) == 2 {
			k.rows = append(k.rows, knownRow{kv[0], kv[1], rest[i+4:]})
		}
	}
	return k
}
func (k *known) match(kind, id string) string {
	for _, r := range k.rows {
		if r.kind == kind && r.id == id {
			return r.text
		}
	}
	return ""
}

// ---- replay / bounded drivers ----
type replayResult struct {
	ran      bool
	fails    []string
	findings []string
	cases    string
	output   string
	note     string
}

func (r *replayResult) summary() string {
	s := "not run"
	if r.ran {
		s = fmt.Sprintf("%d failing inputs; %s", len(r.fails), r.cases)
	}
	if r.note != "" {
		s += " (" + r.note + ")"
	}
	return s
}

// runReplay executes /verif/replay/<prop>/*_test.go in the packages they name (line "//gov:pkg DIR"), through an overlay
func runReplay(prop, tier, repo, verif string, failed bool) *replayResult {
	r := &replayResult{}
	files, _ := filepath.Glob(filepath.Join(verif, "replay", prop, "*_test.go"))
	if len(files) == 0 {
		r.note = "no driver"
		return r
	}
	type res struct {
		out string
		err error
	}
	rs := make([]res, len(files))
	limit := "200s"
	if tier == "thorough" {
		limit = "1800s"
	}
	var wg sync.WaitGroup
	for i, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		dir, pk := "", ""
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "//gov:pkg ") {
				dir = strings.TrimSpace(strings.TrimPrefix(l, "//gov:pkg "))
			}
			if strings.HasPrefix(l, "package ") && pk == "" {
				pk = strings.TrimSpace(strings.TrimPrefix(l, "package "))
			}
		}
		if dir == "" {
			continue
		}
		r.ran = true
		wg.Add(1)
		go func(i int, f, dir, pk string) {
			defer wg.Done()
			hb, _ := os.ReadFile(filepath.Join(verif, "replay", "helper.go.txt"))
			hp := scratch(fmt.Sprintf("helper%d_test.go", i))
			writeFile(hp, strings.Replace(string(hb), "package PKG", "package "+pk, 1))
			ov := map[string]any{"Replace": map[string]string{filepath.Join(repo, dir, "zz_gov_helper"+fmt.Sprint(i)+"_test.go"): hp, filepath.Join(repo, dir, "zz_gov_"+strings.ToLower(prop)+fmt.Sprint(i)+"_test.go"): f}}
			js, _ := json.Marshal(ov)
			op := scratch(fmt.Sprintf("overlay%d.json", i))
			writeFile(op, string(js))
			c := exec.Command("go", "test", "-overlay", op, "-vet=off", "-count=1", "-timeout", limit, "-run", "^TestGov", "-v", ".")
			c.Dir = filepath.Join(repo, dir)
			c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off", "GOV_TIER="+tier)
			if v := os.Getenv("GOV_GOFLAGS"); v != "" {
				c.Env = append(c.Env, "GOFLAGS="+v)
			} else {
				c.Env = append(c.Env, "GOFLAGS=")
			}
			out, err := c.CombinedOutput()
			rs[i] = res{string(out), err}
		}(i, f, dir, pk)
	}
	wg.Wait()
	for i, q := range rs {
		base := filepath.Base(files[i])
		r.output += "== " + base + "\n"
		got := false
		for _, l := range strings.Split(q.out, "\n") {
			l = strings.TrimSpace(l)
			if k := strings.Index(l, "GOVFAIL "); k >= 0 {
				got = true
				r.fails = append(r.fails, l[k+8:])
			}
			if k := strings.Index(l, "GOVFINDING "); k >= 0 {
				r.findings = append(r.findings, strings.TrimSpace(l[k+11:]))
			}
			if k := strings.Index(l, "GOVCASES "); k >= 0 {
				r.cases += l[k+9:] + "; "
			}
		}
		if q.err != nil && !got {
			k := strings.Index(q.out, "panic:")
			if k < 0 {
				k = strings.Index(q.out, "fatal error:")
			}
			if k >= 0 && !strings.Contains(q.out, "[build failed]") && !strings.Contains(q.out, "[setup failed]") {
				l := q.out[k:]
				if j := strings.Index(l, "\n"); j > 0 {
					l = l[:j]
				}
				r.fails = append(r.fails, base+": "+l)
			} else {
				r.note += base + ": driver could not run: " + firstLines(q.out, 3)
			}
		}
		o := q.out
		if len(o) > 20000 {
			o = o[:20000]
		}
		r.output += o + "\n"
	}
	return r
}
func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, " | ")
}

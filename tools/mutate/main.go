// mutate lists small syntactic changes of the functions named on stdin
// ("dir.Recv.Name" relative to the repository root, one per line), as JSON
// lines {file, func, off, end, new, desc}. Used by tools/mutants.py to find
// contracts that are too weak; no registered check uses it.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Func string `json:"func"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Desc string `json:"desc"`
}

func main() {
	root := os.Args[1]
	want := map[string]bool{}
	dirs := map[string]bool{}
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		want[l] = true
		i := strings.LastIndex(l, "/")
		j := strings.Index(l[i+1:], ".")
		if j >= 0 {
			dirs[l[:i+1+j]] = true
		}
	}
	enc := json.NewEncoder(os.Stdout)
	for d := range dirs {
		files, _ := filepath.Glob(filepath.Join(root, d, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, _ := os.ReadFile(f)
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f, src, 0)
			if err != nil {
				continue
			}
			for _, dd := range af.Decls {
				fd, ok := dd.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				name := fd.Name.Name
				if fd.Recv != nil {
					t := fd.Recv.List[0].Type
					if s, ok := t.(*ast.StarExpr); ok {
						t = s.X
					}
					switch x := t.(type) {
					case *ast.IndexExpr:
						t = x.X
					}
					name = fmt.Sprint(t) + "." + name
				}
				q := d + "." + name
				if !want[q] {
					continue
				}
				rel, _ := filepath.Rel(root, f)
				off := func(p token.Pos) int { return fset.Position(p).Offset }
				txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
				emit := func(n ast.Node, new, desc string) {
					enc.Encode(mut{rel, q, fset.Position(n.Pos()).Line, off(n.Pos()), off(n.End()), new, desc})
				}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch n := n.(type) {
					case *ast.BinaryExpr:
						alt := map[token.Token][]string{token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
							token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.MUL: {"+"}, token.QUO: {"*"}}[n.Op]
						for _, a := range alt {
							emit(n, txt(n.X)+" "+a+" "+txt(n.Y), n.Op.String()+" -> "+a)
						}
						if n.Op == token.LAND || n.Op == token.LOR {
							emit(n, txt(n.X), "drop right operand of "+n.Op.String())
							emit(n, txt(n.Y), "drop left operand of "+n.Op.String())
						}
						if n.Op == token.SUB || n.Op == token.ADD {
							emit(n, txt(n.X), "drop right operand of "+n.Op.String())
						}
					case *ast.BasicLit:
						if n.Kind == token.INT {
							v, err := strconv.ParseInt(n.Value, 0, 64)
							if err == nil {
								emit(n, strconv.FormatInt(v+1, 10), "const +1")
								if v > 0 {
									emit(n, strconv.FormatInt(v-1, 10), "const -1")
								}
							}
						}
					case *ast.Ident:
						if n.Name == "true" {
							emit(n, "false", "true -> false")
						} else if n.Name == "false" {
							emit(n, "true", "false -> true")
						}
					case *ast.IfStmt:
						emit(n.Cond, "!("+txt(n.Cond)+")", "negate condition")
						emit(n.Cond, "false && ("+txt(n.Cond)+")", "condition never")
						emit(n.Cond, "true || ("+txt(n.Cond)+")", "condition always")
					case *ast.AssignStmt:
						if n.Tok != token.DEFINE {
							s := "_ = 0"
							if len(n.Rhs) == 1 && len(n.Lhs) == 1 {
								s = "_ = " + txt(n.Rhs[0])
							}
							emit(n, s, "drop assignment")
						}
					case *ast.IncDecStmt:
						emit(n, "_ = 0", "drop inc/dec")
					case *ast.ExprStmt:
						emit(n, "_ = 0", "drop call")
					case *ast.BranchStmt:
						emit(n, "_ = 0", "drop "+n.Tok.String())
					case *ast.ReturnStmt:
						if len(n.Results) == 1 {
							if c, ok := n.Results[0].(*ast.CallExpr); ok {
								if s, ok := c.Fun.(*ast.SelectorExpr); ok {
									emit(n, "return "+txt(s.X), "return receiver of the call")
								}
							}
						}
					case *ast.CallExpr:
						for i := 0; i+1 < len(n.Args); i++ {
							if txt(n.Args[i]) != txt(n.Args[i+1]) {
								emit(&ast.CompositeLit{Type: n.Args[i], Rbrace: n.Args[i+1].End() - 1}, txt(n.Args[i+1])+", "+txt(n.Args[i]), "swap arguments")
							}
						}
						if id, ok := n.Fun.(*ast.Ident); ok && len(n.Args) == 2 {
							if id.Name == "min" {
								emit(n.Fun, "max", "min -> max")
							} else if id.Name == "max" {
								emit(n.Fun, "min", "max -> min")
							}
						}
					case *ast.SliceExpr:
						if n.Low != nil {
							emit(n.Low, "("+txt(n.Low)+")+1", "slice low +1")
						}
						if n.High != nil {
							emit(n.High, "("+txt(n.High)+")-1", "slice high -1")
						}
					}
					return true
				})
			}
		}
	}
}

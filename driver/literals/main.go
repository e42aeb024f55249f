// Command literals lists the integer constants and string literals of the Go source under the given directories
// (tests left out).  Inputs are drawn near those which the source has gained, so that a rare case singled out by
// a constant is not left to chance.
package main

import (
	"encoding/json"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func eval(e ast.Expr) constant.Value {
	switch x := e.(type) {
	case *ast.BasicLit:
		if x.Kind != token.STRING {
			return constant.MakeFromLiteral(x.Value, x.Kind, 0)
		}
	case *ast.ParenExpr:
		return eval(x.X)
	case *ast.UnaryExpr:
		if v := eval(x.X); v != nil && v.Kind() == constant.Int && (x.Op == token.SUB || x.Op == token.ADD) {
			return constant.UnaryOp(x.Op, v, 0)
		}
	case *ast.BinaryExpr:
		a, b := eval(x.X), eval(x.Y)
		if a == nil || b == nil {
			return nil
		}
		switch x.Op {
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(b); ok && n < 128 && a.Kind() == constant.Int {
				return constant.Shift(a, x.Op, uint(n))
			}
		case token.ADD, token.SUB, token.MUL:
			return constant.BinaryOp(a, x.Op, b)
		case token.QUO:
			if constant.Sign(b) != 0 && a.Kind() == constant.Int && b.Kind() == constant.Int {
				return constant.BinaryOp(a, token.QUO_ASSIGN, b)
			}
		case token.REM:
			if constant.Sign(b) != 0 && a.Kind() == constant.Int && b.Kind() == constant.Int {
				return constant.BinaryOp(a, x.Op, b)
			}
		}
	}
	return nil
}

func main() {
	ints, strs := map[string]bool{}, map[string]bool{}
	for _, dir := range os.Args[1:] {
		filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
			if err != nil || info.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
			if err != nil {
				return nil
			}
			ast.Inspect(f, func(n ast.Node) bool {
				if _, ok := n.(*ast.ImportSpec); ok {
					return false
				}
				e, ok := n.(ast.Expr)
				if !ok {
					return true
				}
				if l, ok := e.(*ast.BasicLit); ok && l.Kind == token.STRING {
					if v := constant.StringVal(constant.MakeFromLiteral(l.Value, l.Kind, 0)); len(v) > 0 && len(v) < 200 {
						strs[v] = true
					}
					return true
				}
				if v := eval(e); v != nil {
					if v = constant.ToInt(v); v.Kind() == constant.Int {
						if s := v.ExactString(); len(s) < 21 {
							ints[s] = true
						}
					}
				}
				return true
			})
			return nil
		})
	}
	list := func(m map[string]bool) []string {
		out := []string{}
		for s := range m {
			out = append(out, s)
		}
		sort.Strings(out)
		return out
	}
	json.NewEncoder(os.Stdout).Encode(map[string][]string{"ints": list(ints), "strings": list(strs)})
}

// Command covprep REPO OUT instruments the Go source under REPO/pkg with block counters: it writes the instrumented
// copies and overlay.json to OUT and prints, as JSON, the functions of every file.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
)

type fn struct {
	Name     string `json:"name"`
	From, To int
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	var files []string
	filepath.Walk(filepath.Join(repo, "pkg"), func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	replace, funcs := map[string]string{}, map[string][]fn{}
	type reg struct{ pkg, body string }
	regs := map[string]*reg{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	fail := false
	for i, p := range files {
		wg.Add(1)
		go func(i int, p string) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, p, nil, 0)
			if err != nil {
				fail = true
				return
			}
			rel, _ := filepath.Rel(repo, p)
			var fs []fn
			for _, d := range f.Decls {
				if x, ok := d.(*ast.FuncDecl); ok && x.Body != nil {
					name := x.Name.Name
					if x.Recv != nil {
						t := x.Recv.List[0].Type
						if s, ok := t.(*ast.StarExpr); ok {
							t = s.X
						}
						if id, ok := t.(*ast.Ident); ok {
							name = id.Name + "." + name
						}
					}
					fs = append(fs, fn{name, fset.Position(x.Pos()).Line, fset.Position(x.End()).Line})
				}
			}
			v := fmt.Sprintf("VerifCov%d", i)
			b, err := exec.Command("go", "tool", "cover", "-mode=count", "-var="+v, p).Output()
			if err != nil {
				fail = true
				return
			}
			dst := filepath.Join(out, fmt.Sprintf("f%d.go", i))
			os.WriteFile(dst, b, 0o644)
			mu.Lock()
			defer mu.Unlock()
			replace[p] = dst
			funcs[rel] = fs
			r := regs[filepath.Dir(p)]
			if r == nil {
				r = &reg{pkg: f.Name.Name}
				regs[filepath.Dir(p)] = r
			}
			if len(fs) > 0 {
				r.body += fmt.Sprintf("\tcovreg.Register(%q, %s.Count[:], %s.Pos[:])\n", rel, v, v)
			}
		}(i, p)
	}
	wg.Wait()
	if fail {
		os.Exit(1)
	}
	n := 0
	for dir, r := range regs {
		if r.body == "" {
			continue
		}
		n++
		dst := filepath.Join(out, fmt.Sprintf("reg%d.go", n))
		os.WriteFile(dst, []byte("package "+r.pkg+"\n\nimport \"verif.local/driver/covreg\"\n\nfunc init() {\n"+r.body+"}\n"), 0o644)
		replace[filepath.Join(dir, "zz_verif_cov.go")] = dst
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644)
	json.NewEncoder(os.Stdout).Encode(funcs)
}

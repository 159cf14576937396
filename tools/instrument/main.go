// Command instrument prepares a build overlay for the checks.
//
// It reads every non-test Go file of /repo's current working tree, inserts a
// call to a scheduling hook in front of every statement, and (unless
// -keepsync) swaps the locks of package sync for channel-based ones that
// testing/synctest can see through. Text is inserted on the line where the
// statement stands, so line numbers in race reports and panics stay those of
// /repo. /repo itself isn't written to: the result is an overlay file for
// `go build -overlay`.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type insertion struct {
	off  int
	end  int // bytes [off,end) are replaced
	text string
}

type site struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

const modPath = "github.com/juju/worker/v4"

func main() {
	repo := flag.String("repo", "/repo", "tree to instrument")
	sched := flag.String("sched", "", "directory with the scheduling hook package")
	out := flag.String("out", "", "output directory")
	keepSync := flag.Bool("keepsync", false, "leave package sync's locks alone")
	plain := flag.Bool("plain", false, "no instrumentation at all, only add the hook package")
	flag.Parse()
	if *out == "" || *sched == "" {
		fatal("need -out and -sched")
	}
	replace := map[string]string{}
	var sites []site

	var files []string
	err := filepath.Walk(*repo, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		base := filepath.Base(path)
		if info.IsDir() {
			if path != *repo && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(base, ".go") && !strings.HasSuffix(base, "_test.go") {
			files = append(files, path)
		}
		return nil
	})
	if err != nil {
		fatal("%v", err)
	}
	sort.Strings(files)
	if !*plain {
		for _, path := range files {
			rel, _ := filepath.Rel(*repo, path)
			if ok, err := build.Default.MatchFile(filepath.Dir(path), filepath.Base(path)); err != nil || !ok {
				continue
			}
			src, err := os.ReadFile(path)
			if err != nil {
				fatal("%v", err)
			}
			res, err := instrument(rel, src, &sites, !*keepSync)
			if err != nil {
				fatal("%s: %v", path, err)
			}
			if res == nil {
				continue
			}
			dst := filepath.Join(*out, "src", rel)
			if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
				fatal("%v", err)
			}
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				fatal("%v", err)
			}
			replace[path] = dst
		}
	}

	// The hook package is added to the module under test.
	ents, err := os.ReadDir(*sched)
	if err != nil {
		fatal("%v", err)
	}
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go") {
			replace[filepath.Join(*repo, "verifsched", e.Name())] = filepath.Join(*sched, e.Name())
		}
	}
	var buf bytes.Buffer
	fmt.Fprintf(&buf, "package verifsched\n\nfunc init() {\n\tSites = []Site{\n")
	for _, s := range sites {
		fmt.Fprintf(&buf, "\t\t{%q, %d, %q},\n", s.File, s.Line, s.Func)
	}
	fmt.Fprintf(&buf, "\t}\n}\n")
	sitesFile := filepath.Join(*out, "sites.go")
	if err := os.MkdirAll(*out, 0o755); err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(sitesFile, buf.Bytes(), 0o644); err != nil {
		fatal("%v", err)
	}
	replace[filepath.Join(*repo, "verifsched", "zz_sites.go")] = sitesFile

	data, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), data, 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("instrumented %d files, %d sites\n", len(replace)-len(ents)-1, len(sites))
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(2)
}

func instrument(rel string, src []byte, sites *[]site, swapSync bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, rel, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	if strings.HasPrefix(rel, "verifsched/") {
		return nil, nil
	}
	var ins []insertion
	off := func(p token.Pos) int { return fset.Position(p).Offset }

	syncName := ""
	for _, imp := range f.Imports {
		if imp.Path.Value == `"sync"` {
			syncName = "sync"
			if imp.Name != nil {
				syncName = imp.Name.Name
			}
		}
	}
	if syncName == "_" || syncName == "." {
		syncName = ""
	}

	fn := ""
	addList := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			if d, ok := s.(*ast.DeclStmt); ok {
				if g, ok := d.Decl.(*ast.GenDecl); ok && g.Tok != token.VAR {
					continue
				}
			}
			id := len(*sites)
			*sites = append(*sites, site{rel, fset.Position(s.Pos()).Line, fn})
			ins = append(ins, insertion{off(s.Pos()), off(s.Pos()), fmt.Sprintf("verifsched.Y(%d); ", id)})
		}
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body == nil {
				continue
			}
			fn = d.Name.Name
			if fn == "init" {
				continue
			}
			ast.Inspect(d.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.SwitchStmt:
					// Its block holds case clauses, not statements.
				case *ast.BlockStmt:
					if len(n.List) > 0 {
						switch n.List[0].(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					addList(n.List)
				case *ast.CaseClause:
					addList(n.Body)
				case *ast.CommClause:
					addList(n.Body)
				}
				return true
			})
		}
	}
	if swapSync && syncName != "" {
		ast.Inspect(f, func(n ast.Node) bool {
			sel, ok := n.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			x, ok := sel.X.(*ast.Ident)
			if !ok || x.Name != syncName {
				return true
			}
			switch sel.Sel.Name {
			case "Mutex", "RWMutex", "Once", "OnceFunc", "OnceValue", "OnceValues":
				ins = append(ins, insertion{off(x.Pos()), off(x.End()), "verifsched"})
			}
			return true
		})
	}
	if len(ins) == 0 {
		return nil, nil
	}
	nameEnd := off(f.Name.End())
	ins = append(ins, insertion{nameEnd, nameEnd, `; import verifsched "` + modPath + `/verifsched"`})
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var out bytes.Buffer
	last := 0
	for _, in := range ins {
		out.Write(src[last:in.off])
		out.WriteString(in.text)
		last = in.end
	}
	out.Write(src[last:])
	out.WriteString("\nvar _ = verifsched.Y\n")
	if syncName != "" {
		fmt.Fprintf(&out, "\nvar _ %s.Locker\n", syncName)
	}
	return out.Bytes(), nil
}

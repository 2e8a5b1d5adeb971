// Command instr rewrites the source of packages of the repository in to a build overlay:
//
//	maps    range over a map visits the entries in an order that the explorer chooses; time.Now is the explorer's
//	both    all of this
//	points  a scheduling point before every statement; package sync is the scheduler's
//
// It only looks at the syntax tree and the types, so it works on whatever the tree currently looks like.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkg struct {
	ImportPath, Export, Dir string
	GoFiles                 []string
	DepOnly, Standard       bool
}

type edit struct {
	off, del int
	text     string
	seq      int
}

const base = "github.com/datawire/ocibuild/verifmc/"

func die(args ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"instr:"}, args...)...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "", "")
	in := flag.String("in", "", "")
	out := flag.String("out", "", "")
	dir := flag.String("dir", "", "")
	flag.Parse()
	mode := flag.Arg(0)
	patterns := flag.Args()[1:]
	if mode != "maps" && mode != "points" && mode != "both" {
		die("unknown mode", mode)
	}
	var ov struct{ Replace map[string]string }
	bs, err := os.ReadFile(*in)
	if err != nil {
		die(err)
	}
	if err := json.Unmarshal(bs, &ov); err != nil {
		die(err)
	}
	if err := os.MkdirAll(*dir, 0o755); err != nil {
		die(err)
	}

	args := append([]string{"list", "-deps", "-json=ImportPath,Export,Dir,GoFiles,DepOnly,Standard"}, patterns...)
	if mode != "points" {
		args = append([]string{"list", "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles,DepOnly,Standard"}, patterns...)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	listing, err := cmd.Output()
	if err != nil {
		die("go list:", err)
	}
	exports := map[string]string{}
	var pkgs []pkg
	for dec := json.NewDecoder(bytes.NewReader(listing)); ; {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die(err)
		}
		exports[p.ImportPath] = p.Export
		if !p.DepOnly && !p.Standard {
			pkgs = append(pkgs, p)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if exports[path] == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(exports[path])
	})

	total := 0
	for _, p := range pkgs {
		var files []*ast.File
		var names []string
		var srcs [][]byte
		for _, f := range p.GoFiles {
			name := filepath.Join(p.Dir, f)
			src, err := os.ReadFile(name)
			if err != nil {
				die(err)
			}
			file, err := parser.ParseFile(fset, name, src, parser.ParseComments)
			if err != nil {
				die(err)
			}
			files, names, srcs = append(files, file), append(names, name), append(srcs, src)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
		if mode != "points" {
			conf := types.Config{Importer: imp}
			if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
				die("type checking", p.ImportPath, err)
			}
		}
		for i, file := range files {
			var edits []edit
			off := func(pos token.Pos) int { return fset.Position(pos).Offset }
			add := func(o, d int, text string) { edits = append(edits, edit{o, d, text, len(edits)}) }
			switch mode {
			case "maps":
				maps(file, info, off, add)
			case "points":
				points(file, off, add)
			case "both":
				points(file, off, add)
				maps(file, info, off, add)
			}
			if len(edits) == 0 {
				continue
			}
			total += len(edits)
			res := apply(srcs[i], edits)
			dst := filepath.Join(*dir, strings.ReplaceAll(p.ImportPath, "/", "__")+"__"+filepath.Base(names[i]))
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				die(err)
			}
			ov.Replace[names[i]] = dst
		}
	}
	if total == 0 {
		die("nothing to instrument")
	}
	bs, err = json.Marshal(ov)
	if err != nil {
		die(err)
	}
	if err := os.WriteFile(*out, bs, 0o644); err != nil {
		die(err)
	}
}

func apply(src []byte, edits []edit) []byte {
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].seq < edits[j].seq
	})
	var out bytes.Buffer
	done := 0
	for _, e := range edits {
		out.Write(src[done:e.off])
		out.WriteString(e.text)
		done = e.off + e.del
	}
	out.Write(src[done:])
	return out.Bytes()
}

// blank reports whether an expression of a range clause is absent or "_".
func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func maps(file *ast.File, info *types.Info, off func(token.Pos) int, add func(int, int, string)) {
	n := 0
	used := false
	var nows []string
	ast.Inspect(file, func(node ast.Node) bool {
		switch node := node.(type) {
		case *ast.RangeStmt:
			tv, ok := info.Types[node.X]
			if !ok {
				return true
			}
			if _, ok := tv.Type.Underlying().(*types.Map); !ok {
				return true
			}
			n++
			used = true
			it := fmt.Sprintf("_vm%d", n)
			k, v := "_", "_"
			kp, vp := "nil", "nil"
			tail := " {"
			if node.Tok == token.DEFINE {
				if !blank(node.Key) {
					k = node.Key.(*ast.Ident).Name
					kp = "&" + k
				}
				if !blank(node.Value) {
					v = node.Value.(*ast.Ident).Name
					vp = "&" + v
				}
			} else if node.Tok == token.ASSIGN {
				if !blank(node.Key) {
					tail += fmt.Sprintf(" %s = %s.K;", types.ExprString(node.Key), it)
				}
				if !blank(node.Value) {
					tail += fmt.Sprintf(" %s = %s.V;", types.ExprString(node.Value), it)
				}
			}
			add(off(node.For), off(node.X.Pos())-off(node.For), fmt.Sprintf("for %s, %s, %s := verifvmap.New(", it, k, v))
			add(off(node.X.End()), off(node.Body.Lbrace)+1-off(node.X.End()), fmt.Sprintf("); %s.Next(%s, %s);%s", it, kp, vp, tail))
		case *ast.SelectorExpr:
			if fn, ok := info.Uses[node.Sel].(*types.Func); ok && fn.Pkg() != nil && fn.Pkg().Path() == "time" && fn.Name() == "Now" {
				used = true
				nows = append(nows, node.X.(*ast.Ident).Name)
				add(off(node.Pos()), off(node.End())-off(node.Pos()), "verifvmap.Now")
			}
		}
		return true
	})
	if used {
		add(off(file.Name.End()), 0, "; import verifvmap \""+base+"vmap\"")
	}
	if len(nows) > 0 {
		add(off(file.End()), 0, "\n\nvar _ = "+nows[0]+".Now\n")
	}
}

func points(file *ast.File, off func(token.Pos) int, add func(int, int, string)) {
	used := false
	list := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			used = true
			add(off(s.Pos()), 0, "verifvsched.Point(); ")
		}
	}
	for _, decl := range file.Decls {
		fn, ok := decl.(*ast.FuncDecl)
		if !ok || fn.Body == nil {
			continue
		}
		ast.Inspect(fn.Body, func(node ast.Node) bool {
			switch node := node.(type) {
			case *ast.BlockStmt:
				// the "blocks" of switch and select statements have clauses in them
				if len(node.List) > 0 {
					switch node.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(node.List)
			case *ast.CaseClause:
				list(node.Body)
			case *ast.CommClause:
				list(node.Body)
			case *ast.ForStmt:
				if len(node.Body.List) == 0 {
					used = true
					add(off(node.Body.Lbrace)+1, 0, " verifvsched.Point(); ")
				}
			}
			return true
		})
	}
	for _, imp := range file.Imports {
		if imp.Path.Value != `"sync"` {
			continue
		}
		name := ""
		if imp.Name == nil {
			name = "sync "
		}
		add(off(imp.Path.Pos()), len(imp.Path.Value), name+`"`+base+`vsync"`)
	}
	if used {
		add(off(file.Name.End()), 0, "; import verifvsched \""+base+"vsched\"")
	}
}

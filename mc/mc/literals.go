package mc

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Literals collects the integer and string literals in the (non-test) Go files of the given
// directories of the repository, as found now.  Suites use them to extend their alphabets with the
// boundary values that the code itself distinguishes.
func (t *T) Literals(dirs ...string) (ints []int64, strs []string) {
	iset := map[int64]bool{}
	sset := map[string]bool{}
	for _, dir := range dirs {
		full := filepath.Join(t.Repo, dir)
		var files []string
		if st, err := os.Stat(full); err == nil && !st.IsDir() {
			files = []string{full}
		} else {
			files, _ = filepath.Glob(filepath.Join(full, "*.go"))
		}
		for _, fn := range files {
			if strings.HasSuffix(fn, "_test.go") {
				continue
			}
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, fn, nil, 0)
			if err != nil {
				continue
			}
			ast.Inspect(f, func(n ast.Node) bool {
				if _, ok := n.(*ast.ImportSpec); ok {
					return false
				}
				if fld, ok := n.(*ast.Field); ok && fld.Tag != nil {
					return false
				}
				if be, ok := n.(*ast.BinaryExpr); ok {
					if v, ok := constInt(be); ok {
						iset[v] = true
					}
				}
				lit, ok := n.(*ast.BasicLit)
				if !ok {
					return true
				}
				switch lit.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(lit.Value, 0, 64); err == nil {
						iset[v] = true
					}
				case token.STRING:
					if v, err := strconv.Unquote(lit.Value); err == nil && len(v) <= 64 {
						sset[v] = true
					}
				case token.CHAR:
					if v, _, _, err := strconv.UnquoteChar(strings.Trim(lit.Value, "'"), '\''); err == nil {
						sset[string(v)] = true
					}
				}
				return true
			})
		}
	}
	for v := range iset {
		ints = append(ints, v)
	}
	for s := range sset {
		strs = append(strs, s)
	}
	sort.Slice(ints, func(i, j int) bool { return ints[i] < ints[j] })
	sort.Strings(strs)
	return ints, strs
}

func constInt(e ast.Expr) (int64, bool) {
	switch e := e.(type) {
	case *ast.BasicLit:
		if e.Kind == token.INT {
			v, err := strconv.ParseInt(e.Value, 0, 64)
			return v, err == nil
		}
	case *ast.ParenExpr:
		return constInt(e.X)
	case *ast.BinaryExpr:
		a, ok1 := constInt(e.X)
		b, ok2 := constInt(e.Y)
		if !ok1 || !ok2 {
			return 0, false
		}
		switch e.Op {
		case token.SHL:
			if b >= 0 && b < 62 {
				return a << uint(b), true
			}
		case token.MUL:
			return a * b, true
		case token.ADD:
			return a + b, true
		case token.SUB:
			return a - b, true
		}
	}
	return 0, false
}

// Sizes returns the sorted set of interesting sizes: the given ones, and each integer literal of the
// given directories that lies in [lo,hi], with its neighbours.
func (t *T) Sizes(lo, hi int64, base []int64, dirs ...string) []int64 {
	set := map[int64]bool{}
	for _, b := range base {
		set[b] = true
	}
	ints, _ := t.Literals(dirs...)
	for _, v := range ints {
		for d := int64(-1); d <= 1; d++ {
			if v+d >= lo && v+d <= hi {
				set[v+d] = true
			}
		}
	}
	var ret []int64
	for v := range set {
		ret = append(ret, v)
	}
	sort.Slice(ret, func(i, j int) bool { return ret[i] < ret[j] })
	return ret
}

// Command xform rewrites the Go files of the code under test for controlled
// scheduling and prints an overlay description.
//
//	xform <repo> <outdir> <overlay.json> <dir-of-shims> sched|free [dependency-dir ...]
//
// It writes <outdir>/mode: "sched" if everything the code uses to synchronize
// is under control, "free" otherwise.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const base = "verifharness"

type edit struct {
	from, to int
	text     string
}

func main() {
	repo, out, overlay, shims := os.Args[1], os.Args[2], os.Args[3], os.Args[4]
	replace := map[string]string{
		filepath.Join(repo, "zz_vsum/zz_vsum.go"): filepath.Join(shims, "zz_vsum.go"),
	}
	mode := "sched"
	var why []string
	n := 0
	root := repo
	visit := func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			b := info.Name()
			if path != root && (strings.HasPrefix(b, ".") || b == "testdata" || b == "cmd") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		res, changed, problem := rewrite(path, src)
		if problem != "" && root != repo {
			return nil
		}
		if problem != "" {
			mode = "free"
			why = append(why, path+": "+problem)
			return nil
		}
		if changed {
			n++
			dst := filepath.Join(out, fmt.Sprintf("x%d.go", n))
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				return err
			}
			replace[path] = dst
		}
		return nil
	}
	must(filepath.Walk(repo, visit))
	// Dependencies are rewritten for the sake of their pools.
	for _, dep := range os.Args[6:] {
		root = dep
		must(filepath.Walk(dep, visit))
	}
	if mode == "free" || os.Args[5] == "free" {
		mode = "free"
		for k, v := range replace {
			if strings.HasPrefix(v, out) {
				delete(replace, k)
			}
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	must(os.WriteFile(overlay, b, 0o644))
	must(os.WriteFile(filepath.Join(out, "mode"), []byte(mode+"\n"+strings.Join(why, "\n")), 0o644))
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func rewrite(path string, src []byte) (res []byte, changed bool, problem string) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, false, err.Error()
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	names := map[string]string{} // local name -> import path
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		name := filepath.Base(p)
		if im.Name != nil {
			name = im.Name.Name
		}
		names[name] = p
		var to string
		switch p {
		case "sync":
			to = base + "/vsched"
		case "sync/atomic":
			to = base + "/vatomic"
		default:
			continue
		}
		if name == "." || name == "_" {
			return nil, false, "unusual import of " + p
		}
		text := fmt.Sprintf("%s %q", name, to)
		if im.Name != nil {
			text = fmt.Sprintf("%q", to)
		}
		edits = append(edits, edit{off(im.Path.Pos()), off(im.Path.End()), text})
	}
	needImport := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ChanType, *ast.SelectStmt, *ast.SendStmt:
			problem = "channels are used"
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				problem = "channels are used"
			}
		case *ast.SelectorExpr:
			id, ok := n.X.(*ast.Ident)
			if !ok || id.Obj != nil {
				break
			}
			switch names[id.Name] + "." + n.Sel.Name {
			case "runtime.Gosched":
				edits = append(edits, edit{off(n.Pos()), off(n.End()), "zz_go.Gosched"})
				needImport = true
			case "time.AfterFunc", "time.After", "time.NewTimer", "time.NewTicker", "time.Tick", "time.Sleep",
				"context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.AfterFunc", "runtime.SetFinalizer", "runtime.AddCleanup":
				problem = names[id.Name] + "." + n.Sel.Name + " is used"
			}
		case *ast.GoStmt:
			needImport = true
			call := n.Call
			if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
				edits = append(edits, edit{off(n.Pos()), off(fl.Pos()), "zz_go.Go("})
				edits = append(edits, edit{off(call.Lparen), off(call.Rparen) + 1, ")"})
				break
			}
			// go f(a, b)  =>  { zz_f, zz_0, zz_1 := f, a, b; zz_go.Go(func() { zz_f(zz_0, zz_1) }) }
			seg := func(e ast.Expr) string { return string(src[off(e.Pos()):off(e.End())]) }
			lhs, rhs, args := []string{"zz_f"}, []string{seg(call.Fun)}, []string{}
			for i, a := range call.Args {
				if _, ok := a.(*ast.BasicLit); ok {
					args = append(args, seg(a))
					continue
				}
				v := fmt.Sprintf("zz_%d", i)
				lhs = append(lhs, v)
				rhs = append(rhs, seg(a))
				args = append(args, v)
			}
			ell := ""
			if call.Ellipsis.IsValid() {
				ell = "..."
			}
			edits = append(edits, edit{off(n.Pos()), off(n.End()), fmt.Sprintf("{ %s := %s; zz_go.Go(func() { zz_f(%s%s) }) }",
				strings.Join(lhs, ", "), strings.Join(rhs, ", "), strings.Join(args, ", "), ell)})
			return false
		}
		return true
	})
	if problem != "" {
		return nil, false, problem
	}
	if len(edits) == 0 {
		return src, false, ""
	}
	if needImport {
		edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), fmt.Sprintf("; import zz_go %q", base+"/vsched")})
	}
	sort.Slice(edits, func(i, j int) bool { return edits[i].from < edits[j].from })
	var b []byte
	pos := 0
	for _, e := range edits {
		if e.from < pos {
			return nil, false, "overlapping edits"
		}
		b = append(b, src[pos:e.from]...)
		b = append(b, e.text...)
		pos = e.to
	}
	b = append(b, src[pos:]...)
	return b, true, ""
}

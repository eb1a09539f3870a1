// Command instr writes instrumented copies of the repository's packages and the
// overlay file that lays them (and package zzvsched) over the originals. Edits are
// textual insertions at positions taken from the syntax tree, so that whatever the
// code looks like, comments, build constraints and line numbers stay as they are.
//
//	instr -repo /repo -out DIR -sched /verif/harness/zzvsched [-plain] pkgdir...
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	at, end int
	text    string
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	sched := flag.String("sched", "", "")
	plain := flag.Bool("plain", false, "only add zzvsched, do not rewrite")
	flag.Parse()
	rep := map[string]string{}
	filepath.Walk(*sched, func(p string, info os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(*sched, p)
			rep[filepath.Join(*repo, "zzvsched", rel)] = p
		}
		return nil
	})
	if !*plain {
		for _, dir := range flag.Args() {
			files, _ := filepath.Glob(filepath.Join(*repo, dir, "*.go"))
			for _, f := range files {
				if strings.HasSuffix(f, "_test.go") {
					continue
				}
				src, err := os.ReadFile(f)
				if err != nil {
					panic(err)
				}
				res, err := rewrite(f, src)
				if err != nil {
					fmt.Fprintln(os.Stderr, "instr:", f, err)
					continue
				}
				rel, _ := filepath.Rel(*repo, f)
				dst := filepath.Join(*out, "src", rel)
				os.MkdirAll(filepath.Dir(dst), 0o755)
				if err := os.WriteFile(dst, res, 0o644); err != nil {
					panic(err)
				}
				rep[f] = dst
			}
		}
	}
	js, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644); err != nil {
		panic(err)
	}
}

const base = "github.com/spacemonkeygo/monkit/v3/zzvsched"

func hasCall(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			found = true
		}
		if u, ok := n.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			found = true
		}
		return !found
	})
	return found
}

func rewrite(name string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	ins := func(p token.Pos, text string) { edits = append(edits, edit{off(p), off(p), text}) }
	timeName, runtimeName := "", ""
	for _, im := range f.Imports {
		path := strings.Trim(im.Path.Value, `"`)
		nm := ""
		if im.Name != nil {
			nm = im.Name.Name
		}
		switch path {
		case "sync":
			if nm == "" {
				nm = "sync"
			}
			edits = append(edits, edit{off(im.Pos()), off(im.End()), nm + ` "` + base + `/vsync"`})
		case "sync/atomic":
			if nm == "" {
				nm = "atomic"
			}
			edits = append(edits, edit{off(im.Pos()), off(im.End()), nm + ` "` + base + `/vatomic"`})
		case "time":
			timeName = "time"
			if nm != "" {
				timeName = nm
			}
		case "runtime":
			runtimeName = "runtime"
			if nm != "" {
				runtimeName = nm
			}
		}
	}
	ins(f.Name.End(), `; import zzvsched "`+base+`"`)
	nt := 0
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			if s.Pos() == s.End() {
				continue
			}
			switch a := s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			case *ast.AssignStmt:
				// x op= y: split the read from the write
				if a.Tok != token.ASSIGN && a.Tok != token.DEFINE && len(a.Lhs) == 1 && len(a.Rhs) == 1 &&
					!hasCall(a.Lhs[0]) && !hasCall(a.Rhs[0]) {
					nt++
					lhs := string(src[off(a.Lhs[0].Pos()):off(a.Lhs[0].End())])
					ins(a.Pos(), fmt.Sprintf("zzvsched.P(); zzt%d := %s; zzt%d %s ", nt, lhs, nt, a.Tok))
					edits = append(edits, edit{off(a.Lhs[0].Pos()), off(a.Rhs[0].Pos()), ""})
					ins(a.End(), fmt.Sprintf("; zzvsched.P(); %s = zzt%d", lhs, nt))
					continue
				}
			case *ast.IncDecStmt:
				if !hasCall(a.X) {
					nt++
					lhs := string(src[off(a.X.Pos()):off(a.X.End())])
					ins(a.Pos(), fmt.Sprintf("zzvsched.P(); zzt%d := ", nt))
					edits = append(edits, edit{off(a.X.End()), off(a.End()),
						fmt.Sprintf("; zzt%d%s; zzvsched.P(); %s = zzt%d", nt, a.Tok, lhs, nt)})
					continue
				}
			}
			ins(s.Pos(), "zzvsched.P(); ")
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.GoStmt:
			c := n.Call
			fun := string(src[off(c.Fun.Pos()):off(c.Fun.End())])
			_ = fun
			switch {
			case c.Ellipsis != token.NoPos:
			case len(c.Args) == 0:
				edits = append(edits, edit{off(n.Pos()), off(c.Pos()), "zzvsched.Go("})
				edits = append(edits, edit{off(c.Fun.End()), off(n.End()), ")"})
			case len(c.Args) <= 2:
				edits = append(edits, edit{off(n.Pos()), off(c.Pos()), fmt.Sprintf("zzvsched.Go%d(", len(c.Args))})
				edits = append(edits, edit{off(c.Fun.End()), off(c.Args[0].Pos()), ", "})
			}
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok && id.Obj == nil {
				if timeName != "" && id.Name == timeName && n.Sel.Name == "Sleep" {
					edits = append(edits, edit{off(n.Pos()), off(n.End()), "zzvsched.Sleep"})
				}
				if runtimeName != "" && id.Name == runtimeName && n.Sel.Name == "Gosched" {
					edits = append(edits, edit{off(n.Pos()), off(n.End()), "zzvsched.Gosched"})
				}
			}
		}
		return true
	})
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].at != edits[j].at {
			return edits[i].at < edits[j].at
		}
		return edits[i].end < edits[j].end
	})
	var b strings.Builder
	pos := 0
	for _, e := range edits {
		if e.at < pos {
			return nil, fmt.Errorf("overlapping edits at %d", e.at)
		}
		b.Write(src[pos:e.at])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(src[pos:])
	b.WriteString("\nvar _ = zzvsched.P\n")
	if timeName != "" && timeName != "_" && timeName != "." {
		fmt.Fprintf(&b, "\ntype zzTime%d = %s.Duration\n", len(src)*7919+len(name), timeName)
	}
	if runtimeName != "" && runtimeName != "_" && runtimeName != "." {
		fmt.Fprintf(&b, "\nvar _ = %s.NumCPU\n", runtimeName)
	}
	// the result must still parse
	if _, err := parser.ParseFile(token.NewFileSet(), name, b.String(), 0); err != nil {
		return nil, err
	}
	return []byte(b.String()), nil
}

// Command instr writes an overlay for go build in which the functions of some
// packages of the code under test call a yield function before every statement,
// inside && and ||, and between the load and the store of x.f++ and x.f += y.
// With package h's Sched this makes the interleavings that a test run explores a
// generated input instead of an accident. It does not change what the code does:
// a yield is a runtime.Gosched or a short sleep.
//
//	instr -repo DIR -out DIR -overlay FILE [-level 2] pkgdir...
//
// -level 1 leaves the expressions alone.
package main

import (
	_ "embed"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

//go:embed sched.go.txt
var schedSrc string

type edit struct {
	off  int
	text string
	// order among edits at one offset: closers first, then openers
	rank int
}

var site int

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	overlay := flag.String("overlay", "", "")
	level := flag.Int("level", 2, "")
	flag.Parse()
	repl := map[string]string{}
	mod := module(*repo)
	must(os.MkdirAll(*out, 0755))
	sp := filepath.Join(*out, "zzverif.go")
	must(os.WriteFile(sp, []byte(schedSrc), 0644))
	repl[filepath.Join(*repo, "zzverif", "sched.go")] = sp
	for _, pkg := range flag.Args() {
		dir := filepath.Join(*repo, pkg)
		files, err := filepath.Glob(filepath.Join(dir, "*.go"))
		must(err)
		sort.Strings(files)
		name := ""
		pre := strings.ReplaceAll(pkg, "/", "_")
		if pkg == "." {
			pre = "root"
		}
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			must(err)
			fs := token.NewFileSet()
			af, err := parser.ParseFile(fs, f, src, parser.ParseComments)
			must(err)
			name = af.Name.Name
			res := instrument(fs, af, src, *level)
			o := filepath.Join(*out, pre+"__"+filepath.Base(f))
			must(os.WriteFile(o, res, 0644))
			repl[f] = o
		}
		if name == "" {
			continue
		}
		o := filepath.Join(*out, pre+"__zz_verif_sched.go")
		must(os.WriteFile(o, []byte(fmt.Sprintf(`package %s

import zz__ %q

func vs__(n uint32)      { zz__.Yield(n) }
func vt__(n uint32) bool { zz__.Yield(n); return true }
`, name, mod+"/zzverif")), 0644))
		repl[filepath.Join(dir, "zz_verif_sched.go")] = o
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": repl}, "", " ")
	must(os.WriteFile(*overlay, b, 0644))
}

func module(repo string) string {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	must(err)
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			return f[1]
		}
	}
	panic("no module line")
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func instrument(fs *token.FileSet, af *ast.File, src []byte, level int) []byte {
	var edits []edit
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	ins := func(p token.Pos, s string, rank int) { edits = append(edits, edit{off(p), s, rank}) }
	next := func() int { site++; return site }

	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch x := s.(type) {
			case *ast.EmptyStmt:
				continue
			case *ast.IncDecStmt:
				if level > 1 && memory(x.X) {
					op := "+"
					if x.Tok == token.DEC {
						op = "-"
					}
					l := text(x.X)
					ins(s.Pos(), fmt.Sprintf("vs__(%d);{t__ := %s; vs__(%d); %s = t__ %s 1};", next(), l, next(), l, op), 1)
					edits = append(edits, edit{off(s.Pos()), "", 9}, edit{off(s.End()), "", 9})
					cut = append(cut, [2]int{off(s.Pos()), off(s.End())})
					continue
				}
			case *ast.AssignStmt:
				if level > 1 && (x.Tok == token.ADD_ASSIGN || x.Tok == token.SUB_ASSIGN) && len(x.Lhs) == 1 && memory(x.Lhs[0]) && !calls(x.Rhs[0]) {
					l := text(x.Lhs[0])
					op := strings.TrimSuffix(x.Tok.String(), "=")
					ins(s.Pos(), fmt.Sprintf("vs__(%d);{t__ := %s; vs__(%d); %s = t__ %s (%s)};", next(), l, next(), l, op, text(x.Rhs[0])), 1)
					cut = append(cut, [2]int{off(s.Pos()), off(s.End())})
					continue
				}
			}
			ins(s.Pos(), fmt.Sprintf("vs__(%d);", next()), 1)
		}
	}
	cut = nil
	for _, d := range af.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		if fd.Name.Name == "init" && fd.Recv == nil {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.SwitchStmt:
				// the clauses themselves are no statements to yield before
				for _, c := range x.Body.List {
					stmts(c.(*ast.CaseClause).Body)
				}
			case *ast.TypeSwitchStmt:
				for _, c := range x.Body.List {
					stmts(c.(*ast.CaseClause).Body)
				}
			case *ast.SelectStmt:
				for _, c := range x.Body.List {
					stmts(c.(*ast.CommClause).Body)
				}
			case *ast.BlockStmt:
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				stmts(x.List)
			case *ast.BinaryExpr:
				if level > 1 && (x.Op == token.LAND || x.Op == token.LOR) {
					ins(x.Y.Pos(), fmt.Sprintf("(vt__(%d) && (", next()), 2)
					ins(x.Y.End(), "))", 0)
				}
			}
			return true
		})
	}
	// drop edits inside replaced statements
	var keep []edit
	for _, e := range edits {
		in := false
		for _, c := range cut {
			if e.off > c[0] && e.off < c[1] || e.off == c[0] && e.rank == 2 || e.off == c[1] && e.rank == 0 {
				in = true
			}
		}
		if !in && e.text != "" {
			keep = append(keep, e)
		}
	}
	sort.SliceStable(keep, func(i, j int) bool {
		if keep[i].off != keep[j].off {
			return keep[i].off < keep[j].off
		}
		return keep[i].rank < keep[j].rank
	})
	skip := map[int]int{}
	for _, c := range cut {
		skip[c[0]] = c[1]
	}
	var out []byte
	k := 0
	for i := 0; i <= len(src); {
		for k < len(keep) && keep[k].off == i {
			out = append(out, keep[k].text...)
			k++
		}
		if e, ok := skip[i]; ok {
			// keep the line structure of what is replaced
			out = append(out, strings.Repeat("\n", strings.Count(string(src[i:e]), "\n"))...)
			i = e
			continue
		}
		if i < len(src) {
			out = append(out, src[i])
		}
		i++
	}
	return out
}

var cut [][2]int

// memory: a selector or element that can be evaluated twice
func memory(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.SelectorExpr:
		return !calls(x)
	case *ast.IndexExpr:
		return !calls(x)
	case *ast.StarExpr:
		return !calls(x)
	}
	return false
}

func calls(e ast.Expr) (r bool) {
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			r = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				r = true
			}
		}
		return true
	})
	return
}

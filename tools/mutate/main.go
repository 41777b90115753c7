// Command mutate changes one place of a source file of golang/freetype at a
// time, and reports which of the existing tests' and of the checks' runs
// notice. It changes nothing in /repo: the changed file goes in through an
// overlay.
//
//	go run ./tools/mutate -file truetype/hint.go -n 100 -checks H01,H02 [-seed 1] [-lines 10-200]
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

type mutant struct {
	from, to int
	text     string
	line     int
	what     string
}

var swaps = map[token.Token][]string{
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
	token.LSS: {"<=", ">"}, token.GTR: {">=", "<"}, token.LEQ: {"<", ">="}, token.GEQ: {">", "<="},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.AND_NOT: {"&"}, token.REM: {"/"},
}

func main() {
	file := flag.String("file", "", "")
	n := flag.Int("n", 50, "")
	checks := flag.String("checks", "", "")
	seed := flag.Int64("seed", 1, "")
	lines := flag.String("lines", "", "")
	dir := flag.String("dir", "/tmp/mutate", "")
	wrap := flag.Bool("wrap", false, "distort integer values at a random size instead of changing operators")
	structural := flag.Bool("struct", false, "exchange statements, names and operands instead of changing operators")
	flag.Parse()
	path := "/repo/" + *file
	src, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, 0)
	if err != nil {
		panic(err)
	}
	var ms []mutant
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	add := func(a, b token.Pos, text string) {
		old := string(src[off(a):off(b)])
		if i := strings.IndexByte(old, '\n'); i >= 0 {
			old = old[:i] + "…"
		}
		ms = append(ms, mutant{off(a), off(b), text, fs.Position(a).Line, fmt.Sprintf("%s => %s", old, text)})
	}
	rng := rand.New(rand.NewSource(*seed))
	if *wrap {
		wrapped(f, rng, func(e ast.Expr, text string) {
			add(e.Pos(), e.End(), fmt.Sprintf(text, src[off(e.Pos()):off(e.End())]))
		})
	}
	if *structural {
		restructured(f, rng, func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }, add)
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if *wrap || *structural {
			return false
		}
		switch n := n.(type) {
		case *ast.GenDecl:
			if n.Tok == token.CONST || n.Tok == token.IMPORT || n.Tok == token.TYPE {
				return false
			}
		case *ast.BinaryExpr:
			for _, s := range swaps[n.Op] {
				add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s)
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				v, _ := strconv.ParseInt(n.Value, 0, 64)
				add(n.Pos(), n.End(), fmt.Sprint(v+1))
				if v > 0 {
					add(n.Pos(), n.End(), fmt.Sprint(v-1))
				}
			}
		case *ast.IfStmt:
			add(n.Cond.Pos(), n.Cond.End(), "!("+string(src[off(n.Cond.Pos()):off(n.Cond.End())])+")")
		case *ast.ExprStmt:
			add(n.Pos(), n.End(), "")
		case *ast.AssignStmt:
			if n.Tok != token.DEFINE {
				add(n.Pos(), n.End(), "")
			}
		case *ast.IncDecStmt:
			if n.Tok == token.INC {
				add(n.TokPos, n.TokPos+2, "--")
			} else {
				add(n.TokPos, n.TokPos+2, "++")
			}
		case *ast.UnaryExpr:
			if n.Op == token.SUB || n.Op == token.NOT {
				add(n.OpPos, n.OpPos+1, "")
			}
		case *ast.BranchStmt:
			if n.Label == nil && n.Tok == token.CONTINUE {
				add(n.Pos(), n.End(), "break")
			}
		case *ast.SelectorExpr:
			x := n.Sel.Name
			if x == "X" {
				add(n.Sel.Pos(), n.Sel.End(), "Y")
			} else if x == "Y" {
				add(n.Sel.Pos(), n.Sel.End(), "X")
			}
		}
		return true
	})
	if *lines != "" {
		var a, b int
		fmt.Sscanf(*lines, "%d-%d", &a, &b)
		k := 0
		for _, m := range ms {
			if a <= m.line && m.line <= b {
				ms[k] = m
				k++
			}
		}
		ms = ms[:k]
	}
	rng.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
	fmt.Printf("%s: %d places\n", *file, len(ms))
	os.MkdirAll(*dir, 0o777)
	mf := filepath.Join(*dir, "mutated.go")
	help, extra := filepath.Join(*dir, "help.go"), filepath.Join(filepath.Dir(path), "zz_wrap.go")
	os.WriteFile(help, []byte("package "+f.Name.Name+"\n"+helper), 0o666)
	hit := filepath.Join(*dir, "hit")
	os.Setenv("WRAP_HIT", hit)
	overlay := filepath.Join(*dir, "overlay.json")
	ob, _ := json.Marshal(map[string]any{"Replace": map[string]string{path: mf, extra: help, "/repo/go.mod": "/verif/harness/freetype.mod"}})
	os.WriteFile(overlay, ob, 0o666)
	overlay2 := filepath.Join(*dir, "overlay2.json")
	ob, _ = json.Marshal(map[string]any{"Replace": map[string]string{path: mf, extra: help, "/repo/go.mod": "/opt/vp/mod/freetype.mod"}})
	os.WriteFile(overlay2, ob, 0o666)
	bin := filepath.Join(*dir, "check")
	env := append(os.Environ(), "CGO_ENABLED=0", "GO111MODULE=on", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOFLAGS=", "GOENV=off")
	run := func(dir string, args ...string) (string, int) {
		c := exec.Command(args[0], args[1:]...)
		c.Dir, c.Env = dir, env
		var b bytes.Buffer
		c.Stdout, c.Stderr = &b, &b
		c.Run()
		return b.String(), c.ProcessState.ExitCode()
	}
	stats := map[string]int{}
	for _, m := range ms {
		if stats["all"] >= *n {
			break
		}
		out := append(append(append([]byte{}, src[:m.from]...), m.text...), src[m.to:]...)
		os.WriteFile(mf, out, 0o666)
		if _, rc := run("/verif/harness", "go", "build", "-mod=mod", "-overlay="+overlay, "-buildvcs=false", "-o", bin, "./cmd/check"); rc != 0 {
			stats["not built"]++
			continue
		}
		if o, rc := run("/repo", "timeout", "60", "go", "test", "-vet=off", "-modfile=/opt/vp/mod/freetype.mod", "-overlay="+overlay2, "./raster", "./truetype", "."); rc != 0 {
			if strings.Contains(o, "setup failed") || strings.Contains(o, "overlay") {
				panic(o)
			}
			stats["killed by tests"]++
			continue
		}
		stats["all"]++
		os.Remove(hit)
		by := ""
		for _, part := range []string{"20", "1"} {
			for _, c := range strings.Split(*checks, ",") {
				args := []string{"timeout", "900", bin, "-prop", c, "-tier", "quick", "-dir", *dir, "-noevidence"}
				if part != "1" {
					args = append(args, "-part", part)
				}
				o, rc := run("/verif", args...)
				if rc != 0 {
					by = c
					if rc != 1 {
						by += fmt.Sprintf(" (exit %d: %.200s)", rc, o)
					}
					break
				}
			}
			if _, err := os.Stat(hit); *wrap && by == "" && err != nil {
				by = "NOT REACHED"
				stats[by]++
			}
			if by != "" {
				if part == "1" {
					by += " (full run)"
				}
				break
			}
		}
		if by == "" {
			stats["SURVIVED"]++
			by = "SURVIVED"
		}
		fmt.Printf("%s:%d %s -- %s\n", *file, m.line, m.what, by)
	}
	fmt.Println(*file, stats)
}

// helper holds the function that distorts values.
const helper = `
import (
	"os"
	"sync"
)

var zzOnce sync.Once

func zzWrap[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uint](x T, kind int, k int64) T {
	v := int64(x)
	r := v
	switch kind {
	case 0: // capped
		r = min(v, k)
	case 1: // masked
		if v >= 0 {
			r = v & k
		}
	case 2: // one value
		if v == k {
			r++
		}
	case 3:
		r = max(v, -k)
	case 4:
		if v > k {
			r = 0
		}
	case 5:
		if v < -k {
			r++
		}
	}
	if r == v {
		return x
	}
	zzOnce.Do(func() {
		if s := os.Getenv("WRAP_HIT"); s != "" {
			os.WriteFile(s, nil, 0o666)
		}
	})
	return T(r)
}
`

// wrapped calls add for the integer values that are read.
func wrapped(f *ast.File, rng *rand.Rand, add func(e ast.Expr, text string)) {
	skip := map[ast.Node]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			return n.Tok == token.VAR
		case *ast.FuncDecl:
			if n.Recv != nil {
				skip[n.Recv] = true
			}
			skip[n.Type], skip[n.Name] = true, true
		case *ast.FuncLit:
			skip[n.Type] = true
		case *ast.AssignStmt:
			for _, e := range n.Lhs {
				skip[e] = true
			}
		case *ast.RangeStmt:
			skip[n.Key], skip[n.Value] = true, true
		case *ast.IncDecStmt:
			skip[n.X] = true
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				skip[n.X] = true
			}
		case *ast.CallExpr:
			skip[n.Fun] = true
		case *ast.CompositeLit:
			if n.Type != nil {
				skip[n.Type] = true
			}
		case *ast.KeyValueExpr:
			skip[n.Key] = true
		case *ast.CaseClause:
			for _, e := range n.List {
				skip[e] = true
			}
		case *ast.SelectorExpr:
			skip[n.X], skip[n.Sel] = true, true
		case *ast.IndexExpr:
			skip[n.X] = true
		case *ast.SliceExpr:
			skip[n.X] = true
		case *ast.BasicLit, *ast.TypeAssertExpr, *ast.ArrayType, *ast.StarExpr, *ast.FieldList, *ast.BranchStmt, *ast.LabeledStmt:
			return false
		}
		if skip[n] {
			switch n.(type) {
			case *ast.Ident, *ast.FuncType, *ast.FieldList:
				return false
			}
			return true
		}
		e, ok := n.(ast.Expr)
		if !ok {
			return true
		}
		switch n := n.(type) {
		case *ast.Ident, *ast.SelectorExpr, *ast.CallExpr, *ast.IndexExpr:
		case *ast.BinaryExpr:
			switch n.Op {
			case token.ADD, token.SUB, token.MUL, token.QUO, token.REM, token.SHL, token.SHR, token.AND, token.OR:
			default:
				return true
			}
		default:
			return true
		}
		for i := 0; i < 3; i++ {
			k := int64(1)<<rng.Intn(18) - int64(rng.Intn(2))
			kind := rng.Intn(6)
			if kind == 1 {
				k = 1<<(1+rng.Intn(16)) - 1
			} else if kind == 2 {
				k += int64(rng.Intn(3)) - 1
			}
			add(e, fmt.Sprintf("zzWrap(%%s, %d, %d)", kind, k))
		}
		return true
	})
}

// restructured calls add for statements that change places, are repeated or
// guarded, for names used for one another, and for operands left out.
func restructured(f *ast.File, rng *rand.Rand, text func(ast.Node) string, add func(a, b token.Pos, text string)) {
	// The fields and methods used of each variable.
	fields := map[string][]string{}
	seen := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			k := text(s.X)
			if !seen[k+"."+s.Sel.Name] {
				seen[k+"."+s.Sel.Name] = true
				fields[k] = append(fields[k], s.Sel.Name)
			}
		}
		return true
	})
	block := func(l []ast.Stmt) {
		for i := range l {
			if i > 0 {
				add(l[i-1].Pos(), l[i].End(), text(l[i])+"\n"+text(l[i-1]))
			}
			switch s := l[i].(type) {
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE && s.Tok != token.ASSIGN {
					add(s.Pos(), s.End(), text(s)+"\n"+text(s))
				}
			case *ast.ExprStmt:
				add(s.Pos(), s.End(), text(s)+"\n"+text(s))
			case *ast.IfStmt:
				add(s.Pos(), s.End(), "")
				if s.Else != nil {
					add(s.Body.End(), s.End(), "")
				}
			case *ast.ForStmt, *ast.RangeStmt:
				add(s.Pos(), s.End(), "")
			}
		}
	}
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok || fn.Body == nil {
			continue
		}
		var names []string
		seen := map[string]bool{}
		skip := map[ast.Node]bool{}
		ast.Inspect(fn, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.Ident:
				if n.Obj != nil && n.Obj.Kind == ast.Var && !seen[n.Name] {
					seen[n.Name] = true
					names = append(names, n.Name)
				}
			}
			return true
		})
		ast.Inspect(fn.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				block(n.List)
			case *ast.CaseClause:
				block(n.Body)
			case *ast.BinaryExpr:
				if n.Op == token.LAND || n.Op == token.LOR {
					add(n.Pos(), n.End(), text(n.X))
					add(n.Pos(), n.End(), text(n.Y))
				} else if n.Op == token.ADD || n.Op == token.SUB || n.Op == token.AND || n.Op == token.OR {
					add(n.Pos(), n.End(), text(n.X))
				} else if n.Op == token.MUL || n.Op == token.QUO {
					add(n.Pos(), n.End(), text(n.X))
				}
				if n.Op == token.SUB {
					add(n.Pos(), n.End(), text(n.Y)+" - ("+text(n.X)+")")
				}
			case *ast.CallExpr:
				for i := 1; i < len(n.Args); i++ {
					add(n.Args[i-1].Pos(), n.Args[i].End(), text(n.Args[i])+", "+text(n.Args[i-1]))
				}
				if len(n.Args) == 1 {
					add(n.Pos(), n.End(), text(n.Args[0]))
				}
			case *ast.SelectorExpr:
				skip[n.Sel] = true
				fs := fields[text(n.X)]
				for range 2 {
					if x := fs[rng.Intn(len(fs))]; x != n.Sel.Name {
						add(n.Sel.Pos(), n.Sel.End(), x)
					}
				}
			case *ast.Ident:
				if skip[n] || n.Obj == nil || n.Obj.Kind != ast.Var {
					return true
				}
				for range 2 {
					if x := names[rng.Intn(len(names))]; x != n.Name {
						add(n.Pos(), n.End(), x)
					}
				}
			}
			return true
		})
	}
}

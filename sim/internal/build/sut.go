package build

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
)

// Config says where things are.
type Config struct {
	Repo    string // the working tree under test
	Sim     string // this module
	Work    string // scratch, outside the repository
	GoRoot  string
	Keep    bool
	Verbose bool
}

// instrumented are the packages whose statements become scheduling points in
// the driver builds.
var instrumented = []string{"core", "engine", "lib", "internal/yaml"}

// Build compiles the named binaries from the current working tree:
//
//	yisp   the shipped command, unmodified
//	drv    the driver linked with instrumented packages
//	race   drv with the race detector
func Build(c Config, names ...string) (map[string]string, error) {
	lock, err := os.OpenFile(filepath.Join(c.Work, ".lock"), os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		return nil, err
	}
	defer lock.Close()
	if err := syscall.Flock(int(lock.Fd()), syscall.LOCK_EX); err != nil {
		return nil, err
	}
	std := map[string]string{}
	if err := StdOverlay(c.GoRoot, filepath.Join(c.Sim, "overlay"), filepath.Join(c.Work, "ov"), std); err != nil {
		return nil, err
	}
	drv := map[string]string{}
	for k, v := range std {
		drv[k] = v
	}
	need := false
	for _, n := range names {
		if n != "yisp" {
			need = true
		}
	}
	if need {
		if err := instrument(c, drv); err != nil {
			return nil, err
		}
	}
	if err := writeOverlay(filepath.Join(c.Work, "ov", "yisp.json"), std); err != nil {
		return nil, err
	}
	if err := writeOverlay(filepath.Join(c.Work, "ov", "drv.json"), drv); err != nil {
		return nil, err
	}
	bin := filepath.Join(c.Work, fmt.Sprintf("bin-%d", os.Getpid()))
	if err := os.MkdirAll(bin, 0o755); err != nil {
		return nil, err
	}
	type job struct {
		name string
		cmd  *exec.Cmd
		out  []byte
		err  error
	}
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GOENV=off", "GOOS=linux", "GOARCH=amd64", "GOEXPERIMENT=norandomizedheapbase64")
	res := map[string]string{}
	for _, n := range names {
		out := filepath.Join(bin, n)
		args := []string{"build", "-buildvcs=false", "-ldflags=-s -w", "-o", out}
		cg := "CGO_ENABLED=0"
		pkg := "."
		ov := "yisp.json"
		if n != "yisp" {
			pkg = "./zz_verif"
			ov = "drv.json"
		}
		if n == "race" {
			args = append(args, "-race")
			cg = "CGO_ENABLED=1"
		}
		args = append(args, "-overlay", filepath.Join(c.Work, "ov", ov), pkg)
		j := job{name: n, cmd: exec.Command(filepath.Join(c.GoRoot, "bin/go"), args...)}
		j.cmd.Dir = c.Repo
		j.cmd.Env = append(append([]string{}, env...), cg)
		j.out, j.err = j.cmd.CombinedOutput()
		if j.err != nil {
			return nil, fmt.Errorf("building %s: %v\n%s", n, j.err, j.out)
		}
		res[n] = out
	}
	return res, nil
}

// Clean removes this process's binaries.
func Clean(c Config) { os.RemoveAll(filepath.Join(c.Work, fmt.Sprintf("bin-%d", os.Getpid()))) }

func writeOverlay(f string, repl map[string]string) error {
	b, err := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err != nil {
		return err
	}
	return WriteIfChanged(f, string(b))
}

func instrument(c Config, repl map[string]string) error {
	b, err := os.ReadFile(filepath.Join(c.Sim, "overlay", "driver.go.txt"))
	if err != nil {
		return err
	}
	out := filepath.Join(c.Work, "ov", "drv", "main.go")
	if err := WriteIfChanged(out, string(b)); err != nil {
		return err
	}
	repl[filepath.Join(c.Repo, "zz_verif", "main.go")] = out
	for _, p := range instrumented {
		ents, err := os.ReadDir(filepath.Join(c.Repo, p))
		if os.IsNotExist(err) {
			continue
		}
		if err != nil {
			return err
		}
		for _, e := range ents {
			if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
				continue
			}
			f := filepath.Join(c.Repo, p, e.Name())
			src, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			ins, err := Instrument(f, src, p == "internal/yaml")
			if err != nil {
				return err
			}
			out := filepath.Join(c.Work, "ov", "drv", strings.ReplaceAll(p, "/", "__")+"__"+e.Name())
			if err := WriteIfChanged(out, ins); err != nil {
				return err
			}
			repl[f] = out
		}
	}
	return nil
}

// Instrument inserts a scheduling point before every statement (or, coarse,
// at every function entry and loop iteration). Nothing else changes: the
// insertions stay on the statement's line.
func Instrument(name string, src []byte, coarse bool) (string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return "", err
	}
	type ins struct {
		off  int
		text string
	}
	var list []ins
	add := func(p token.Pos, t string) { list = append(list, ins{fset.Position(p).Offset, t}) }
	const y = "verifrt.VerifYield(); "
	stmts := func(ss []ast.Stmt) {
		for _, s := range ss {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			add(s.Pos(), y)
		}
	}
	entry := func(b *ast.BlockStmt) {
		if b != nil && len(b.List) > 0 {
			add(b.List[0].Pos(), y)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			if n.Body == nil {
				return false
			}
			if coarse {
				entry(n.Body)
			}
		case *ast.FuncLit:
			if coarse {
				entry(n.Body)
			}
		case *ast.ForStmt:
			if coarse {
				entry(n.Body)
			}
		case *ast.RangeStmt:
			if coarse {
				entry(n.Body)
			}
		case *ast.BlockStmt:
			if !coarse {
				if isSwitchBody(n) {
					return true
				}
				stmts(n.List)
			}
		case *ast.CaseClause:
			if !coarse {
				stmts(n.Body)
			}
		case *ast.CommClause:
			if !coarse {
				stmts(n.Body)
			}
		}
		return true
	})
	if len(list) == 0 {
		return string(src), nil
	}
	add(f.Name.End(), "; import verifrt \"runtime\"")
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
	var sb strings.Builder
	at := 0
	for _, i := range list {
		sb.Write(src[at:i.off])
		sb.WriteString(i.text)
		at = i.off
	}
	sb.Write(src[at:])
	return sb.String(), nil
}

func isSwitchBody(b *ast.BlockStmt) bool {
	for _, s := range b.List {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			return true
		}
	}
	return false
}

package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const modPath = "github.com/textwire/textwire/v2"

// Point describes one scheduling point (the statement it precedes).
type Point struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
	// Hot: 2 touches package-level state that is written somewhere or a
	// synchronisation primitive, 1 writes through a selector/index/pointer.
	Hot int `json:"hot"`
}

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	Imports    []string
	Standard   bool
	EmbedFiles []string
}

type edit struct {
	off, del int
	ins      string
}

type srcFile struct {
	path  string
	src   []byte
	ast   *ast.File
	edits []edit
	tail  bytes.Buffer
}

func (f *srcFile) render(from, to int) string {
	var out bytes.Buffer
	pos := from
	for _, e := range f.edits {
		if e.off < from || e.off > to || (e.off == to && e.del == 0 && to != len(f.src)) {
			continue
		}
		if e.off < pos {
			continue
		}
		out.Write(f.src[pos:e.off])
		out.WriteString(e.ins)
		pos = e.off + e.del
	}
	if pos < to {
		out.Write(f.src[pos:to])
	}
	return out.String()
}

type instrumenter struct {
	fset   *token.FileSet
	points []Point
	pkgs   map[string]*types.Package
}

type lenientImporter struct{ in *instrumenter }

func (l lenientImporter) Import(path string) (*types.Package, error) {
	if p, ok := l.in.pkgs[path]; ok {
		return p, nil
	}
	return nil, errors.New("not loaded")
}

// instrument writes instrumented copies of every package of the module that
// the root package depends on, and returns the scheduling-point table.
func instrument(gobin, repo, dir string, env []string, repl map[string]string) ([]Point, []string, error) {
	cmd := exec.Command(gobin, "list", "-deps", "-json=ImportPath,Name,Dir,GoFiles,Imports,Standard,EmbedFiles", modPath)
	cmd.Dir = repo
	cmd.Env = env
	var errb bytes.Buffer
	cmd.Stderr = &errb
	outb, err := cmd.Output()
	if err != nil {
		return nil, nil, fmt.Errorf("go list: %v: %s", err, errb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(outb))
	in := &instrumenter{fset: token.NewFileSet(), pkgs: map[string]*types.Package{}}
	var names []string
	for dec.More() {
		var p listPkg
		if err := dec.Decode(&p); err != nil {
			return nil, nil, err
		}
		if p.Standard || (p.ImportPath != modPath && !strings.HasPrefix(p.ImportPath, modPath+"/")) {
			continue
		}
		if err := in.pkg(p, repo, dir, repl); err != nil {
			return nil, nil, fmt.Errorf("%s: %v", p.ImportPath, err)
		}
		names = append(names, p.ImportPath)
	}
	return in.points, names, nil
}

func (in *instrumenter) pkg(p listPkg, repo, dir string, repl map[string]string) error {
	var files []*srcFile
	var asts []*ast.File
	for _, name := range p.GoFiles {
		path := filepath.Join(p.Dir, name)
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(in.fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, &srcFile{path: path, src: src, ast: f})
		asts = append(asts, f)
	}
	info := &types.Info{
		Defs:  map[*ast.Ident]types.Object{},
		Uses:  map[*ast.Ident]types.Object{},
		Types: map[ast.Expr]types.TypeAndValue{},
	}
	conf := types.Config{Importer: lenientImporter{in}, Error: func(error) {}, DisableUnusedImportCheck: true}
	tpkg, _ := conf.Check(p.ImportPath, in.fset, asts, info)
	if tpkg == nil {
		return errors.New("type check produced no package")
	}
	in.pkgs[p.ImportPath] = tpkg

	hotVars := in.hotVars(asts, info)
	for _, f := range files {
		in.points1(f, repo, info, hotVars)
	}
	if err := in.resets(p, files, info); err != nil {
		return err
	}
	for _, f := range files {
		f.edits = append(f.edits, edit{off: in.off(f.ast.Name.End()), ins: "; import simrt__ \"runtime\""})
		f.tail.WriteString("\nvar _ = simrt__.SimPoint\n")
		sort.SliceStable(f.edits, func(i, j int) bool { return f.edits[i].off < f.edits[j].off })
		rel, err := filepath.Rel(repo, f.path)
		if err != nil || strings.HasPrefix(rel, "..") {
			return fmt.Errorf("%s is outside %s", f.path, repo)
		}
		out := filepath.Join(dir, "repo", rel)
		if err := os.MkdirAll(filepath.Dir(out), 0o755); err != nil {
			return err
		}
		text := f.render(0, len(f.src)) + f.tail.String()
		if err := os.WriteFile(out, []byte(text), 0o644); err != nil {
			return err
		}
		repl[f.path] = out
	}
	return nil
}

func (in *instrumenter) off(p token.Pos) int { return in.fset.Position(p).Offset }

func isPkgVar(o types.Object) bool {
	v, ok := o.(*types.Var)
	return ok && !v.IsField() && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
}

// hotVars returns the package-level variables that function bodies use in any
// way other than plain reads of an element, a field or a range.
func (in *instrumenter) hotVars(asts []*ast.File, info *types.Info) map[types.Object]bool {
	hot := map[types.Object]bool{}
	for _, f := range asts {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			plain := map[*ast.Ident]bool{}
			written := map[*ast.Ident]bool{}
			var root func(e ast.Expr) *ast.Ident
			root = func(e ast.Expr) *ast.Ident {
				switch e := e.(type) {
				case *ast.Ident:
					return e
				case *ast.SelectorExpr:
					if id, ok := e.X.(*ast.Ident); ok {
						if _, isPkg := info.Uses[id].(*types.PkgName); isPkg {
							return e.Sel
						}
					}
					return root(e.X)
				case *ast.IndexExpr:
					return root(e.X)
				case *ast.StarExpr:
					return root(e.X)
				case *ast.ParenExpr:
					return root(e.X)
				case *ast.SliceExpr:
					return root(e.X)
				}
				return nil
			}
			mark := func(e ast.Expr) {
				if id := root(e); id != nil {
					written[id] = true
				}
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.AssignStmt:
					for _, l := range n.Lhs {
						mark(l)
					}
				case *ast.IncDecStmt:
					mark(n.X)
				case *ast.UnaryExpr:
					if n.Op == token.AND {
						mark(n.X)
					}
				case *ast.CallExpr:
					if s, ok := n.Fun.(*ast.SelectorExpr); ok {
						mark(s.X) // possibly a mutating method
					}
					for _, a := range n.Args {
						if id, ok := a.(*ast.Ident); ok {
							written[id] = true
						}
					}
				case *ast.IndexExpr:
					if id := root(n.X); id != nil {
						plain[id] = true
					}
				case *ast.SelectorExpr:
					if id := root(n.X); id != nil {
						plain[id] = true
					}
				case *ast.RangeStmt:
					if id := root(n.X); id != nil {
						plain[id] = true
					}
				}
				return true
			})
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok && isPkgVar(info.Uses[id]) {
					if written[id] || !plain[id] {
						hot[info.Uses[id]] = true
					}
				}
				return true
			})
		}
	}
	return hot
}

var syncNames = map[string]bool{"Lock": true, "Unlock": true, "RLock": true, "RUnlock": true, "Load": true,
	"Store": true, "Do": true, "Get": true, "Put": true, "LoadOrStore": true, "CompareAndSwap": true, "Add": true,
	"Wait": true, "Done": true, "Range": true, "LoadAndDelete": true, "Swap": true, "TryLock": true}

func (in *instrumenter) heat(s ast.Stmt, info *types.Info, hot map[types.Object]bool) int {
	h := 0
	up := func(v int) {
		if v > h {
			h = v
		}
	}
	lhs := func(e ast.Expr) {
		switch e.(type) {
		case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
			up(1)
		}
	}
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				lhs(l)
			}
		case *ast.IncDecStmt:
			lhs(n.X)
		case *ast.SendStmt, *ast.GoStmt, *ast.SelectStmt:
			up(2)
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				up(2)
			}
		case *ast.Ident:
			if o := info.Uses[n]; o != nil && isPkgVar(o) && (hot[o] || o.Pkg() == nil) {
				up(2)
			}
		case *ast.SelectorExpr:
			if syncNames[n.Sel.Name] {
				up(2)
			}
			if id, ok := n.X.(*ast.Ident); ok {
				if pn, ok := info.Uses[id].(*types.PkgName); ok {
					switch pn.Imported().Path() {
					case "sync", "sync/atomic":
						up(2)
					case "os", "io/ioutil", "syscall", "os/exec", "os/signal":
						// files, the working directory and the environment
						// are the whole process's
						if info.Types[n].IsType() || n.Sel.Name == "IsNotExist" {
							break
						}
						up(2)
					}
				}
			}
		}
		return true
	})
	return h
}

func (in *instrumenter) points1(f *srcFile, repo string, info *types.Info, hot map[types.Object]bool) {
	rel, _ := filepath.Rel(repo, f.path)
	fn := ""
	add := func(pos token.Pos, heat int) {
		p := in.fset.Position(pos)
		id := len(in.points)
		in.points = append(in.points, Point{File: rel, Line: p.Line, Func: fn, Hot: heat})
		f.edits = append(f.edits, edit{off: p.Offset, ins: fmt.Sprintf("simrt__.SimPoint(%d);", id)})
	}
	list := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			add(s.Pos(), in.heat(s, info, hot))
		}
	}
	for _, d := range f.ast.Decls {
		fn = ""
		if fd, ok := d.(*ast.FuncDecl); ok {
			fn = fd.Name.Name
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				// statement lists of switch/select bodies are clauses
				clauses := false
				for _, s := range n.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						clauses = true
					}
				}
				if clauses {
					return true
				}
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			case *ast.ForStmt:
				if len(n.Body.List) == 0 {
					add(n.Body.Lbrace+1, 0)
				}
			case *ast.RangeStmt:
				if len(n.Body.List) == 0 {
					add(n.Body.Lbrace+1, 0)
				}
			}
			return true
		})
	}
	sort.SliceStable(f.edits, func(i, j int) bool { return f.edits[i].off < f.edits[j].off })
}

// resets generates, per package, a function that runs every package-level
// initialiser again: the in-process stand-in for a process restart.
func (in *instrumenter) resets(p listPkg, files []*srcFile, info *types.Info) error {
	fileOf := map[string]*srcFile{}
	for _, f := range files {
		fileOf[f.path] = f
	}
	var order []string
	var inits []string
	n := 0
	seen := map[*types.Var]bool{}
	mk := func(f *srcFile, body string) {
		name := fmt.Sprintf("simReset_%d__", n)
		n++
		fmt.Fprintf(&f.tail, "\nfunc %s() { %s }\n", name, body)
		order = append(order, name)
	}
	// zero values and saved copies first, in source order
	for _, f := range files {
		for _, d := range f.ast.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) != 0 {
					continue
				}
				embed := hasEmbed(gd.Doc) || hasEmbed(vs.Doc)
				for _, id := range vs.Names {
					if id.Name == "_" {
						continue
					}
					typ := f.render(in.off(vs.Type.Pos()), in.off(vs.Type.End()))
					if embed {
						fmt.Fprintf(&f.tail, "\nvar simSaved_%s__ = %s\n", id.Name, id.Name)
						mk(f, fmt.Sprintf("%s = simSaved_%s__", id.Name, id.Name))
					} else {
						mk(f, fmt.Sprintf("%s = *new(%s)", id.Name, typ))
					}
				}
			}
		}
	}
	for _, ini := range info.InitOrder {
		f := fileOf[in.fset.Position(ini.Rhs.Pos()).Filename]
		if f == nil {
			return errors.New("initialiser in an unknown file")
		}
		var lhs []string
		for _, v := range ini.Lhs {
			lhs = append(lhs, v.Name())
			seen[v] = true
		}
		if len(lhs) == 0 {
			lhs = []string{"_"}
		}
		rhs := f.render(in.off(ini.Rhs.Pos()), in.off(ini.Rhs.End()))
		mk(f, strings.Join(lhs, ", ")+" = "+rhs)
	}
	// every initialised package variable must have been covered
	for _, f := range files {
		for _, d := range f.ast.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) == 0 {
					continue
				}
				for _, id := range vs.Names {
					if v, ok := info.Defs[id].(*types.Var); id.Name != "_" && (!ok || !seen[v]) {
						return fmt.Errorf("no initialisation order for package variable %s", id.Name)
					}
				}
			}
		}
	}
	// init functions
	k := 0
	for _, f := range files {
		for _, d := range f.ast.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Name.Name != "init" {
				continue
			}
			name := fmt.Sprintf("simInit_%d__", k)
			k++
			f.edits = append(f.edits, edit{off: in.off(fd.Name.Pos()), del: len("init"), ins: name})
			fmt.Fprintf(&f.tail, "\nfunc init() { %s() }\n", name)
			inits = append(inits, name)
		}
	}
	last := files[len(files)-1]
	fmt.Fprintf(&last.tail, "\nfunc simResetAll__() {\n")
	for _, o := range append(order, inits...) {
		fmt.Fprintf(&last.tail, "\t%s()\n", o)
	}
	fmt.Fprintf(&last.tail, "}\n\nfunc init() { simrt__.SimRegisterReset(%q, simResetAll__) }\n", p.ImportPath)
	return nil
}

func hasEmbed(c *ast.CommentGroup) bool {
	if c == nil {
		return false
	}
	for _, l := range c.List {
		if strings.HasPrefix(l.Text, "//go:embed") {
			return true
		}
	}
	return false
}

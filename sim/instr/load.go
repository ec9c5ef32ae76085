package main

import (
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"path/filepath"
	"regexp"
	"strings"
)

// loader type-checks the packages of the module, leniently: packages from
// elsewhere are taken to be empty and errors are ignored. The types are used
// only to recognise channels.
type loader struct {
	repo, mod string
	ctx       *build.Context
	pkgs      map[string]*pkg // by directory
	other     map[string]*types.Package
}

type pkg struct {
	files map[string]*ast.File
	types *types.Package
	info  *types.Info
}

func newLoader(repo, mod string, ctx *build.Context) *loader {
	l := &loader{repo: repo, ctx: ctx, pkgs: map[string]*pkg{}, other: map[string]*types.Package{}}
	if m := regexp.MustCompile(`(?m)^module\s+(\S+)`).FindStringSubmatch(mod); m != nil {
		l.mod = m[1]
	}
	return l
}

func (l *loader) load(dir string) *pkg {
	if p := l.pkgs[dir]; p != nil {
		return p
	}
	p := &pkg{files: map[string]*ast.File{}, info: &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}}
	l.pkgs[dir] = p
	bp, err := l.ctx.ImportDir(dir, 0)
	if err != nil {
		return p
	}
	var files []*ast.File
	for _, n := range bp.GoFiles {
		// Without comments: build constraints have been honoured
		f, err := parser.ParseFile(fset, filepath.Join(dir, n), nil, 0)
		if err != nil {
			die("%v", err)
		}
		p.files[filepath.Join(dir, n)] = f
		files = append(files, f)
	}
	cfg := types.Config{Importer: l, Error: func(error) {}, FakeImportC: true}
	rel, _ := filepath.Rel(l.repo, dir)
	func() {
		defer func() { recover() }()
		p.types, _ = cfg.Check(filepath.ToSlash(filepath.Join(l.mod, rel)), fset, files, p.info)
	}()
	return p
}

// Import implements types.Importer.
func (l *loader) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if l.mod != "" && (path == l.mod || strings.HasPrefix(path, l.mod+"/")) {
		if p := l.load(filepath.Join(l.repo, filepath.FromSlash(strings.TrimPrefix(path, l.mod)))); p.types != nil {
			return p.types, nil
		}
	}
	if p := l.other[path]; p != nil {
		return p, nil
	}
	p := types.NewPackage(path, path[strings.LastIndex(path, "/")+1:])
	p.MarkComplete()
	l.other[path] = p
	return p, nil
}

func isChanType(t types.Type) bool {
	if p, ok := t.(*types.TypeParam); ok {
		i, ok := p.Constraint().Underlying().(*types.Interface)
		if !ok {
			return false
		}
		for k := 0; k < i.NumEmbeddeds(); k++ {
			e := i.EmbeddedType(k)
			if u, ok := e.(*types.Union); ok && u.Len() > 0 {
				e = u.Term(0).Type()
			}
			if _, ok := e.Underlying().(*types.Chan); ok {
				return true
			}
		}
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

var _ = token.NoPos
